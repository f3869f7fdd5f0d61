// C22: the library facade (class Yaga): sessions of several logics, checks and re-initialisations.
#include "cnf.h"
#include "pbt.h"
#include "smt.h"

#include "Yaga.h"

#include <array>
#include <memory>
#include <optional>
#include <set>
#include <unordered_map>

using smt::E;
using smt::Op;
using smt::Q;
using smt::Sort;
using yaga::Clause;
using yaga::Literal;
using yaga::Order_predicate;
using yaga::Rational;
using yaga::Variable;
namespace terms = yaga::terms;

namespace {

Q q_of(Rational const& r)
{
    Q q(r.get_str());
    q.canonicalize();
    return q;
}
Rational r_of(Q const& q)
{
    auto integer = [](std::string t) {
        Rational r{0};
        for (char ch : t)
            if (ch != '-') r = r * Rational{10} + Rational{ch - '0'};
        return t[0] == '-' ? -r : r;
    };
    return integer(q.get_num().get_str()) / integer(q.get_den().get_str());
}

enum Logic { PROP, LRA, UFLRA };
char const* logic_name(Logic l) { return l == PROP ? "propositional" : l == LRA ? "qf_lra" : "qf_uflra"; }

/** value of the constant in a comparison, sometimes large */
Q number(pbt::Ctx& c)
{
    switch (c.weighted({6, 2, 1})) {
    case 0: return Q(c.range(-4, 4));
    case 1: { Q q(c.range(-9, 9), c.range(1, 6)); q.canonicalize(); return q; }
    default: { Q q(mpz_class(c.coin() ? "12345678901234567890123" : "-99999999999999999999"), c.range(1, 7)); q.canonicalize(); return q; }
    }
}

struct Fn {
    terms::term_t sym;
    std::vector<Sort> args;
    Sort ret;
    std::string name;
};
struct App {
    size_t fn;
    std::vector<std::pair<Sort, int>> args; // variables
    int var;
};

/** One solver object and what it should know. */
struct Session {
    pbt::Ctx& c;
    terms::Term_manager tm;
    std::unordered_map<terms::term_t, int> rmap;
    std::unordered_map<terms::term_t, Literal> bmap;
    yaga::Yaga smt;

    Logic logic = PROP;
    yaga::Options opts;
    // reference model
    std::vector<terms::term_t> rterm, bterm;    // by ordinal (boolean: null for constraints)
    std::vector<E> rexpr, bexpr;                // meaning of each variable
    std::vector<bool> own_bool;                 // a boolean variable which is not a constraint
    std::map<std::string, std::pair<Literal, std::string>> known; // canonical constraint -> literal
    std::vector<std::vector<Literal>> clauses;
    std::vector<Fn> fns;
    std::vector<App> apps;
    smt::Problem prob;
    int round = 0;
    bool was_unsat = false;
    int checks = 0, reinits = 0, sats = 0, unsats = 0, cons = 0;

    explicit Session(pbt::Ctx& c) : c(c), smt(tm, std::views::all(rmap), std::views::all(bmap)) {}

    void start(bool again)
    {
        logic = static_cast<Logic>(c.weighted({2, 4, 3}));
        opts = {};
        opts.phase = static_cast<yaga::Phase>(c.below(3));
        opts.prop_rational = c.coin();
        opts.deduce_bounds = c.coin();
        c.note << "logic " << logic_name(logic) << " phase " << static_cast<int>(opts.phase) << (opts.prop_rational ? " prop-rational" : "")
               << (opts.deduce_bounds ? " deduce-bounds" : "") << "\n";
        c.publish();
        if (again) {
            smt.init();
            rmap.clear();
            bmap.clear();
            ++reinits;
        }
        if (logic == PROP) smt.set_logic(yaga::logic::propositional, opts);
        else if (logic == LRA) smt.set_logic(yaga::logic::qf_lra, opts);
        else smt.set_logic(yaga::logic::qf_uflra, opts);
        PBT_CHECK(smt.has_uf() == (logic == UFLRA), "has_uf() is wrong");
        PBT_CHECK(smt.get_function_model().has_value() == (logic == UFLRA), "functions in the wrong logic");
        PBT_CHECK(num(Variable::boolean) == 0, "boolean variables remain");
        for (auto [type, model] : smt.solver().trail().models()) PBT_CHECK(model->num_vars() == 0, "variables remain");
        PBT_CHECK(smt.solver().trail().empty(), "assignments remain");
        PBT_CHECK(smt.solver().db().asserted().empty() && smt.solver().db().learned().empty(), "clauses remain");
        rterm.clear(), bterm.clear(), rexpr.clear(), bexpr.clear(), own_bool.clear(), known.clear(), clauses.clear(), fns.clear(), apps.clear();
        prob = {};
        prob.logic = "QF_UFLRA";
        was_unsat = false;
        ++round;
    }

    int num(Variable::Type t) { return static_cast<int>(smt.solver().trail().model(t).num_vars()); }

    int new_var(Sort s, E meaning)
    {
        bool real = s == Sort::Real;
        terms::term_t t = tm.mk_uninterpreted_constant(real ? terms::types::real_type : terms::types::bool_type);
        int before = num(real ? Variable::rational : Variable::boolean);
        int ord;
        if (!real && c.coin()) {
            Literal l = smt.make_bool();
            PBT_CHECK(!l.is_negation(), "make_bool returns a negation");
            ord = l.var().ord();
        } else {
            Variable v = smt.make(real ? Variable::rational : Variable::boolean);
            PBT_CHECK(v.type() == (real ? Variable::rational : Variable::boolean), "make returns a variable of another type");
            ord = v.ord();
        }
        note_var(s, ord, before, t, meaning);
        return ord;
    }
    void note_var(Sort s, int ord, int before, terms::term_t t, E meaning)
    {
        bool real = s == Sort::Real;
        PBT_CHECK(ord == before && num(real ? Variable::rational : Variable::boolean) == before + 1,
                  "make: new variable " << ord << ", expected " << before);
        std::string name = (real ? "x" : "b") + std::to_string(ord);
        if (!meaning) {
            prob.vars.emplace_back(name, s);
            meaning = smt::mk_var(name, s);
        }
        c.note << "make " << name << "\n";
        if (real) {
            rterm.push_back(t);
            rexpr.push_back(meaning);
            rmap.insert({t, ord});
        } else {
            bterm.push_back(t);
            bexpr.push_back(meaning);
            own_bool.push_back(true);
            bmap.insert({t, Literal{ord}});
        }
    }

    void new_app()
    {
        if (fns.empty() || (fns.size() < 3 && c.chance(1, 3))) {
            Fn f;
            f.ret = c.chance(1, 4) ? Sort::Bool : Sort::Real;
            int n = static_cast<int>(c.range(1, 2));
            for (int i = 0; i < n; ++i) f.args.push_back(c.chance(1, 5) ? Sort::Bool : Sort::Real);
            f.sym = tm.mk_uninterpreted_constant(f.ret == Sort::Real ? terms::types::real_type : terms::types::bool_type);
            f.name = "f" + std::to_string(fns.size());
            fns.push_back(f);
            prob.funs.push_back({f.name, f.args, f.ret});
        }
        App a;
        a.fn = c.below(fns.size());
        Fn const& f = fns[a.fn];
        std::vector<terms::term_t> args{f.sym};
        std::vector<E> es;
        for (auto s : f.args) {
            std::vector<int> cand;
            if (s == Sort::Real) for (size_t i = 0; i < rterm.size(); ++i) cand.push_back(static_cast<int>(i));
            else for (size_t i = 0; i < bterm.size(); ++i) if (own_bool[i]) cand.push_back(static_cast<int>(i));
            if (cand.empty()) return;
            int v = c.pick(cand);
            a.args.emplace_back(s, v);
            args.push_back(s == Sort::Real ? rterm[v] : bterm[v]);
            es.push_back(s == Sort::Real ? rexpr[v] : bexpr[v]);
        }
        for (auto& b : apps) if (b.fn == a.fn && b.args == a.args) return;
        terms::term_t t = tm.mk_app(args);
        auto type = f.ret == Sort::Real ? Variable::rational : Variable::boolean;
        int before = num(type);
        Variable v = smt.make_function_application(type, t);
        c.note << f.name;
        for (auto& [s, i] : a.args) c.note << (s == Sort::Real ? " x" : " b") << i;
        c.note << ": ";
        note_var(f.ret, v.ord(), before, t, smt::mk_app(f.name, f.ret, es));
        a.var = v.ord();
        apps.push_back(a);
    }

    /** a literal for a random linear constraint */
    std::optional<Literal> constraint()
    {
        int n = num(Variable::rational);
        if (n == 0) return {};
        std::map<int, Q> coef;
        int k = static_cast<int>(c.range(1, std::min(n, 3)));
        for (int i = 0; i < k; ++i) {
            Q q = c.coin() ? Q(c.coin() ? 1 : -1) : number(c);
            if (q == 0) q = 1;
            coef[static_cast<int>(c.below(n))] = q;
        }
        Q rhs = number(c);
        int rel = static_cast<int>(c.below(3));
        Literal l = make_constraint(coef, rel, rhs);
        if (c.chance(1, 3)) {
            Literal m = make_constraint(coef, rel, rhs);
            PBT_CHECK(l == m, "the same constraint has two literals");
            c.label("repeated constraint");
        }
        if (c.chance(1, 4)) { // a positive multiple is the same constraint
            Q f(c.range(2, 5), c.range(1, 3));
            f.canonicalize();
            auto scaled = coef;
            for (auto& [v, q] : scaled) q *= f;
            Literal m = make_constraint(scaled, rel, rhs * f);
            PBT_CHECK(l == m, "a multiple of a constraint has another literal");
            c.label("scaled constraint");
        }
        return l;
    }
    Literal make_constraint(std::map<int, Q> const& coef, int rel, Q const& rhs)
    {
        std::vector<int> vars;
        for (auto& [v, q] : coef) vars.push_back(v);
        for (size_t i = vars.size(); i > 1; --i) std::swap(vars[i - 1], vars[c.below(i)]);
        std::vector<Rational> co;
        std::vector<E> sum;
        for (int v : vars) {
            co.push_back(r_of(coef.at(v)));
            sum.push_back(smt::mk(Op::Mul, Sort::Real, {smt::mk_num(coef.at(v)), rexpr[v]}));
        }
        for (int v : vars) c.note << " " << coef.at(v) << "*x" << v;
        auto pred = rel == 0 ? Order_predicate::eq : rel == 1 ? Order_predicate::lt : Order_predicate::leq;
        c.note << (rel == 0 ? " = " : rel == 1 ? " < " : " <= ") << rhs;
        c.publish();
        int before = num(Variable::boolean);
        Literal l = smt.linear_constraint(vars, co, pred, r_of(rhs));
        ++cons;
        c.note << " is " << l << "\n";
        E lhs = sum.size() == 1 ? sum[0] : smt::mk(Op::Add, Sort::Real, sum);
        E e = smt::mk(rel == 0 ? Op::Eq : rel == 1 ? Op::Lt : Op::Le, Sort::Bool, {lhs, smt::mk_num(rhs)});
        int ord = l.var().ord();
        PBT_CHECK(0 <= ord && ord < num(Variable::boolean) && num(Variable::boolean) <= before + 1, "no boolean variable for a constraint");
        if (ord == before) {
            bterm.push_back({});
            bexpr.push_back(l.is_negation() ? smt::mk_not(e) : e);
            own_bool.push_back(false);
            return l;
        }
        PBT_CHECK(num(Variable::boolean) == before && !own_bool[ord], "the variable of a constraint is used for something else");
        if (!bexpr[ord]) bexpr[ord] = l.is_negation() ? smt::mk_not(e) : e; // made by a plugin
        also.push_back({l, e});
        return l;
    }
    /** literals of constraints known before, with the meaning they should have too */
    std::vector<std::pair<Literal, E>> also;

    void wrong_use()
    {
        int bools = num(Variable::boolean);
        size_t n = smt.solver().db().asserted().size();
        bool thrown = false;
        std::vector<int> vars;
        std::vector<Rational> co;
        if (logic != PROP) {
            int reals = num(Variable::rational);
            if (reals > 0 && c.coin()) vars.push_back(static_cast<int>(c.below(reals)));
            vars.push_back(c.coin() ? reals + static_cast<int>(c.below(3)) : -1 - static_cast<int>(c.below(2)));
            if (c.coin()) std::reverse(vars.begin(), vars.end());
        } else if (c.coin()) vars = {0}; // else no variables: the logic is the only mistake
        co.assign(vars.size(), Rational{1});
        c.note << "wrong use\n";
        c.publish();
        try {
            (void)smt.linear_constraint(vars, co, Order_predicate::leq, Rational{1});
        } catch (std::logic_error const&) {
            thrown = true;
        }
        PBT_CHECK(thrown, "an unknown variable or logic in linear_constraint is not reported");
        PBT_CHECK(num(Variable::boolean) == bools && smt.solver().db().asserted().size() == n, "a rejected constraint changes the solver");
        c.label("wrong use");
    }

    void add_clause()
    {
        std::vector<Literal> lits;
        int k = 1 + static_cast<int>(c.weighted({2, 4, 5, 1}));
        for (int i = 0; i < k; ++i) {
            std::optional<Literal> l;
            if (logic != PROP && c.chance(1, 3)) l = constraint();
            if (!l) {
                int n = num(Variable::boolean);
                if (n == 0) { new_var(Sort::Bool, nullptr); n = 1; }
                int v = static_cast<int>(c.below(n));
                if (!bexpr[v]) continue;
                l = Literal{v};
            }
            if (c.coin()) l = ~*l;
            bool dup = false;
            for (auto m : lits) dup = dup || m.var() == l->var();
            if (!dup) lits.push_back(*l);
        }
        if (lits.empty()) return; // as in both front ends: clauses of the database are not empty
        c.note << "assert";
        for (auto l : lits) c.note << " " << l;
        c.note << "\n";
        c.publish();
        if (lits.size() == 1 && c.coin()) smt.assert_clause(lits[0]);
        else if (lits.size() == 2 && c.coin()) smt.assert_clause(lits[0], lits[1]);
        else if (lits.size() == 3 && c.coin()) smt.assert_clause(lits[0], lits[1], lits[2]);
        else if (c.coin()) smt.assert_clause(lits);
        else smt.assert_clause(Clause(lits.begin(), lits.end()));
        clauses.push_back(lits);
        std::vector<E> kids;
        for (auto l : lits) kids.push_back(l.is_negation() ? smt::mk_not(bexpr[l.var().ord()]) : bexpr[l.var().ord()]);
        prob.asserts.push_back(kids.empty() ? smt::mk_false() : kids.size() == 1 ? kids[0] : smt::mk(Op::Or, Sort::Bool, kids));
    }

    void step()
    {
        bool real = logic != PROP;
        switch (c.weighted({2, real ? 3 : 0, 10, 1, logic == UFLRA ? 3 : 0, 1})) {
        case 0: new_var(Sort::Bool, nullptr); break;
        case 1: new_var(Sort::Real, nullptr); break;
        case 2: add_clause(); break;
        case 3: check(); break;
        case 4: new_app(); break;
        default:
            if (c.coin()) wrong_use();
            else c.note << "nothing\n";
        }
    }

    void check()
    {
        c.note << "check";
        c.publish();
        bool sat = smt.solver().check() == yaga::Solver::Result::sat;
        c.note << (sat ? ": sat\n" : ": unsat\n");
        c.publish();
        ++checks;
        (sat ? sats : unsats)++;
        PBT_CHECK(!(sat && was_unsat), "sat after unsat");
        was_unsat = !sat;
        while (static_cast<int>(bexpr.size()) < num(Variable::boolean)) { // constraints made by the plugins
            bterm.push_back({});
            bexpr.push_back(nullptr);
            own_bool.push_back(false);
            c.label("constraint made by a plugin");
        }
        if (!sat) {
            smt::Interp w;
            if (smt::solve_z3(prob, prob.asserts, &w) == smt::Sat::sat && smt::first_false(prob.asserts, w) < 0)
                pbt::fail("unsat, but there is a model: " + w.text);
            return;
        }
        auto& trail = smt.solver().trail();
        auto& bm = trail.model<bool>(Variable::boolean);
        for (int i = 0; i < num(Variable::boolean); ++i) PBT_CHECK(bm.is_defined(i), "boolean variable " << i << " has no value");
        for (auto& cl : clauses) {
            bool ok = false;
            for (auto l : cl) ok = ok || bm.value(l.var().ord()) != l.is_negation();
            PBT_CHECK(ok, "an asserted clause is false");
        }
        if (logic == PROP) return;
        auto& rm = trail.model<Rational>(Variable::rational);
        smt::Interp in;
        for (int i = 0; i < num(Variable::rational); ++i) {
            PBT_CHECK(rm.is_defined(i), "rational variable " << i << " has no value");
            in.vars["x" + std::to_string(i)] = smt::Value::of(q_of(rm.value(i)));
        }
        for (int i = 0; i < num(Variable::boolean); ++i) in.vars["b" + std::to_string(i)] = smt::Value::of(static_cast<bool>(bm.value(i)));
        // functions: equal arguments, equal results
        auto val = [&](Sort s, int v) { return in.vars.at((s == Sort::Real ? "x" : "b") + std::to_string(v)); };
        std::map<std::string, std::vector<std::pair<std::vector<smt::Value>, smt::Value>>> graph;
        for (auto& a : apps) {
            std::vector<smt::Value> args;
            for (auto& [s, v] : a.args) args.push_back(val(s, v));
            smt::Value r = val(fns[a.fn].ret, a.var);
            for (auto& [x, y] : graph[fns[a.fn].name])
                PBT_CHECK(!(x == args && !(y == r)), "two applications of " << fns[a.fn].name << " with equal arguments have different values");
            graph[fns[a.fn].name].emplace_back(args, r);
        }
        for (auto& f : fns) {
            auto g = graph[f.name];
            auto dflt = f.ret == Sort::Real ? smt::Value::of(Q(0)) : smt::Value::of(false);
            in.funs[f.name] = [g, dflt](std::vector<smt::Value> const& args) {
                for (auto& [x, y] : g) if (x == args) return y;
                return dflt;
            };
        }
        // every boolean variable means what it stands for
        for (int i = 0; i < num(Variable::boolean); ++i)
            if (bexpr[i]) PBT_CHECK(smt::holds(bexpr[i], in) == bm.value(i), "the value of boolean variable " << i << " is not the value of " << smt::print(bexpr[i]));
        for (auto& [l, e] : also)
            PBT_CHECK(smt::holds(e, in) == (bm.value(l.var().ord()) != l.is_negation()), "literal " << l << " does not stand for " << smt::print(e));
        PBT_CHECK(smt::first_false(prob.asserts, in) < 0, "an assertion is false in the model");
        // the printed function model
        if (logic == UFLRA) {
            auto m = *smt.get_function_model();
            for (auto& a : apps) {
                auto it = m.find(fns[a.fn].sym);
                PBT_CHECK(it != m.end(), "no model of " << fns[a.fn].name);
                std::vector<terms::var_value_t> key;
                for (auto& [s, v] : a.args) {
                    if (s == Sort::Real) key.emplace_back(rm.value(v));
                    else key.emplace_back(static_cast<bool>(bm.value(v)));
                }
                auto e = it->second.find(key);
                PBT_CHECK(e != it->second.end(), "the model of " << fns[a.fn].name << " does not cover an application");
                if (fns[a.fn].ret == Sort::Real) PBT_CHECK(std::get<Rational>(e->second) == rm.value(a.var), "the model of a function differs from the value of an application");
                else PBT_CHECK(std::get<bool>(e->second) == static_cast<bool>(bm.value(a.var)), "the model of a function differs from the value of an application");
            }
            if (!apps.empty()) c.label("function model");
        }
    }
};

/** several solver objects used in turns must not influence each other */
void interleaved(pbt::Ctx& c)
{
    std::vector<std::unique_ptr<Session>> all;
    for (int i = 0; i < 2; ++i) {
        c.note << "solver " << i << ": ";
        all.push_back(std::make_unique<Session>(c));
        all.back()->start(false);
    }
    size_t total = 0;
    int checks = 0;
    int steps = static_cast<int>(c.range(2, 30));
    for (int i = 0; i < steps; ++i) {
        size_t k = c.below(all.size());
        c.note << "solver " << k << ": ";
        if (c.chance(1, 15)) { // replaced by a new object
            total += all[k]->clauses.size();
            checks += all[k]->checks;
            c.note << "new ";
            all[k] = nullptr;
            all[k] = std::make_unique<Session>(c);
            all[k]->start(false);
        } else all[k]->step();
    }
    for (size_t k = 0; k < all.size(); ++k) {
        c.note << "solver " << k << ": ";
        all[k]->check();
        total += all[k]->clauses.size();
        checks += all[k]->checks;
    }
    c.label("checks", checks);
    if (total >= 3) c.nontrivial(pbt::hash_str(c.note.str()));
}

/** the options given to set_logic take effect */
void options(pbt::Ctx& c)
{
    terms::Term_manager tm;
    std::unordered_map<terms::term_t, int> rmap;
    std::unordered_map<terms::term_t, Literal> bmap;
    yaga::Yaga smt(tm, std::views::all(rmap), std::views::all(bmap));
    Logic logic = static_cast<Logic>(c.below(3));
    yaga::Options o;
    o.phase = static_cast<yaga::Phase>(c.below(3));
    o.prop_rational = logic != PROP && c.coin();
    o.deduce_bounds = c.coin();
    c.note << "logic " << logic_name(logic) << " phase " << static_cast<int>(o.phase) << (o.prop_rational ? " prop-rational" : "") << (o.deduce_bounds ? " deduce-bounds" : "") << "\n";
    if (logic == PROP) smt.set_logic(yaga::logic::propositional, o);
    else if (logic == LRA) smt.set_logic(yaga::logic::qf_lra, o);
    else smt.set_logic(yaga::logic::qf_uflra, o);
    int bools = static_cast<int>(c.range(1, 6));
    int reals = logic == PROP ? 0 : static_cast<int>(c.range(1, 6));
    std::set<int> pinned;
    std::vector<int> free_bools;
    for (int left = bools, r = reals; left + r > 0;) { // in any order
        if (r == 0 || (left > 0 && c.coin())) {
            --left;
            free_bools.push_back(smt.make_bool().var().ord());
        } else {
            --r;
            int x = smt.make(Variable::rational).ord();
            if (!c.coin()) continue;
            pinned.insert(x);
            Rational v = r_of(number(c)), f = r_of(Q(c.range(1, 3)));
            if (c.coin()) f = -f;
            std::array<int, 1> vars{x};
            std::array<Rational, 1> co{f};
            if (c.chance(1, 3)) smt.assert_clause(smt.linear_constraint(vars, co, Order_predicate::eq, v));
            else {
                smt.assert_clause(smt.linear_constraint(vars, co, Order_predicate::leq, v));
                smt.assert_clause(~smt.linear_constraint(vars, co, Order_predicate::lt, v));
            }
        }
    }
    // other variables occur more often than those with one value
    int noise = reals > 0 ? static_cast<int>(c.range(0, 20)) : 0;
    for (int i = 0; i < noise; ++i) {
        int y = static_cast<int>(c.below(reals));
        if (pinned.count(y)) continue;
        std::array<int, 1> vars{y};
        std::array<Rational, 1> co{Rational{c.coin() ? 1 : -1}};
        smt.assert_clause(smt.make_bool(), smt.linear_constraint(vars, co, Order_predicate::leq, r_of(Q(c.range(0, 9)))));
    }
    c.note << noise << " more clauses; " << bools << " boolean and " << reals << " rational variables; one value: ";
    for (int x : pinned) c.note << " x" << x;
    c.note << "\n";
    c.publish();
    PBT_CHECK(smt.solver().check() == yaga::Solver::Result::sat, "unsat");
    auto& trail = smt.solver().trail();
    auto& bm = trail.model<bool>(Variable::boolean);
    for (int b : free_bools)
        PBT_CHECK(bm.value(b) == (o.phase != yaga::Phase::negative), "unconstrained boolean variable " << b << " has the wrong phase");
    if (o.prop_rational)
        for (int l = 1; l <= static_cast<int>(pinned.size()) && l <= trail.decision_level(); ++l) {
            Variable v = trail.assigned(l)[0].var;
            PBT_CHECK(v.type() == Variable::rational && pinned.count(v.ord()), "decision " << l << " is not a rational variable with only one allowed value");
        }
    c.label(std::string(logic_name(logic)) + (o.prop_rational ? " prop-rational" : ""));
    if (bools + reals >= 3) c.nontrivial(pbt::hash_str(c.note.str()));
}

void session(pbt::Ctx& c, int rounds, int big)
{
    Session s(c);
    int n = rounds == 1 ? 1 : static_cast<int>(c.range(2, rounds));
    for (int r = 0; r < n; ++r) {
        s.also.clear();
        s.start(r > 0);
        int steps = static_cast<int>(c.range(1, 12 * big));
        for (int i = 0; i < steps; ++i) s.step();
        if (!c.chance(1, 6)) s.check();
    }
    c.label("checks", s.checks);
    c.label("sat", s.sats);
    c.label("unsat", s.unsats);
    if (s.reinits) c.label("re-initialised");
    c.label(std::string("last logic ") + logic_name(s.logic));
    if (s.checks > 0 && s.clauses.size() >= 3) c.nontrivial(pbt::hash_str(c.note.str()));
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    p.rule = "random sequences of calls of the library facade (make, make_bool, make_function_application, linear_constraint, assert_clause, check, init, set_logic; "
             "all logics and options; also rejected constraints); non-trivial: at least one check and three clauses; distinct by the sequence of calls";
    p.assumptions = {"z3 only proposes witnesses; a wrong unsat is certified by exact evaluation of a model"};
    auto add = [&](std::string n, uint64_t q, std::function<void(pbt::Ctx&)> f) { p.subs.push_back({n, f, q, q * 20}); };
    add("session", 2000, [](pbt::Ctx& c) { session(c, 1, 1); });
    add("large", 1000, [](pbt::Ctx& c) { session(c, 1, 4); });
    add("options", 4000, [](pbt::Ctx& c) { options(c); });
    add("interleaved", 1000, [](pbt::Ctx& c) { interleaved(c); });
    add("reinit", 1500, [](pbt::Ctx& c) { session(c, 4, 1); });
    return pbt::run_main(argc, argv, p);
}
