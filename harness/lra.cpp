// C17: the linear arithmetic plugin: constraints, propagation, decisions and conflict clauses.
#include "pbt.h"

#include "Bool_theory.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Restart.h"
#include "Solver.h"
#include "Theory_combination.h"
#include "Variable_order.h"

#include <gmpxx.h>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <z3++.h>

using Q = mpq_class;
using yaga::Clause;
using yaga::Database;
using yaga::Literal;
using yaga::Order_predicate;
using yaga::Rational;
using yaga::Trail;
using yaga::Variable;

namespace {

Q q_of(Rational const& r)
{
    Q q(r.get_str());
    q.canonicalize();
    return q;
}
Rational r_of(Q const& q)
{
    std::string s = q.get_str();
    auto slash = s.find('/');
    auto integer = [](std::string t) {
        bool neg = t[0] == '-';
        Rational r{0};
        for (char ch : t)
            if (ch != '-') r = r * Rational{10} + Rational{ch - '0'};
        return neg ? -r : r;
    };
    return slash == std::string::npos ? integer(s) : integer(s.substr(0, slash)) / integer(s.substr(slash + 1));
}

enum Rel { EQ, NE, LT, LE, GT, GE };
Rel negate(Rel r) { return r == EQ ? NE : r == NE ? EQ : r == LT ? GE : r == LE ? GT : r == GT ? LE : LT; }
char const* name(Rel r) { static char const* n[] = {"=", "!=", "<", "<=", ">", ">="}; return n[r]; }
bool compare(Q const& a, Rel r, Q const& b)
{
    switch (r) {
    case EQ: return a == b;
    case NE: return a != b;
    case LT: return a < b;
    case LE: return a <= b;
    case GT: return a > b;
    default: return a >= b;
    }
}

/** sum of coef * variable  rel  rhs */
struct Lin {
    std::map<int, Q> coef;
    Rel rel = EQ;
    Q rhs = 0;
    Lin neg() const
    {
        Lin l = *this;
        l.rel = negate(rel);
        return l;
    }
    bool holds(std::map<int, Q> const& val) const
    {
        Q s = 0;
        for (auto& [v, a] : coef) s += a * val.at(v);
        return compare(s, rel, rhs);
    }
    std::string str() const
    {
        std::string s;
        for (auto& [v, a] : coef) s += (s.empty() ? "" : " + ") + a.get_str() + "*x" + std::to_string(v);
        return (s.empty() ? "0" : s) + " " + name(rel) + " " + rhs.get_str();
    }
};

/** Is a conjunction satisfiable over the reals? (Fourier-Motzkin; nothing if it gets too large) */
std::optional<bool> feasible(std::vector<Lin> const& in)
{
    struct Row {
        std::map<int, Q> a;
        Q c;
        bool strict;
    }; // a x <(=) c
    std::vector<Lin> ne;
    std::vector<Row> base;
    std::vector<Lin> eqs;
    for (auto& l : in) {
        if (l.rel == NE) ne.push_back(l);
        else if (l.rel == EQ) eqs.push_back(l);
        else {
            bool flip = l.rel == GT || l.rel == GE;
            Row r{{}, flip ? Q(-l.rhs) : l.rhs, l.rel == LT || l.rel == GT};
            for (auto& [v, a] : l.coef)
                if (a != 0) r.a[v] = flip ? Q(-a) : a;
            base.push_back(r);
        }
    }
    auto solve = [&](std::vector<Row> rows) -> std::optional<bool> {
        for (auto& e : eqs) {
            Row r{{}, e.rhs, false}, s{{}, -e.rhs, false};
            for (auto& [v, a] : e.coef)
                if (a != 0) r.a[v] = a, s.a[v] = -a;
            rows.push_back(r);
            rows.push_back(s);
        }
        for (;;) {
            std::map<int, std::pair<size_t, size_t>> count;
            for (auto& r : rows)
                for (auto& [v, a] : r.a) (a > 0 ? count[v].first : count[v].second)++;
            if (count.empty()) break;
            int best = -1;
            size_t cost = 0;
            for (auto& [v, k] : count)
                if (best < 0 || k.first * k.second < cost) best = v, cost = k.first * k.second;
            std::vector<Row> next, up, lo;
            for (auto& r : rows) {
                auto it = r.a.find(best);
                if (it == r.a.end()) next.push_back(r);
                else (it->second > 0 ? up : lo).push_back(r);
            }
            for (auto& u : up)
                for (auto& l : lo) {
                    Q fu = -l.a.at(best), fl = u.a.at(best);
                    Row r{{}, fu * u.c + fl * l.c, u.strict || l.strict};
                    for (auto& [v, a] : u.a) r.a[v] += fu * a;
                    for (auto& [v, a] : l.a) r.a[v] += fl * a;
                    for (auto it = r.a.begin(); it != r.a.end();) it = it->second == 0 ? r.a.erase(it) : std::next(it);
                    if (r.a.empty()) {
                        if (r.strict ? !(0 < r.c) : !(0 <= r.c)) return false;
                        continue;
                    }
                    next.push_back(r);
                }
            if (next.size() > 3000) return {};
            rows = std::move(next);
        }
        for (auto& r : rows)
            if (r.strict ? !(0 < r.c) : !(0 <= r.c)) return false;
        return true;
    };
    auto r = solve(base);
    if (!r || !*r) return r;
    // the solutions of the other constraints are convex: they avoid all hyperplanes unless they lie in one of them
    for (auto& d : ne) {
        bool possible = false;
        for (int side = 0; side < 2 && !possible; ++side) {
            auto rows = base;
            Row x{{}, side ? Q(-d.rhs) : d.rhs, true};
            for (auto& [v, a] : d.coef)
                if (a != 0) x.a[v] = side ? Q(-a) : a;
            rows.push_back(x);
            auto k = solve(rows);
            if (!k) return {};
            possible = *k;
        }
        if (!possible) return false;
    }
    return true;
}

Lin lin_of(yaga::Linear_arithmetic::Constraint const& k)
{
    Lin l;
    auto cit = k.coef().begin();
    for (int v : k.vars()) {
        l.coef[v] += q_of(*cit);
        ++cit;
    }
    l.rhs = q_of(k.rhs());
    Order_predicate p = k.pred();
    l.rel = p == Order_predicate::eq ? EQ : p == Order_predicate::lt ? LT : LE;
    return k.lit().is_negation() ? l.neg() : l;
}

Q value(pbt::Ctx& c)
{
    switch (c.weighted({6, 2, 1})) {
    case 0: return Q(static_cast<long>(c.range(-4, 4)));
    case 1: {
        Q q(static_cast<long>(c.range(-9, 9)), static_cast<long>(c.range(1, 7)));
        q.canonicalize();
        return q;
    }
    default: {
        Q q(mpz_class(static_cast<long>(c.range(-3, 3))) * mpz_class("2147483647"), static_cast<long>(c.range(1, 3)));
        q.canonicalize();
        return q;
    }
    }
}
Q coefficient(pbt::Ctx& c)
{
    Q q = c.chance(2, 3) ? Q(c.coin() ? 1 : -1) : value(c);
    return q == 0 ? Q(2) : q;
}

Lin random_lin(pbt::Ctx& c, int n, int max_vars)
{
    Lin l;
    int k = static_cast<int>(c.range(1, std::min(n, max_vars)));
    for (int i = 0; i < k; ++i) l.coef[static_cast<int>(c.below(n))] = coefficient(c);
    l.rel = static_cast<Rel>(c.weighted({2, 2, 3, 3, 3, 3}));
    l.rhs = value(c);
    return l;
}

/** make @p l in a repository through @p mk(vars, coefs, pred, rhs); the returned constraint stands for @p l itself */
template <typename Make> auto build(Lin const& l, std::vector<int> const& order, Make&& mk)
{
    std::vector<int> vars;
    std::vector<Rational> coef;
    for (int v : order) {
        vars.push_back(v);
        coef.push_back(r_of(l.coef.at(v)));
    }
    auto rhs = r_of(l.rhs);
    switch (l.rel) {
    case EQ: return mk(vars, coef, Order_predicate::eq, rhs);
    case NE: return ~mk(vars, coef, Order_predicate::eq, rhs);
    case LT: return mk(vars, coef, Order_predicate::lt, rhs);
    case LE: return mk(vars, coef, Order_predicate::leq, rhs);
    case GT: return ~mk(vars, coef, Order_predicate::leq, rhs);
    default: return ~mk(vars, coef, Order_predicate::lt, rhs);
    }
}
std::vector<int> shuffled(pbt::Ctx& c, Lin const& l)
{
    std::vector<int> o;
    for (auto& [v, a] : l.coef) o.push_back(v);
    for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[c.below(i)]);
    return o;
}

// ---------------------------------------------------------------- constraint repository

/** canonical form: first coefficient (by variable) 1 */
struct Canon {
    std::vector<std::pair<int, Q>> a;
    Rel rel;
    Q rhs;
    bool operator<(Canon const& o) const { return std::tie(a, rel, rhs) < std::tie(o.a, o.rel, o.rhs); }
};
Canon canon(Lin const& l)
{
    Canon k;
    Q f = 0;
    k.rel = l.rel;
    for (auto& [v, a] : l.coef)
        if (a != 0) {
            if (f == 0) f = a;
            k.a.emplace_back(v, a / f);
        }
    if (f == 0) {
        k.rel = compare(0, l.rel, l.rhs) ? EQ : NE;
        k.rhs = 0;
        return k;
    }
    k.rhs = l.rhs / f;
    if (f < 0) k.rel = l.rel == LT ? GT : l.rel == LE ? GE : l.rel == GT ? LT : l.rel == GE ? LE : l.rel;
    return k;
}

void repository(pbt::Ctx& c)
{
    yaga::Linear_constraints<Rational> repo;
    int n = static_cast<int>(c.range(1, 7));
    int k = static_cast<int>(c.range(1, 12));
    std::vector<Lin> made;
    std::map<Canon, Literal> known;
    std::vector<std::pair<Lin, yaga::Linear_constraint<Rational>>> all;
    std::ostringstream log;
    std::vector<std::map<int, Q>> points(4);
    for (auto& p : points)
        for (int v = 0; v < n; ++v) p[v] = value(c);
    bool dup = false;
    for (int i = 0; i < k; ++i) {
        Lin l;
        if (!made.empty() && c.coin()) {
            l = c.pick(made);
            switch (c.below(4)) {
            case 0: break;
            case 1: { // scaled
                Q f = coefficient(c);
                for (auto& [v, a] : l.coef) a *= f;
                l.rhs *= f;
                if (f < 0) l.rel = l.rel == LT ? GT : l.rel == LE ? GE : l.rel == GT ? LT : l.rel == GE ? LE : l.rel;
                break;
            }
            case 2: l.rel = static_cast<Rel>(c.below(6)); break;
            default:
                if (c.coin()) l.rhs = value(c);
                else if (!l.coef.empty()) l.coef.begin()->second = coefficient(c);
            }
            // variables with coefficient zero are allowed
            if (c.chance(1, 4)) l.coef.insert({static_cast<int>(c.below(n)), Q(0)});
        } else {
            l = random_lin(c, n, 7);
            if (c.chance(1, 6)) for (auto& [v, a] : l.coef) if (c.coin()) a = 0;
            // the right-hand side is often met by a point
            if (c.coin()) {
                Q s = 0;
                for (auto& [v, a] : l.coef) s += a * points[0][v];
                l.rhs = s;
            }
        }
        made.push_back(l);
        log << l.str() << "\n";
        c.note.str("");
        c.note << log.str();
        c.publish();
        auto before = repo.size();
        auto cons = build(l, shuffled(c, l), [&](auto& vars, auto& coef, Order_predicate p, Rational const& rhs) { return repo.make(vars, coef, p, rhs); });
        all.emplace_back(l, cons);
        Lin neg = l.neg();
        auto a = known.find(canon(l)), b = known.find(canon(neg));
        PBT_CHECK(!(a != known.end() && cons.lit() != a->second), "the same constraint has two literals: " << l.str());
        PBT_CHECK(!(b != known.end() && cons.lit() != ~b->second), "a constraint and its negation have unrelated literals: " << l.str());
        if (a != known.end() || b != known.end()) {
            dup = true;
            PBT_CHECK(repo.size() == before, "a known constraint was added again: " << l.str());
        } else {
            PBT_CHECK(repo.size() == before + 1, "a new constraint was not added: " << l.str());
            for (auto& [q, lit] : known) PBT_CHECK(lit.var() != cons.lit().var(), "different constraints have the same variable: " << l.str());
            known.emplace(canon(l), cons.lit());
        }
        // everything made so far keeps its meaning
        for (auto& [m, x] : all) {
            Lin have = lin_of(x);
            for (auto& p : points) {
                PBT_CHECK(have.holds(p) == m.holds(p), "the constraint " << m.str() << " is represented as " << have.str());
                yaga::Model<Rational> model;
                model.resize(n);
                for (auto& [v, q] : p) model.set_value(v, r_of(q));
                PBT_CHECK(x.eval(model) == m.holds(p), "the constraint " << m.str() << " is evaluated to " << x.eval(model));
                PBT_CHECK((~x).eval(model) != m.holds(p), "the negation of " << m.str() << " is evaluated to " << (~x).eval(model));
                if (!x.empty()) { // solved for its first variable
                    Q s = have.rhs;
                    int first = *x.vars().begin();
                    for (auto& [v, q] : have.coef)
                        if (v != first) s -= q * p.at(v);
                    PBT_CHECK(q_of(x.implied_value(model)) == s, "implied value of " << have.str());
                    model.clear(first);
                    PBT_CHECK(!yaga::eval(model, x), "a constraint with an unassigned variable has a value: " << have.str());
                    model.set_value(first, r_of(p.at(first)));
                    PBT_CHECK(yaga::eval(model, x) == m.holds(p), "value of " << have.str());
                }
            }
            Canon want = canon(m), got = canon(have);
            PBT_CHECK(!(want < got) && !(got < want), "the constraint " << m.str() << " is represented as " << have.str());
        }
    }
    if (dup) c.label("duplicates");
    if (k >= 3) c.nontrivial(pbt::hash_str(log.str()));
}

// ---------------------------------------------------------------- monitored search

struct Monitor {
    bool unassigned = false; // constraints may be propagated before all of their variables are assigned
    yaga::Linear_arithmetic* lra = nullptr;
    int nb = 0, nr = 0; // propositional and real variables
    uint64_t n_conflicts = 0, n_props = 0, n_decided = 0, n_learned = 0, n_restarts = 0, n_unknown = 0, n_derived = 0, n_steps = 0, n_multi = 0, n_implied = 0;
    int limit = 2500;
    std::function<void(Trail&, Clause const&)> learned;

    std::optional<Lin> meaning(Literal l) const
    {
        if (l.var().ord() < nb) return {};
        auto k = lra->constraint(l);
        if (k.empty()) { // 0 = 0
            Lin t;
            t.rel = l.is_negation() ? NE : EQ;
            return t;
        }
        return lin_of(k);
    }
    std::string str(Literal l) const
    {
        auto m = meaning(l);
        return m ? "(" + m->str() + ")" : (l.is_negation() ? "~b" : "b") + std::to_string(l.var().ord());
    }
    std::string str(Clause const& k) const
    {
        std::string s;
        for (auto l : k) s += (s.empty() ? "" : " or ") + str(l);
        return s.empty() ? "(empty clause)" : s;
    }
};

class Checked_lra final : public yaga::Theory {
public:
    explicit Checked_lra(Monitor& m) : m(m) { m.lra = &lra; }
    yaga::Linear_arithmetic lra;

    void on_init(Database& d, Trail& t) override { lra.on_init(d, t); }
    void on_variable_resize(Variable::Type t, int n) override { lra.on_variable_resize(t, n); }
    void on_before_backtrack(Database& d, Trail& t, int l) override { lra.on_before_backtrack(d, t, l); }
    void on_learned_clause(Database& d, Trail& t, Clause const& k) override { lra.on_learned_clause(d, t, k); }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& k) override { lra.on_conflict_resolved(d, t, k); }
    void on_restart(Database& d, Trail& t) override { lra.on_restart(d, t); }

    std::vector<Clause> propagate(Database& db, Trail& trail) override
    {
        bool check = ++m.n_steps <= static_cast<uint64_t>(m.limit);
        State before;
        if (check) before = snapshot(trail);
        auto conflicts = lra.propagate(db, trail);
        if (check) examine(trail, before, conflicts);
        return conflicts;
    }
    void decide(Database& db, Trail& trail, Variable var) override
    {
        if (var.type() != Variable::rational) {
            lra.decide(db, trail, var);
            return;
        }
        ++m.n_decided;
        State before = snapshot(trail);
        auto allowed = interval(trail, var.ord());
        lra.decide(db, trail, var);
        State after = snapshot(trail);
        PBT_CHECK(after.level == before.level + 1, "deciding x" << var.ord() << " changed the level from " << before.level << " to " << after.level);
        PBT_CHECK(after.real[var.ord()] && after.real_level[var.ord()] == after.level, "x" << var.ord() << " was not decided");
        Q v = *after.real[var.ord()];
        for (auto& l : allowed) PBT_CHECK(l.holds({{var.ord(), v}}), "x" << var.ord() << " was decided to be " << v << ", which violates " << l.str());
        before.real[var.ord()] = after.real[var.ord()];
        before.real_level[var.ord()] = after.level;
        unchanged(before, after, "a decision");
    }

private:
    Monitor& m;
    struct State {
        int level = 0;
        std::vector<int> val, val_level;
        std::vector<std::optional<Q>> real;
        std::vector<int> real_level;
    };
    static State snapshot(Trail& trail)
    {
        State s;
        s.level = trail.decision_level();
        auto const& bm = trail.model<bool>(Variable::boolean);
        auto const& rm = trail.model<Rational>(Variable::rational);
        for (int i = 0; i < static_cast<int>(bm.num_vars()); ++i) {
            s.val.push_back(bm.is_defined(i) ? (bm.value(i) ? 1 : -1) : 0);
            s.val_level.push_back(trail.decision_level(Variable{i, Variable::boolean}).value_or(-1));
        }
        for (int i = 0; i < static_cast<int>(rm.num_vars()); ++i) {
            s.real.push_back(rm.is_defined(i) ? std::optional<Q>(q_of(rm.value(i))) : std::nullopt);
            s.real_level.push_back(trail.decision_level(Variable{i, Variable::rational}).value_or(-1));
        }
        return s;
    }
    void unchanged(State const& a, State const& b, char const* what) const
    {
        for (size_t i = 0; i < a.val.size(); ++i)
            if (a.val[i]) PBT_CHECK(b.val[i] == a.val[i] && b.val_level[i] == a.val_level[i], what << " changed the value or level of " << m.str(Literal{static_cast<int>(i)}));
        for (size_t i = 0; i < a.real.size(); ++i)
            PBT_CHECK(b.real[i] == a.real[i] && b.real_level[i] == a.real_level[i], what << " changed the value or level of x" << i);
    }
    /** constraints in which @p var is the only unassigned variable, the others replaced by their values */
    std::vector<Lin> interval(Trail& trail, int var) const
    {
        std::vector<Lin> r;
        auto s = snapshot(trail);
        for (int i = m.nb; i < static_cast<int>(s.val.size()); ++i) {
            if (!s.val[i]) continue;
            auto l = m.meaning(s.val[i] > 0 ? Literal{i} : ~Literal{i});
            Lin u;
            u.rel = l->rel;
            u.rhs = l->rhs;
            bool unit = l->coef.count(var) > 0;
            for (auto& [v, a] : l->coef) {
                if (v == var) u.coef[v] = a;
                else if (s.real[v]) u.rhs -= a * *s.real[v];
                else unit = false;
            }
            if (unit) r.push_back(u);
        }
        return r;
    }
    void examine(Trail& trail, State const& before, std::vector<Clause> const& conflicts)
    {
        State after = snapshot(trail);
        PBT_CHECK(after.level == before.level, "propagation changed the decision level");
        unchanged(before, after, "propagation");
        std::map<int, Q> val;
        for (size_t i = 0; i < after.real.size(); ++i)
            if (after.real[i]) val[static_cast<int>(i)] = *after.real[i];
        // propagated literals
        bool early = false;
        for (size_t i = 0; i < after.val.size(); ++i) {
            if (!after.val[i] || (i < before.val.size() && before.val[i])) continue;
            int ord = static_cast<int>(i);
            Literal lit = after.val[i] > 0 ? Literal{ord} : ~Literal{ord};
            PBT_CHECK(ord >= m.nb, "the plugin assigned the propositional variable b" << ord);
            ++m.n_props;
            if (i >= before.val.size()) ++m.n_derived;
            Lin l = *m.meaning(lit);
            int level = 0;
            bool open = false;
            for (auto& [v, a] : l.coef) open = open || !val.count(v);
            if (open && m.unassigned) {
                early = true;
                // propagated early: implied by the constraints and values at its level
                std::vector<Lin> facts{l.neg()};
                for (size_t j = static_cast<size_t>(m.nb); j < before.val.size(); ++j)
                    if (before.val[j] && before.val_level[j] <= after.val_level[i]) facts.push_back(*m.meaning(before.val[j] > 0 ? Literal{static_cast<int>(j)} : ~Literal{static_cast<int>(j)}));
                for (auto& [v, q] : val) {
                    if (after.real_level[v] > after.val_level[i]) continue;
                    Lin e;
                    e.coef[v] = 1;
                    e.rel = EQ;
                    e.rhs = q;
                    facts.push_back(e);
                }
                auto f = feasible(facts);
                if (!f) ++m.n_unknown;
                PBT_CHECK(f != true, l.str() << " was propagated, but it is not implied by the values and constraints on the trail");
                continue;
            }
            for (auto& [v, a] : l.coef) {
                PBT_CHECK(val.count(v), l.str() << " was propagated, but x" << v << " is not assigned");
                level = std::max(level, after.real_level[v]);
            }
            PBT_CHECK(l.holds(val), l.str() << " was propagated, but it is false in the model");
            PBT_CHECK(after.val_level[i] == level, l.str() << " was propagated at level " << after.val_level[i] << ", but its variables are assigned at level " << level);
        }
        // conflict clauses
        if (conflicts.size() > 1) ++m.n_multi;
        for (auto& k : conflicts) {
            ++m.n_conflicts;
            std::vector<Lin> neg;
            for (auto l : k) {
                int v = after.val.at(l.var().ord());
                PBT_CHECK(v != 0 && (v > 0) == l.is_negation(), "conflict clause " << m.str(k) << " is not false: " << m.str(l));
                auto meaning = m.meaning(l);
                PBT_CHECK(meaning, "conflict clause " << m.str(k) << " contains a propositional literal");
                neg.push_back(meaning->neg());
            }
            auto f = feasible(neg);
            if (!f) ++m.n_unknown;
            PBT_CHECK(f != true, "conflict clause " << m.str(k) << " is not valid in linear arithmetic");
        }
        if (!conflicts.empty()) return;
        // nothing is missing, unless the plugin is called again
        if (early) return;
        for (int i = m.nb; i < static_cast<int>(after.val.size()); ++i) {
            auto l = *m.meaning(Literal{i});
            bool full = true;
            for (auto& [v, a] : l.coef) full = full && val.count(v);
            if (!full) continue;
            PBT_CHECK(after.val[i], "all variables of " << l.str() << " are assigned, but not the constraint");
            PBT_CHECK((after.val[i] > 0) == l.holds(val), l.str() << " is assigned " << (after.val[i] > 0 ? "true" : "false") << ", but not so in the model, and there is no conflict");
        }
        for (int v = 0; v < static_cast<int>(after.real.size()); ++v) {
            if (after.real[v]) continue;
            auto k = interval(trail, v);
            if (k.empty()) continue;
            ++m.n_implied;
            PBT_CHECK(feasible(k) != false, "no value is left for x" << v << ", and there is no conflict; constraints on it: " << [&] {
                std::string s;
                for (auto& l : k) s += l.str() + "; ";
                return s;
            }());
        }
    }
};

class Watching_restart final : public yaga::Restart {
public:
    Watching_restart(Monitor& m, uint64_t seed, int den) : m(m), s(seed), den(den) {}
    bool should_restart() const override { return den > 0 && pbt::splitmix(s) % static_cast<uint64_t>(den) == 0; }
    void on_restart(Database&, Trail&) override { ++m.n_restarts; }
    void on_learned_clause(Database&, Trail& trail, Clause const& k) override
    {
        ++m.n_learned;
        if (m.learned) m.learned(trail, k);
    }

private:
    Monitor& m;
    mutable uint64_t s;
    int den;
};

/** Picks any unassigned variable, real ones with a given weight. */
class Random_order final : public yaga::Variable_order {
public:
    Random_order(uint64_t seed, int percent) : s(seed), percent(percent) {}
    std::optional<Variable> pick(Database&, Trail& trail) override
    {
        auto const& bm = trail.model<bool>(Variable::boolean);
        auto const& rm = trail.model<Rational>(Variable::rational);
        std::vector<Variable> b, r;
        for (int i = 0; i < static_cast<int>(bm.num_vars()); ++i)
            if (!bm.is_defined(i)) b.emplace_back(i, Variable::boolean);
        for (int i = 0; i < static_cast<int>(rm.num_vars()); ++i)
            if (!rm.is_defined(i)) r.emplace_back(i, Variable::rational);
        if (b.empty() && r.empty()) return {};
        bool real = b.empty() || (!r.empty() && static_cast<int>(pbt::splitmix(s) % 100) < percent);
        auto& l = real ? r : b;
        return l[pbt::splitmix(s) % l.size()];
    }
    bool is_before(Variable a, Variable b) const override { return std::pair{a.type(), a.ord()} < std::pair{b.type(), b.ord()}; }

private:
    uint64_t s;
    int percent;
};

struct Lit {
    bool prop;
    int b = 0;
    bool neg = false;
    Lin l;
    std::string str() const { return prop ? (neg ? "~b" : "b") + std::to_string(b) : "(" + l.str() + ")"; }
};

void search(pbt::Ctx& c)
{
    Monitor m;
    int nb = static_cast<int>(c.range(0, 3)), nr = static_cast<int>(c.range(1, 6));
    m.nb = nb;
    m.nr = nr;
    // atoms, then clauses
    std::vector<Lin> atoms;
    int na = static_cast<int>(c.range(3, 14));
    int style = static_cast<int>(c.below(4));
    for (int i = 0; i < na; ++i) {
        Lin l = random_lin(c, nr, style == 0 ? 2 : style == 1 ? 3 : 5);
        if (style == 2) { // difference constraints
            int a = static_cast<int>(c.below(nr)), b = static_cast<int>(c.below(nr));
            l.coef.clear();
            l.coef[a] = 1;
            if (a != b) l.coef[b] = -1;
            l.rhs = static_cast<long>(c.range(-3, 3));
        }
        atoms.push_back(l);
    }
    std::vector<std::vector<Lit>> cls;
    int nc = static_cast<int>(c.range(2, 26));
    for (int i = 0; i < nc; ++i) {
        std::vector<Lit> k;
        int len = static_cast<int>(c.weighted({3, 5, 4, 1})) + 1;
        for (int j = 0; j < len; ++j) {
            Lit t{};
            t.prop = nb > 0 && c.chance(1, 5);
            if (t.prop) {
                t.b = static_cast<int>(c.below(nb));
                t.neg = c.coin();
            } else {
                t.l = c.pick(atoms);
                if (c.coin()) t.l = t.l.neg();
            }
            k.push_back(t);
        }
        cls.push_back(k);
    }
    yaga::Solver solver;
    solver.trail().set_model<bool>(Variable::boolean, nb);
    solver.trail().set_model<Rational>(Variable::rational, nr);
    auto& th = solver.set_theory<yaga::Theory_combination>();
    auto& bcp = th.add_theory<yaga::Bool_theory>();
    std::string desc;
    switch (c.below(3)) {
    case 0: bcp.set_phase(yaga::Phase::positive); desc += " phase=positive"; break;
    case 1: bcp.set_phase(yaga::Phase::negative); desc += " phase=negative"; break;
    default: bcp.set_phase(yaga::Phase::cache); desc += " phase=cache";
    }
    auto& checked = th.add_theory<Checked_lra>(m);
    auto& lra = checked.lra;
    yaga::Linear_arithmetic::Options o;
    if (c.chance(1, 3)) o.prop_rational = true, desc += " prop_rational";
    if (c.chance(1, 3)) o.prop_bounds = true, desc += " prop_bounds";
    if (c.chance(1, 4)) o.prop_unassigned = true, m.unassigned = true, desc += " prop_unassigned";
    if (c.chance(1, 4)) o.return_all_conflicts = false, desc += " first conflict only";
    lra.set_options(o);
    int den = static_cast<int>(c.below(2) ? c.range(2, 12) : 0);
    solver.set_restart_policy<Watching_restart>(m, c.below(1u << 30), den);
    desc += " restart=1/" + std::to_string(den);
    switch (c.below(4)) {
    case 0: solver.set_variable_order<yaga::First_unassigned>(); desc += " order=first"; break;
    case 1:
        solver.set_variable_order<yaga::Generalized_vsids>(lra);
        desc += " order=generalized-vsids";
        break;
    default: {
        int pc = static_cast<int>(c.below(3)) * 45 + 5;
        solver.set_variable_order<Random_order>(c.below(1u << 30), pc);
        desc += " order=random(" + std::to_string(pc) + "% real)";
    }
    }
    std::string text;
    for (auto& k : cls) {
        for (size_t j = 0; j < k.size(); ++j) text += (j ? " or " : "") + k[j].str();
        text += "\n";
    }
    c.note << "configuration:" << desc << "; " << nb << " propositional and " << nr << " real variables\n" << text;
    c.publish();
    std::vector<std::vector<std::pair<Lit, Literal>>> ours;
    for (auto& k : cls) {
        Clause out;
        std::vector<std::pair<Lit, Literal>> mine;
        for (auto& t : k) {
            Literal l = t.prop ? (t.neg ? ~Literal{t.b} : Literal{t.b})
                               : build(t.l, shuffled(c, t.l), [&](auto& vars, auto& coef, Order_predicate p, Rational const& rhs) { return lra.constraint(solver.trail(), vars, coef, p, rhs); }).lit();
            mine.emplace_back(t, l);
            if (std::find(out.begin(), out.end(), l) == out.end()) out.push_back(l);
        }
        // clauses of the database have no complementary literals
        bool taut = false;
        for (auto l : out) taut = taut || std::find(out.begin(), out.end(), ~l) != out.end();
        if (taut) continue;
        ours.push_back(mine);
        solver.db().assert_clause(std::move(out));
    }

    // implication of learned clauses
    z3::context z;
    z3::solver zs(z);
    z3::params par(z);
    par.set("rlimit", 400000u);
    zs.set(par);
    std::vector<z3::expr> xs, bs;
    for (int i = 0; i < nr; ++i) xs.push_back(z.real_const(("x" + std::to_string(i)).c_str()));
    for (int i = 0; i < nb; ++i) bs.push_back(z.bool_const(("b" + std::to_string(i)).c_str()));
    auto zlin = [&](Lin const& l) {
        z3::expr s = z.real_val(0);
        for (auto& [v, a] : l.coef) s = s + z.real_val(a.get_str().c_str()) * xs[v];
        z3::expr r = z.real_val(l.rhs.get_str().c_str());
        switch (l.rel) {
        case EQ: return s == r;
        case NE: return s != r;
        case LT: return s < r;
        case LE: return s <= r;
        case GT: return s > r;
        default: return s >= r;
        }
    };
    for (auto& k : ours) {
        z3::expr_vector v(z);
        for (auto& [t, l] : k) v.push_back(t.prop ? (t.neg ? !bs[t.b] : bs[t.b]) : zlin(t.l));
        zs.add(z3::mk_or(v));
    }
    auto witness = [&](std::map<int, Q>& val, std::vector<bool>& bv) {
        z3::model mod = zs.get_model();
        for (int i = 0; i < nr; ++i) {
            z3::expr e = mod.eval(xs[i], true);
            std::string s = e.get_decimal_string(0);
            Q q(e.numerator().to_string() == "" ? "0" : "0");
            auto big = [](z3::expr const& n) {
                std::string t = n.to_string(), o;
                bool neg = false;
                for (char ch : t) {
                    if (ch == '-') neg = true;
                    else if (ch >= '0' && ch <= '9') o += ch;
                    else if (ch == '.') break;
                }
                return mpz_class((neg ? "-" : "") + o);
            };
            q = Q(big(e.numerator()), big(e.denominator()));
            q.canonicalize();
            val[i] = q;
        }
        for (int i = 0; i < nb; ++i) bv.push_back(mod.eval(bs[i], true).is_true());
        for (auto& k : ours) {
            bool sat = false;
            for (auto& [t, l] : k) sat = sat || (t.prop ? bv[t.b] != t.neg : t.l.holds(val));
            if (!sat) return false;
        }
        return true;
    };
    int budget = 40;
    m.learned = [&](Trail& trail, Clause const& k) {
        auto const& bm = trail.model<bool>(Variable::boolean);
        for (auto l : k) PBT_CHECK(yaga::eval(bm, l) == false, "the learned clause " << m.str(k) << " is not false: " << m.str(l));
        if (budget-- <= 0) return;
        zs.push();
        for (auto l : k) {
            auto mean = m.meaning(l);
            if (mean) zs.add(zlin(mean->neg()));
            else zs.add(l.is_negation() ? bs[l.var().ord()] : !bs[l.var().ord()]);
        }
        auto r = zs.check();
        if (r == z3::sat) {
            std::map<int, Q> val;
            std::vector<bool> bv;
            bool ok = witness(val, bv);
            for (auto l : k) {
                auto mean = m.meaning(l);
                ok = ok && (mean ? !mean->holds(val) : bv[l.var().ord()] == l.is_negation());
            }
            PBT_CHECK(!ok, "the learned clause " << m.str(k) << " is not implied by the asserted clauses");
            ++m.n_unknown;
        } else if (r == z3::unknown) ++m.n_unknown;
        zs.pop();
    };
    bool sat = solver.check() == yaga::Solver::Result::sat;
    c.label(sat ? "sat" : "unsat");
    if (sat) {
        std::map<int, Q> val;
        auto const& bm = solver.trail().model<bool>(Variable::boolean);
        auto const& rm = solver.trail().model<Rational>(Variable::rational);
        for (int i = 0; i < nr; ++i) {
            PBT_CHECK(rm.is_defined(i), "answer sat, but x" << i << " has no value");
            val[i] = q_of(rm.value(i));
        }
        for (auto& k : ours) {
            bool ok = false;
            std::string s;
            for (auto& [t, l] : k) {
                ok = ok || (t.prop ? bm.value(t.b) != t.neg : t.l.holds(val));
                s += t.str() + " ";
            }
            PBT_CHECK(ok, "answer sat, but the model falsifies the clause " << s);
        }
    } else if (zs.check() == z3::sat) {
        std::map<int, Q> val;
        std::vector<bool> bv;
        PBT_CHECK(!witness(val, bv), "answer unsat, but the clauses are satisfiable");
    }
    c.label("conflict clauses", m.n_conflicts);
    c.label("propagated literals", m.n_props);
    c.label("derived constraints", m.n_derived);
    c.label("learned clauses", m.n_learned);
    c.label("decided real values", m.n_decided);
    c.label("intervals examined", m.n_implied);
    c.label("undecided queries", m.n_unknown);
    if (m.n_multi) c.label("several conflicts at once");
    if (m.n_restarts) c.label("restarted");
    if (m.n_conflicts) c.nontrivial(pbt::hash_str(desc + text));
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    p.rule = "constraint repository: histories of 1-12 constraints (new, scaled, negated, permuted, zero coefficients), non-trivial: at least 3 constraints; "
             "search: clause sets over propositional and linear literals (bounds, differences, up to 5 variables) solved with random variable order, phase, restarts, prop_rational, prop_bounds, prop_unassigned and return_all_conflicts, "
             "every propagation, decision and learned clause examined; non-trivial: the plugin reported a conflict; distinct by input and configuration";
    p.assumptions = {"validity of conflict clauses: Fourier-Motzkin elimination over GMP rationals written for the harness",
                     "z3 only proposes models which refute the implication of a learned clause; they are checked exactly"};
    p.subs.push_back({"repository", repository, 60000, 1200000});
    p.subs.push_back({"search", search, 16000, 320000});
    return pbt::run_main(argc, argv, p);
}
