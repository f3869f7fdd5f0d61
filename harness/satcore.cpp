// The propositional core through the Solver interface, in every configuration:
// C08 verdicts and models, C09 learned clauses, C14 unit propagation.
#include "cnf.h"
#include "Bool_theory.h"
#include "Event_dispatcher.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Restart.h"
#include "Solver.h"
#include "Variable_order.h"
#include <memory>
#include <set>

using namespace cnf;
using yaga::Clause;
using yaga::Database;
using yaga::Literal;
using yaga::Trail;
using yaga::Variable;

namespace {

int dimacs(Literal l) { return (l.var().ord() + 1) * (l.is_negation() ? -1 : 1); }
Literal literal(int l) { return l < 0 ? ~Literal{-l - 1} : Literal{l - 1}; }
Cl ints(Clause const& k)
{
    Cl r;
    for (auto l : k) r.push_back(dimacs(l));
    return r;
}
Cl sorted(Cl k)
{
    std::sort(k.begin(), k.end());
    k.erase(std::unique(k.begin(), k.end()), k.end());
    return k;
}
std::string text(Cl const& k)
{
    std::string s;
    for (int l : k) s += std::to_string(l) + " ";
    return s + "0";
}

struct Monitor {
    bool bcp = false, learned = false;
    Cnf const* f = nullptr;
    std::unique_ptr<Dpll> dpll;
    uint64_t n_propagate = 0, n_implied = 0, n_learned = 0, n_conflicts = 0, n_unknown = 0, n_restarts = 0, max_level = 0, n_checked = 0;
    uint64_t budget = 400; // implication queries per case
    uint64_t all = 0;      // seed, if not 0: a conflict is reported together with other clauses which are false
    uint64_t n_all = 0;
    int batch = 0; // clauses learned from the current conflicts
};

/** Bool_theory with its contract checked after every propagation. */
class Checked_theory final : public yaga::Bool_theory {
public:
    explicit Checked_theory(Monitor& m) : m(m) {}
    std::vector<Clause> propagate(Database& db, Trail& trail) override
    {
        int level = trail.decision_level();
        std::vector<std::pair<int, int>> before; // assigned variables and their levels
        if (m.bcp) snapshot(trail, before);
        auto conflicts = yaga::Bool_theory::propagate(db, trail);
        ++m.n_propagate;
        m.max_level = std::max<uint64_t>(m.max_level, static_cast<uint64_t>(level));
        if (m.bcp) check(db, trail, conflicts, level, before);
        if (m.all && !conflicts.empty()) more(db, trail, conflicts);
        return conflicts;
    }

private:
    Monitor& m;
    /** Theories may report any number of clauses which are false in the trail, in any order. */
    void more(Database& db, Trail& trail, std::vector<Clause>& conflicts)
    {
        auto const& model = trail.model<bool>(Variable::boolean);
        for (auto* list : {&db.asserted(), &db.learned()})
            for (auto& k : *list)
                if (yaga::eval(model, k) == false) {
                    Clause o = k;
                    for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[pbt::splitmix(m.all) % i]);
                    for (uint64_t n = pbt::splitmix(m.all) % 3; n; --n) conflicts.push_back(o);
                }
        for (size_t i = conflicts.size(); i > 1; --i) std::swap(conflicts[i - 1], conflicts[pbt::splitmix(m.all) % i]);
        if (conflicts.size() > 1) ++m.n_all;
    }
    static void snapshot(Trail& trail, std::vector<std::pair<int, int>>& out)
    {
        auto const& model = trail.model<bool>(Variable::boolean);
        for (int i = 0; i < static_cast<int>(model.num_vars()); ++i)
            out.push_back({model.is_defined(i) ? (model.value(i) ? 1 : -1) : 0, trail.decision_level(Variable{i, Variable::boolean}).value_or(-1)});
    }
    void check(Database& db, Trail& trail, std::vector<Clause> const& conflicts, int level, std::vector<std::pair<int, int>> const& before)
    {
        if (++m.n_checked > 3000) return;
        auto const& model = trail.model<bool>(Variable::boolean);
        PBT_CHECK(trail.decision_level() == level, "propagation changed the decision level from " << level << " to " << trail.decision_level());
        std::set<int> seen;
        for (auto [var, reason] : trail.assigned(level)) {
            PBT_CHECK(model.is_defined(var.ord()), "variable " << var.ord() + 1 << " is on the trail without a value");
            PBT_CHECK(seen.insert(var.ord()).second, "variable " << var.ord() + 1 << " is twice on level " << level);
        }
        std::vector<bool> earlier(model.num_vars(), false);
        for (size_t i = 0; i < before.size(); ++i) {
            if (!before[i].first) continue;
            earlier[i] = true;
            PBT_CHECK(model.is_defined(static_cast<int>(i)) && (model.value(static_cast<int>(i)) ? 1 : -1) == before[i].first &&
                          trail.decision_level(Variable{static_cast<int>(i), Variable::boolean}).value_or(-1) == before[i].second,
                      "propagation changed the value or the level of variable " << i + 1);
        }
        for (auto [var, reason] : trail.assigned(level)) {
            if (earlier[var.ord()]) continue;
            int lit = (var.ord() + 1) * (model.value(var.ord()) ? 1 : -1);
            PBT_CHECK(reason != nullptr, "variable " << var.ord() + 1 << " was propagated without a reason");
            PBT_CHECK(trail.reason(var) == reason && trail.decision_level(var) == level, "the trail does not record the reason and level of variable " << var.ord() + 1);
            ++m.n_implied;
            bool has = false;
            for (auto l : *reason) {
                if (dimacs(l) == lit) {
                    has = true;
                    continue;
                }
                auto v = yaga::eval(model, l);
                PBT_CHECK(v.has_value() && !*v && earlier[l.var().ord()],
                          "the reason " << text(ints(*reason)) << " of " << lit << " contains " << dimacs(l) << ", which was not false before");
            }
            PBT_CHECK(has, "the reason " << text(ints(*reason)) << " does not contain the propagated literal " << lit);
            PBT_CHECK(in_db(db, reason), "the reason of " << lit << " is not a clause of the database");
            earlier[var.ord()] = true;
        }
        for (auto& k : conflicts) {
            ++m.n_conflicts;
            for (auto l : k) PBT_CHECK(yaga::eval(model, l) == false, "conflict clause " << text(ints(k)) << " is not false: " << dimacs(l));
            Cl s = sorted(ints(k));
            bool found = false;
            for (auto* list : {&db.asserted(), &db.learned()})
                for (auto& o : *list) found = found || (o.size() == k.size() && sorted(ints(o)) == s);
            PBT_CHECK(found, "conflict clause " << text(ints(k)) << " is not a clause of the database");
        }
        if (conflicts.empty())
            for (auto* list : {&db.asserted(), &db.learned()})
                for (auto& k : *list) {
                    bool sat = false;
                    std::set<int> open;
                    for (auto l : k) {
                        auto v = yaga::eval(model, l);
                        if (v == true) sat = true;
                        if (!v) open.insert(dimacs(l));
                    }
                    PBT_CHECK(sat || open.size() >= 2, "after propagation without a conflict the clause " << text(ints(k)) << " is "
                                                        << (open.empty() ? "false" : "unit") << " at level " << level);
                }
    }
    static bool in_db(Database& db, Clause const* p)
    {
        for (auto* list : {&db.asserted(), &db.learned()})
            for (auto& k : *list)
                if (&k == p) return true;
        return false;
    }
};

/** Restart policy which wraps another one or follows a pseudo-random schedule, and monitors the events. */
class Scripted_restart final : public yaga::Restart {
public:
    Scripted_restart(Monitor& m, uint64_t seed, int den, std::unique_ptr<yaga::Restart> inner) : m(m), s(seed), den(den), inner(std::move(inner)) {}
    bool should_restart() const override
    {
        m.batch = 0;
        if (inner) return inner->should_restart();
        return den > 0 && pbt::splitmix(s) % static_cast<uint64_t>(den) == 0;
    }
    void on_init(Database& d, Trail& t) override { if (inner) inner->on_init(d, t); }
    void on_variable_resize(Variable::Type t, int n) override { if (inner) inner->on_variable_resize(t, n); }
    void on_before_backtrack(Database& d, Trail& t, int l) override { if (inner) inner->on_before_backtrack(d, t, l); }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& k) override { if (inner) inner->on_conflict_resolved(d, t, k); }
    void on_restart(Database& d, Trail& t) override
    {
        ++m.n_restarts;
        if (inner) inner->on_restart(d, t);
    }
    void on_learned_clause(Database& db, Trail& trail, Clause const& k) override
    {
        if (inner) inner->on_learned_clause(db, trail, k);
        ++m.n_learned;
        if (!m.learned) return;
        Cl cl = ints(k);
        auto const& model = trail.model<bool>(Variable::boolean);
        PBT_CHECK(sorted(cl).size() == cl.size(), "the learned clause " << text(cl) << " contains a literal twice");
        int top = -1, at_top = 0, prev = 1 << 30;
        for (auto l : k) {
            PBT_CHECK(yaga::eval(model, l) == false, "the learned clause " << text(cl) << " is not false when it is learned: " << dimacs(l));
            int lev = trail.decision_level(l.var()).value_or(-1);
            PBT_CHECK(lev >= 0, "literal " << dimacs(l) << " of the learned clause has no level");
            PBT_CHECK(lev <= prev, "the literals of the learned clause " << text(cl) << " are not ordered by level");
            prev = lev;
            if (lev > top) top = lev, at_top = 0;
            if (lev == top) ++at_top;
        }
        PBT_CHECK(at_top == 1, "the learned clause " << text(cl) << " has " << at_top << " literals at its highest level " << top << " and asserts nothing");
        PBT_CHECK(&db.learned().back() == &k, "the learned clause is not at the end of the database");
        ++m.batch; // of the clauses learned together only copies are compared
        if (m.n_learned <= 2000) {
            Cl sc = sorted(cl);
            for (auto* list : {&db.asserted(), &db.learned()})
                for (size_t i = 0; i < list->size(); ++i) {
                    auto& o = (*list)[i];
                    if (&o == &k || o.size() > k.size()) continue;
                    Cl so = sorted(ints(o));
                    if (list == &db.learned() && i + static_cast<size_t>(m.batch) >= list->size() && so != sc) continue;
                    PBT_CHECK(!std::includes(sc.begin(), sc.end(), so.begin(), so.end()), "the learned clause " << text(cl) << " is subsumed by the known clause " << text(ints(o)));
                }
        }
        if (m.budget) {
            --m.budget;
            std::vector<int> neg;
            for (int l : cl) neg.push_back(-l);
            auto r = m.dpll->solve(neg, 300);
            if (r == Dpll::UNKNOWN) {
                ++m.n_unknown;
                m.budget = 0;
            }
            PBT_CHECK(r != Dpll::SAT, "the learned clause " << text(cl) << " is not implied by the asserted clauses");
        }
    }

private:
    Monitor& m;
    mutable uint64_t s;
    int den;
    std::unique_ptr<yaga::Restart> inner;
};

/** Picks any unassigned variable. */
class Random_order final : public yaga::Variable_order {
public:
    explicit Random_order(uint64_t seed) : s(seed) {}
    std::optional<Variable> pick(Database&, Trail& trail) override
    {
        auto const& model = trail.model<bool>(Variable::boolean);
        std::vector<int> open;
        for (int i = 0; i < static_cast<int>(model.num_vars()); ++i)
            if (!model.is_defined(i)) open.push_back(i);
        if (open.empty()) return {};
        return Variable{open[pbt::splitmix(s) % open.size()], Variable::boolean};
    }
    bool is_before(Variable a, Variable b) const override { return a.ord() < b.ord(); }

private:
    uint64_t s;
};

struct Setup {
    yaga::Solver solver;
    yaga::Linear_arithmetic lra; // needed by Generalized_vsids, owns no variables
    std::string desc;
};

void configure(pbt::Ctx& c, Setup& st, Monitor& m)
{
    auto& th = st.solver.set_theory<Checked_theory>(m);
    switch (c.below(3)) {
    case 0: th.set_phase(yaga::Phase::positive); st.desc += " phase=positive"; break;
    case 1: th.set_phase(yaga::Phase::negative); st.desc += " phase=negative"; break;
    default: th.set_phase(yaga::Phase::cache); st.desc += " phase=cache";
    }
    std::unique_ptr<yaga::Restart> inner;
    int den = 0;
    uint64_t seed = 0;
    switch (c.below(4)) {
    case 0: inner = std::make_unique<yaga::No_restart>(); st.desc += " restart=none"; break;
    case 1: inner = std::make_unique<yaga::Luby_restart>(); st.desc += " restart=luby"; break;
    case 2: {
        auto g = std::make_unique<yaga::Glucose_restart>();
        int mc = static_cast<int>(c.range(1, 50)), se = static_cast<int>(c.range(3, 13)), fe = static_cast<int>(c.range(1, 5));
        g->set_min_conflicts(mc).set_slow_exp(se).set_fast_exp(fe);
        if (c.coin()) g->set_threshold(1.1f);
        st.desc += " restart=glucose(" + std::to_string(mc) + "," + std::to_string(se) + "," + std::to_string(fe) + ")";
        inner = std::move(g);
        break;
    }
    default:
        den = static_cast<int>(c.range(2, 12));
        seed = c.below(1u << 30);
        st.desc += " restart=random(1/" + std::to_string(den) + ")";
    }
    st.solver.set_restart_policy<Scripted_restart>(m, seed, den, std::move(inner));
    switch (c.below(4)) {
    case 0: st.solver.set_variable_order<yaga::Evsids>(); st.desc += " order=evsids"; break;
    case 1: st.solver.set_variable_order<yaga::First_unassigned>(); st.desc += " order=first"; break;
    case 2: st.solver.set_variable_order<Random_order>(c.below(1u << 30)); st.desc += " order=random"; break;
    default:
        st.solver.set_variable_order<yaga::Generalized_vsids>(st.lra);
        st.desc += " order=generalized-vsids";
    }
}

void add_clauses(yaga::Solver& s, std::vector<Cl> const& cls, size_t from)
{
    for (size_t i = from; i < cls.size(); ++i) {
        Clause k;
        for (int l : cls[i]) k.push_back(literal(l));
        s.db().assert_clause(std::move(k));
    }
}

void check_model(yaga::Solver& s, Cnf const& f)
{
    auto const& model = s.trail().model<bool>(Variable::boolean);
    std::vector<int> val(f.n + 1, 0);
    for (int i = 1; i <= f.n; ++i) {
        PBT_CHECK(model.is_defined(i - 1), "answer sat, but variable " << i << " has no value");
        val[i] = model.value(i - 1) ? 1 : -1;
    }
    for (auto& k : f.cls) PBT_CHECK(satisfies(val, k), "answer sat, but the model falsifies the clause " << text(k));
}

void sat_case(pbt::Ctx& c, Cnf f, bool several = false)
{
    Monitor m;
    m.f = &f;
    m.bcp = std::string(PROP_ID) == "C14";
    m.learned = std::string(PROP_ID) == "C09";
    if (m.learned) m.dpll = std::make_unique<Dpll>(f.n, f.cls);
    if (several) m.all = c.below(1u << 30) + 1;
    Setup st;
    configure(c, st, m);
    c.note << "configuration:" << st.desc << (several ? "; all conflicts are reported" : "") << "\n" << show(f);
    c.publish();
    st.lra.on_variable_resize(Variable::boolean, f.n);
    st.solver.trail().set_model<bool>(Variable::boolean, f.n);
    st.solver.trail().set_model<yaga::Rational>(Variable::rational, 0);
    add_clauses(st.solver, f.cls, 0);
    bool sat = st.solver.check() == yaga::Solver::Result::sat;
    c.label(sat ? "sat" : "unsat");
    if (m.n_restarts) c.label("restarted");
    if (m.n_learned >= 10) c.label("10+ learned clauses");
    if (std::string(PROP_ID) == "C08") {
        if (sat) check_model(st.solver, f);
        else {
            int t = truth(f);
            PBT_CHECK(t != 1, "answer unsat, but the clauses are satisfiable");
        }
        PBT_CHECK(!(sat && f.known_unsat), "answer sat, but the clauses are unsatisfiable by construction");
        // the same question again
        bool again = st.solver.check() == yaga::Solver::Result::sat;
        PBT_CHECK(again == sat, "the second check answers " << (again ? "sat" : "unsat") << " after " << (sat ? "sat" : "unsat"));
        if (again) check_model(st.solver, f);
        if (f.cls.size() >= 3) c.nontrivial(pbt::hash_str(show(f) + st.desc));
    } else if (m.learned) {
        c.label("learned clauses", m.n_learned);
        c.label("implication unknown", m.n_unknown);
        if (several) c.label("several conflicts at once", m.n_all);
        if (m.n_learned) c.nontrivial(pbt::hash_str(show(f) + st.desc));
    } else {
        c.label("propagations", m.n_implied);
        c.label("conflicts", m.n_conflicts);
        if (m.n_implied >= 5) c.nontrivial(pbt::hash_str(show(f) + st.desc));
    }
}

/** Clauses asserted between checks (only C08). */
void incremental(pbt::Ctx& c)
{
    Cnf f = any(c, 1);
    f.planted = f.known_unsat = false;
    Monitor m;
    Setup st;
    configure(c, st, m);
    std::vector<size_t> cuts;
    int steps = static_cast<int>(c.range(1, 3));
    for (int i = 0; i < steps; ++i) cuts.push_back(c.below(f.cls.size() + 1));
    std::sort(cuts.begin(), cuts.end());
    cuts.push_back(f.cls.size());
    c.note << "configuration:" << st.desc << "; checks after";
    for (auto k : cuts) c.note << " " << k;
    c.note << " clauses\n" << show(f);
    c.publish();
    st.lra.on_variable_resize(Variable::boolean, f.n);
    st.solver.trail().set_model<bool>(Variable::boolean, f.n);
    st.solver.trail().set_model<yaga::Rational>(Variable::rational, 0);
    size_t done = 0;
    uint64_t learned = 0, restarts = 0;
    for (size_t k : cuts) {
        Cnf g = f;
        g.cls.resize(k);
        add_clauses(st.solver, g.cls, done);
        done = k;
        bool sat = st.solver.check() == yaga::Solver::Result::sat;
        // the counters are about the last check
        PBT_CHECK(st.solver.num_learned_clauses() == static_cast<int>(m.n_learned - learned), "num_learned_clauses() is " << st.solver.num_learned_clauses() << ", but "
                      << m.n_learned - learned << " clauses were learned in the last check");
        PBT_CHECK(st.solver.num_restarts() == static_cast<int>(m.n_restarts - restarts), "num_restarts() is " << st.solver.num_restarts() << ", but there were "
                      << m.n_restarts - restarts << " restarts in the last check");
        learned = m.n_learned;
        restarts = m.n_restarts;
        if (sat) check_model(st.solver, g);
        else PBT_CHECK(truth(g) != 1, "answer unsat after " << k << " clauses, which are satisfiable");
    }
    if (f.cls.size() >= 3) c.nontrivial(pbt::hash_str(show(f) + st.desc));
}

/** The theory without a solver: arbitrary learned clauses, backtracking, restarts and new checks (only C14). */
void steps(pbt::Ctx& c)
{
    Cnf f = c.chance(2, 3) ? random_small(c) : any(c, 1);
    Monitor m;
    m.f = &f;
    m.bcp = true;
    Checked_theory th(m);
    auto phase = c.below(3);
    th.set_phase(phase == 0 ? yaga::Phase::positive : phase == 1 ? yaga::Phase::negative : yaga::Phase::cache);
    std::ostringstream log;
    log << "phase " << phase << "\n" << show(f);
    Database db;
    yaga::Event_dispatcher d;
    d.add(&th);
    Trail trail{d};
    auto& model = trail.set_model<bool>(Variable::boolean, f.n);
    d.on_variable_resize(Variable::boolean, f.n);
    auto assert_some = [&](size_t from, size_t to) {
        for (size_t i = from; i < to; ++i) {
            Clause k;
            for (int l : f.cls[i]) k.push_back(literal(l));
            db.assert_clause(std::move(k));
        }
    };
    size_t asserted = c.chance(1, 2) ? f.cls.size() : c.below(f.cls.size() + 1);
    assert_some(0, asserted);
    log << asserted << " clauses are asserted\n";
    int checks = static_cast<int>(c.range(1, 4)), n = static_cast<int>(c.range(5, 120)), learned = 0, units = 0;
    auto again = [&] {
        if (--checks <= 0) return false;
        if (!trail.empty()) {
            d.on_before_backtrack(db, trail, -1);
            trail.clear();
        }
        size_t to = asserted + c.below(f.cls.size() - asserted + 1);
        assert_some(asserted, to);
        asserted = to;
        d.on_init(db, trail);
        log << "new check, " << asserted << " clauses\n";
        return true;
    };
    auto false_at = [&](int level) { // a false literal of this level
        auto range = trail.assigned(level);
        std::vector<Variable> vars;
        for (auto [var, _] : range) vars.push_back(var);
        auto var = vars[c.chance(1, 2) ? 0 : c.below(vars.size())];
        return model.value(var.ord()) ? ~Literal{var.ord()} : Literal{var.ord()};
    };
    d.on_init(db, trail);
    for (; n > 0; --n) {
        c.note.str("");
        c.note << log.str();
        c.publish();
        auto conflicts = th.propagate(db, trail);
        int top = trail.decision_level();
        if (!conflicts.empty() && top == 0) {
            log << "conflict at level 0\n";
            if (!again()) break;
        } else if (!conflicts.empty()) {
            int level = static_cast<int>(c.below(static_cast<uint64_t>(top)));
            std::vector<Clause*> added;
            for (int i = static_cast<int>(c.range(1, 2)); i; --i) {
                Clause k{false_at(top)};
                if (level > 0) k.push_back(false_at(level));
                for (int j = level - 1; j > 0; --j)
                    if (c.chance(1, 2)) k.push_back(false_at(j));
                log << "conflict, learned: " << text(ints(k)) << "\n";
                auto& ref = db.learn_clause(std::move(k));
                d.on_learned_clause(db, trail, ref);
                added.push_back(&ref);
                ++learned;
                units += level == 0;
            }
            if (c.chance(1, 3)) {
                log << "restart\n";
                d.on_before_backtrack(db, trail, 0);
                trail.clear();
                d.on_restart(db, trail);
            } else {
                log << "backtrack to level " << level << "\n";
                d.on_before_backtrack(db, trail, level);
                trail.backtrack(level);
                for (auto* k : added) {
                    auto l = (*k)[0];
                    if (!model.is_defined(l.var().ord())) {
                        trail.propagate(l.var(), k, level);
                        model.set_value(l.var().ord(), !l.is_negation());
                    }
                }
            }
        } else {
            std::vector<int> open;
            for (int i = 0; i < f.n; ++i)
                if (!model.is_defined(i)) open.push_back(i);
            if (open.empty()) {
                if (!again()) break;
                continue;
            }
            Variable var{open[c.below(open.size())], Variable::boolean};
            th.decide(db, trail, var);
            log << "decide " << (model.value(var.ord()) ? "" : "-") << var.ord() + 1 << "\n";
        }
    }
    c.label("propagations", m.n_implied);
    c.label("conflicts", m.n_conflicts);
    if (units) c.label("learned a unit clause");
    if (m.n_implied >= 3 && learned) c.nontrivial(pbt::hash_str(log.str()));
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    std::string id = PROP_ID;
    p.rule = "clause sets (random, 3-SAT near the threshold, planted, pigeonhole, parity, colouring, implication chains) solved with a random phase strategy, "
             "variable order (Evsids, generalised VSIDS, first unassigned, random) and restart policy (none, Luby, Glucose with random parameters, random restarts); non-trivial: ";
    p.rule += id == "C08" ? "at least 3 clauses" : id == "C09" ? "at least one clause was learned" : "at least 5 literals were propagated";
    p.rule += "; distinct by clauses and configuration";
    p.assumptions = {"oracle: DPLL written for the harness; z3 for instances beyond its node limit"};
    p.subs.push_back({"small", [](pbt::Ctx& c) { sat_case(c, random_small(c)); }, 40000, 1000000});
    p.subs.push_back({"mixed", [](pbt::Ctx& c) { sat_case(c, any(c, 1)); }, 40000, 600000});
    p.subs.push_back({"hard", [](pbt::Ctx& c) { sat_case(c, any(c, 2)); }, 6000, 100000});
    if (id != "C14") p.subs.push_back({"several", [](pbt::Ctx& c) { sat_case(c, c.coin() ? random_small(c) : any(c, 1), true); }, 30000, 600000});
    if (id == "C14") p.subs.push_back({"steps", steps, 60000, 1500000});
    if (id == "C08") p.subs.push_back({"incremental", incremental, 20000, 300000});
    return pbt::run_main(argc, argv, p);
}
