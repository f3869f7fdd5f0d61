// Components of the core against reference models:
// C10 subsumption and minimisation, C11 trail and models, C12 variable orders, C13 restart policies.
#include "cnf.h"
#include "Conflict_analysis.h"
#include "Database.h"
#include "Event_dispatcher.h"
#include "Bool_theory.h"
#include "Solver.h"
#include "Theory_combination.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Restart.h"
#include "Subsumption.h"
#include "Trail.h"
#include "Variable_priority_queue.h"
#include <cmath>
#include <deque>
#include <map>
#include <memory>
#include <set>

using namespace cnf;
using yaga::Clause;
using yaga::Database;
using yaga::Event_dispatcher;
using yaga::Literal;
using yaga::Rational;
using yaga::Trail;
using yaga::Variable;

namespace {

int dimacs(Literal l) { return (l.var().ord() + 1) * (l.is_negation() ? -1 : 1); }
Literal literal(int l) { return l < 0 ? ~Literal{-l - 1} : Literal{l - 1}; }
Cl ints(Clause const& k)
{
    Cl r;
    for (auto l : k) r.push_back(dimacs(l));
    return r;
}
Clause clause(Cl const& k)
{
    Clause r;
    for (int l : k) r.push_back(literal(l));
    return r;
}
Cl sorted(Cl k)
{
    std::sort(k.begin(), k.end());
    return k;
}
std::string text(Cl const& k)
{
    std::string s = "(";
    for (int l : k) s += std::to_string(l) + " ";
    if (!k.empty()) s.pop_back();
    return s + ")";
}
Variable bvar(int i) { return Variable{i, Variable::boolean}; }
Variable rvar(int i) { return Variable{i, Variable::rational}; }
bool subset(Cl const& a, Cl const& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); } // sorted

// ---------------------------------------------------------------- C10

void subsumption(pbt::Ctx& c)
{
    int n = static_cast<int>(c.range(1, c.chance(1, 4) ? 80 : 8)); // more than 32 variables: signatures collide
    yaga::Subsumption s;
    Event_dispatcher d;
    d.add(&s);
    Trail trail{d};
    trail.set_model<bool>(Variable::boolean, n);
    Database db;
    std::vector<Cl> asserted;
    int na = static_cast<int>(c.range(0, 4));
    for (int i = 0; i < na; ++i) {
        asserted.push_back(distinct_clause(c, n, static_cast<int>(c.range(1, 4))));
        db.assert_clause(clause(asserted.back()));
    }
    std::vector<Cl> model; // expected learned clauses as written, in order
    int rounds = static_cast<int>(c.range(1, 4));
    bool removed = false;
    for (int r = 0; r < rounds; ++r) {
        if (c.chance(1, 4) && r > 0) { // new variables
            n += static_cast<int>(c.range(1, 3));
            trail.resize(Variable::boolean, n);
        }
        int k = static_cast<int>(c.range(0, 8));
        c.note << "round " << r << ":";
        for (int i = 0; i < k; ++i) {
            Cl cl;
            if (!model.empty() && c.chance(1, 2)) { // derive from an existing clause
                cl = c.pick(model);
                size_t op = c.below(4);
                if (op == 0 && cl.size() > 1) cl.erase(cl.begin() + static_cast<long>(c.below(cl.size())));
                if (op == 1) {
                    int v = static_cast<int>(c.range(1, n));
                    bool has = false;
                    for (int l : cl) has = has || std::abs(l) == v;
                    if (!has) cl.insert(cl.begin() + static_cast<long>(c.below(cl.size() + 1)), c.coin() ? v : -v);
                }
                if (op == 2) {
                    size_t j = c.below(cl.size());
                    cl[j] = -cl[j];
                }
                if (cl.size() > 1 && c.coin()) std::swap(cl[0], cl[c.below(cl.size())]);
            } else {
                cl = distinct_clause(c, n, static_cast<int>(c.range(1, 6)));
            }
            model.push_back(cl);
            db.learn_clause(clause(cl));
            c.note << " " << text(cl);
        }
        c.note << "\n";
        c.publish();
        s.on_restart(db, trail);
        std::vector<Cl> want;
        for (auto& a : model) {
            bool sub = false;
            for (auto& b : model) sub = sub || (b.size() < a.size() && subset(sorted(b), sorted(a)));
            if (!sub) want.push_back(a);
        }
        std::vector<Cl> got;
        for (auto& k2 : db.learned()) got.push_back(ints(k2));
        auto key = [](std::vector<Cl> v) {
            for (auto& k2 : v) k2 = sorted(k2);
            std::sort(v.begin(), v.end());
            return v;
        };
        auto kg = key(got), kw = key(want), km = key(model);
        for (auto& g : kg) PBT_CHECK(std::binary_search(km.begin(), km.end(), g), "clause " << text(g) << " appeared among the learned clauses");
        for (auto& w : kw) PBT_CHECK(std::count(kg.begin(), kg.end(), w) == std::count(kw.begin(), kw.end(), w), "clause " << text(w) << " is not subsumed but it occurs "
                                     << std::count(kg.begin(), kg.end(), w) << " times after the restart instead of " << std::count(kw.begin(), kw.end(), w));
        PBT_CHECK(kg.size() == kw.size(), "a subsumed clause is left: " << kg.size() << " learned clauses after the restart, " << kw.size() << " expected");
        removed = removed || want.size() < model.size();
        model = got;
        PBT_CHECK(db.asserted().size() == asserted.size(), "the number of asserted clauses changed");
        for (size_t i = 0; i < asserted.size(); ++i) PBT_CHECK(sorted(ints(db.asserted()[i])) == sorted(asserted[i]), "asserted clause " << text(asserted[i]) << " changed");
    }
    if (removed) c.label("removed");
    if (removed) c.nontrivial(pbt::hash_str(c.note.str()));
}

/** A random consistent trail: decisions and propagations with reasons which are unit when they propagate. */
struct Random_trail {
    Event_dispatcher d;
    Trail trail{d};
    std::deque<Clause> reasons;
    int n, nr;
    std::vector<int> order;          // variables in the order of assignment
    std::vector<int> val, lev, pos;  // by variable (0-based); lev -1: unassigned
    bool semantic_only_top = false;
    Random_trail(pbt::Ctx& c, int n, bool rationals, bool late) : n(n), nr(rationals ? 6 : 0), val(n, 0), lev(n, -1), pos(n, -1)
    {
        trail.set_model<bool>(Variable::boolean, n);
        if (nr) trail.set_model<Rational>(Variable::rational, nr);
        auto& model = trail.model<bool>(Variable::boolean);
        int next_real = 0;
        int steps = static_cast<int>(c.range(1, n));
        std::vector<int> open;
        for (int i = 0; i < n; ++i) open.push_back(i);
        for (int s = 0; s < steps && !open.empty(); ++s) {
            int level = trail.decision_level();
            size_t kind = c.weighted({6, 3, nr ? 2 : 0, nr ? 2 : 0});
            if (kind == 2 && next_real < nr) {
                trail.model<Rational>(Variable::rational).set_value(next_real, Rational{1});
                trail.decide(rvar(next_real++));
                c.note << "decide r" << next_real - 1 << "\n";
                continue;
            }
            size_t oi = c.below(open.size());
            int v = open[oi];
            bool b = c.coin();
            if (kind == 1 || (kind == 2 && next_real >= nr)) {
                open.erase(open.begin() + static_cast<long>(oi));
                model.set_value(v, b);
                trail.decide(bvar(v));
                assign(v, b, trail.decision_level());
                c.note << "decide " << (b ? v + 1 : -v - 1) << "\n";
            } else if (kind == 3 && nr && level > 0) { // semantic propagation
                int l = late ? static_cast<int>(c.range(0, level)) : level;
                open.erase(open.begin() + static_cast<long>(oi));
                model.set_value(v, b);
                trail.propagate(bvar(v), nullptr, l);
                assign(v, b, l);
                c.note << "semantic " << (b ? v + 1 : -v - 1) << " at " << l << "\n";
            } else { // propagation by a clause
                Cl cl{b ? v + 1 : -v - 1};
                int width = static_cast<int>(c.range(0, 4)), l = 0;
                for (int j = 0; j < width && !order.empty(); ++j) {
                    int o = order[order.size() - 1 - c.below(std::min<size_t>(order.size(), 6))];
                    int lit = val[o] > 0 ? -o - 1 : o + 1;
                    if (std::find(cl.begin(), cl.end(), lit) == cl.end()) cl.push_back(lit);
                    l = std::max(l, lev[o]);
                }
                if (!late) {
                    l = level;
                    // BCP propagates at the level of its last literal
                    bool has = level == 0;
                    for (size_t j = 1; j < cl.size(); ++j) has = has || lev[std::abs(cl[j]) - 1] == level;
                    if (!has) continue;
                }
                open.erase(open.begin() + static_cast<long>(oi));
                if (c.coin() && cl.size() > 1) std::swap(cl[0], cl[c.below(cl.size())]);
                reasons.push_back(clause(cl));
                model.set_value(v, b);
                trail.propagate(bvar(v), &reasons.back(), l);
                assign(v, b, l);
                c.note << "propagate " << (b ? v + 1 : -v - 1) << " at " << l << " because of " << text(cl) << "\n";
            }
        }
    }
    void assign(int v, bool b, int l)
    {
        val[v] = b ? 1 : -1;
        lev[v] = l;
        pos[v] = static_cast<int>(order.size());
        order.push_back(v);
    }
    int false_lit(int v) const { return val[v] > 0 ? -v - 1 : v + 1; }
    int level(int lit) const { return lev[std::abs(lit) - 1]; }
};

void minimize(pbt::Ctx& c)
{
    Random_trail t(c, static_cast<int>(c.range(1, 14)), c.coin(), c.coin());
    if (t.order.empty()) c.discard();
    yaga::Subsumption s;
    s.on_variable_resize(Variable::boolean, t.n);
    Cl cl;
    int w = static_cast<int>(c.range(1, 10));
    for (int i = 0; i < w; ++i) {
        int l = t.false_lit(c.pick(t.order));
        if (std::find(cl.begin(), cl.end(), l) == cl.end()) cl.push_back(l);
    }
    // as conflict analysis orders it
    std::stable_sort(cl.begin(), cl.end(), [&](int a, int b) { return t.level(a) > t.level(b); });
    c.note << "minimize " << text(cl) << "\n";
    c.publish();
    Clause k = clause(cl);
    s.minimize(t.trail, k);
    Cl got = ints(k);
    size_t at = 0;
    for (int l : got) {
        while (at < cl.size() && cl[at] != l) ++at;
        PBT_CHECK(at < cl.size(), "the result " << text(got) << " is not a subsequence of the clause");
        ++at;
    }
    Cl full = sorted(cl), res = sorted(got);
    auto redundant = [&](int l, Cl const& base) {
        auto r = t.trail.reason(bvar(std::abs(l) - 1));
        if (!r) return false;
        for (int o : ints(*r))
            if (o != -l && !std::binary_search(base.begin(), base.end(), o)) return false;
        return true;
    };
    for (int l : cl) {
        bool kept = std::binary_search(res.begin(), res.end(), l);
        PBT_CHECK(kept || redundant(l, full), "literal " << l << " was removed although it cannot be resolved away, result " << text(got));
        if (kept) PBT_CHECK(!redundant(l, res), "literal " << l << " is redundant in the result " << text(got));
    }
    if (got.size() < cl.size()) {
        c.label("shortened");
        c.nontrivial(pbt::hash_str(c.note.str()));
    }
}

// ---------------------------------------------------------------- C09 (conflict analysis on arbitrary trails)

void analysis(pbt::Ctx& c)
{
    Random_trail t(c, static_cast<int>(c.range(1, 14)), c.coin(), c.coin());
    if (t.order.empty()) c.discard();
    static thread_local yaga::Conflict_analysis an; // reused, as in the solver
    int rounds = static_cast<int>(c.range(1, 3));
    for (int round = 0; round < rounds; ++round) {
        Cl cl;
        int w = static_cast<int>(c.range(1, 7));
        for (int i = 0; i < w; ++i) {
            int l = t.false_lit(t.order[t.order.size() - 1 - c.below(std::min<size_t>(t.order.size(), 8))]);
            if (std::find(cl.begin(), cl.end(), l) == cl.end() || c.chance(1, 10)) cl.push_back(l);
        }
        c.note << "conflict " << text(cl) << "\n";
        c.publish();
        int conflict_top = 0;
        for (int l : cl) conflict_top = std::max(conflict_top, t.level(l));
        std::vector<Clause const*> resolved;
        auto [k, level] = an.analyze(t.trail, clause(cl), [&](Clause const& r) { resolved.push_back(&r); });
        Cl got = ints(k);
        std::string what = text(got) + ", level " + std::to_string(level);
        // implied by the conflict and the reasons of the trail
        std::vector<Cl> prem{cl};
        for (auto& r : t.reasons) prem.push_back(ints(r));
        std::vector<int> neg;
        for (int l : got) neg.push_back(-l);
        Dpll d(t.n, prem);
        PBT_CHECK(d.solve(neg, 1u << 20) == Dpll::UNSAT, "the derived clause " << what << " is not implied by the conflict clause and the reasons");
        std::set<int> seen;
        int prev = 1 << 30, top = -1, at_top = 0;
        for (int l : got) {
            PBT_CHECK(t.lev[std::abs(l) - 1] >= 0 && t.false_lit(std::abs(l) - 1) == l, "literal " << l << " of the derived clause " << what << " is not false");
            PBT_CHECK(seen.insert(l).second, "literal " << l << " occurs twice in " << what);
            PBT_CHECK(t.level(l) <= prev, "the derived clause " << what << " is not ordered by level");
            prev = t.level(l);
            if (prev > top) top = prev, at_top = 0;
            if (prev == top) ++at_top;
        }
        PBT_CHECK(top <= conflict_top, "the derived clause " << what << " contains a level above the conflict");
        for (auto* r : resolved) {
            bool known = false;
            for (auto& q : t.reasons) known = known || &q == r;
            PBT_CHECK(known, "a clause was reported as resolved which is not a reason");
        }
        if (got.empty()) {
            c.label("empty");
        } else if (at_top == 1) {
            int want = got.size() == 1 ? 0 : t.level(got[1]);
            PBT_CHECK(level == want, "the derived clause " << what << " asserts its first literal at level " << want);
            c.label(got.size() == 1 ? "unit" : "asserting");
        } else {
            PBT_CHECK(level == top - 1, "the semantic split clause " << what << " belongs to level " << top - 1);
            for (int i = 0; i < at_top; ++i)
                PBT_CHECK(t.trail.reason(bvar(std::abs(got[i]) - 1)) == nullptr, "literal " << got[i] << " of the semantic split clause " << what << " can still be resolved");
            c.label("semantic split");
        }
        // a unit clause at a level above 0 must be a consequence of nothing else on that level
        if (!resolved.empty()) c.nontrivial(pbt::hash_str(c.note.str()));
    }
}

// ---------------------------------------------------------------- C11

void trail_history(pbt::Ctx& c)
{
    struct Listener : yaga::Event_listener {
        std::map<int, int> size;
        void on_variable_resize(Variable::Type t, int n) override { size[t] = n; }
    } listener;
    struct Ref {
        int lev = -1;
        Clause const* reason = nullptr;
        bool defined = false;
        long value = 0;
        long ts = -1;
    };
    Event_dispatcher d;
    d.add(&listener);
    Trail trail{d};
    int num[2] = {0, 0};
    bool have[2] = {false, false};
    std::vector<Ref> ref[2];
    std::vector<std::vector<std::pair<int, int>>> stack(1); // (type, ord)
    std::deque<Clause> reasons;
    auto type = [](int t) { return t ? Variable::rational : Variable::boolean; };
    auto set = [&](int t, int v, long x) {
        if (t) trail.model<Rational>(type(t)).set_value(v, Rational{static_cast<int>(x)});
        else trail.model<bool>(type(t)).set_value(v, x != 0);
    };
    auto get = [&](int t, int v) -> long {
        if (t) return trail.model<Rational>(type(t)).value(v) == Rational{static_cast<int>(ref[1][v].value)} ? ref[1][v].value : -99999;
        return trail.model<bool>(type(t)).value(v) ? 1 : 0;
    };
    for (int t = 0; t < 2; ++t)
        if (t == 0 || c.coin()) {
            num[t] = static_cast<int>(c.range(0, 5));
            have[t] = true;
            if (t) trail.set_model<Rational>(type(t), num[t]);
            else trail.set_model<bool>(type(t), num[t]);
            ref[t].resize(num[t]);
        }
    long clock = 0;
    int steps = static_cast<int>(c.range(1, 40));
    bool back = false, late = false;
    for (int s = 0; s < steps; ++s) {
        std::vector<std::pair<int, int>> open;
        for (int t = 0; t < 2; ++t)
            for (int v = 0; v < num[t]; ++v)
                if (ref[t][v].lev < 0) open.push_back({t, v});
        int level = static_cast<int>(stack.size()) - 1;
        switch (c.weighted({6, 6, 3, 1, 1, 1})) {
        case 0:
            if (!open.empty()) {
                auto [t, v] = c.pick(open);
                long x = t ? c.range(-3, 3) : c.range(0, 1);
                c.note << "decide " << (t ? "r" : "b") << v << " = " << x << "\n";
                bool first = c.coin(); // both orders are used by callers
                if (first) set(t, v, x);
                trail.decide(Variable{v, type(t)});
                if (!first) set(t, v, x);
                stack.push_back({{t, v}});
                ref[t][v] = {level + 1, nullptr, true, x, clock++};
            }
            break;
        case 1:
            if (!open.empty()) {
                auto [t, v] = c.pick(open);
                long x = t ? c.range(-3, 3) : c.range(0, 1);
                int l = c.coin() ? level : static_cast<int>(c.range(0, level));
                Clause* r = nullptr;
                if (c.coin()) {
                    reasons.push_back(Clause{});
                    r = &reasons.back();
                }
                c.note << "propagate " << (t ? "r" : "b") << v << " = " << x << " at " << l << (r ? "" : " without a reason") << "\n";
                set(t, v, x);
                trail.propagate(Variable{v, type(t)}, r, l);
                for (int i = l; i <= level; ++i) stack[i].push_back({t, v});
                ref[t][v] = {l, r, true, x, clock++};
                late = late || l < level;
            }
            break;
        case 2: {
            int l = static_cast<int>(c.range(0, level));
            c.note << "backtrack " << l << "\n";
            trail.backtrack(l);
            back = back || l < level;
            stack.resize(l + 1);
            for (auto& rs : ref)
                for (auto& r : rs)
                    if (r.lev > l) r.lev = -1, r.reason = nullptr, r.defined = false;
            break;
        }
        case 3:
            c.note << "clear\n";
            trail.clear();
            stack.assign(1, {});
            for (auto& rs : ref)
                for (auto& r : rs) r.lev = -1, r.reason = nullptr, r.defined = false;
            break;
        case 4: {
            int t = have[1] ? static_cast<int>(c.below(2)) : 0;
            num[t] += static_cast<int>(c.range(1, 3));
            c.note << "resize " << t << " to " << num[t] << "\n";
            trail.resize(type(t), num[t]);
            ref[t].resize(num[t]);
            PBT_CHECK(listener.size[type(t)] == num[t], "listeners were told about " << listener.size[type(t)] << " variables of type " << t << " instead of " << num[t]);
            break;
        }
        default:
            if (!have[1]) {
                num[1] = static_cast<int>(c.range(0, 4));
                have[1] = true;
                c.note << "add a model with " << num[1] << " rational variables\n";
                trail.set_model<Rational>(Variable::rational, num[1]);
                ref[1].resize(num[1]);
                PBT_CHECK(listener.size[Variable::rational] == num[1], "listeners were not told about the new variables");
            }
        }
        c.publish();
        PBT_CHECK(trail.decision_level() == static_cast<int>(stack.size()) - 1, "decision level " << trail.decision_level() << " instead of " << stack.size() - 1);
        PBT_CHECK(trail.empty() == (stack.size() == 1 && stack[0].empty()), "empty() is " << trail.empty());
        for (size_t l = 0; l < stack.size(); ++l) {
            auto const& a = trail.assigned(static_cast<int>(l));
            PBT_CHECK(a.size() == stack[l].size(), "level " << l << " has " << a.size() << " elements instead of " << stack[l].size());
            for (size_t i = 0; i < a.size(); ++i) {
                auto [t, v] = stack[l][i];
                PBT_CHECK(a[i].var == (Variable{v, type(t)}), "element " << i << " of level " << l << " is wrong");
                PBT_CHECK(a[i].reason == ref[t][v].reason, "reason of element " << i << " of level " << l << " is wrong");
            }
        }
        PBT_CHECK(trail.recent().size() == stack.back().size(), "recent() has " << trail.recent().size() << " elements");
        std::vector<std::pair<long, long>> stamps;
        for (int t = 0; t < 2; ++t) {
            if (!have[t]) continue;
            auto const& mb = trail.model(type(t));
            PBT_CHECK(static_cast<int>(mb.num_vars()) == num[t], "the model of type " << t << " has " << mb.num_vars() << " variables instead of " << num[t]);
            long prev_ts = -1, prev_ref = -1;
            (void)prev_ts, (void)prev_ref;
            std::vector<std::pair<long, long>> ts;
            for (int v = 0; v < num[t]; ++v) {
                Variable var{v, type(t)};
                auto& r = ref[t][v];
                PBT_CHECK(mb.is_defined(v) == r.defined, "variable " << v << " of type " << t << " is " << (r.defined ? "un" : "") << "defined");
                PBT_CHECK(trail.decision_level(var) == (r.lev < 0 ? std::optional<int>{} : std::optional<int>{r.lev}), "level of variable " << v << " of type " << t << " is "
                              << trail.decision_level(var).value_or(-1) << " instead of " << r.lev);
                PBT_CHECK(trail.reason(var) == r.reason, "reason of variable " << v << " of type " << t << " is wrong");
                PBT_CHECK(get(t, v) == r.value, "the value of variable " << v << " of type " << t << " changed");
                if (r.defined) ts.push_back({r.ts, mb.timestamp(v)});
            }
            std::sort(ts.begin(), ts.end());
            for (size_t i = 1; i < ts.size(); ++i)
                PBT_CHECK(ts[i - 1].second < ts[i].second, "timestamps of type " << t << " do not follow the order of the assignments");
        }
        auto ms = trail.models();
        PBT_CHECK(ms.size() == static_cast<size_t>(have[0] + have[1]), "models() has " << ms.size() << " elements");
        // evaluation of literals and clauses in the partial model
        if (num[0] > 0) {
            auto const& bm = trail.model<bool>(Variable::boolean);
            Clause k;
            bool any_true = false, all_false = true;
            int w = static_cast<int>(c.range(0, 3));
            for (int i = 0; i < w; ++i) {
                int v = static_cast<int>(c.below(num[0]));
                bool neg = c.coin();
                Literal l = neg ? ~Literal{v} : Literal{v};
                k.push_back(l);
                auto& r = ref[0][v];
                std::optional<bool> want;
                if (r.defined) want = (r.value != 0) != neg;
                PBT_CHECK(yaga::eval(bm, l) == want, "value of a literal of variable " << v);
                any_true = any_true || want == true;
                all_false = all_false && want == false;
            }
            std::optional<bool> want;
            if (any_true) want = true;
            else if (all_false) want = false;
            PBT_CHECK(yaga::eval(bm, k) == want, "value of the clause " << text(ints(k)));
        }
    }
    if (back) c.label("backtracked");
    if (late) c.label("propagated below the current level");
    if (back && late) c.nontrivial(pbt::hash_str(c.note.str()));
}

// ---------------------------------------------------------------- C12

void queue_history(pbt::Ctx& c)
{
    yaga::Variable_priority_queue q;
    std::map<std::pair<int, int>, float> ref; // (type, ord) -> score
    auto before = [](std::pair<std::pair<int, int>, float> const& a, std::pair<std::pair<int, int>, float> const& b) {
        return a.second > b.second || (a.second == b.second && a.first < b.first);
    };
    static const std::vector<float> scale{1.f, 1.f, 1.f, 1e30f, 1e-30f};
    auto score = [&] { return static_cast<float>(c.range(0, 12)) * 0.5f * c.pick(scale); };
    int n = static_cast<int>(c.range(1, c.chance(1, 6) ? 60 : 12));
    int steps = static_cast<int>(c.range(1, c.chance(1, 6) ? 200 : 50));
    int pops = 0, updates = 0;
    for (int s = 0; s < steps; ++s) {
        int t = static_cast<int>(c.below(2)), v = static_cast<int>(c.below(n));
        Variable var{v, t ? Variable::rational : Variable::boolean};
        std::pair<int, int> key{t, v};
        switch (c.weighted({6, 3, 5, 1})) {
        case 0:
            if (!ref.count(key)) {
                float x = score();
                c.note << "push " << t << "/" << v << " " << x << "\n";
                q.push(var, x);
                ref[key] = x;
            }
            break;
        case 1:
            if (!ref.empty()) {
                std::pair<std::pair<int, int>, float> best = *ref.begin();
                for (auto& e : ref)
                    if (before({e.first, e.second}, {best.first, best.second})) best = e;
                c.note << "pop\n";
                q.pop();
                ref.erase(best.first);
                ++pops;
            }
            break;
        case 2: {
            float x = score();
            c.note << "update " << t << "/" << v << " " << x << "\n";
            q.update(var, x);
            if (ref.count(key)) ref[key] = x, ++updates;
            break;
        }
        default: {
            static const std::vector<float> fs{2.f, 1e35f, 1e10f, 3.f};
            float f = c.pick(fs);
            c.note << "rescale " << f << "\n";
            q.rescale(f);
            for (auto& e : ref) e.second /= f;
        }
        }
        c.publish();
        PBT_CHECK(q.size() == ref.size() && q.empty() == ref.empty(), "size " << q.size() << " instead of " << ref.size());
        if (!ref.empty()) {
            std::pair<std::pair<int, int>, float> best = *ref.begin();
            for (auto& e : ref)
                if (before({e.first, e.second}, {best.first, best.second})) best = e;
            Variable top = q.top();
            PBT_CHECK(top.type() == (best.first.first ? Variable::rational : Variable::boolean) && top.ord() == best.first.second,
                      "the first variable is " << (top.type() == Variable::rational) << "/" << top.ord() << " instead of " << best.first.first << "/" << best.first.second);
        }
        for (int tt = 0; tt < 2; ++tt)
            for (int vv = 0; vv < n; ++vv)
                PBT_CHECK(q.contains(Variable{vv, tt ? Variable::rational : Variable::boolean}) == (ref.count({tt, vv}) > 0), "contains(" << tt << "/" << vv << ") is wrong");
        std::set<std::pair<int, int>> vars;
        for (auto vv : q.vars()) vars.insert({vv.type() == Variable::rational ? 1 : 0, vv.ord()});
        PBT_CHECK(vars.size() == ref.size(), "vars() lists " << vars.size() << " variables");
    }
    if (pops >= 3 && updates >= 1) c.nontrivial(pbt::hash_str(c.note.str()));
}

/** A history of conflicts for both VSIDS heuristics; scores are compared with a reference in long double. */
void vsids_history(pbt::Ctx& c, bool general)
{
    int n = static_cast<int>(c.range(1, 10)), nr = general ? static_cast<int>(c.range(0, 4)) : 0;
    Database db;
    yaga::Linear_arithmetic lra;
    Event_dispatcher d;
    std::unique_ptr<yaga::Evsids> ev;
    std::unique_ptr<yaga::Generalized_vsids> gv;
    yaga::Variable_order* vo;
    if (general) {
        gv = std::make_unique<yaga::Generalized_vsids>(lra);
        vo = gv.get();
        d.add(&lra);
    } else {
        ev = std::make_unique<yaga::Evsids>();
        vo = ev.get();
    }
    d.add(vo);
    Trail trail{d};
    int extra = general ? static_cast<int>(c.range(0, 2)) : 0; // plain Boolean variables before the constraints
    trail.set_model<bool>(Variable::boolean, general ? extra : n);
    if (general) trail.set_model<Rational>(Variable::rational, nr);
    std::vector<std::vector<int>> vars(general ? extra : n); // rational variables of each Boolean variable
    if (general) {
        for (int i = 0; i < n && nr > 0; ++i) {
            std::vector<int> vs;
            std::vector<Rational> co;
            int w = static_cast<int>(c.range(1, nr));
            for (int j = 0; j < nr && static_cast<int>(vs.size()) < w; ++j)
                if (c.coin()) vs.push_back(j), co.push_back(Rational{static_cast<int>(c.range(1, 3))});
            if (vs.empty()) vs.push_back(0), co.push_back(Rational{1});
            auto cons = lra.constraint(trail, vs, co, c.coin() ? yaga::Order_predicate::leq : yaga::Order_predicate::eq, Rational{static_cast<int>(c.range(-3, 3))});
            size_t ord = static_cast<size_t>(cons.lit().var().ord());
            if (ord >= vars.size()) vars.resize(ord + 1);
            vars[ord].clear();
            for (auto v : cons.vars()) vars[ord].push_back(v);
        }
        n = static_cast<int>(trail.model(Variable::boolean).num_vars());
        vars.resize(n);
    }
    if (n == 0) c.discard();
    int m = static_cast<int>(c.range(0, 8));
    for (int i = 0; i < m; ++i) db.assert_clause(clause(distinct_clause(c, n, static_cast<int>(c.range(1, 4)))));
    std::vector<long double> rs[2];
    rs[0].assign(n, 0);
    rs[1].assign(nr, 0);
    long double inc = 1;
    const long double grow = 1.05L;
    auto bump = [&](Cl const& k) {
        for (int l : k) {
            rs[0][std::abs(l) - 1] += inc;
            for (int v : vars[std::abs(l) - 1]) rs[1][v] += inc;
        }
    };
    c.note << n << " Boolean and " << nr << " rational variables\n";
    for (auto& k : db.asserted()) {
        c.note << "assert " << text(ints(k)) << "\n";
        bump(ints(k));
    }
    for (size_t i = 0; i < vars.size(); ++i)
        if (!vars[i].empty()) {
            c.note << "variable " << i + 1 << " is a constraint over";
            for (int v : vars[i]) c.note << " r" << v;
            c.note << "\n";
        }
    c.publish();
    d.on_init(db, trail);
    auto score = [&](int t, int v) -> float { return general ? std::as_const(*gv).score(Variable{v, t ? Variable::rational : Variable::boolean}) : ev->score(v); };
    auto assigned = [&](int t, int v) { return trail.decision_level(Variable{v, t ? Variable::rational : Variable::boolean}).has_value(); };
    int steps = static_cast<int>(c.range(1, 30));
    int picks = 0, conflicts = 0;
    for (int s = 0; s < steps; ++s) {
        switch (c.weighted({12, 6, 6, 6, 2, 1, 2})) {
        case 0: { // pick and decide
            auto var = vo->pick(db, trail);
            int open = 0;
            float best = -1;
            long double best_ref = -1;
            for (int t = 0; t < 2; ++t)
                for (int v = 0; v < (t ? nr : n); ++v)
                    if (!assigned(t, v)) {
                        ++open;
                        best = std::max(best, score(t, v));
                        best_ref = std::max(best_ref, rs[t][v]);
                    }
            PBT_CHECK(var.has_value() == (open > 0), (var ? "a variable was picked although all are assigned" : "no variable was picked although some are unassigned"));
            if (!var) break;
            int t = var->type() == Variable::rational;
            c.note << "pick: " << (t ? "r" : "b") << var->ord() << "\n";
            PBT_CHECK(!assigned(t, var->ord()), "an assigned variable was picked");
            PBT_CHECK(score(t, var->ord()) == best, "the picked variable has score " << score(t, var->ord()) << ", another unassigned variable has " << best);
            // scores that have decayed below the resolution of a float are all alike
            long double top = 1;
            for (auto& r : rs)
                for (auto x : r) top = std::max(top, x);
            PBT_CHECK(best_ref < top * 1e-25L || rs[t][var->ord()] >= best_ref * (1 - 1e-3L), "the picked variable was bumped less than another unassigned variable");
            ++picks;
            if (t) trail.model<Rational>(Variable::rational).set_value(var->ord(), Rational{0});
            else trail.model<bool>(Variable::boolean).set_value(var->ord(), c.coin());
            trail.decide(*var);
            break;
        }
        case 1: { // propagate something
            std::vector<int> open;
            for (int v = 0; v < n; ++v)
                if (!assigned(0, v)) open.push_back(v);
            if (open.empty()) break;
            int v = c.pick(open);
            int l = static_cast<int>(c.range(0, trail.decision_level()));
            c.note << "propagate b" << v << " at " << l << "\n";
            trail.model<bool>(Variable::boolean).set_value(v, c.coin());
            trail.propagate(bvar(v), nullptr, l);
            break;
        }
        case 2: { // learn
            Cl k = distinct_clause(c, n, static_cast<int>(c.range(1, 4)));
            int times = c.chance(1, 6) ? static_cast<int>(c.range(100, 2000)) : static_cast<int>(c.range(1, 5));
            bool until = c.chance(1, 8); // until the scores are scaled down
            if (until) times = 5000;
            c.note << "learn " << text(k) << " " << times << " times" << (until ? " or until the scores are scaled\n" : "\n");
            bool scaled = false;
            for (int i = 0; i < times && !scaled; ++i) {
                float before = score(0, std::abs(k[0]) - 1);
                d.on_learned_clause(db, trail, clause(k));
                scaled = until && score(0, std::abs(k[0]) - 1) < before;
                bump(k);
                inc *= grow;
                if (inc > 1e1000L) {
                    for (auto& r : rs)
                        for (auto& x : r) x /= 1e1000L;
                    inc /= 1e1000L;
                }
            }
            ++conflicts;
            break;
        }
        case 3: {
            Cl k = distinct_clause(c, n, static_cast<int>(c.range(1, 4)));
            c.note << "resolved " << text(k) << "\n";
            d.on_conflict_resolved(db, trail, clause(k));
            bump(k);
            break;
        }
        case 4: {
            int l = static_cast<int>(c.range(0, trail.decision_level()));
            c.note << "backtrack " << l << "\n";
            d.on_before_backtrack(db, trail, l);
            trail.backtrack(l);
            break;
        }
        case 5: { // another check with more clauses
            c.note << "another check\n";
            d.on_before_backtrack(db, trail, -1);
            trail.clear();
            Cl k = distinct_clause(c, n, static_cast<int>(c.range(1, 4)));
            c.note << "assert " << text(k) << "\n";
            db.assert_clause(clause(k));
            for (auto& r : rs) std::fill(r.begin(), r.end(), 0);
            for (auto& k : db.asserted()) bump(ints(k));
            d.on_init(db, trail);
            break;
        }
        default: { // is_before is the order of the scores
            int a = static_cast<int>(c.below(n)), b = static_cast<int>(c.below(n));
            bool got = vo->is_before(bvar(a), bvar(b));
            long double top = 1;
            for (auto& r : rs)
                for (auto x : r) top = std::max(top, x);
            if (std::max(rs[0][a], rs[0][b]) < top * 1e-25L) break;
            if (rs[0][a] > rs[0][b] * (1 + 1e-3L)) PBT_CHECK(got, "b" << a << " was bumped more than b" << b << " but is not before it");
            if (rs[0][b] > rs[0][a] * (1 + 1e-3L)) PBT_CHECK(!got, "b" << b << " was bumped more than b" << a << " but is not before it");
        }
        }
        c.publish();
    }
    if (picks >= 2 && conflicts >= 1) c.nontrivial(pbt::hash_str(c.note.str()));
}

/** The generalised VSIDS inside a search with linear constraints: every pick is examined. A variable whose bounds have just come to leave a
 *  single value is preferred, otherwise the pick has the highest score. Extra bumps make the scores reach the threshold of rescaling. */
class Watched_vsids final : public yaga::Variable_order {
public:
    Watched_vsids(pbt::Ctx& c, yaga::Linear_arithmetic& lra, bool prefer, uint64_t seed, int den, int times)
        : gv(lra), lra(lra), c(c), prefer(prefer), s(seed), den(den), times(times) {}
    yaga::Generalized_vsids gv;
    uint64_t n_fresh = 0, n_picks = 0, n_both = 0, n_scaled = 0;

    void on_init(Database& d, Trail& t) override { valid = false, seen.clear(), gv.on_init(d, t); }
    void on_variable_resize(Variable::Type t, int n) override { gv.on_variable_resize(t, n); }
    void on_before_backtrack(Database& d, Trail& t, int l) override { valid = false, gv.on_before_backtrack(d, t, l); }
    void on_learned_clause(Database& d, Trail& t, Clause const& k) override { gv.on_learned_clause(d, t, k); }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& k) override { gv.on_conflict_resolved(d, t, k); }
    void on_restart(Database& d, Trail& t) override { valid = false, gv.on_restart(d, t); }
    bool is_before(Variable a, Variable b) const override { return gv.is_before(a, b); }

    std::optional<Variable> pick(Database& db, Trail& trail) override
    {
        auto models = lra.relevant_models(trail);
        auto score = [&](Variable v) { return std::as_const(gv).score(v); };
        std::vector<Variable> open;
        std::vector<bool> now(models.owned().num_vars());
        for (auto [type, model] : trail.models())
            for (int i = 0; i < static_cast<int>(model->num_vars()); ++i)
                if (!trail.decision_level(Variable{i, type})) open.emplace_back(i, type);
        std::vector<int> fresh;
        for (int i = 0; i < static_cast<int>(now.size()); ++i) {
            now[i] = lra.is_effectively_decided(models, i);
            if (now[i] && prefer && valid && !(i < static_cast<int>(last.size()) && last[i])) fresh.push_back(i);
            if (now[i]) seen.insert(i);
        }
        auto var = gv.pick(db, trail);
        ++n_picks;
        PBT_CHECK(var.has_value() == !open.empty(), (var ? "a variable was picked although all are assigned" : "no variable was picked although some are unassigned"));
        if (var) {
            PBT_CHECK(!trail.decision_level(*var), "an assigned variable was picked");
            float best = -1;
            for (auto v : open) best = std::max(best, score(v));
            bool decided = var->type() == Variable::rational && now[var->ord()];
            if (!fresh.empty()) {
                ++n_fresh;
                float bf = -1;
                for (int i : fresh) bf = std::max(bf, score(rvar(i)));
                std::string who = (var->type() == Variable::rational ? "r" : "b") + std::to_string(var->ord());
                PBT_CHECK(decided, who << " was picked although the bounds of r" << fresh[0] << " have just come to leave a single value");
                if (seen.size() > fresh.size()) ++n_both;
                PBT_CHECK(score(*var) >= bf, who << " was picked with score " << score(*var) << ", another variable with a single value has " << bf);
            } else if (!decided) {
                PBT_CHECK(score(*var) == best, "the picked variable has score " << score(*var) << ", another unassigned variable has " << best);
            }
        }
        last = now;
        valid = true;
        if (den > 0 && pbt::splitmix(s) % static_cast<uint64_t>(den) == 0 && models.boolean().num_vars() > 0) {
            Clause k;
            int n = static_cast<int>(pbt::splitmix(s) % 3) + 1;
            for (int i = 0; i < n; ++i) k.push_back(Literal{static_cast<int>(pbt::splitmix(s) % models.boolean().num_vars())});
            int m = static_cast<int>(pbt::splitmix(s) % static_cast<uint64_t>(times)) + 1;
            for (int i = 0; i < m; ++i) {
                float before = score(k[0].var());
                gv.on_learned_clause(db, trail, k);
                if (score(k[0].var()) < before) {
                    ++n_scaled;
                    break; // the scores of the other variables are small now
                }
            }
        }
        return var;
    }

private:
    yaga::Linear_arithmetic& lra;
    pbt::Ctx& c;
    bool prefer; // the plugin reports variables with a single value
    uint64_t s;
    int den, times;
    std::vector<bool> last;
    std::set<int> seen;
    bool valid = false;
};

void vsids_search(pbt::Ctx& c)
{
    int nb = static_cast<int>(c.range(0, 3)), nr = static_cast<int>(c.range(2, 8));
    yaga::Solver solver;
    solver.trail().set_model<bool>(Variable::boolean, nb);
    solver.trail().set_model<Rational>(Variable::rational, nr);
    auto& th = solver.set_theory<yaga::Theory_combination>();
    th.add_theory<yaga::Bool_theory>();
    auto& lra = th.add_theory<yaga::Linear_arithmetic>();
    yaga::Linear_arithmetic::Options o;
    o.prop_rational = !c.chance(1, 8);
    o.prop_bounds = c.coin();
    lra.set_options(o);
    solver.set_restart_policy<yaga::No_restart>();
    int den = static_cast<int>(c.range(0, 6)), times = c.coin() ? 40 : 2500;
    uint64_t seed = c.below(1u << 30);
    auto& order = static_cast<Watched_vsids&>(solver.set_variable_order<Watched_vsids>(c, lra, o.prop_rational, seed, den, times));
    c.note << "extra bumps " << (den ? "1/" + std::to_string(den) : "none") << " up to " << times << ", prop_rational " << o.prop_rational << " prop_bounds " << o.prop_bounds << "\n";
    auto atom = [&]() -> std::pair<Literal, std::string> {
        if (nb > 0 && c.chance(1, 5)) {
            int b = static_cast<int>(c.below(nb));
            return {Literal{b}, "b" + std::to_string(b)};
        }
        std::vector<int> vs{static_cast<int>(c.below(nr))};
        std::vector<Rational> co{Rational{1}};
        std::string t = "r" + std::to_string(vs[0]);
        if (c.chance(1, 2)) {
            int y = static_cast<int>(c.below(nr));
            if (y != vs[0]) {
                vs.push_back(y);
                int q = c.coin() ? 1 : -1;
                co.push_back(Rational{q});
                t += (q > 0 ? " + r" : " - r") + std::to_string(y);
            }
        }
        static const std::vector<yaga::Order_predicate::Type> ps{yaga::Order_predicate::eq, yaga::Order_predicate::eq, yaga::Order_predicate::leq, yaga::Order_predicate::lt};
        auto p = c.pick(ps);
        int rhs = static_cast<int>(c.range(-2, 2));
        t += std::string(p == yaga::Order_predicate::eq ? " = " : p == yaga::Order_predicate::leq ? " <= " : " < ") + std::to_string(rhs);
        return {lra.constraint(solver.trail(), vs, co, p, Rational{rhs}).lit(), t};
    };
    int nc = static_cast<int>(c.range(1, 14));
    for (int i = 0; i < nc; ++i) {
        Clause k;
        int w = static_cast<int>(c.range(1, 3));
        bool taut = false;
        std::string t;
        for (int j = 0; j < w; ++j) {
            auto [l, s] = atom();
            if (c.chance(1, 3)) l = ~l, s = "not " + s;
            t += (t.empty() ? "" : " or ") + s;
            taut = taut || std::find(k.begin(), k.end(), ~l) != k.end();
            if (std::find(k.begin(), k.end(), l) == k.end()) k.push_back(l);
        }
        if (taut) continue;
        c.note << t << "\n";
        solver.db().assert_clause(std::move(k));
    }
    c.publish();
    solver.check();
    c.label("picks", order.n_picks);
    c.label("single value", order.n_fresh);
    c.label("several single values", order.n_both);
    c.label("rescaled", order.n_scaled);
    if (order.n_fresh >= 1 && order.n_picks >= 3) c.nontrivial(pbt::hash_str(c.note.str()));
}

void first_unassigned(pbt::Ctx& c)
{
    Database db;
    Event_dispatcher d;
    Trail trail{d};
    int n = static_cast<int>(c.range(0, 8)), nr = static_cast<int>(c.range(0, 6));
    trail.set_model<bool>(Variable::boolean, n);
    trail.set_model<Rational>(Variable::rational, nr);
    yaga::First_unassigned all, only_b{Variable::boolean}, only_r{Variable::rational};
    for (int s = 0; s < n + nr + 2; ++s) {
        for (int which = 0; which < 3; ++which) {
            auto v = (which == 0 ? all : which == 1 ? only_b : only_r).pick(db, trail);
            std::optional<Variable> want;
            if (which != 1)
                for (int i = nr - 1; i >= 0; --i)
                    if (!trail.decision_level(rvar(i))) want = rvar(i);
            if (which != 2) {
                std::optional<Variable> wb;
                for (int i = n - 1; i >= 0; --i)
                    if (!trail.decision_level(bvar(i))) wb = bvar(i);
                if (wb) want = wb;
            }
            PBT_CHECK(v == want, "order " << which << " does not pick the first unassigned variable");
        }
        int t = static_cast<int>(c.below(2));
        int lim = t ? nr : n;
        if (lim == 0) continue;
        int v = static_cast<int>(c.below(lim));
        Variable var{v, t ? Variable::rational : Variable::boolean};
        if (c.chance(1, 5) && trail.decision_level() > 0) {
            int l = static_cast<int>(c.below(trail.decision_level()));
            c.note << "backtrack " << l << "\n";
            trail.backtrack(l);
        } else if (!trail.decision_level(var)) {
            c.note << "decide " << t << "/" << v << "\n";
            if (t) trail.model<Rational>(Variable::rational).set_value(v, Rational{0});
            else trail.model<bool>(Variable::boolean).set_value(v, true);
            trail.decide(var);
        }
    }
    if (n + nr >= 3) c.nontrivial(pbt::hash_str(c.note.str()));
}

// ---------------------------------------------------------------- C13

uint64_t luby_ref(uint64_t i) // 1-based
{
    for (uint64_t k = 1;; ++k) {
        if (i == (1ull << k) - 1) return 1ull << (k - 1);
        if (i < (1ull << k) - 1) return luby_ref(i - (1ull << (k - 1)) + 1);
    }
}

void luby_numbers(pbt::Ctx& c)
{
    yaga::Luby_restart r;
    uint32_t base = static_cast<uint32_t>(c.weighted({3, 2, 1}) == 0 ? c.range(1, 1000) : c.coin() ? c.range(1, 1 << 20) : (1ll << c.range(1, 30)) - c.range(0, 1));
    c.note << "luby(" << base << "...)\n";
    c.publish();
    for (uint32_t i = std::max(1u, base); i < base + 20; ++i)
        PBT_CHECK(static_cast<uint64_t>(r.luby(i)) == luby_ref(i), "luby(" << i << ") is " << r.luby(i) << " instead of " << luby_ref(i));
    c.nontrivial(base);
}

struct Levels {
    Event_dispatcher d;
    Trail trail{d};
    int n = 24;
    std::vector<int> lev;
    explicit Levels(pbt::Ctx& c) : lev(24, 0)
    {
        auto& model = trail.set_model<bool>(Variable::boolean, n);
        for (int i = 0; i < n; ++i) {
            model.set_value(i, c.coin());
            if (i > 0 && c.coin()) {
                trail.decide(bvar(i));
                lev[i] = trail.decision_level();
            } else {
                lev[i] = static_cast<int>(c.range(0, trail.decision_level()));
                trail.propagate(bvar(i), nullptr, lev[i]);
            }
        }
    }
};

void luby_history(pbt::Ctx& c)
{
    Levels t(c);
    Database db;
    yaga::Luby_restart r;
    uint64_t index = 1;
    int64_t left = -1; // the multiplier is found from the first interval
    int64_t mult = 0;
    int64_t count = 0;
    Clause k{Literal{0}};
    while (!r.should_restart()) {
        r.on_learned_clause(db, t.trail, k);
        PBT_CHECK(++count < 100000, "no restart after 100000 conflicts");
    }
    mult = count; // luby(1) = 1
    PBT_CHECK(mult >= 1, "restart without a conflict");
    int restarts = static_cast<int>(c.range(1, 12));
    for (int i = 0; i < restarts; ++i) {
        int over = c.chance(1, 5) ? static_cast<int>(c.range(1, 40)) : 0; // several clauses learned from the last conflict
        for (int j = 0; j < over; ++j) r.on_learned_clause(db, t.trail, k);
        PBT_CHECK(r.should_restart(), "should_restart() became false without a restart");
        r.on_restart(db, t.trail);
        ++index;
        left = static_cast<int64_t>(luby_ref(index)) * mult;
        for (int64_t j = 0; j < left; ++j) {
            PBT_CHECK(!r.should_restart(), "restart " << index << " after " << j << " conflicts instead of " << left);
            r.on_learned_clause(db, t.trail, k);
        }
        PBT_CHECK(r.should_restart(), "no restart " << index << " after " << left << " conflicts");
    }
    c.note << restarts << " restarts, interval " << mult << "\n";
    if (restarts >= 3) c.nontrivial(static_cast<uint64_t>(restarts) * 1000 + c.below(1000));
}

void glucose_history(pbt::Ctx& c)
{
    Levels t(c);
    Database db;
    yaga::Glucose_restart r;
    int min = static_cast<int>(c.range(0, 20)), se = static_cast<int>(c.range(2, 13)), fe = static_cast<int>(c.range(0, se));
    static const std::vector<float> ths{1.0f, 1.1f, 1.3f, 2.0f, 1.01f};
    float th = c.pick(ths);
    r.set_min_conflicts(min).set_slow_exp(se).set_fast_exp(fe).set_threshold(th);
    c.note << "min " << min << " slow " << se << " fast " << fe << " threshold " << th << ", LBDs";
    double slow = 0, fast = 0;
    int64_t since = 0;
    int steps = static_cast<int>(c.range(1, 120));
    int restarts = 0, yes = 0;
    bool late_restart = c.coin(); // restarts are not always taken at once
    for (int s = 0; s < steps; ++s) {
        Clause k;
        std::set<int> lv;
        int w = static_cast<int>(c.range(1, 8));
        for (int i = 0; i < w; ++i) {
            int v = static_cast<int>(c.below(24));
            k.push_back(t.trail.model<bool>(Variable::boolean).value(v) ? ~Literal{v} : Literal{v});
            lv.insert(t.lev[v]);
        }
        r.on_learned_clause(db, t.trail, k);
        double lbd = static_cast<double>(lv.size());
        c.note << " " << lbd;
        slow += (lbd - slow) / static_cast<double>(1 << se);
        fast += (lbd - fast) / static_cast<double>(1 << fe);
        ++since;
        PBT_CHECK(std::fabs(r.slow() - slow) <= 1e-3 * std::max(1e-3, slow), "slow average is " << r.slow() << " instead of " << slow);
        PBT_CHECK(std::fabs(r.fast() - fast) <= 1e-3 * std::max(1e-3, fast), "fast average is " << r.fast() << " instead of " << fast);
        bool got = r.should_restart();
        if (since < min) PBT_CHECK(!got, "restart after " << since << " conflicts, at least " << min << " are required");
        else if (fast > th * slow * 1.001) PBT_CHECK(got, "no restart although the fast average " << fast << " exceeds the slow average " << slow);
        else if (fast < th * slow * 0.999) PBT_CHECK(!got, "restart although the fast average " << fast << " does not exceed the slow average " << slow);
        if (got) ++yes;
        if (got && (!late_restart || c.coin())) {
            r.on_restart(db, t.trail);
            c.note << " R";
            since = 0;
            ++restarts;
        }
    }
    if (restarts) c.label("restarted");
    if (yes >= 1 && yes < steps) c.nontrivial(pbt::hash_str(c.note.str()));
}

void no_restart(pbt::Ctx& c)
{
    Levels t(c);
    Database db;
    yaga::No_restart r;
    int n = static_cast<int>(c.range(1, 1000));
    for (int i = 0; i < n; ++i) {
        r.on_learned_clause(db, t.trail, Clause{Literal{0}});
        PBT_CHECK(!r.should_restart(), "the policy without restarts wants to restart");
    }
    c.nontrivial(static_cast<uint64_t>(n));
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    std::string id = PROP_ID;
    if (id == "C10") {
        p.rule = "histories of learned clauses (random, and shortened / extended / permuted variants of earlier ones) and restarts, compared with a reference; "
                 "clauses over random consistent trails for the minimisation; non-trivial: a clause was removed / shortened; distinct by history";
        p.subs.push_back({"subsumption", subsumption, 150000, 3000000});
        p.subs.push_back({"minimize", minimize, 200000, 4000000});
    } else if (id == "C11") {
        p.rule = "histories of 1-40 decide / propagate (also below the current level) / backtrack / clear / resize / new model operations, the complete observable state compared with a "
                 "reference after every step; non-trivial: backtracked, and propagated below the current level; distinct by history";
        p.subs.push_back({"history", trail_history, 200000, 4000000});
    } else if (id == "C12") {
        p.rule = "histories of the priority queue against a reference map; histories of conflicts, decisions and backtracking for Evsids and the generalised VSIDS against "
                 "exponentially weighted reference scores; searches with linear constraints in which every pick of the generalised VSIDS is examined and extra bumps make scores reach the threshold of rescaling; "
                 "First_unassigned; non-trivial: at least 3 pops and an update / 2 picks and a conflict / a variable with a single value and 3 picks / 3 variables; distinct by history";
        p.subs.push_back({"queue", queue_history, 80000, 2000000});
        p.subs.push_back({"evsids", [](pbt::Ctx& c) { vsids_history(c, false); }, 40000, 800000});
        p.subs.push_back({"generalized", [](pbt::Ctx& c) { vsids_history(c, true); }, 40000, 800000});
        p.subs.push_back({"search", vsids_search, 20000, 400000});
        p.subs.push_back({"first", first_unassigned, 20000, 200000});
    } else if (id == "C13") {
        p.rule = "histories of learned clauses with random decision levels and restarts for each policy, compared with the definition of the Luby sequence and with "
                 "exponential moving averages of the LBD in double precision (tolerance 0.1 %); non-trivial: 3 restarts (Luby), both answers occurred (Glucose); distinct by history";
        p.subs.push_back({"luby-numbers", luby_numbers, 30000, 500000});
        p.subs.push_back({"luby", luby_history, 3000, 40000});
        p.subs.push_back({"glucose", glucose_history, 120000, 2000000});
        p.subs.push_back({"none", no_restart, 500, 2000});
    } else {
        p.rule = "conflict clauses over random consistent trails (decisions, propagations with reasons, semantic propagations, propagations below the current level); "
                 "non-trivial: at least one resolution step; distinct by history";
        p.subs.push_back({"analysis", analysis, 200000, 4000000});
    }
    for (auto& s : p.subs) s.hang_fails = true; // no generated case comes near the budget
    return pbt::run_main(argc, argv, p);
}
