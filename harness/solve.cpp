// C01/C02: QF_LRA verdict / model; C03/C04: the same with uninterpreted functions; C05: any options.
#include "gen.h"
#include "pbt.h"
#include "smt.h"

using namespace smt;
using gen::Cfg;
using gen::Nums;

namespace {

void run(pbt::Ctx& c, Problem const& p)
{
    Opts o;
    if (PROP_OPTS) o = gen::options(c);
    std::string s = script(p);
    c.note << (PROP_OPTS ? "; options:" + o.str() + "\n" : "") << s;
    c.publish();
    Run r = run_yaga(s, o);
    Judge j;
    j.check_verdict = PROP_VERDICT;
    j.check_model = PROP_MODEL;
    std::string v = judge(c, p, r, j);
    if (PROP_OPTS) {
        c.label("phase=" + std::to_string(o.phase));
        if (o.prop_rational) c.label("prop-rational");
        if (o.deduce_bounds) c.label("deduce-bounds");
    }
    bool interesting = PROP_VERDICT ? dag_size(p.asserts) >= 6 : (v == "sat" && dag_size(p.asserts) >= 6);
    if (PROP_UF && !PROP_OPTS) interesting = interesting && s.find("declare-fun f (") != std::string::npos;
    if (interesting) c.nontrivial(pbt::hash_str(s + o.str()));
}

Nums nums(pbt::Ctx& c) { return static_cast<Nums>(c.weighted({5, 3, 1, 2})); }

Cfg cfg(pbt::Ctx& c, bool uf)
{
    Cfg f;
    f.nums = nums(c);
    f.uf = uf;
    f.uf_bool = uf && c.coin();
    return f;
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    std::string logic = PROP_OPTS ? "QF_LRA and QF_UFLRA" : PROP_UF ? "QF_UFLRA" : "QF_LRA";
    p.rule = "random " + logic + " scripts" + (PROP_OPTS ? " with random option combinations" : "") +
             " (nested formulas, clause sets near the sat/unsat threshold, planted models, planted contradictions, propositional, scheduling, "
             "ite chains, large rationals" + (PROP_UF ? ", congruence-heavy sets" : "") + "); non-trivial: " +
             (PROP_VERDICT ? "at least 6 distinct subterms" : "answered sat, a model was printed and evaluated exactly, and at least 6 distinct subterms") +
             "; distinct by script text (and options)";
    p.assumptions = {"z3 only proposes witnesses; a reported wrong unsat is certified by exact evaluation of a model",
                     "a reported wrong sat is either unsatisfiable by construction or refuted by z3 with an invalid printed model"};
    constexpr uint64_t SCALE = PROP_OPTS ? 2 : PROP_VERDICT ? 4 : 3;
    constexpr int L = 1;
    auto add = [&](std::string n, uint64_t q, std::function<void(pbt::Ctx&)> f) { p.subs.push_back({n, f, q * SCALE, q * SCALE * 20}); };
    if (!PROP_UF || PROP_OPTS) {
        add("formula", 2000 * L, [](pbt::Ctx& c) { run(c, gen::formula(c, cfg(c, false))); });
        add("clauses", 2000 * L, [](pbt::Ctx& c) { run(c, gen::clauses(c, cfg(c, false))); });
        add("planted", 2000 * L, [](pbt::Ctx& c) { auto f = cfg(c, false); run(c, gen::planted(c, f, static_cast<int>(c.range(0, 3)))); });
        add("farkas", 1500 * L, [](pbt::Ctx& c) { run(c, gen::farkas(c, cfg(c, false))); });
        add("dense", 1500 * L, [](pbt::Ctx& c) { run(c, gen::dense(c, cfg(c, false))); });
        add("separated", 300 * L, [](pbt::Ctx& c) { run(c, gen::separated(c, c.chance(1, 8) ? 5 : 3)); });
        add("knapsack", 800 * L, [](pbt::Ctx& c) { run(c, gen::knapsack(c, cfg(c, false))); });
        add("bool", 1000 * L, [](pbt::Ctx& c) { run(c, gen::boolean_hard(c, static_cast<int>(c.range(1, 4)))); });
        add("sched", 500 * L, [](pbt::Ctx& c) { run(c, gen::scheduling(c, 3)); });
        add("ite", 1500 * L, [](pbt::Ctx& c) { run(c, gen::ite_chain(c, cfg(c, false))); });
    }
    if (PROP_UF) {
        constexpr int U = PROP_OPTS ? 1 : 2;
        add("uf-formula", 1000 * U, [](pbt::Ctx& c) { run(c, gen::formula(c, cfg(c, true))); });
        add("uf-clauses", 1000 * U, [](pbt::Ctx& c) { run(c, gen::clauses(c, cfg(c, true))); });
        add("uf-cong", 2000 * U, [](pbt::Ctx& c) { run(c, gen::congruence(c, cfg(c, true))); });
        add("uf-planted", 1500 * U, [](pbt::Ctx& c) { auto f = cfg(c, true); run(c, gen::uf_planted(c, f, static_cast<int>(c.range(0, 2)))); });
        add("uf-conflict", 1000 * U, [](pbt::Ctx& c) { run(c, gen::uf_conflict(c, cfg(c, true))); });
        add("uf-ite", 500 * U, [](pbt::Ctx& c) { run(c, gen::ite_chain(c, cfg(c, true))); });
    }
    return pbt::run_main(argc, argv, p);
}
