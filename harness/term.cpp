// C18: every search ends with an answer.
#include "cnf.h"
#include "gen.h"
#include "pbt.h"
#include "smt.h"

#include "Bool_theory.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Restart.h"
#include "Solver.h"

#include <memory>

using namespace smt;
using gen::Cfg;
using gen::Nums;

namespace {

Problem problem(pbt::Ctx& c, bool uf)
{
    Cfg f;
    f.nums = static_cast<Nums>(c.weighted({5, 3, 1, 2}));
    f.uf = uf;
    f.uf_bool = uf && c.coin();
    if (uf) {
        switch (c.below(6)) {
        case 0: return gen::formula(c, f);
        case 1: return gen::clauses(c, f);
        case 2: return gen::congruence(c, f);
        case 3: return gen::uf_planted(c, f, static_cast<int>(c.range(0, 2)));
        case 4: return gen::ite_chain(c, f);
        default: return gen::uf_conflict(c, f);
        }
    }
    switch (c.below(9)) {
    case 0: return gen::formula(c, f);
    case 1: return gen::clauses(c, f);
    case 2: return gen::planted(c, f, static_cast<int>(c.range(0, 3)));
    case 3: return gen::farkas(c, f);
    case 4: return gen::dense(c, f);
    case 5: return gen::scheduling(c, 2);
    case 6: return gen::boolean_hard(c, 1);
    case 7: return gen::dense(c, f);
    default: return gen::ite_chain(c, f);
    }
}

void run(pbt::Ctx& c, bool uf)
{
    Problem p = problem(c, uf);
    Opts o = c.chance(2, 3) ? gen::options(c) : Opts{};
    size_t n = p.asserts.size(), checks = 1;
    std::set<size_t> cuts;
    if (c.chance(1, 4))
        for (size_t i = 1 + c.below(3); i--;) cuts.insert(c.below(n + 1));
    std::string s = "(set-logic " + p.logic + ")\n";
    for (auto& [name, sort] : p.vars) s += "(declare-fun " + quote_if_needed(name) + " () " + print_sort(sort) + ")\n";
    for (auto& f : p.funs) {
        s += "(declare-fun " + quote_if_needed(f.name) + " (";
        for (size_t i = 0; i < f.args.size(); ++i) s += (i ? " " : "") + print_sort(f.args[i]);
        s += ") " + print_sort(f.ret) + ")\n";
    }
    for (size_t i = 0; i < n; ++i) {
        if (cuts.count(i)) s += "(check-sat)\n", ++checks;
        s += "(assert " + print(p.asserts[i]) + ")\n";
    }
    s += "(check-sat)\n(exit)\n";
    c.note << "; options:" << o.str() << "\n" << s;
    c.publish();
    Run r = run_yaga(s, o);
    PBT_CHECK(r.error.empty(), "no answer for a valid script: " << r.error << "\noutput: " << r.out.substr(0, 500));
    PBT_CHECK(r.verdicts.size() == checks, r.verdicts.size() << " answers for " << checks << " check-sat commands; output: " << r.out.substr(0, 500));
    for (auto& v : r.verdicts) PBT_CHECK(v == "sat" || v == "unsat", "the answer is " << v);
    c.label(r.verdict());
    if (r.conflicts > 0) c.label("with conflicts");
    if (r.conflicts >= 50) c.label("50 or more conflicts");
    if (r.restarts) c.label("with restarts");
    if (r.conflicts > 0) c.nontrivial(pbt::hash_str(s + o.str()));
}

void sat(pbt::Ctx& c)
{
    auto f = c.coin() ? cnf::random_small(c) : cnf::any(c, 1);
    yaga::Solver solver;
    yaga::Linear_arithmetic lra;
    std::string desc;
    auto& th = solver.set_theory<yaga::Bool_theory>();
    switch (c.below(3)) {
    case 0: th.set_phase(yaga::Phase::positive); desc += " phase=positive"; break;
    case 1: th.set_phase(yaga::Phase::negative); desc += " phase=negative"; break;
    default: th.set_phase(yaga::Phase::cache); desc += " phase=cache";
    }
    switch (c.below(3)) {
    case 0: solver.set_restart_policy<yaga::No_restart>(); desc += " restart=none"; break;
    case 1: solver.set_restart_policy<yaga::Luby_restart>(); desc += " restart=luby"; break;
    default: solver.set_restart_policy<yaga::Glucose_restart>(); desc += " restart=glucose";
    }
    switch (c.below(3)) {
    case 0: solver.set_variable_order<yaga::Evsids>(); desc += " order=evsids"; break;
    case 1: solver.set_variable_order<yaga::First_unassigned>(); desc += " order=first"; break;
    default: solver.set_variable_order<yaga::Generalized_vsids>(lra); desc += " order=generalized-vsids";
    }
    int times = static_cast<int>(c.range(1, 3));
    c.note << "configuration:" << desc << "; " << times << " checks\n" << cnf::show(f);
    c.publish();
    lra.on_variable_resize(yaga::Variable::boolean, f.n);
    solver.trail().set_model<bool>(yaga::Variable::boolean, f.n);
    solver.trail().set_model<yaga::Rational>(yaga::Variable::rational, 0);
    for (auto& k : f.cls) {
        yaga::Clause cl;
        for (int l : k) cl.push_back(l < 0 ? ~yaga::Literal{-l - 1} : yaga::Literal{l - 1});
        solver.db().assert_clause(std::move(cl));
    }
    uint64_t conflicts = 0;
    for (int i = 0; i < times; ++i) {
        auto r = solver.check();
        PBT_CHECK(r == yaga::Solver::Result::sat || r == yaga::Solver::Result::unsat, "no answer");
        c.label(r == yaga::Solver::Result::sat ? "sat" : "unsat");
        conflicts += static_cast<uint64_t>(solver.num_conflicts());
    }
    if (conflicts) c.nontrivial(pbt::hash_str(cnf::show(f) + desc + std::to_string(times)));
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    p.rule = "small scripts (at most about 60 assertions and 15 variables, 1-4 check-sat commands, random options) and small clause sets in all configurations; every check must answer within "
             "10 s of processor time (replayed with 20 s and 30 s), at least 100 times what the slowest generated case needs; non-trivial: the search met a conflict; distinct by input and options";
    p.assumptions = {"a search which exceeds the budget by a factor of a hundred does not end"};
    auto add = [&](char const* name, void (*fn)(pbt::Ctx&), uint64_t q) {
        pbt::Sub s{name, fn, q, q * 20};
        s.hang_fails = true;
        p.subs.push_back(std::move(s));
    };
    add("lra", [](pbt::Ctx& c) { run(c, false); }, 160000);
    add("uf", [](pbt::Ctx& c) { run(c, true); }, 160000);
    add("sat", sat, 300000);
    return pbt::run_main(argc, argv, p);
}
