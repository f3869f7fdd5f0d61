// C20: scripts with several (check-sat) commands; each answer is about the assertions made so far.
#include "gen.h"
#include "pbt.h"
#include "smt.h"

using namespace smt;
using gen::Cfg;
using gen::Nums;

namespace {

Problem problem(pbt::Ctx& c, bool uf)
{
    Cfg f;
    f.nums = static_cast<Nums>(c.weighted({5, 3, 1, 2}));
    f.uf = uf;
    f.uf_bool = uf && c.coin();
    if (uf) {
        switch (c.below(5)) {
        case 0: return gen::formula(c, f);
        case 1: return gen::clauses(c, f);
        case 2: return gen::congruence(c, f);
        case 3: return gen::uf_planted(c, f, static_cast<int>(c.range(0, 2)));
        default: return gen::uf_conflict(c, f);
        }
    }
    switch (c.below(7)) {
    case 0: return gen::formula(c, f);
    case 1: return gen::clauses(c, f);
    case 2: return gen::planted(c, f, static_cast<int>(c.range(0, 2)));
    case 3: return gen::farkas(c, f);
    case 4: return gen::dense(c, f);
    case 5: return gen::boolean_hard(c, 1);
    default: return gen::ite_chain(c, f);
    }
}

void symbols(E const& e, std::set<std::string>& out, std::set<Node const*>& seen)
{
    if (!seen.insert(e.get()).second) return;
    if (e->op == Op::Var || e->op == Op::App) out.insert(e->name);
    for (auto& k : e->kids) symbols(k, out, seen);
}

void run(pbt::Ctx& c, bool uf)
{
    Problem p = problem(c, uf);
    Opts o = c.coin() ? gen::options(c) : Opts{};
    size_t n = p.asserts.size();
    std::vector<size_t> cuts;
    int steps = static_cast<int>(c.range(1, 3));
    for (int i = 0; i < steps; ++i) cuts.push_back(c.below(n + 1));
    std::sort(cuts.begin(), cuts.end());
    cuts.push_back(n);
    bool lazy = c.coin(); // declare symbols just before their first use
    std::set<std::string> declared;
    std::string s = "(set-logic " + p.logic + ")\n";
    auto declare = [&](std::set<std::string> const* only) {
        for (auto& [name, sort] : p.vars)
            if (!only || only->count(name))
                if (declared.insert(name).second) s += "(declare-fun " + quote_if_needed(name) + " () " + print_sort(sort) + ")\n";
        for (auto& f : p.funs)
            if (!only || only->count(f.name))
                if (declared.insert(f.name).second) {
                    s += "(declare-fun " + quote_if_needed(f.name) + " (";
                    for (size_t i = 0; i < f.args.size(); ++i) s += (i ? " " : "") + print_sort(f.args[i]);
                    s += ") " + print_sort(f.ret) + ")\n";
                }
    };
    if (!lazy) declare(nullptr);
    bool early = c.chance(1, 8);
    if (early) s += "(get-model)\n";
    size_t done = 0;
    std::vector<size_t> asked;
    for (size_t cut : cuts) {
        for (; done < cut; ++done) {
            std::set<std::string> used;
            std::set<Node const*> seen;
            symbols(p.asserts[done], used, seen);
            declare(&used);
            s += "(assert " + print(p.asserts[done]) + ")\n";
        }
        int times = c.chance(1, 5) ? 2 : 1;
        for (int i = 0; i < times; ++i) {
            s += "(check-sat)\n(get-model)\n";
            asked.push_back(cut);
        }
    }
    s += "(exit)\n";
    c.note << "; options:" << o.str() << "\n" << s;
    c.publish();
    Run r = run_yaga(s, o);
    PBT_CHECK(r.error.empty(), "no answer for a valid script: " << r.error << "\noutput: " << r.out.substr(0, 500));
    // split the output
    std::vector<std::string> lines;
    {
        std::istringstream in(r.out);
        std::string l;
        while (std::getline(in, l)) lines.push_back(l);
    }
    size_t at = 0;
    if (early) {
        PBT_CHECK(!lines.empty() && lines[0].rfind("(error", 0) == 0, "(get-model) before (check-sat) is not reported as an error; output: " << r.out.substr(0, 500));
        at = 1;
    }
    bool was_unsat = false;
    for (size_t i = 0; i < asked.size(); ++i) {
        PBT_CHECK(at < lines.size() && (lines[at] == "sat" || lines[at] == "unsat"), "no answer for check " << i + 1 << "; output: " << r.out.substr(0, 1000));
        Run one;
        one.verdicts = {lines[at]};
        one.out = lines[at] + "\n";
        ++at;
        while (at < lines.size() && lines[at] != "sat" && lines[at] != "unsat") one.out += lines[at++] + "\n";
        if (one.verdict() == "unsat") PBT_CHECK(one.out.find("(error") != std::string::npos, "(get-model) after unsat is not reported as an error; output: " << one.out.substr(0, 500));
        Problem q = p;
        q.asserts.resize(asked[i]);
        q.known_unsat = p.known_unsat && asked[i] == n;
        Judge j;
        try {
            // only symbols which occur need a value
            std::set<std::string> used;
            std::set<Node const*> seen;
            for (auto& a : q.asserts) symbols(a, used, seen);
            q.vars.clear();
            for (auto& v : p.vars)
                if (used.count(v.first)) q.vars.push_back(v);
            q.funs.clear();
            for (auto& f : p.funs)
                if (used.count(f.name)) q.funs.push_back(f);
            judge(c, q, one, j);
        } catch (pbt::Failure const& f) {
            pbt::fail("check " + std::to_string(i + 1) + " of " + std::to_string(asked.size()) + " (after " + std::to_string(asked[i]) + " assertions): " + f.msg);
        }
        PBT_CHECK(!(was_unsat && one.verdict() == "sat"), "sat after unsat with the same or more assertions");
        was_unsat = one.verdict() == "unsat";
    }
    PBT_CHECK(at == lines.size(), "more output than expected: " << lines[at]);
    if (n >= 2) c.nontrivial(pbt::hash_str(s + o.str()));
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    p.rule = "scripts with 2-8 check-sat commands between the assertions (QF_LRA and QF_UFLRA, random options, declarations up front or between the checks); every answer and "
             "model is judged against the assertions made so far; non-trivial: at least 2 assertions; distinct by script text and options";
    p.assumptions = {"z3 only proposes witnesses; a reported wrong unsat is certified by exact evaluation of a model"};
    p.subs.push_back({"lra", [](pbt::Ctx& c) { run(c, false); }, 8000, 150000});
    p.subs.push_back({"uf", [](pbt::Ctx& c) { run(c, true); }, 8000, 150000});
    for (auto& s : p.subs) s.hang_fails = true; // no generated case comes near the budget
    return pbt::run_main(argc, argv, p);
}
