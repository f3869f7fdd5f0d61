// C21: the smt program (its main function, linked in): arguments, options, counters, reproducibility.
#include "gen.h"
#include "pbt.h"
#include "smt.h"

#include "Options.h"
#include "Smt2_parser.h"

#include <fstream>
#include <iostream>
#include <unistd.h>

extern "C" int yaga_smt_main(int argc, char** argv);

using namespace smt;
using gen::Cfg;
using gen::Nums;

namespace {

std::string scratch(std::string const& suffix)
{
    char const* d = std::getenv("PBT_SCRATCH");
    return std::string(d ? d : "/tmp") + "/cli-" + std::to_string(getpid()) + suffix;
}

void write(std::string const& path, std::string const& text)
{
    std::ofstream f(path, std::ios::binary);
    f << text;
}

struct Redirect {
    std::ostringstream o, e;
    std::streambuf *ob, *eb;
    Redirect() : ob(std::cout.rdbuf(o.rdbuf())), eb(std::cerr.rdbuf(e.rdbuf())) {}
    ~Redirect()
    {
        std::cout.rdbuf(ob);
        std::cerr.rdbuf(eb);
    }
};

struct Out {
    int status = 0;
    std::string out, err;
    bool answered() const
    {
        std::istringstream s(out);
        std::string l;
        while (std::getline(s, l))
            if (l == "sat" || l == "unsat") return true;
        return false;
    }
};

Out program(std::vector<std::string> args)
{
    args.insert(args.begin(), "smt");
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    Redirect r;
    Out o;
    o.status = yaga_smt_main(static_cast<int>(args.size()), argv.data());
    o.out = r.o.str();
    o.err = r.e.str();
    return o;
}

/** What the program must print: answers and counters of the library. */
std::string library(std::string const& text, yaga::Options const& opts)
{
    Redirect r;
    std::istringstream in(text);
    yaga::parser::Smt2_parser parser;
    parser.set_options(opts);
    parser.parse(in, std::cout);
    return r.o.str();
}

std::string a_script(pbt::Ctx& c)
{
    Cfg f;
    f.nums = static_cast<Nums>(c.weighted({5, 3, 1, 2}));
    f.uf = c.chance(1, 3);
    f.uf_bool = f.uf && c.coin();
    Problem p;
    switch (c.below(6)) {
    case 0: p = gen::formula(c, f); break;
    case 1: p = gen::clauses(c, f); break;
    case 2: p = f.uf ? gen::congruence(c, f) : gen::dense(c, f); break;
    case 3: p = f.uf ? gen::uf_planted(c, f, static_cast<int>(c.range(0, 2))) : gen::planted(c, f, static_cast<int>(c.range(0, 3))); break;
    case 4: p = f.uf ? gen::uf_conflict(c, f) : gen::boolean_hard(c, 1); break;
    default: p = gen::dense(c, Cfg{});
    }
    std::string s = script(p, c.chance(2, 3));
    if (c.chance(1, 4)) { // the file may end without (exit), with or without a newline, or be large
        auto at = s.rfind("(exit)");
        if (at != std::string::npos) s.resize(at);
        if (c.coin())
            while (!s.empty() && s.back() == '\n') s.pop_back();
    }
    if (c.chance(1, 6)) {
        std::string pad;
        size_t len = static_cast<size_t>(c.range(1, 20000)), line = static_cast<size_t>(c.range(1, 70));
        while (pad.size() < len) pad += "; " + std::string(line, '(') + "\n";
        s.insert(0, pad);
    }
    return s;
}

void run(pbt::Ctx& c)
{
    std::string s = a_script(c);
    // options in any order, possibly repeated, before and after the path
    yaga::Options o;
    std::vector<std::vector<std::string>> groups;
    int n = static_cast<int>(c.weighted({2, 3, 3, 2, 1}));
    for (int i = 0; i < n; ++i) {
        switch (c.below(4)) {
        case 0: groups.push_back({"--prop-rational"}); break;
        case 1: groups.push_back({"--deduce-bounds"}); break;
        case 2: groups.push_back({"--print-stats"}); break;
        default: groups.push_back({"--phase", c.pick(std::vector<std::string>{"positive", "negative", "cache"})});
        }
    }
    std::string path = scratch(".smt2");
    groups.insert(groups.begin() + static_cast<long>(c.below(groups.size() + 1)), {path});
    std::vector<std::string> args;
    for (auto& g : groups) {
        for (auto& a : g) args.push_back(a);
        if (g[0] == "--prop-rational") o.prop_rational = true;
        if (g[0] == "--deduce-bounds") o.deduce_bounds = true;
        if (g[0] == "--print-stats") o.print_stats = true;
        if (g[0] == "--phase") o.phase = g[1] == "positive" ? yaga::Phase::positive : g[1] == "negative" ? yaga::Phase::negative : yaga::Phase::cache;
    }
    std::string shown;
    for (auto& a : args) shown += " " + (a == path ? "FILE" : a);
    c.note << "; smt" << shown << "\n" << s.substr(s.find("(set-logic"));
    c.publish();
    std::string expected = library(s, o);
    write(path, s);
    Out r = program(args);
    unlink(path.c_str());
    PBT_CHECK(r.answered(), "no answer; output: " << r.out.substr(0, 300) << "\nerror output: " << r.err.substr(0, 300));
    PBT_CHECK(r.status == 0, "exit status " << r.status << " after an answer");
    PBT_CHECK(r.err.empty(), "error output for a valid script: " << r.err.substr(0, 300));
    PBT_CHECK(r.out == expected, "smt" << shown << " prints\n" << r.out.substr(0, 1500) << "\nbut the library answers with these options\n" << expected.substr(0, 1500));
    bool counters = r.out.find("Conflicts = ") != std::string::npos;
    PBT_CHECK(!counters || o.print_stats, "the counters are printed without --print-stats"); // none where no search is needed
    if (counters) {
        long v[5];
        char const* names[] = {"Conflicts = ", "Conflict clauses = ", "Learned clauses = ", "Decisions = ", "Restarts = "};
        for (int i = 0; i < 5; ++i) {
            auto at = r.out.find(names[i]);
            PBT_CHECK(at != std::string::npos, "no counter " << names[i]);
            v[i] = atol(r.out.c_str() + at + strlen(names[i]));
            PBT_CHECK(v[i] >= 0, "negative counter: " << names[i] << v[i]);
        }
        PBT_CHECK(v[1] >= v[0] && v[4] <= v[0], "inconsistent counters: " << v[0] << " conflicts, " << v[1] << " conflict clauses, " << v[4] << " restarts");
        c.label("counters printed");
        if (v[0]) c.label("conflicts counted");
    }
    c.label("options: " + std::to_string(groups.size() - 1));
    c.nontrivial(pbt::hash_str(shown + s));
}

/** Runs do not influence each other: the first script answers as before after another one, in the same process. */
void repeat(pbt::Ctx& c)
{
    std::string a = a_script(c), b = a_script(c);
    yaga::Options o;
    o.print_stats = true;
    o.prop_rational = c.coin();
    o.deduce_bounds = c.coin();
    o.phase = c.coin() ? yaga::Phase::positive : yaga::Phase::cache;
    c.note << "; first script\n" << a.substr(a.find("(set-logic")) << "\n; second script\n" << b.substr(b.find("(set-logic"));
    c.publish();
    std::string one = library(a, o);
    std::string other = library(b, o);
    std::string two = library(a, o);
    PBT_CHECK(one == two, "the same script gives another output after a second one was run:\n" << one.substr(0, 1000) << "\n---\n" << two.substr(0, 1000));
    std::string again = library(b, o);
    PBT_CHECK(other == again, "the same script gives another output when it is run again:\n" << other.substr(0, 1000) << "\n---\n" << again.substr(0, 1000));
    if (one.find("Conflicts = 0\n") == std::string::npos) c.label("with conflicts");
    c.nontrivial(pbt::hash_str(a + b));
}

/** The options change what they are documented to change, in both logics. */
void effects(pbt::Ctx& c)
{
    std::string head = std::string("(set-logic ") + (c.coin() ? "QF_LRA" : "QF_UFLRA") + ")\n";
    std::string path = scratch(".smt2");
    std::vector<std::string> args;
    if (c.coin()) args.push_back("--prop-rational");
    static const std::vector<std::string> phases{"positive", "negative", "cache"};
    auto shuffle = [&](auto& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.below(i)]);
    };
    auto go = [&](std::string const& s) {
        std::string shown;
        for (auto& a : args) shown += " " + a;
        c.note << "; smt" << shown << "\n" << s;
        c.publish();
        write(path, s);
        auto a = args;
        a.insert(a.begin() + static_cast<long>(c.coin() ? 0 : a.size()), path);
        Out r = program(a);
        unlink(path.c_str());
        PBT_CHECK(r.answered() && r.status == 0, "no answer: " << r.out << r.err);
        return r.out;
    };
    if (c.coin()) { // value selection strategy: in a disjunction of variables nothing is forced before the last one
        std::string phase = c.pick(phases);
        args.push_back("--phase");
        args.push_back(phase);
        if (c.coin()) args.push_back("--deduce-bounds");
        int n = static_cast<int>(c.range(2, 7));
        std::vector<std::string> names;
        std::string s = head, clause = "(assert (or";
        for (int i = 0; i < n; ++i) {
            names.push_back("p" + std::to_string(i));
            s += "(declare-fun p" + std::to_string(i) + " () Bool)\n";
        }
        auto order = names;
        shuffle(order);
        for (auto& x : order) clause += " " + x;
        std::string out = go(s + clause + "))\n(check-sat)\n(get-model)\n");
        int t = 0;
        for (auto& x : names) {
            bool is_true = out.find("(define-fun " + x + " () Bool true)") != std::string::npos;
            PBT_CHECK(is_true || out.find("(define-fun " + x + " () Bool false)") != std::string::npos, "no value of " << x << ": " << out);
            t += is_true;
        }
        if (phase == "negative") PBT_CHECK(t == 1, "with the phase negative " << t << " of " << n << " variables of a disjunction are true");
        else PBT_CHECK(t == n, "with the phase " << phase << " (initially positive) " << t << " of " << n << " variables of a disjunction are true");
        c.label("phase " + phase);
    } else { // derived bounds: a chain of inequalities needs fewer conflicts
        args.push_back("--phase");
        args.push_back(c.pick(phases));
        args.push_back("--print-stats");
        int n = static_cast<int>(c.range(4, 7));
        std::vector<int> p;
        std::string s = head;
        std::vector<std::string> as;
        for (int i = 0; i < n; ++i) {
            p.push_back(i);
            s += "(declare-fun x" + std::to_string(i) + " () Real)\n";
        }
        shuffle(p);
        auto x = [&](int i) { return "x" + std::to_string(p[i]); };
        for (int i = 0; i + 1 < n; ++i) as.push_back("(assert (<= " + x(i) + " " + x(i + 1) + "))\n");
        std::string b = std::to_string(c.range(0, 9));
        as.push_back("(assert (<= " + x(n - 1) + " " + b + "))\n");
        as.push_back("(assert (> " + x(0) + " " + b + "))\n");
        shuffle(as);
        for (auto& a : as) s += a;
        s += "(check-sat)\n";
        auto conflicts = [](std::string const& out) {
            auto at = out.find("Conflicts = ");
            PBT_CHECK(at != std::string::npos && out.find("unsat") != std::string::npos, "no counters or wrong answer: " << out);
            return atol(out.c_str() + at + 12);
        };
        long without = conflicts(go(s));
        args.insert(args.begin() + static_cast<long>(c.coin() ? 0 : args.size()), "--deduce-bounds");
        long with = conflicts(go(s));
        PBT_CHECK(with < without, "deduced bounds do not help on a chain of " << n << " inequalities: " << with << " conflicts, " << without << " without");
        c.label("deduced bounds");
    }
    c.nontrivial(pbt::hash_str(c.note.str()));
}

void usage(pbt::Ctx& c)
{
    std::string path = scratch(".smt2");
    std::string s = a_script(c);
    write(path, s);
    std::vector<std::string> args;
    static const std::vector<std::string> good{"--prop-rational", "--deduce-bounds", "--print-stats"};
    int n = static_cast<int>(c.range(0, 2));
    for (int i = 0; i < n; ++i) args.push_back(c.pick(good));
    switch (c.below(3)) {
    case 0: {
        static const std::vector<std::string> bad{"--prop", "-p", "--stats", "--print-stat", "--print-statss", "--phases", "--deduce", "--Phase", "-h", "--help", "--deduce-bounds=1", "-"};
        std::string w = c.pick(bad);
        args.push_back(path);
        args.insert(args.begin() + static_cast<long>(c.below(args.size() + 1)), w);
        std::string shown;
        for (auto& a : args) shown += " " + (a == path ? "FILE" : a);
        c.note << "smt" << shown << "\n";
        c.publish();
        Out r = program(args);
        PBT_CHECK(r.status != 0, "the unknown option " << w << " is accepted with exit status 0");
        PBT_CHECK(!r.answered(), "an answer in spite of the unknown option " << w);
        PBT_CHECK(r.err.find(w) != std::string::npos, "the unknown option " << w << " is not mentioned in the error output: " << r.err);
        c.label("unknown option");
        break;
    }
    case 1: {
        c.note << "smt without a path, " << args.size() << " options\n";
        c.publish();
        Out r = program(args);
        PBT_CHECK(r.status != 0 && !r.err.empty(), "without a path: exit status " << r.status << ", error output: " << r.err);
        PBT_CHECK(!r.answered(), "an answer without a script");
        c.label("no path");
        break;
    }
    default: {
        args.push_back(path + ".missing");
        c.note << "smt with the path of a file which does not exist\n";
        c.publish();
        Out r = program(args);
        PBT_CHECK(!r.err.empty(), "no error message for a file which does not exist");
        PBT_CHECK(!r.answered(), "an answer without a script");
        c.label("no file");
    }
    }
    unlink(path.c_str());
    c.nontrivial(pbt::hash_str(c.note.str()));
}

} // namespace

int main(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string(argv[i]) == "--scratch") setenv("PBT_SCRATCH", argv[i + 1], 1);
    pbt::Prop p;
    p.id = PROP_ID;
    p.rule = "runs of the smt program on generated scripts with options in any order and number before and after the path, compared with the library run with the options meant; "
             "pairs of scripts run repeatedly in one process; wrong usage (unknown options, no path, no file); distinct by arguments and script";
    p.assumptions = {"the answers themselves are decided by C01-C05"};
    p.subs.push_back({"run", run, 14000, 280000});
    p.subs.push_back({"repeat", repeat, 6000, 120000});
    p.subs.push_back({"effects", effects, 2000, 20000});
    p.subs.push_back({"usage", usage, 2000, 20000});
    return pbt::run_main(argc, argv, p);
}
