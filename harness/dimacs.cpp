// C07: the sat program (its main function, linked in) on generated DIMACS files.
#include "cnf.h"
#include <fstream>
#include <iostream>
#include <unistd.h>

extern "C" int yaga_sat_main(int argc, char** argv);

using namespace cnf;

namespace {

struct Out {
    int status;
    std::string out, err;
};

std::string scratch()
{
    char const* d = std::getenv("PBT_SCRATCH");
    return std::string(d ? d : "/tmp") + "/in-" + std::to_string(getpid()) + ".cnf";
}

Out run(std::string const& text)
{
    static std::string path = scratch();
    {
        std::ofstream f(path, std::ios::binary);
        f << text;
    }
    std::ostringstream o, e;
    auto* ob = std::cout.rdbuf(o.rdbuf());
    auto* eb = std::cerr.rdbuf(e.rdbuf());
    std::string prog = "sat";
    char* argv[] = {prog.data(), path.data(), nullptr};
    Out r;
    try {
        r.status = yaga_sat_main(2, argv);
    } catch (...) {
        std::cout.rdbuf(ob);
        std::cerr.rdbuf(eb);
        throw;
    }
    std::cout.rdbuf(ob);
    std::cerr.rdbuf(eb);
    r.out = o.str();
    r.err = e.str();
    return r;
}

std::string verdict(Out const& r)
{
    std::istringstream s(r.out);
    std::string l;
    std::getline(s, l);
    return l;
}

/** Writes @p f in one of the many ways which the format permits. */
std::string render(pbt::Ctx& c, Cnf const& f)
{
    std::ostringstream s;
    bool fancy = c.chance(3, 4);
    std::string nl = fancy && c.chance(1, 8) ? "\r\n" : "\n";
    auto comment = [&] {
        static const std::vector<std::string> t{"c", "c a comment", "c p cnf 1 1", "c 1 0", "cnf 3 2 0", "  c indented", "c -1 2 0 0"};
        if (fancy && c.chance(1, 8)) s << c.pick(t) << nl;
        if (fancy && c.chance(1, 12)) s << (c.coin() ? "" : "  \t") << nl;
    };
    auto gap = [&] { return fancy && c.chance(1, 8) ? (c.coin() ? "  " : "\t") : " "; };
    while (fancy && c.chance(1, 2)) s << "c header comment " << c.below(10) << nl;
    if (fancy && c.chance(1, 8)) s << "  ";
    s << "p cnf" << gap() << f.n << gap() << f.cls.size();
    if (fancy && c.chance(1, 8)) s << "  ";
    s << nl;
    int style = fancy ? static_cast<int>(c.below(4)) : 0; // 0: a clause per line, 1: several per line, 2: split, 3: any
    bool fresh = true; // at the beginning of a line
    for (auto& k : f.cls) {
        if (fresh) comment();
        if (fresh && fancy && c.chance(1, 8)) s << "   ";
        for (int l : k) {
            if (l > 0 && fancy && c.chance(1, 16)) s << "+";
            s << l << gap();
            fresh = false;
            if (style >= 2 && c.chance(1, 4)) {
                s << nl;
                fresh = true;
                comment();
            }
        }
        s << "0";
        fresh = false;
        if (style == 0 || style == 2 || c.chance(1, 3)) {
            if (fancy && c.chance(1, 12)) s << " ";
            s << nl;
            fresh = true;
        } else {
            s << gap();
        }
    }
    if (!fresh && c.coin()) s << nl;
    if (fresh && fancy && c.chance(1, 8)) s << "%" << nl << "0" << nl; // as in SATLIB
    return s.str();
}

void verdicts(pbt::Ctx& c, Cnf f)
{
    // what a file may contain but the generators avoid
    if (c.chance(1, 3) && !f.cls.empty()) {
        size_t k = c.range(1, 3);
        for (size_t i = 0; i < k; ++i) {
            auto& cl = f.cls[c.below(f.cls.size())];
            if (cl.empty()) continue;
            int l = c.pick(cl);
            cl.insert(cl.begin() + static_cast<long>(c.below(cl.size() + 1)), l); // twice the same literal
            c.label("duplicate literal");
            if (c.chance(1, 3)) {
                Cl t = cl;
                t.insert(t.begin() + static_cast<long>(c.below(t.size() + 1)), -l); // tautology
                f.cls.insert(f.cls.begin() + static_cast<long>(c.below(f.cls.size() + 1)), t);
                c.label("tautology");
            }
            if (c.chance(1, 3)) f.cls.insert(f.cls.begin() + static_cast<long>(c.below(f.cls.size() + 1)), Cl(c.pick(f.cls)));
        }
    }
    if (c.chance(1, 40)) {
        f.cls.insert(f.cls.begin() + static_cast<long>(c.below(f.cls.size() + 1)), Cl{});
        f.planted = false;
        f.known_unsat = true;
        c.label("empty clause");
    }
    if (c.chance(1, 6)) f.n += static_cast<int>(c.range(1, 5)); // unused variables
    std::string text = render(c, f);
    c.note << text;
    c.publish();
    Out r = run(text);
    std::string v = verdict(r);
    PBT_CHECK(v == "SAT" || v == "UNSAT", "the first line of the output is '" << v << "' (error output: " << r.err << "), exit status " << r.status);
    PBT_CHECK(r.status == (v == "SAT" ? 1 : 0), "exit status " << r.status << " with the answer " << v);
    int t = truth(f);
    if (t < 0) {
        c.label("undecided by the oracle");
        return;
    }
    PBT_CHECK((v == "SAT") == (t == 1), "the answer is " << v << " but the clauses are " << (t ? "satisfiable" : "unsatisfiable"));
    c.label(f.kind + ":" + v);
    if (f.cls.size() >= 3) c.nontrivial(pbt::hash_str(text));
}

void invalid(pbt::Ctx& c)
{
    Cnf f = random_small(c);
    for (auto& k : f.cls)
        if (k.empty()) k.push_back(1);
    if (f.cls.empty()) f.cls.push_back({1});
    std::string body, text, head = "p cnf " + std::to_string(f.n) + " " + std::to_string(f.cls.size()) + "\n";
    size_t bad = c.below(f.cls.size());
    size_t kind = c.below(6);
    for (size_t i = 0; i < f.cls.size(); ++i) {
        for (size_t j = 0; j < f.cls[i].size(); ++j) {
            int l = f.cls[i][j];
            if (kind == 2 && i == bad && j == 0) l = (c.coin() ? 1 : -1) * (f.n + static_cast<int>(c.range(1, 4)));
            body += std::to_string(l) + " ";
        }
        body += "0\n";
    }
    switch (kind) {
    case 0: text = body; c.label("no header"); break;
    case 1: text = head + "c\n" + (c.coin() ? "p cnf " + std::to_string(f.n) + " 2\n" + body : body + head); c.label("duplicate header"); break;
    case 2: text = head + body; c.label("unknown literal"); break;
    case 3: text = "p cnf " + std::to_string(f.n) + " " + std::to_string(f.cls.size() + c.range(1, 3)) + "\n" + body; c.label("too few clauses"); break;
    case 4: {
        static const std::vector<std::string> h{"p cnf\n", "p cnf x y\n", "p cnf 3\n", "p cnf 3 a\n"};
        text = c.pick(h) + body;
        c.label("malformed header");
        break;
    }
    default: {
        static const std::vector<std::string> h{"", "c only a comment\n", "\n\n"};
        text = c.pick(h);
        c.label("empty");
    }
    }
    c.note << text;
    c.publish();
    Out r = run(text);
    PBT_CHECK(r.status != 0 && r.status != 1, "an invalid file is reported with exit status " << r.status << ", output " << r.out);
    std::string v = verdict(r);
    PBT_CHECK(v != "SAT" && v != "UNSAT", "an invalid file is answered with " << v);
    PBT_CHECK(!r.err.empty(), "no error message for an invalid file");
    c.nontrivial(pbt::hash_str(text));
}

} // namespace

int main(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string(argv[i]) == "--scratch") setenv("PBT_SCRATCH", argv[i + 1], 1);
    pbt::Prop p;
    p.id = PROP_ID;
    p.rule = "DIMACS files (random, 3-SAT near the threshold, planted, pigeonhole, parity, colouring, implication chains; comments, blank lines, clauses over "
             "several lines or several per line, duplicate and complementary literals, empty clauses, unused variables, CRLF, SATLIB trailer), and invalid files; "
             "non-trivial: at least 3 clauses, or an invalid file; distinct by file text";
    p.assumptions = {"oracle: DPLL written for the harness; z3 for instances beyond its node limit"};
    p.subs.push_back({"small", [](pbt::Ctx& c) { verdicts(c, random_small(c)); }, 60000, 1000000});
    p.subs.push_back({"mixed", [](pbt::Ctx& c) { verdicts(c, any(c, 1)); }, 60000, 1000000});
    p.subs.push_back({"hard", [](pbt::Ctx& c) { verdicts(c, any(c, 4)); }, 8000, 160000});
    p.subs.push_back({"invalid", invalid, 3000, 20000});
    for (auto& s : p.subs) if (s.name == "small" || s.name == "mixed" || s.name == "invalid") s.hang_fails = true; // no generated case comes near the budget
    return pbt::run_main(argc, argv, p);
}
