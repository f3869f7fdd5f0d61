// C19: erroneous scripts are reported as errors and never change an answer.
#include "gen.h"
#include "pbt.h"
#include "smt.h"

#include "Smt2_parser.h"

#include <cctype>
#include <iostream>
#include <map>
#include <set>

using namespace smt;
using gen::Cfg;
using gen::Nums;

namespace {

Problem problem(pbt::Ctx& c)
{
    Cfg f;
    f.nums = c.coin() ? Nums::small : Nums::frac;
    f.uf = c.coin();
    f.uf_bool = f.uf && c.coin();
    f.nreal = 3;
    switch (c.below(f.uf ? 3 : 4)) {
    case 0: return gen::formula(c, f);
    case 1: return gen::clauses(c, f);
    case 2: return f.uf ? gen::congruence(c, f) : gen::ite_chain(c, f);
    default: return gen::farkas(c, f);
    }
}

struct Out {
    std::vector<std::string> lines; // of the standard output
    std::vector<std::pair<size_t, std::string>> verdicts; // position and answer
    std::string out, err, exception;
    bool reported = false;   // an error, anywhere
    size_t first_error = -1; // line of the first reported error (end if it is only in err or exception)
};

Out execute(std::string const& text)
{
    Out r;
    std::istringstream in(text);
    std::ostringstream out, err;
    struct Redirect {
        std::streambuf* old;
        explicit Redirect(std::ostream& to) : old(std::cerr.rdbuf(to.rdbuf())) {}
        ~Redirect() { std::cerr.rdbuf(old); }
    } redirect(err);
    try {
        yaga::parser::Smt2_parser parser;
        parser.set_options(yaga::Options{});
        parser.parse(in, out);
    } catch (std::exception const& e) {
        r.exception = e.what();
        if (r.exception.empty()) r.exception = "(an exception without a text)";
    }
    r.out = out.str();
    r.err = err.str();
    std::istringstream lines(r.out);
    std::string l;
    while (std::getline(lines, l)) {
        if (l == "sat" || l == "unsat" || l == "unknown" || l == "error") r.verdicts.emplace_back(r.lines.size(), l);
        if (l.rfind("(error", 0) == 0 || l == "error") {
            r.reported = true;
            r.first_error = std::min(r.first_error, r.lines.size());
        }
        r.lines.push_back(l);
    }
    if (!r.exception.empty() || !r.err.empty()) {
        r.reported = true;
        r.first_error = std::min(r.first_error, r.lines.size());
    }
    return r;
}

std::string show(Out const& o)
{
    return "output: " + o.out.substr(0, 800) + (o.err.empty() ? "" : "\nstandard error: " + o.err.substr(0, 300)) +
           (o.exception.empty() ? "" : "\nexception: " + o.exception.substr(0, 300));
}

struct Script {
    std::vector<std::string> cmds;
    size_t first_assert = 0;
    std::string text() const
    {
        std::string s;
        for (auto& k : cmds) s += k + "\n";
        return s;
    }
    size_t checks(size_t upto) const
    {
        size_t n = 0;
        for (size_t i = 0; i < upto; ++i) n += cmds[i] == "(check-sat)";
        return n;
    }
};

std::string decl(Fun const& f)
{
    std::string s = "(declare-fun " + quote_if_needed(f.name) + " (";
    for (size_t i = 0; i < f.args.size(); ++i) s += (i ? " " : "") + print_sort(f.args[i]);
    return s + ") " + print_sort(f.ret) + ")";
}

Script make(pbt::Ctx& c, Problem const& p)
{
    Script s;
    s.cmds.push_back("(set-logic " + p.logic + ")");
    for (auto& [n, t] : p.vars) s.cmds.push_back(decl(Fun{n, {}, t}));
    for (auto& f : p.funs) s.cmds.push_back(decl(f));
    s.cmds.push_back("(declare-fun bb () Bool)");
    s.cmds.push_back("(declare-fun r1 () Real)");
    s.cmds.push_back("(declare-fun r2 () Real)");
    s.cmds.push_back("(define-fun mac ((a Real) (b Bool)) Real (ite b a (+ r1 1)))");
    s.cmds.push_back("(define-fun mac0 () Bool (< r1 r2))");
    s.first_assert = s.cmds.size();
    if (c.coin()) s.cmds.push_back("(assert (or bb mac0 (< (mac 1 bb) r2)))");
    for (auto& a : p.asserts) {
        s.cmds.push_back("(assert " + print(a) + ")");
        if (c.chance(1, 6)) s.cmds.push_back("(check-sat)");
    }
    s.cmds.push_back("(check-sat)");
    return s;
}

/** Copy of @p e in which one subterm is @p hole; the subterm must be a proper one. */
E punch(pbt::Ctx& c, E const& e, std::string const& hole, Sort& sort, int depth = 0, E* removed = nullptr)
{
    if (depth > 0 && (e->kids.empty() || c.chance(1, 3))) {
        sort = e->sort;
        if (removed) *removed = e;
        return mk_var(hole, e->sort);
    }
    size_t k = c.below(e->kids.size());
    std::vector<E> ks = e->kids;
    ks[k] = punch(c, ks[k], hole, sort, depth + 1, removed);
    Node n = *e;
    n.kids = ks;
    return std::make_shared<const Node>(std::move(n));
}

struct Bad {
    std::string kind;
    std::string cmd;
    bool reread = false; // what follows may be read differently
};

/** A wrong term in place of a term of sort @p s. */
Bad bad_term(pbt::Ctx& c, Problem const& p, Sort s)
{
    using V = std::vector<std::string>;
    static const V undeclared{"nope", "|no pe|", "(nofun 1)", "(nofun nope bb)", "a", "b", "-5", ".5", "+", "(let ((l1 1)) (+ l2 1))", "(let ((l1 r1) (l2 l1)) l2)",
                              "(ite (let ((l1 bb)) l1) l1 l1)"};
    static const V malformed{"()", "((+ 1 2))", "(let ((l1 1)) )", "(let ((l1 )) l1)", "(let (l1 1) l1)", "(let)", "(let l1 l1)", "(let ((l1 1))", "(let (()) bb)", "(let ((1 1)) bb)",
                             "(let (((l1 1))) l1)", "(let ((l1 1) l1)", ":key", "let", "assert", "(assert bb)", "(check-sat)", "par", "(1 2)", "(1)", "(:a)", "(\"a\")", "((bb))",
                             "(let ((l1 1)) l1 l1)", "(let ((l1 bb bb)) l1)"};
    static const V lexical{"{", "#", "'", "\\", "[1]", "|open", "\"open", "#b", ",", "\x01", "#b2"};
    static const V unsupported{"\"text\"", "#b01", "#xfF", "(as r1 Real)", "(_ r1 1)", "((_ r1 1) 2)", "((as r1 Real))", "(! bb :named n)", "(forall ((q Real)) bb)", "(exists ((q Real)) bb)",
                               "(match r1 ((x x)))", "(div 1 2)", "(mod 1 2)", "(to_int 1)"};
    static const V bool_arity{"(not true false)", "(not)", "(<)", "(< 1)", "(<= r1)", "(> 1)", "(>= r2)", "(=)", "(= 1)", "(distinct)", "(ite bb bb)", "(ite)", "(ite bb bb bb bb)", "(=> bb)", "(and)",
                              "(or)", "(xor)", "(=>)", "(mac0 1)", "(bb)", "(bb bb)", "(true)", "(false false)"};
    static const V real_arity{"(+)", "(-)", "(*)", "(/)", "(/ 1)", "(ite bb 1)", "(ite bb 1 2 3)", "(mac 1)", "(mac)", "mac", "(mac 1 bb 2)", "(r1)", "(r1 1)", "(ite bb)"};
    static const V bool_sort{"(not 1)", "(not r1)", "(and bb 1)", "(or r1 bb)", "(=> bb 1)", "(=> 1 bb)", "(xor bb r1)", "(< 1 true)", "(< bb bb)", "(<= bb 1)", "(> mac0 1)", "(>= 1 2 bb)", "(= 1 true)",
                             "(= bb r1)", "(= bb mac0 r1)", "(distinct 1 bb)", "(distinct bb bb 1)", "(ite 1 bb bb)", "(ite bb 1 mac0)", "(ite bb bb 1)", "(ite r1 true false)", "(and true 1)", "(or false 2)",
                             "(and false r1)", "(or true r1)", "(=> false 1)", "(= r1 1 bb)"};
    static const V real_sort{"(+ 1 true)", "(+ bb 1)", "(* 1 true)", "(* bb 2)", "(* 0 bb)", "(- true)", "(- bb)", "(- 1 bb)", "(/ 1 true)", "(/ bb 2)", "(mac true 1)", "(mac bb bb)", "(mac r1 r1)", "(ite 1 r1 r1)",
                             "(ite bb r1 bb)", "(ite bb bb r1)", "(+ 1 (mac 1 bb) mac0)", "(ite true 1 true)", "(ite false bb 2)"};
    static const V nonlinear{"(* r1 r2)", "(* r1 r1)", "(* 2 r1 r2)", "(/ 1 r1)", "(/ r1 r2)", "(* (+ r1 1) (- r2 1))", "(* (mac r1 bb) r2)", "(/ r1 (+ r2 1))"};
    switch (c.weighted({4, 4, 3, 3, 5, 5, 3, 3})) {
    case 0: return {"undeclared symbol", c.pick(undeclared)};
    case 1: return {"malformed term", c.pick(malformed)};
    case 2: return {"lexical error", c.pick(lexical), true};
    case 3: return {"unsupported term", c.pick(unsupported)};
    case 4: return {"wrong number of arguments", c.pick(s == Sort::Bool ? bool_arity : real_arity)};
    case 5: return {"operand of a wrong sort", c.pick(s == Sort::Bool ? bool_sort : real_sort)};
    case 6: {
        if (p.funs.empty()) return {"term of a wrong sort", s == Sort::Bool ? "1" : "true"};
        // application of a declared function
        auto& f = c.pick(p.funs);
        std::string q = quote_if_needed(f.name);
        int what = static_cast<int>(c.below(4));
        if (what == 0 || f.args.empty()) return {"function as a constant", q};
        if (what == 1) return {"function without arguments", "(" + q + ")"};
        std::string t = "(" + q;
        size_t wrong = c.below(f.args.size());
        for (size_t i = 0; i < f.args.size(); ++i) {
            if (i == wrong && what == 2) t += f.args[i] == Sort::Bool ? " r1" : " bb";
            else t += f.args[i] == Sort::Bool ? " bb" : " r1";
        }
        if (what == 3) t += " r1";
        return {"wrong argument of a function", t + ")"};
    }
    default:
        if (s == Sort::Real) return {"nonlinear term", c.pick(nonlinear)};
        return {"term of a wrong sort", c.pick(V{"1", "r1", "2.5", "(+ r1 1)", "(mac 1 bb)"})};
    }
}

Bad bad_command(pbt::Ctx& c, Problem const& p)
{
    using V = std::vector<std::string>;
    static const V redeclare{"(declare-fun bb () Bool)", "(declare-const bb Bool)", "(declare-fun r1 () Bool)", "(declare-const r2 Real)", "(declare-fun mac () Real)", "(declare-const mac0 Bool)",
                             "(define-fun mac ((a Real)) Real a)", "(define-fun bb () Bool true)", "(define-fun r1 () Real 1)", "(define-fun mac0 () Bool true)", "(declare-const |bb| Bool)"};
    static const V sorts{"(declare-fun z1 () Foo)", "(declare-const z1 Int)", "(define-fun z1 () Foo true)", "(define-fun z1 ((a Int)) Bool true)", "(declare-const z1 String)", "(declare-fun z1 () (Array Real Real))",
                         "(declare-const z1 (_ BitVec 3))", "(declare-const z1 bb)", "(define-fun z1 () Real true)", "(define-fun z1 () Bool r1)", "(define-fun z1 ((a Bool)) Real a)", "(define-fun z1 ((a Real)) Bool a)",
                         "(define-fun z1 ((a Real) (a Bool)) Bool true)", "(define-fun z1 ((a Real)) Real (z1 a))", "(define-fun z1 ((a Real)) Real nope)", "(define-fun z1 () Real (+ r1 bb))"};
    static const V unsupported{"(push 1)", "(pop 1)", "(push)", "(pop)", "(reset)", "(get-value (r1))", "(get-assertions)", "(get-unsat-core)", "(get-assignment)", "(get-info :name)", "(get-option :print-success)",
                               "(echo \"text\")", "(declare-sort S 0)", "(define-sort S () Real)", "(define-const z1 Real 1)", "(check-sat-assuming (bb))", "(frobnicate)", "(reset-assertions)",
                               "(declare-datatypes () ())", "(define-fun-rec z1 ((a Real)) Real (z1 a))", "(minimize r1)"};
    static const V malformed{"()", "(assert)", "(assert bb bb)", "(declare-fun z1)", "(declare-fun z1 Real)", "(declare-fun z1 ())", "(declare-fun () Real)", "(declare-const z1)", "(declare-const)",
                             "(declare-const z1 () Real)", "(check-sat 1)", "(check-sat bb)", "check-sat", "bb", "1", "(1)", "((check-sat))", "(assert bb))", "((assert bb)", "(define-fun z1 Real 1)",
                             "(define-fun z1 (a Real) Real a)", "(define-fun z1 () Real)", "(define-fun z1 () 1)", "(declare-const let Bool)", "(declare-const 1 Real)", "(declare-fun assert () Bool)", "(declare-const :a Real)",
                             "(declare-const \"a\" Real)", "(define-fun let () Bool true)", "(set-info)", "(set-option)", "(set-info x 1)", "(get-model 1)", "(declare-const z1 Real Real)", "(set-logic)",
                             "(define-fun z1 ((a)) Real 1)", "(define-fun z1 ((Real)) Real 1)", "(set-info :a 1 2)", "(bb)", "(|assert| bb)", ")", ":a", "\"a\"", "(set-info :a ())x"};
    static const V logics{"(set-logic QF_LRA)", "(set-logic QF_UFLRA)", "(set-logic QF_FOO)", "(set-logic ALL)", "(set-logic 1)"};
    switch (c.weighted({8, 2, 3, 3, 3, 1, 1})) {
    case 0: {
        // an assertion with a wrong subterm
        std::vector<E> as;
        for (auto& a : p.asserts)
            if (!a->kids.empty()) as.push_back(a);
        if (as.empty() || c.chance(1, 5)) {
            Bad b = bad_term(c, p, Sort::Bool);
            b.cmd = "(assert " + b.cmd + ")";
            return b;
        }
        Sort s = Sort::Bool;
        static const std::string HOLE = "HOLE.HOLE";
        std::string t = print(punch(c, c.pick(as), HOLE, s));
        Bad b = c.chance(1, 8) ? Bad{"term of a wrong sort", s == Sort::Bool ? "(+ r1 1)" : "(< r1 r2)"} : bad_term(c, p, s);
        b.cmd = "(assert " + t.replace(t.find(HOLE), HOLE.size(), b.cmd) + ")";
        return b;
    }
    case 1: return {"redeclaration", c.pick(redeclare)};
    case 2: return {"bad declaration", c.pick(sorts)};
    case 3: return {"unsupported command", c.pick(unsupported)};
    case 4: return {"malformed command", c.pick(malformed), true};
    case 5: return {"second set-logic", c.pick(logics)};
    default: {
        if (p.logic == "QF_LRA") return {"function in QF_LRA", "(declare-fun z1 (Real) Real)"};
        auto& f = p.funs.empty() ? Fun{"bb", {}, Sort::Bool} : c.pick(p.funs);
        return {"redeclaration", c.coin() ? decl(f) : "(declare-const " + quote_if_needed(f.name) + " " + print_sort(f.ret) + ")"};
    }
    }
}

void compare(pbt::Ctx& c, Script const& s, size_t before, std::string const& text, bool must_report, bool after, size_t more = 0)
{
    c.note << text;
    c.publish();
    Out bad = execute(text);
    Out good = execute(s.text());
    size_t all = s.checks(s.cmds.size());
    PBT_CHECK(!good.reported && good.verdicts.size() == all, "no answer for a valid script; " << show(good) << "\nvalid script:\n" << s.text());
    PBT_CHECK(!must_report || bad.reported, "an erroneous script is accepted without an error; " << show(bad));
    PBT_CHECK(bad.verdicts.size() >= before, "commands before the error are not answered; " << show(bad));
    PBT_CHECK(bad.verdicts.size() <= all + more || !must_report, "more answers than (check-sat) commands; " << show(bad));
    for (size_t i = 0; i < std::min(all, bad.verdicts.size()); ++i) {
        if (i >= before && !after) break;
        PBT_CHECK(bad.verdicts[i].second == good.verdicts[i].second,
                  "answer " << i + 1 << " is " << bad.verdicts[i].second << ", but it is " << good.verdicts[i].second << " without the erroneous command; " << show(bad));
    }
    if (before > 0 && must_report) PBT_CHECK(bad.first_error > bad.verdicts[before - 1].first, "an error is reported too early; " << show(bad));
    c.label(!bad.reported ? "accepted" : bad.verdicts.size() > before ? "answers after the error" : "nothing after the error");
}

void command(pbt::Ctx& c)
{
    Problem p = problem(c);
    Script s = make(c, p);
    Bad b = bad_command(c, p);
    size_t at = static_cast<size_t>(c.range(static_cast<int64_t>(s.first_assert), static_cast<int64_t>(s.cmds.size())));
    std::string text;
    for (size_t i = 0; i <= s.cmds.size(); ++i) {
        if (i == at) text += b.cmd + "\n";
        if (i < s.cmds.size()) text += s.cmds[i] + "\n";
    }
    c.label(b.kind);
    // a command may be executed before its end is read
    compare(c, s, s.checks(at), text, true, !b.reread, b.cmd.find("check-sat") != std::string::npos ? 1 : 0);
    c.nontrivial(pbt::hash_str(text));
}

/** set-logic missing, late or unknown; truncated scripts; missing and additional parentheses */
void shape(pbt::Ctx& c)
{
    Problem p = problem(c);
    Script s = make(c, p);
    std::string text;
    size_t before = 0;
    switch (c.below(4)) {
    case 0: { // set-logic
        std::vector<std::string> cmds = s.cmds;
        switch (c.below(3)) {
        case 0: cmds.erase(cmds.begin()); break;
        case 1: std::swap(cmds[0], cmds[static_cast<size_t>(c.range(static_cast<int64_t>(s.first_assert), static_cast<int64_t>(cmds.size()) - 1))]); break;
        default: cmds[0] = c.coin() ? "(set-logic QF_NOPE)" : "(set-logic qf_lra)";
        }
        // declarations and assertions may be accepted earlier, answers may not
        for (auto& k : cmds) text += k + "\n";
        c.label("set-logic");
        c.note << text;
        c.publish();
        Out bad = execute(text);
        bool late = false; // chosen after other commands, but before the first check
        for (auto& k : cmds) {
            if (k == "(check-sat)") break;
            late = late || k == s.cmds[0];
        }
        if (late && !bad.reported) {
            Out good = execute(s.text());
            PBT_CHECK(bad.out == good.out, "a script with a late (set-logic) is answered differently; " << show(bad) << "\nexpected " << show(good));
        } else {
            PBT_CHECK(bad.reported, "a script without (set-logic) is accepted without an error; " << show(bad));
            PBT_CHECK(bad.verdicts.empty() || bad.first_error < bad.verdicts[0].first, "answers before the error; " << show(bad));
        }
        c.nontrivial(pbt::hash_str(text));
        return;
    }
    case 1: { // truncated inside of a command
        size_t k = c.below(s.cmds.size());
        for (size_t i = 0; i < k; ++i) text += s.cmds[i] + "\n";
        text += s.cmds[k].substr(0, static_cast<size_t>(c.range(1, static_cast<int64_t>(s.cmds[k].size()) - 1)));
        before = s.checks(k);
        c.label("truncated");
        break;
    }
    default: { // parenthesis
        size_t k = c.below(s.cmds.size());
        for (size_t i = 0; i < s.cmds.size(); ++i) {
            std::string t = s.cmds[i];
            if (i == k) {
                std::vector<size_t> ps;
                for (size_t j = 0; j < t.size(); ++j)
                    if (t[j] == '(' || t[j] == ')') ps.push_back(j);
                size_t j = c.pick(ps);
                if (c.coin()) {
                    t.erase(j, 1);
                    if (j < t.size() && j > 0 && t[j] != ')' && t[j] != ' ') t.insert(j, " ");
                } else t.insert(static_cast<size_t>(c.range(0, static_cast<int64_t>(t.size()))), c.coin() ? "(" : ")");
            }
            text += t + "\n";
        }
        before = s.checks(k);
        c.label("parenthesis");
    }
    }
    compare(c, s, before, text, true, false);
    c.nontrivial(pbt::hash_str(text));
}

/** An independent checker of scripts: decides whether a text certainly is no valid script of the supported
 * subset of SMT-LIB. It errs on the side of saying nothing. */
class Checker {
    struct Sx {
        enum Kind { list, symbol, quoted, numeral, decimal, keyword, string, other } kind = list;
        std::string text;
        std::vector<Sx> kids;
        bool is(std::string const& s) const { return kind == symbol && text == s; }
    };
    enum class Ty { real, boolean, any };
    struct Invalid {
        std::string why;
    };
    struct Unsure {};

    struct Sig {
        std::vector<Ty> args;
        Ty ret;
    };

    std::vector<std::pair<char, Sx>> toks; // '(' , ')' or 'a'
    size_t pos = 0;
    bool uf = false;
    bool shaky = false;     // names may not mean what they mean here; only the structure counts
    std::map<std::string, Sig> globals;
    std::vector<std::pair<std::string, Ty>> locals;

    [[noreturn]] void bad(std::string const& why) const
    {
        if (shaky) throw Unsure{};
        throw Invalid{why};
    }
    [[noreturn]] static void syntax(std::string const& why) { throw Invalid{"syntax: " + why}; }

    static bool symchar(char ch) { return std::isalnum(static_cast<unsigned char>(ch)) || std::string("~!@$%^&*_-+=<>.?/").find(ch) != std::string::npos; }

    static bool reserved(std::string const& s)
    {
        static const std::set<std::string> r{"!", "_", "as", "let", "forall", "exists", "match", "par", "assert", "check-sat", "check-sat-assuming", "declare-const", "declare-datatype", "declare-datatypes", "declare-fun",
                                             "declare-sort", "define-fun", "define-fun-rec", "define-funs-rec", "define-sort", "echo", "exit", "get-assertions", "get-assignment", "get-info", "get-model", "get-option",
                                             "get-proof", "get-unsat-assumptions", "get-unsat-core", "get-value", "pop", "push", "reset", "reset-assertions", "set-info", "set-logic", "set-option", "BINARY", "DECIMAL",
                                             "HEXADECIMAL", "NUMERAL", "STRING"};
        return r.count(s) > 0;
    }
    static bool builtin(std::string const& s)
    {
        static const std::set<std::string> r{"true", "false", "not", "and", "or", "xor", "=>", "=", "distinct", "ite", "+", "-", "*", "/", "<", "<=", ">", ">="};
        return r.count(s) > 0;
    }

    void lex(std::string const& t)
    {
        for (size_t i = 0; i < t.size();) {
            char ch = t[i];
            if (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r') {
                ++i;
            } else if (ch == ';') {
                while (i < t.size() && t[i] != '\n') ++i;
            } else if (ch == '(' || ch == ')') {
                toks.push_back({ch, {}});
                ++i;
            } else if (ch == '|' || ch == '"') {
                size_t e = t.find(ch, i + 1);
                if (e == std::string::npos) return toks.push_back({'!', {}}); // an error only if it is reached
                toks.push_back({'a', Sx{ch == '|' ? Sx::quoted : Sx::string, t.substr(i + 1, e - i - 1), {}}});
                i = e + 1;
                if (i < t.size() && (symchar(t[i]) || t[i] == '|' || t[i] == '"')) throw Unsure{};
            } else if (ch == ':' || ch == '#' || symchar(ch)) {
                size_t e = i + 1;
                while (e < t.size() && symchar(t[e])) ++e;
                if (e < t.size() && std::string(" \t\r\n();").find(t[e]) == std::string::npos) throw Unsure{};
                std::string w = t.substr(i, e - i);
                Sx x{Sx::symbol, w, {}};
                if (ch == ':') x.kind = Sx::keyword;
                else if (ch == '#') x.kind = Sx::other;
                else if (std::isdigit(static_cast<unsigned char>(ch))) {
                    size_t dot = w.find('.');
                    bool digits = true;
                    for (size_t k = 0; k < w.size(); ++k) digits = digits && (k == dot || std::isdigit(static_cast<unsigned char>(w[k])));
                    if (!digits || dot == w.size() - 1) throw Unsure{};
                    if (w.size() > 1 && w[0] == '0' && dot != 1) throw Unsure{};
                    x.kind = dot == std::string::npos ? Sx::numeral : Sx::decimal;
                }
                toks.push_back({'a', x});
                i = e;
            } else return toks.push_back({'!', {}});
        }
    }

    Sx read()
    {
        if (pos == toks.size()) syntax("end of the text inside of a command");
        auto& [ch, x] = toks[pos++];
        if (ch == '!') syntax("a character outside of strings, symbols and comments, or no end of those");
        if (ch == ')') syntax("superfluous )");
        if (ch == 'a') return x;
        Sx l;
        while (pos < toks.size() && toks[pos].first != ')') l.kids.push_back(read());
        if (pos == toks.size()) syntax("missing )");
        ++pos;
        return l;
    }

    static std::string const& name(Sx const& x)
    {
        if (x.kind == Sx::quoted) return x.text;
        if (x.kind != Sx::symbol) syntax("a name expected");
        if (reserved(x.text)) syntax("a reserved word used as a name");
        return x.text;
    }
    Ty sort(Sx const& x) const
    {
        std::string const& n = name(x);
        if (n == "Real") return Ty::real;
        if (n == "Bool") return Ty::boolean;
        bad("unknown sort");
    }
    void expect(Ty got, Ty want) const
    {
        if (got != Ty::any && want != Ty::any && got != want) bad("a term of a wrong sort");
    }

    void structure(Sx const& x) // of a term, names aside
    {
        switch (x.kind) {
        case Sx::keyword: syntax("a keyword used as a term");
        case Sx::symbol: name(x); return;
        case Sx::list: break;
        default: return;
        }
        if (x.kids.empty()) syntax("empty term");
        Sx const& h = x.kids[0];
        if (h.kind == Sx::list) {
            // ((_ f 1) x) and ((as f S) x) are unsupported, others are malformed
            syntax("a list at the head of a term");
        }
        if (h.is("let")) {
            if (x.kids.size() != 3) syntax("let: bindings and one body");
            if (x.kids[1].kind != Sx::list || x.kids[1].kids.empty()) syntax("let: no list of bindings");
            for (auto& b : x.kids[1].kids) {
                if (b.kind != Sx::list || b.kids.size() != 2) syntax("let: a binding is a name and a term");
                name(b.kids[0]);
                structure(b.kids[1]);
            }
            structure(x.kids[2]);
            return;
        }
        if (h.kind != Sx::symbol && h.kind != Sx::quoted) syntax("no name at the head of a term");
        name(h);
        if (x.kids.size() == 1) syntax("application without arguments");
        for (size_t i = 1; i < x.kids.size(); ++i) structure(x.kids[i]);
    }

    Ty type(Sx const& x)
    {
        if (x.kind == Sx::numeral || x.kind == Sx::decimal) return Ty::real;
        if (x.kind == Sx::string || x.kind == Sx::other) bad("unsupported literal");
        if (x.kind != Sx::list) {
            std::string const& n = x.text;
            for (size_t i = locals.size(); i-- > 0;)
                if (locals[i].first == n) return locals[i].second;
            if (n == "true" || n == "false") return Ty::boolean;
            if (builtin(n)) bad("an operator used as a constant");
            auto it = globals.find(n);
            if (it == globals.end()) bad("unknown name " + n);
            if (!it->second.args.empty()) bad("a function used as a constant");
            return it->second.ret;
        }
        std::string const& f = x.kids[0].text;
        if (x.kids[0].is("let")) {
            std::vector<std::pair<std::string, Ty>> bs;
            for (auto& b : x.kids[1].kids) {
                for (auto& [n, t] : bs) shaky = shaky || n == b.kids[0].text;
                shaky = shaky || builtin(b.kids[0].text);
                auto it = globals.find(b.kids[0].text);
                shaky = shaky || (it != globals.end() && !it->second.args.empty());
                bs.emplace_back(b.kids[0].text, type(b.kids[1]));
            }
            for (auto& b : bs) locals.push_back(b);
            Ty r = type(x.kids[2]);
            locals.resize(locals.size() - bs.size());
            return r;
        }
        for (auto& [n, t] : locals)
            if (n == f) throw Unsure{};
        std::vector<Ty> as;
        for (size_t i = 1; i < x.kids.size(); ++i) as.push_back(type(x.kids[i]));
        size_t n = as.size();
        auto all = [&](Ty t, size_t from = 0) {
            for (size_t i = from; i < n; ++i) expect(as[i], t);
        };
        auto count = [&](size_t lo, size_t hi) {
            if (n < lo || n > hi) bad("wrong number of arguments of " + f);
        };
        constexpr size_t inf = static_cast<size_t>(-1);
        if (f == "true" || f == "false") bad("a constant applied");
        if (f == "not") return count(1, 1), all(Ty::boolean), Ty::boolean;
        if (f == "and" || f == "or" || f == "xor") return count(1, inf), all(Ty::boolean), Ty::boolean;
        if (f == "=>") return count(2, inf), all(Ty::boolean), Ty::boolean;
        if (f == "=" || f == "distinct") {
            count(2, inf);
            Ty t = Ty::any;
            for (Ty a : as) t = t == Ty::any ? a : t;
            all(t);
            return Ty::boolean;
        }
        if (f == "ite") {
            count(3, 3);
            expect(as[0], Ty::boolean);
            expect(as[1], as[2]);
            return as[1] == Ty::any ? as[2] : as[1];
        }
        if (f == "+" || f == "-" || f == "*") return count(1, inf), all(Ty::real), Ty::real;
        if (f == "/") return count(2, inf), all(Ty::real), Ty::real;
        if (f == "<" || f == "<=" || f == ">" || f == ">=") return count(2, inf), all(Ty::real), Ty::boolean;
        auto it = globals.find(f);
        if (it == globals.end()) bad("unknown function " + f);
        auto& sig = it->second;
        if (sig.args.empty()) bad("a constant applied");
        count(sig.args.size(), sig.args.size());
        for (size_t i = 0; i < n; ++i) expect(as[i], sig.args[i]);
        return sig.ret;
    }

    void add(std::string const& n, Sig s)
    {
        if (builtin(n)) shaky = true;
        if (globals.count(n)) bad("a name declared twice");
        if (!uf && !s.args.empty()) bad("a function in QF_LRA");
        globals[n] = std::move(s);
    }

    bool command(Sx const& k, bool first) // false after (exit)
    {
        if (k.kind != Sx::list || k.kids.empty() || k.kids[0].kind != Sx::symbol) syntax("no command");
        std::string const& c = k.kids[0].text;
        size_t n = k.kids.size();
        auto size = [&](size_t want) {
            if (n != want) syntax("wrong number of arguments of " + c);
        };
        if (c == "set-logic") {
            size(2);
            if (!first) bad("second set-logic");
            if (!k.kids[1].is("QF_LRA") && !k.kids[1].is("QF_UFLRA")) throw Unsure{};
            uf = k.kids[1].is("QF_UFLRA");
            return true;
        }
        if (first) throw Unsure{};
        if (c == "declare-fun") {
            size(4);
            if (k.kids[2].kind != Sx::list) syntax("no list of sorts");
            Sig s;
            std::string const& f = name(k.kids[1]);
            for (auto& a : k.kids[2].kids) s.args.push_back(sort(a));
            s.ret = sort(k.kids[3]);
            add(f, s);
        } else if (c == "declare-const") {
            size(3);
            std::string const& f = name(k.kids[1]);
            add(f, {{}, sort(k.kids[2])});
        } else if (c == "define-fun") {
            size(5);
            if (k.kids[2].kind != Sx::list) syntax("no list of parameters");
            std::string const& f = name(k.kids[1]);
            Sig s;
            for (auto& a : k.kids[2].kids) {
                if (a.kind != Sx::list || a.kids.size() != 2) syntax("a parameter is a name and a sort");
                std::string const& pn = name(a.kids[0]);
                shaky = shaky || builtin(pn) || (globals.count(pn) && !globals[pn].args.empty());
                for (auto& [m, t] : locals)
                    if (m == pn) bad("two parameters of one name");
                s.args.push_back(sort(a.kids[1]));
                locals.emplace_back(pn, s.args.back());
            }
            s.ret = sort(k.kids[3]);
            structure(k.kids[4]);
            Ty t = type(k.kids[4]);
            expect(t, s.ret);
            locals.clear();
            bool keep = uf;
            uf = true; // macros are no functions
            add(f, s);
            uf = keep;
        } else if (c == "assert") {
            size(2);
            structure(k.kids[1]);
            expect(type(k.kids[1]), Ty::boolean);
        } else if (c == "check-sat" || c == "exit" || c == "get-model") {
            size(1);
            if (c == "exit") return false;
        } else if (c == "set-info" || c == "set-option") {
            if (n < 2 || k.kids[1].kind != Sx::keyword) syntax("no keyword");
            if (n > 3) syntax("more than one value of an attribute");
        } else if (reserved(c)) {
            throw Unsure{};
        } else bad("unknown command " + c);
        return true;
    }

public:
    /** Why @p text is no valid script; nothing if it is valid or this is not certain */
    std::string operator()(std::string const& text)
    {
        try {
            lex(text);
            bool first = true;
            while (pos < toks.size()) {
                // nothing is required of what follows (exit, the rest of this command included
                if (pos + 1 < toks.size() && toks[pos].first == '(' && toks[pos + 1].second.is("exit")) return "";
                if (!command(read(), first)) return "";
                first = false;
            }
        } catch (Invalid const& e) {
            return e.why;
        } catch (Unsure const&) {
        }
        return "";
    }
};

std::vector<std::pair<std::string, size_t>> tokenize(Script const& s)
{
    std::vector<std::pair<std::string, size_t>> toks; // text, command
    for (size_t i = 0; i < s.cmds.size(); ++i) {
        std::string const& t = s.cmds[i];
        for (size_t j = 0; j < t.size();) {
            if (t[j] == ' ') {
                ++j;
                continue;
            }
            size_t e = j + 1;
            if (t[j] == '|') e = t.find('|', j + 1) + 1;
            else if (t[j] != '(' && t[j] != ')')
                while (e < t.size() && t[e] != ' ' && t[e] != '(' && t[e] != ')') ++e;
            toks.emplace_back(t.substr(j, e - j), i);
            j = e;
        }
    }
    return toks;
}

/** Bind a random subterm of an assertion by a let (several bindings, nested lets). */
std::string with_lets(pbt::Ctx& c, E const& e)
{
    if (e->kids.empty()) return print(e);
    Sort sort = e->sort;
    static const std::string HOLE = "HOLE.HOLE";
    E sub;
    E p = punch(c, e, HOLE, sort, 0, &sub);
    std::string t = print(p), name = quote_if_needed(c.coin() ? "lx" : "l y");
    std::string bs = "(" + name + " " + print(sub) + ")"; // the term itself: the assertion stays linear
    int more = static_cast<int>(c.below(3));
    for (int i = 0; i < more; ++i) bs += i ? " (lw (ite bb 1 r2))" : " (lz " + std::string(c.coin() ? "true" : "(* 2 r1)") + ")";
    t.replace(t.find(HOLE), HOLE.size(), name);
    t = "(let (" + bs + ") " + t + ")";
    if (c.chance(1, 3)) t = "(let ((lv bb)) (and lv " + t + "))";
    return t;
}

/** Random changes of the tokens: an error if the result is no script (by an independent checker), no crash otherwise,
 * and the answers of the untouched part in either case. */
void tokens(pbt::Ctx& c)
{
    Problem p = problem(c);
    Script s = make(c, p);
    if (c.coin() && !p.asserts.empty()) { // lets
        std::string l = "(assert " + with_lets(c, c.pick(p.asserts)) + ")";
        s.cmds.insert(s.cmds.begin() + static_cast<std::ptrdiff_t>(c.range(static_cast<int64_t>(s.first_assert), static_cast<int64_t>(s.cmds.size()) - 1)), l);
    }
    auto toks = tokenize(s);
    size_t first = s.cmds.size();
    int n = c.coin() ? 1 : static_cast<int>(c.range(1, 4));
    bool shape_only = c.coin(); // parentheses and their neighbours
    static const std::vector<std::string> other{"(", ")", "let", "true", "0", "1.5", "Real", "Bool", "()", "(let ((x", "))", "not", "-", "/", "*", "=", "ite", "distinct", "assert", "check-sat", "define-fun", "declare-fun",
                                                ":a", "\"s\"", "|q|", "||", "#b1", "!", "_", "as", "exit", "set-logic", "get-model", "set-info", "mac", "bb", "r1", "99999999999999999999", "-1", "xor", "=>", "0.0", "\n", ";"};
    std::vector<size_t> where;
    for (size_t i = 0; i < toks.size(); ++i) {
        if (!shape_only) where.push_back(i);
        else if (toks[i].first == "(" || toks[i].first == ")" || toks[i].first == "let") where.push_back(i);
    }
    for (int i = 0; i < n; ++i) {
        size_t j = c.pick(where), k = c.below(toks.size());
        first = std::min(first, toks[j].second);
        switch (c.below(6)) {
        case 0: toks[j].first = ""; break;
        case 1: toks[j].first += " " + toks[j].first; break;
        case 2:
            first = std::min(first, toks[k].second);
            std::swap(toks[j].first, toks[k].first);
            break;
        case 3: toks[j].first = toks[k].first; break;
        case 4: toks[j].first = (c.coin() ? toks[j].first + " " + toks[k].first : toks[k].first + " " + toks[j].first); break;
        default: toks[j].first = c.pick(other);
        }
    }
    std::string text;
    for (size_t i = 0; i < toks.size(); ++i) text += toks[i].first + (i + 1 < toks.size() && toks[i + 1].second != toks[i].second ? "\n" : " ");
    std::string why = Checker{}(text);
    if (!why.empty()) {
        c.note << "; no script: " << why << "\n";
        c.label("certainly wrong");
        if (why.rfind("syntax", 0) == 0) c.label("wrong syntax");
    }
    compare(c, s, s.checks(first), text, !why.empty(), false, text.size());
    c.nontrivial(pbt::hash_str(text));
}

/** Valid scripts: the checker does not take them for wrong ones, and no error is reported. */
void accept(pbt::Ctx& c)
{
    Problem p = problem(c);
    Script s = make(c, p);
    if (!p.asserts.empty()) {
        std::string l = "(assert " + with_lets(c, c.pick(p.asserts)) + ")";
        s.cmds.insert(s.cmds.begin() + static_cast<std::ptrdiff_t>(c.range(static_cast<int64_t>(s.first_assert), static_cast<int64_t>(s.cmds.size()) - 1)), l);
    }
    std::string text;
    for (auto& t : tokenize(s)) text += t.first + c.pick(std::vector<std::string>{" ", "\n", "\t ", " ; comment )(\n"});
    c.note << text;
    c.publish();
    std::string why = Checker{}(text);
    PBT_CHECK(why.empty(), "(the harness takes a valid script for an invalid one: " << why << ")");
    Out o = execute(text), plain = execute(s.text());
    PBT_CHECK(!o.reported && !plain.reported, "an error is reported for a valid script; " << show(o) << "\n" << show(plain));
    PBT_CHECK(o.verdicts.size() == s.checks(s.cmds.size()), "wrong number of answers; " << show(o));
    PBT_CHECK(o.out == plain.out, "the layout of a script changes its output; " << show(o) << "\n" << show(plain));
    c.nontrivial(pbt::hash_str(text));
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    p.rule = "valid random scripts with one injected error (wrong terms in an assertion, redeclarations, bad declarations, unsupported and malformed commands, missing, late or unknown logic, truncation, parentheses) "
             "or with 1-4 changed tokens; an error is reported, not before the commands preceding it are answered, and all answers are those of the script without the erroneous command; no crash, no memory error; "
             "non-trivial: every case; distinct by script text";
    p.assumptions = {"answers of valid scripts are compared with yaga's own answers for the same script without the error; their correctness is decided by C01, C03 and C20"};
    p.subs.push_back({"command", command, 12000, 240000});
    p.subs.push_back({"shape", shape, 8000, 160000});
    p.subs.push_back({"tokens", tokens, 16000, 320000});
    p.subs.push_back({"accept", accept, 1500, 30000});
    for (auto& s : p.subs) s.hang_fails = true; // no generated case comes near the budget
    return pbt::run_main(argc, argv, p);
}
