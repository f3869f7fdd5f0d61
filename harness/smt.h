// SMT-LIB abstract syntax, exact evaluation, printing, running yaga, and a witness-finding oracle (z3).
#pragma once
#include "pbt.h"
#include <functional>
#include <gmpxx.h>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace smt {

using Q = mpq_class;
enum class Sort { Bool, Real };
enum class Op { True, False, Var, Num, Not, And, Or, Xor, Implies, Eq, Distinct, Lt, Le, Gt, Ge, Add, Sub, Neg, Mul, Div, Ite, App };

struct Node;
using E = std::shared_ptr<const Node>;
struct Node {
    Op op;
    Sort sort;
    std::vector<E> kids;
    Q num;
    std::string name;
    int style = 0; // how a number is written
    ~Node();
};

E mk(Op op, Sort s, std::vector<E> kids = {});
E mk_true();
E mk_false();
E mk_num(Q const& q, int style = 0);
E mk_var(std::string const& n, Sort s);
E mk_app(std::string const& f, Sort ret, std::vector<E> args);
inline E mk_not(E a) { return mk(Op::Not, Sort::Bool, {std::move(a)}); }

struct Value {
    Sort sort = Sort::Real;
    bool b = false;
    Q q = 0;
    static Value of(bool v) { Value r; r.sort = Sort::Bool; r.b = v; return r; }
    static Value of(Q const& v) { Value r; r.sort = Sort::Real; r.q = v; return r; }
    bool operator==(Value const& o) const { return sort == o.sort && (sort == Sort::Bool ? b == o.b : q == o.q); }
    std::string str() const;
};

struct Fun {
    std::string name;
    std::vector<Sort> args;
    Sort ret;
};

struct Interp {
    std::map<std::string, Value> vars;
    std::map<std::string, std::function<Value(std::vector<Value> const&)>> funs;
    std::string text; // printable form
};

struct Problem {
    std::string logic = "QF_LRA";
    std::vector<std::pair<std::string, Sort>> vars;
    std::vector<Fun> funs;
    std::vector<E> asserts;
    std::optional<Interp> witness;  // known model
    bool known_unsat = false;       // unsatisfiable by construction
};

/** Value of @p e; variables and functions without an interpretation have default values (0/false). */
Value eval(E const& e, Interp const& in);
bool holds(E const& e, Interp const& in);
/** index of the first assertion which is false, or -1 */
int first_false(std::vector<E> const& as, Interp const& in);

std::string print(E const& e);
std::string print_sort(Sort s);
std::string quote_if_needed(std::string const& name);
std::string print_num(Q const& q, int style);
std::string script(Problem const& p, bool get_model = true);
size_t dag_size(std::vector<E> const& es);

struct Opts {
    int phase = 0; // 0 default (cache?), 1 positive, 2 negative, 3 cache
    bool prop_rational = false;
    bool deduce_bounds = false;
    std::string str() const;
};

struct Run {
    std::vector<std::string> verdicts;
    std::string out;
    std::string error; // what() of an escaped exception
    long conflicts = 0, restarts = 0;
    std::string verdict() const { return verdicts.empty() ? "" : verdicts.back(); }
};
/** Parse and execute a script in this process. */
Run run_yaga(std::string const& text, Opts const& o = {});

/** Parse the first model printed in @p out (text after "sat"). Throws pbt::Failure when malformed. */
Interp parse_model(std::string const& out, Problem const& p);

enum class Sat { sat, unsat, unknown };
/** z3's answer; a model of z3 is converted to @p witness and re-evaluated exactly by the caller. */
Sat solve_z3(Problem const& p, std::vector<E> const& asserts, Interp* witness, unsigned rlimit = 4000000);

// ---- s-expressions
struct Sx {
    bool atom = true;
    std::string s;
    std::vector<Sx> l;
};
/** read all s-expressions of a text; throws pbt::Failure */
std::vector<Sx> read_sexprs(std::string const& text);

// ---- judging an answer
struct Judge {
    bool check_verdict = true;
    bool check_model = true;
};
/** Compares yaga's answer with ground truth; throws pbt::Failure. Adds labels. Returns verdict. */
std::string judge(pbt::Ctx& ctx, Problem const& p, Run const& r, Judge const& j);

} // namespace smt
