// Generators of SMT problems.
#pragma once
#include "smt.h"

namespace gen {

using namespace smt;

enum class Nums { small, frac, big, mixed };

struct Cfg {
    int nbool = 2;
    int nreal = 3;
    Nums nums = Nums::small;
    bool uf = false;
    bool uf_bool = false; // functions with Bool arguments or results
    bool nary = true;     // n-ary -, *, <, =, ...
    bool div = true;
    bool ite = true;
};

Q number(pbt::Ctx& c, Nums m);
Q nonzero(pbt::Ctx& c, Nums m);

class Gen {
public:
    Gen(pbt::Ctx& c, Cfg const& cfg);
    Problem p;
    E real(int depth);
    E boolean(int depth);
    /** atom over a few variables with small coefficients */
    E atom(int max_vars = 3);
    E linear(int max_vars);
    E const_term(int depth);
    E bvar();
    E rvar();
    E num(Q const& q);
    E app(Sort ret, int depth);
    E lit(E a) { return c.coin() ? mk_not(a) : a; }
    pbt::Ctx& c;
    Cfg cfg;
    std::vector<E> bvars, rvars, pool_lin;
};

Opts options(pbt::Ctx& c);

// whole problems
Problem formula(pbt::Ctx& c, Cfg cfg);      // nested formulas
Problem clauses(pbt::Ctx& c, Cfg cfg);      // clause sets over linear atoms, near the threshold
Problem planted(pbt::Ctx& c, Cfg cfg, int scale);  // satisfiable by construction
Problem farkas(pbt::Ctx& c, Cfg cfg);       // unsatisfiable by construction
Problem boolean_hard(pbt::Ctx& c, int scale);          // propositional, many conflicts
Problem scheduling(pbt::Ctx& c, int scale);            // disjunctive difference constraints
Problem dense(pbt::Ctx& c, Cfg cfg);        // clause sets of bounds and differences with many conflicts
Problem separated(pbt::Ctx& c, int scale);   // points at least a gap apart in an interval
Problem knapsack(pbt::Ctx& c, Cfg cfg);     // sums of ite terms between bounds
Problem ite_chain(pbt::Ctx& c, Cfg cfg);    // max/min/abs computations
Problem congruence(pbt::Ctx& c, Cfg cfg);   // equalities and disequalities over a pool of function applications
Problem uf_planted(pbt::Ctx& c, Cfg cfg, int scale); // satisfiable by construction, functions included
Problem uf_conflict(pbt::Ctx& c, Cfg cfg);  // unsatisfiable by congruence

} // namespace gen
