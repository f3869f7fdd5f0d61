// Propositional generators and an independent oracle (DPLL, with z3 for what is too hard for it).
#pragma once
#include "pbt.h"
#include <algorithm>
#include <cstdlib>
#include <string>
#include <vector>
#include <z3++.h>

namespace cnf {

using Cl = std::vector<int>; // DIMACS literals
struct Cnf {
    int n = 0;
    std::vector<Cl> cls;
    bool planted = false;     // satisfiable by construction
    bool known_unsat = false; // unsatisfiable by construction
    std::vector<bool> w;      // the planted model (1-based)
    std::string kind;
};

inline bool satisfies(std::vector<int> const& val, Cl const& cl)
{
    for (int l : cl)
        if (val[std::abs(l)] == (l > 0 ? 1 : -1)) return true;
    return false;
}

/** DPLL with counters over occurrence lists. */
class Dpll {
public:
    enum R { UNSAT, SAT, UNKNOWN };
    Dpll(int n, std::vector<Cl> const& cls) : n(n), cls(cls), occ(2 * n + 2), val(n + 1, 0), nfalse(cls.size(), 0), ntrue(cls.size(), 0)
    {
        for (size_t i = 0; i < cls.size(); ++i) {
            Cl& k = this->cls[i];
            std::sort(k.begin(), k.end());
            k.erase(std::unique(k.begin(), k.end()), k.end());
            for (int l : k) occ[ix(l)].push_back(static_cast<int>(i));
        }
    }
    /** satisfiability under assumptions */
    R solve(std::vector<int> const& assume, uint64_t limit)
    {
        left = limit;
        std::fill(val.begin(), val.end(), 0);
        std::fill(nfalse.begin(), nfalse.end(), 0);
        std::fill(ntrue.begin(), ntrue.end(), 0);
        trail.clear();
        qhead = 0;
        for (auto& k : cls)
            if (k.empty()) return UNSAT;
        for (int l : assume) {
            if (val[std::abs(l)] == (l > 0 ? -1 : 1)) return UNSAT;
            if (!val[std::abs(l)]) push(l);
        }
        for (auto& k : cls)
            if (k.size() == 1) {
                if (val[std::abs(k[0])] == (k[0] > 0 ? -1 : 1)) return UNSAT;
                if (!val[std::abs(k[0])]) push(k[0]);
            }
        return rec();
    }
    std::vector<int> val;

private:
    int n;
    std::vector<Cl> cls;
    std::vector<std::vector<int>> occ;
    std::vector<int> nfalse, ntrue, trail;
    size_t qhead = 0;
    uint64_t left = 0;
    int ix(int l) const { return 2 * std::abs(l) + (l < 0); }
    void push(int l)
    {
        val[std::abs(l)] = l > 0 ? 1 : -1;
        trail.push_back(l);
        for (int c : occ[ix(l)]) ++ntrue[c];
        for (int c : occ[ix(-l)]) ++nfalse[c];
    }
    void undo(size_t to)
    {
        while (trail.size() > to) {
            int l = trail.back();
            trail.pop_back();
            val[std::abs(l)] = 0;
            for (int c : occ[ix(l)]) --ntrue[c];
            for (int c : occ[ix(-l)]) --nfalse[c];
        }
        qhead = std::min(qhead, to);
    }
    bool bcp()
    {
        for (; qhead < trail.size(); ++qhead)
            for (int c : occ[ix(-trail[qhead])]) {
                if (ntrue[c]) continue;
                int un = static_cast<int>(cls[c].size()) - nfalse[c];
                if (un == 0) return false;
                if (un == 1)
                    for (int l : cls[c])
                        if (!val[std::abs(l)]) {
                            push(l);
                            break;
                        }
            }
        return true;
    }
    R rec()
    {
        if (!bcp()) return UNSAT;
        if (left == 0) return UNKNOWN;
        --left;
        // the unassigned variable with the most occurrences in short open clauses
        int best = 0;
        double bs = -1;
        std::vector<double> sc(2 * n + 2, 0);
        for (size_t c = 0; c < cls.size(); ++c)
            if (!ntrue[c]) {
                int un = static_cast<int>(cls[c].size()) - nfalse[c];
                double wgt = un == 2 ? 5 : un == 3 ? 1 : 0.2;
                for (int l : cls[c])
                    if (!val[std::abs(l)]) sc[ix(l)] += wgt;
            }
        for (int v = 1; v <= n; ++v)
            if (!val[v]) {
                double s = sc[2 * v] * sc[2 * v + 1] * 100 + sc[2 * v] + sc[2 * v + 1];
                if (s > bs) bs = s, best = v;
            }
        if (!best || bs == 0) return SAT; // all clauses are satisfied
        for (int sgn : {1, -1}) {
            size_t mark = trail.size();
            qhead = mark;
            push(sgn * best);
            R r = rec();
            if (r != UNSAT) return r;
            undo(mark);
        }
        return UNSAT;
    }
};

inline int z3_sat(Cnf const& f)
{
    static z3::context* ctx = nullptr;
    static int uses = 0;
    if (!ctx || ++uses > 200) {
        delete ctx;
        ctx = new z3::context;
        uses = 0;
    }
    z3::solver s(*ctx, "QF_UF");
    z3::params prm(*ctx);
    prm.set("rlimit", 8000000u);
    s.set(prm);
    std::vector<z3::expr> v;
    for (int i = 0; i <= f.n; ++i) v.push_back(ctx->bool_const(("p" + std::to_string(i)).c_str()));
    for (auto& k : f.cls) {
        z3::expr_vector ev(*ctx);
        for (int l : k) ev.push_back(l > 0 ? v[l] : !v[-l]);
        s.add(z3::mk_or(ev));
    }
    auto r = s.check();
    return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
}

/** 1 satisfiable, 0 unsatisfiable, -1 not decided */
inline int truth(Cnf const& f)
{
    if (f.planted) return 1;
    if (f.known_unsat) return 0;
    Dpll d(f.n, f.cls);
    auto r = d.solve({}, 1500);
    if (r != Dpll::UNKNOWN) return r == Dpll::SAT;
    return z3_sat(f);
}

inline void shuffle(pbt::Ctx& c, std::vector<Cl>& v)
{
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.below(i)]);
}

inline Cl distinct_clause(pbt::Ctx& c, int n, int width)
{
    Cl k;
    for (int tries = 0; static_cast<int>(k.size()) < width && tries < 4 * width; ++tries) {
        int v = static_cast<int>(c.range(1, n));
        bool dup = false;
        for (int l : k) dup = dup || std::abs(l) == v;
        if (!dup) k.push_back(c.coin() ? -v : v);
    }
    if (k.empty()) k.push_back(c.coin() ? -1 : 1);
    return k;
}

inline Cnf random_small(pbt::Ctx& c)
{
    Cnf f;
    f.kind = "random";
    f.n = static_cast<int>(c.range(1, 12));
    int m = static_cast<int>(c.range(0, 5 * f.n));
    for (int i = 0; i < m; ++i) {
        static const std::vector<int> w{1, 4, 5, 2, 1};
        f.cls.push_back(distinct_clause(c, f.n, static_cast<int>(c.weighted(w)) + 1));
    }
    return f;
}

inline Cnf threshold(pbt::Ctx& c, int lo, int hi, bool plant)
{
    Cnf f;
    f.n = static_cast<int>(c.range(lo, hi));
    f.planted = plant && c.chance(1, 2);
    f.kind = f.planted ? "planted" : "threshold";
    f.w.assign(f.n + 1, false);
    if (f.planted)
        for (int i = 1; i <= f.n; ++i) f.w[i] = c.coin();
    double ratio = f.planted ? 3.6 + 0.1 * static_cast<double>(c.below(12)) : 3.9 + 0.1 * static_cast<double>(c.below(9));
    int m = static_cast<int>(f.n * ratio);
    bool mixed = c.chance(1, 4);
    for (int i = 0; i < m; ++i) {
        Cl k = distinct_clause(c, f.n, mixed && c.chance(1, 4) ? static_cast<int>(c.range(2, 7)) : 3);
        if (f.planted) {
            bool ok = false;
            for (int l : k) ok = ok || f.w[std::abs(l)] == (l > 0);
            if (!ok) {
                size_t j = c.below(k.size());
                k[j] = -k[j];
            }
        }
        f.cls.push_back(k);
    }
    return f;
}

inline Cnf pigeons(pbt::Ctx& c, int maxholes)
{
    Cnf f;
    f.kind = "pigeons";
    int h = static_cast<int>(c.range(1, maxholes)), p = h + 1 - static_cast<int>(c.chance(1, 3));
    f.n = h * p;
    auto v = [&](int i, int j) { return i * h + j + 1; };
    for (int i = 0; i < p; ++i) {
        Cl k;
        for (int j = 0; j < h; ++j) k.push_back(v(i, j));
        f.cls.push_back(k);
    }
    for (int j = 0; j < h; ++j)
        for (int i = 0; i < p; ++i)
            for (int q = i + 1; q < p; ++q) f.cls.push_back({-v(i, j), -v(q, j)});
    (p > h ? f.known_unsat : f.planted) = true;
    if (c.coin()) shuffle(c, f.cls);
    return f;
}

inline Cnf parity(pbt::Ctx& c, int maxn)
{
    Cnf f;
    f.kind = "parity";
    f.n = static_cast<int>(c.range(2, maxn));
    int m = static_cast<int>(c.range(1, f.n + 2));
    for (int i = 0; i < m; ++i) {
        Cl k = distinct_clause(c, f.n, static_cast<int>(c.range(1, 4)));
        bool rhs = c.coin();
        for (unsigned mask = 0; mask < (1u << k.size()); ++mask) {
            if ((__builtin_popcount(mask) % 2 == 1) == rhs) continue;
            Cl q; // forbid this assignment
            for (size_t j = 0; j < k.size(); ++j) q.push_back((mask >> j & 1) ? -std::abs(k[j]) : std::abs(k[j]));
            f.cls.push_back(q);
        }
    }
    if (c.coin()) shuffle(c, f.cls);
    return f;
}

inline Cnf coloring(pbt::Ctx& c, int maxv)
{
    Cnf f;
    f.kind = "coloring";
    int nv = static_cast<int>(c.range(3, maxv)), col = static_cast<int>(c.range(2, 4));
    f.n = nv * col;
    auto v = [&](int i, int j) { return i * col + j + 1; };
    for (int i = 0; i < nv; ++i) {
        Cl k;
        for (int j = 0; j < col; ++j) k.push_back(v(i, j));
        f.cls.push_back(k);
        if (c.chance(1, 4))
            for (int a = 0; a < col; ++a)
                for (int b = a + 1; b < col; ++b) f.cls.push_back({-v(i, a), -v(i, b)});
    }
    int edges = static_cast<int>(nv * (col == 2 ? 1.1 : col == 3 ? 2.2 : 4.0));
    for (int e = 0; e < edges; ++e) {
        int a = static_cast<int>(c.below(nv)), b = static_cast<int>(c.below(nv));
        if (a == b) continue;
        for (int j = 0; j < col; ++j) f.cls.push_back({-v(a, j), -v(b, j)});
    }
    if (c.coin()) shuffle(c, f.cls);
    return f;
}

/** implication chains, units, long clauses: much propagation at level 0 and above */
inline Cnf chains(pbt::Ctx& c, int maxn)
{
    Cnf f;
    f.kind = "chains";
    f.n = static_cast<int>(c.range(3, maxn));
    int m = static_cast<int>(c.range(f.n, 3 * f.n));
    for (int i = 0; i < m; ++i) {
        size_t k = c.weighted({12, 4, 2, 1});
        if (k == 0) f.cls.push_back(distinct_clause(c, f.n, 2));
        else if (k == 1) f.cls.push_back(distinct_clause(c, f.n, 3));
        else if (k == 2) f.cls.push_back(distinct_clause(c, f.n, static_cast<int>(c.range(4, 12))));
        else f.cls.push_back(distinct_clause(c, f.n, 1));
    }
    return f;
}

inline Cnf any(pbt::Ctx& c, int scale)
{
    switch (c.weighted({4, 4, 2, 2, 2, 3})) {
    case 0: return random_small(c);
    case 1: return threshold(c, 8, 20 + 20 * scale, true);
    case 2: return pigeons(c, std::min(5, 3 + scale));
    case 3: return parity(c, 8 + 6 * scale);
    case 4: return coloring(c, 6 + 4 * scale);
    default: return chains(c, 20 + 20 * scale);
    }
}

inline std::string show(Cnf const& f)
{
    std::string s = "p cnf " + std::to_string(f.n) + " " + std::to_string(f.cls.size()) + "\n";
    for (auto& k : f.cls) {
        for (int l : k) s += std::to_string(l) + " ";
        s += "0\n";
    }
    return s;
}

} // namespace cnf
