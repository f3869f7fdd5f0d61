#include "gen.h"

#include <algorithm>

namespace gen {

static Q big_int(pbt::Ctx& c)
{
    static const char* const bases[] = {"2147483647", "2147483648", "4294967296", "1000000", "4611686018427387904", "9223372036854775807",
                                        "18446744073709551616", "100000000000000000000", "65536", "46341", "3037000500", "123456789"};
    mpz_class b(bases[c.below(12)]);
    b += c.range(-2, 2);
    if (c.coin()) b = -b;
    return Q(b);
}

Q number(pbt::Ctx& c, Nums m)
{
    if (m == Nums::mixed) m = static_cast<Nums>(c.weighted({6, 3, 2}));
    switch (m) {
    case Nums::small: { auto v = c.range(0, 10); return Q(static_cast<long>(v <= 5 ? v : 5 - v)); }
    case Nums::frac: {
        long n = static_cast<long>(c.range(0, 20));
        n = n <= 10 ? n : 10 - n;
        Q q(n, static_cast<long>(c.range(1, 8)));
        q.canonicalize();
        return q;
    }
    default: {
        Q n = big_int(c);
        if (c.chance(1, 3)) {
            Q d = big_int(c);
            if (d != 0) n /= d;
        } else if (c.chance(1, 4)) {
            n /= Q(static_cast<long>(c.range(1, 7)));
        }
        return n;
    }
    }
}
Q nonzero(pbt::Ctx& c, Nums m)
{
    Q q = number(c, m);
    return q == 0 ? Q(1) : q;
}

Gen::Gen(pbt::Ctx& ctx, Cfg const& cf) : c(ctx), cfg(cf)
{
    p.logic = cfg.uf ? "QF_UFLRA" : "QF_LRA";
    for (int i = 0; i < cfg.nbool; ++i) {
        p.vars.push_back({"b" + std::to_string(i), Sort::Bool});
        bvars.push_back(mk_var(p.vars.back().first, Sort::Bool));
    }
    for (int i = 0; i < cfg.nreal; ++i) {
        p.vars.push_back({"x" + std::to_string(i), Sort::Real});
        rvars.push_back(mk_var(p.vars.back().first, Sort::Real));
    }
    if (cfg.uf) {
        p.funs.push_back({"f", {Sort::Real}, Sort::Real});
        p.funs.push_back({"g", {Sort::Real, Sort::Real}, Sort::Real});
        if (cfg.uf_bool) {
            p.funs.push_back({"h", {Sort::Bool}, Sort::Real});
            p.funs.push_back({"p", {Sort::Real}, Sort::Bool});
            p.funs.push_back({"q", {Sort::Bool, Sort::Real}, Sort::Bool});
        }
        // wider signatures
        int extra = static_cast<int>(c.weighted({3, 2, 1}));
        for (int i = 0; i < extra; ++i) {
            int arity = static_cast<int>(c.range(1, 5));
            Fun f{"w" + std::to_string(i), {}, cfg.uf_bool && c.chance(1, 3) ? Sort::Bool : Sort::Real};
            for (int j = 0; j < arity; ++j) f.args.push_back(cfg.uf_bool && c.chance(1, 3) ? Sort::Bool : Sort::Real);
            p.funs.push_back(f);
        }
    }
}

E Gen::num(Q const& q) { return mk_num(q, static_cast<int>(c.below(8))); }
E Gen::bvar() { return bvars.empty() ? (c.coin() ? mk_true() : mk_false()) : c.pick(bvars); }
E Gen::rvar() { return rvars.empty() ? num(number(c, cfg.nums)) : c.pick(rvars); }

E Gen::const_term(int depth)
{
    if (depth <= 0 || !c.chance(1, 3)) return num(number(c, cfg.nums));
    switch (c.below(5)) {
    case 0: return mk(Op::Add, Sort::Real, {const_term(depth - 1), const_term(depth - 1)});
    case 1: return mk(Op::Sub, Sort::Real, {const_term(depth - 1), const_term(depth - 1)});
    case 2: return mk(Op::Mul, Sort::Real, {const_term(depth - 1), const_term(depth - 1)});
    case 3: if (cfg.div) return mk(Op::Div, Sort::Real, {const_term(depth - 1), num(nonzero(c, cfg.nums))}); [[fallthrough]];
    default: return mk(Op::Neg, Sort::Real, {const_term(depth - 1)});
    }
}

E Gen::app(Sort ret, int depth)
{
    std::vector<Fun const*> fs;
    for (auto& f : p.funs) if (f.ret == ret) fs.push_back(&f);
    if (fs.empty()) return ret == Sort::Bool ? bvar() : rvar();
    auto f = c.pick(fs);
    std::vector<E> args;
    for (auto s : f->args) {
        if (s == Sort::Real) args.push_back(c.chance(2, 3) ? rvar() : real(depth - 1));
        else args.push_back(c.chance(1, 2) ? lit(bvar()) : boolean(depth - 1));
    }
    return mk_app(f->name, ret, args);
}

E Gen::real(int d)
{
    if (d <= 0) {
        if (cfg.uf && c.chance(1, 3)) {
            // shallow application
            auto& f = p.funs[c.below(2)];
            std::vector<E> args;
            for (size_t i = 0; i < f.args.size(); ++i) args.push_back(rvar());
            return mk_app(f.name, Sort::Real, args);
        }
        return c.chance(1, 4) ? num(number(c, cfg.nums)) : rvar();
    }
    switch (c.weighted({4, 3, 3, 2, 3, 1, cfg.ite ? 2 : 0, cfg.uf ? 4 : 0, 1})) {
    case 0: return c.chance(1, 4) ? num(number(c, cfg.nums)) : rvar();
    case 1: {
        std::vector<E> k;
        int n = static_cast<int>(c.range(2, 4));
        for (int i = 0; i < n; ++i) k.push_back(real(d - 1));
        if (cfg.nary && c.chance(1, 8)) // many summands, some of which cancel
            for (int m = static_cast<int>(c.range(2, 8)); m; --m) {
                E t = k[c.below(static_cast<uint64_t>(n))];
                switch (c.below(4)) {
                case 0: k.push_back(mk(Op::Neg, Sort::Real, {t})); break;
                case 1: k.push_back(mk(Op::Mul, Sort::Real, {num(nonzero(c, cfg.nums)), t})); break;
                case 2: k.push_back(num(number(c, cfg.nums))); break;
                default: k.push_back(t);
                }
            }
        return mk(Op::Add, Sort::Real, k);
    }
    case 2: {
        std::vector<E> k{real(d - 1), real(d - 1)};
        if (cfg.nary && c.chance(1, 6)) k.push_back(real(d - 1));
        return mk(Op::Sub, Sort::Real, k);
    }
    case 3: return mk(Op::Neg, Sort::Real, {real(d - 1)});
    case 4: {
        E k = const_term(1), t = real(d - 1);
        if (c.coin()) std::swap(k, t);
        std::vector<E> ks{k, t};
        if (cfg.nary && c.chance(1, 6)) ks.insert(ks.begin() + static_cast<long>(c.below(3)), const_term(1));
        return mk(Op::Mul, Sort::Real, ks);
    }
    case 5: if (cfg.div) return mk(Op::Div, Sort::Real, {real(d - 1), num(nonzero(c, cfg.nums))}); return rvar();
    case 6: return mk(Op::Ite, Sort::Real, {boolean(d - 1), real(d - 1), real(d - 1)});
    case 7: return app(Sort::Real, d);
    default: return const_term(d);
    }
}

E Gen::linear(int max_vars)
{
    int n = static_cast<int>(c.range(1, max_vars));
    std::vector<E> k;
    for (int i = 0; i < n; ++i) {
        Q q = nonzero(c, cfg.nums);
        E v = cfg.uf && c.chance(1, 3) ? app(Sort::Real, 1) : rvar();
        if (q == 1) k.push_back(v);
        else if (q == -1) k.push_back(mk(Op::Neg, Sort::Real, {v}));
        else k.push_back(mk(Op::Mul, Sort::Real, {num(q), v}));
    }
    if (k.size() == 1) return k[0];
    return mk(Op::Add, Sort::Real, k);
}

E Gen::atom(int max_vars)
{
    static const Op ops[] = {Op::Le, Op::Lt, Op::Ge, Op::Gt, Op::Eq, Op::Distinct};
    Op op = ops[c.weighted({3, 3, 2, 2, 2, 1})];
    E l;
    if (!pool_lin.empty() && c.chance(2, 3)) l = c.pick(pool_lin);
    else { l = linear(max_vars); pool_lin.push_back(l); }
    E r;
    if (c.chance(1, 6) && !pool_lin.empty()) r = c.pick(pool_lin);
    else if (c.chance(1, 6)) r = rvar();
    else r = num(number(c, cfg.nums));
    if (c.chance(1, 4)) std::swap(l, r);
    return mk(op, Sort::Bool, {l, r});
}

E Gen::boolean(int d)
{
    if (d <= 0) {
        if (c.chance(1, 20)) return c.coin() ? mk_true() : mk_false();
        return c.chance(1, 3) ? bvar() : atom(2);
    }
    switch (c.weighted({2, 5, 4, 4, 3, 2, 2, 2, 3, cfg.uf_bool ? 3 : 0, 2})) {
    case 0: return bvar();
    case 1: {
        static const Op ops[] = {Op::Le, Op::Lt, Op::Ge, Op::Gt, Op::Eq, Op::Distinct};
        if (c.chance(1, 2)) return atom(3);
        Op op = ops[c.below(6)];
        std::vector<E> k{real(d - 1), real(d - 1)};
        if (cfg.nary && c.chance(1, 8)) k.push_back(c.chance(1, 3) ? c.pick(k) : real(d - 1));
        if (cfg.nary && c.chance(1, 16)) k.push_back(c.chance(1, 3) ? c.pick(k) : real(d - 1));
        return mk(op, Sort::Bool, k);
    }
    case 2: case 3: {
        Op op = c.coin() ? Op::And : Op::Or;
        std::vector<E> k;
        int n = static_cast<int>(c.range(2, 4));
        if (c.chance(1, 20)) n = 1;
        if (cfg.nary && c.chance(1, 6)) { // many arguments with repeated and opposite ones
            std::vector<E> pool;
            for (int i = 0; i <= n; ++i) pool.push_back(boolean(d - 1));
            for (int m = static_cast<int>(c.range(4, 10)); m; --m) k.push_back(c.chance(1, 4) ? mk_not(c.pick(pool)) : c.pick(pool));
            return mk(op, Sort::Bool, k);
        }
        for (int i = 0; i < n; ++i) k.push_back(boolean(d - 1));
        return mk(op, Sort::Bool, k);
    }
    case 4: return mk_not(boolean(d - 1));
    case 5: {
        std::vector<E> k{boolean(d - 1), boolean(d - 1)};
        if (cfg.nary && c.chance(1, 6)) k.push_back(boolean(d - 1));
        return mk(Op::Implies, Sort::Bool, k);
    }
    case 6: {
        std::vector<E> k{boolean(d - 1), boolean(d - 1)};
        if (cfg.nary && c.chance(1, 6)) k.push_back(boolean(d - 1));
        return mk(Op::Xor, Sort::Bool, k);
    }
    case 7: {
        std::vector<E> k{boolean(d - 1), boolean(d - 1)};
        if (cfg.nary && c.chance(1, 6)) k.push_back(boolean(d - 1));
        return mk(c.coin() ? Op::Eq : Op::Distinct, Sort::Bool, k);
    }
    case 8: return mk(Op::Ite, Sort::Bool, {boolean(d - 1), boolean(d - 1), boolean(d - 1)});
    case 9: return app(Sort::Bool, d);
    default: return atom(2);
    }
}

Opts options(pbt::Ctx& c)
{
    Opts o;
    o.phase = static_cast<int>(c.weighted({4, 1, 2, 2}));
    o.prop_rational = c.chance(1, 3);
    o.deduce_bounds = c.chance(1, 3);
    return o;
}

Problem formula(pbt::Ctx& c, Cfg cfg)
{
    cfg.nbool = static_cast<int>(c.range(0, 3));
    cfg.nreal = static_cast<int>(c.range(1, 4));
    Gen g(c, cfg);
    int n = static_cast<int>(c.range(1, 6));
    for (int i = 0; i < n; ++i) g.p.asserts.push_back(g.boolean(static_cast<int>(c.range(1, 3))));
    return g.p;
}

Problem clauses(pbt::Ctx& c, Cfg cfg)
{
    cfg.nbool = static_cast<int>(c.range(0, 4));
    cfg.nreal = static_cast<int>(c.range(2, 8));
    Gen g(c, cfg);
    // pool of atoms
    std::vector<E> atoms(g.bvars);
    int na = static_cast<int>(c.range(4, 24));
    int mv = static_cast<int>(c.range(1, 4));
    for (int i = 0; i < na; ++i) atoms.push_back(g.atom(mv));
    int nc = static_cast<int>(c.range(2, 40));
    int maxw = static_cast<int>(c.range(2, 4));
    for (int i = 0; i < nc; ++i) {
        int w = c.chance(1, 20) ? 1 : static_cast<int>(c.range(2, maxw));
        std::vector<E> k;
        for (int j = 0; j < w; ++j) k.push_back(g.lit(c.pick(atoms)));
        g.p.asserts.push_back(w == 1 ? k[0] : mk(Op::Or, Sort::Bool, k));
    }
    return g.p;
}

Problem planted(pbt::Ctx& c, Cfg cfg, int scale)
{
    cfg.nbool = static_cast<int>(c.range(0, 2 + scale));
    cfg.nreal = static_cast<int>(c.range(1, 3 + scale));
    Gen g(c, cfg);
    Interp w;
    for (auto& b : g.bvars) w.vars[b->name] = Value::of(c.coin());
    for (auto& x : g.rvars) w.vars[x->name] = Value::of(number(c, c.chance(1, 3) ? Nums::frac : cfg.nums));
    int nc = static_cast<int>(c.range(2, 10 + 10 * scale));
    int mv = static_cast<int>(c.range(1, 4));
    std::vector<E> atoms(g.bvars);
    auto tight = [&]() {
        // constraint whose boundary passes through or near the planted point
        E l = !g.pool_lin.empty() && c.chance(1, 2) ? c.pick(g.pool_lin) : g.linear(mv);
        g.pool_lin.push_back(l);
        Q v = eval(l, w).q;
        static const Op ops[] = {Op::Le, Op::Lt, Op::Ge, Op::Gt, Op::Eq, Op::Distinct};
        Op op = ops[c.weighted({3, 3, 3, 3, 2, 2})];
        Q off = 0;
        if (c.chance(2, 3)) off = c.chance(1, 3) ? number(c, Nums::frac) : number(c, Nums::small);
        return mk(op, Sort::Bool, {l, g.num(Q(v + off))});
    };
    for (int i = 0; i < nc; ++i) {
        int wd = static_cast<int>(c.range(1, 4));
        std::vector<E> k;
        for (int j = 0; j < wd; ++j) {
            E a = !atoms.empty() && c.chance(1, 2) ? c.pick(atoms) : tight();
            atoms.push_back(a);
            k.push_back(g.lit(a));
        }
        bool ok = false;
        for (auto& l : k) ok = ok || holds(l, w);
        if (!ok) {
            size_t j = c.below(k.size());
            k[j] = k[j]->op == Op::Not ? k[j]->kids[0] : mk_not(k[j]);
        }
        g.p.asserts.push_back(k.size() == 1 ? k[0] : mk(Op::Or, Sort::Bool, k));
    }
    std::string t;
    for (auto& [n, v] : w.vars) t += n + " = " + v.str() + "\n";
    w.text = t;
    g.p.witness = w;
    return g.p;
}

/** pseudo-random but deterministic interpretation of every declared function */
static void random_functions(pbt::Ctx& c, Problem const& p, Interp& w)
{
    for (auto& f : p.funs) {
        uint64_t salt = c.below(1 << 20);
        int mod = static_cast<int>(c.range(1, 4));
        int lin = static_cast<int>(c.below(3));
        auto ret = f.ret;
        w.funs[f.name] = [=](std::vector<Value> const& a) {
            uint64_t h = salt * 0x9e3779b97f4a7c15ull + 1;
            Q sum = 0;
            for (auto& v : a) {
                h = pbt::hash_str(v.str() + std::to_string(h));
                sum += v.sort == Sort::Bool ? Q(v.b ? 1 : 0) : v.q;
            }
            if (ret == Sort::Bool) return Value::of(h % 2 == 0);
            Q r(static_cast<long>(h % static_cast<uint64_t>(2 * mod + 1)) - mod);
            if (lin == 1) r += sum; // keeps values distinct, so that fewer arguments coincide
            if (lin == 2) r /= 2;
            return Value::of(r);
        };
        w.text += f.name + ": pseudo-random function " + std::to_string(salt) + "/" + std::to_string(mod) + "/" + std::to_string(lin) + "\n";
    }
}

/** pool of terms closed under a few function applications */
static void grow_pool(pbt::Ctx& c, Gen& g, std::vector<E>& reals, std::vector<E>& bools, int steps)
{
    std::vector<E> apps;
    for (int i = 0; i < steps; ++i) {
        if (!apps.empty() && c.chance(1, 3)) { // an existing application with one argument replaced
            E old = c.pick(apps);
            auto args = old->kids;
            auto& a = args[c.below(args.size())];
            a = a->sort == Sort::Real ? c.pick(reals) : g.lit(c.pick(bools));
            E t = mk_app(old->name, old->sort, args);
            (t->sort == Sort::Real ? reals : bools).push_back(t);
            apps.push_back(t);
            continue;
        }
        auto& f = c.pick(g.p.funs);
        std::vector<E> args;
        for (auto s : f.args) {
            if (s == Sort::Real) {
                E a = c.pick(reals);
                if (c.chance(1, 6)) a = mk(c.coin() ? Op::Add : Op::Sub, Sort::Real, {a, c.coin() ? c.pick(reals) : g.num(number(c, Nums::small))});
                if (c.chance(1, 10)) a = mk(Op::Mul, Sort::Real, {g.num(nonzero(c, g.cfg.nums)), a});
                if (g.cfg.ite && c.chance(1, 20)) a = mk(Op::Ite, Sort::Real, {c.pick(bools), a, c.pick(reals)});
                args.push_back(a);
            } else {
                args.push_back(g.lit(c.pick(bools)));
            }
        }
        E t = mk_app(f.name, f.ret, args);
        (f.ret == Sort::Real ? reals : bools).push_back(t);
        apps.push_back(t);
    }
}

Problem congruence(pbt::Ctx& c, Cfg cfg)
{
    cfg.uf = true;
    cfg.nbool = static_cast<int>(c.range(1, 3));
    cfg.nreal = static_cast<int>(c.range(1, 5));
    Gen g(c, cfg);
    std::vector<E> reals(g.rvars), bools(g.bvars);
    if (c.chance(1, 2)) reals.push_back(g.num(number(c, Nums::small)));
    grow_pool(c, g, reals, bools, static_cast<int>(c.range(2, 12)));
    auto atom = [&]() -> E {
        switch (c.weighted({6, cfg.uf_bool ? 3 : 1, 2, 1, 1})) {
        case 0: return mk(Op::Eq, Sort::Bool, {c.pick(reals), c.pick(reals)});
        case 1: return c.pick(bools);
        case 2: return mk(c.coin() ? Op::Le : Op::Lt, Sort::Bool, {c.pick(reals), c.pick(reals)});
        case 3: return mk(Op::Eq, Sort::Bool, {c.pick(reals), g.num(number(c, cfg.nums))});
        default: return mk(Op::Le, Sort::Bool, {mk(Op::Add, Sort::Real, {c.pick(reals), c.pick(reals)}), c.pick(reals)});
        }
    };
    std::vector<E> atoms;
    bool hard = c.coin();
    int na = static_cast<int>(hard ? c.range(10, 40) : c.range(3, 14));
    for (int i = 0; i < na; ++i) {
        atoms.push_back(atom());
        if (cfg.uf_bool && c.chance(1, 4)) bools.push_back(atoms.back()); // atoms as arguments
        if (cfg.uf_bool && c.chance(1, 8)) grow_pool(c, g, reals, bools, 1);
    }
    int nc = static_cast<int>(hard ? na * c.range(10, 30) / 10 : c.range(2, 24));
    for (int i = 0; i < nc; ++i) {
        int w = static_cast<int>(c.weighted({hard ? 0 : 3, 4, hard ? 4 : 2})) + 1;
        std::vector<E> k;
        for (int j = 0; j < w; ++j) k.push_back(g.lit(c.pick(atoms)));
        g.p.asserts.push_back(w == 1 ? k[0] : mk(Op::Or, Sort::Bool, k));
    }
    return g.p;
}

Problem uf_planted(pbt::Ctx& c, Cfg cfg, int scale)
{
    cfg.uf = true;
    cfg.nbool = static_cast<int>(c.range(1, 2 + scale));
    cfg.nreal = static_cast<int>(c.range(1, 3 + scale));
    Gen g(c, cfg);
    Interp w;
    for (auto& b : g.bvars) w.vars[b->name] = Value::of(c.coin());
    for (auto& x : g.rvars) w.vars[x->name] = Value::of(number(c, c.chance(1, 5) ? Nums::frac : Nums::small));
    random_functions(c, g.p, w);
    std::vector<E> reals(g.rvars), bools(g.bvars);
    grow_pool(c, g, reals, bools, static_cast<int>(c.range(2, 8 + 4 * scale)));
    int nc = static_cast<int>(c.range(2, 10 + 8 * scale));
    for (int i = 0; i < nc; ++i) {
        int wd = static_cast<int>(c.range(1, 3));
        std::vector<E> k;
        bool ok = false;
        for (int j = 0; j < wd; ++j) {
            E a;
            switch (c.below(4)) {
            case 0: a = c.pick(bools); break;
            case 1: a = mk(c.coin() ? Op::Le : Op::Eq, Sort::Bool, {c.pick(reals), c.pick(reals)}); break;
            case 2: {
                E t = c.pick(reals);
                Q v = eval(t, w).q + (c.coin() ? Q(0) : number(c, Nums::small));
                static const Op ops[] = {Op::Le, Op::Lt, Op::Ge, Op::Gt, Op::Eq};
                a = mk(ops[c.below(5)], Sort::Bool, {t, g.num(v)});
                break;
            }
            default: a = mk(Op::Lt, Sort::Bool, {mk(Op::Sub, Sort::Real, {c.pick(reals), c.pick(reals)}), c.pick(reals)}); break;
            }
            k.push_back(g.lit(a));
            ok = ok || holds(k.back(), w);
        }
        if (!ok) {
            size_t j = c.below(k.size());
            k[j] = k[j]->op == Op::Not ? k[j]->kids[0] : mk_not(k[j]);
        }
        g.p.asserts.push_back(k.size() == 1 ? k[0] : mk(Op::Or, Sort::Bool, k));
    }
    std::string t;
    for (auto& [n, v] : w.vars) t += n + " = " + v.str() + "\n";
    w.text = t + w.text;
    g.p.witness = w;
    return g.p;
}

Problem uf_conflict(pbt::Ctx& c, Cfg cfg)
{
    cfg.uf = true;
    cfg.nbool = 2;
    cfg.nreal = static_cast<int>(c.range(2, 5));
    Gen g(c, cfg);
    std::vector<E> reals(g.rvars), bools(g.bvars);
    grow_pool(c, g, reals, bools, static_cast<int>(c.range(0, 6)));
    auto& f = c.pick(g.p.funs);
    std::vector<E> a1, a2;
    std::vector<E> out;
    E guard = c.coin() ? c.pick(g.bvars) : nullptr;
    auto emit = [&](E e) { out.push_back(guard ? mk(Op::Or, Sort::Bool, {guard, e}) : e); };
    for (auto s : f.args) {
        if (s == Sort::Real) {
            E x = c.pick(reals), y = c.pick(reals);
            a1.push_back(x);
            a2.push_back(y);
            switch (c.below(4)) {
            case 0: emit(mk(Op::Eq, Sort::Bool, {x, y})); break;
            case 1: emit(mk(Op::Le, Sort::Bool, {x, y})); emit(mk(Op::Ge, Sort::Bool, {x, y})); break;
            case 2: { // through a chain
                E z = c.pick(reals);
                emit(mk(Op::Eq, Sort::Bool, {x, z}));
                emit(mk(Op::Le, Sort::Bool, {z, y}));
                emit(mk_not(mk(Op::Lt, Sort::Bool, {z, y})));
                break;
            }
            default: { // same offset
                E k = g.num(number(c, cfg.nums));
                emit(mk(Op::Eq, Sort::Bool, {mk(Op::Sub, Sort::Real, {x, y}), k}));
                a2.back() = mk(Op::Add, Sort::Real, {y, k});
                break;
            }
            }
        } else {
            E x = g.lit(c.pick(bools)), y = g.lit(c.pick(bools));
            a1.push_back(x);
            a2.push_back(y);
            emit(c.coin() ? mk(Op::Eq, Sort::Bool, {x, y}) : mk_not(mk(Op::Xor, Sort::Bool, {x, y})));
        }
    }
    E t1 = mk_app(f.name, f.ret, a1), t2 = mk_app(f.name, f.ret, a2);
    if (f.ret == Sort::Bool) emit(mk_not(mk(Op::Eq, Sort::Bool, {t1, t2})));
    else switch (c.below(3)) {
    case 0: emit(mk_not(mk(Op::Eq, Sort::Bool, {t1, t2}))); break;
    case 1: emit(mk(Op::Lt, Sort::Bool, {t1, t2})); break;
    default: emit(mk(Op::Or, Sort::Bool, {mk(Op::Gt, Sort::Bool, {t1, t2}), mk(Op::Gt, Sort::Bool, {t2, t1})})); break;
    }
    if (guard) out.push_back(mk_not(guard));
    int noise = static_cast<int>(c.range(0, 5));
    for (int i = 0; i < noise; ++i) out.push_back(mk(Op::Or, Sort::Bool, {g.lit(c.pick(bools)), mk(Op::Le, Sort::Bool, {c.pick(reals), c.pick(reals)})}));
    for (size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[c.below(i)]);
    g.p.asserts = out;
    g.p.known_unsat = true;
    return g.p;
}

Problem farkas(pbt::Ctx& c, Cfg cfg)
{
    cfg.nbool = static_cast<int>(c.range(0, 3));
    cfg.nreal = static_cast<int>(c.range(1, 6));
    Gen g(c, cfg);
    int n = cfg.nreal;
    int k = static_cast<int>(c.range(1, 5));
    // each row: sum a_i x_i (<=|<|=) b ; the last one contradicts a non-negative combination of the others
    struct Row { std::vector<Q> a; Q b; int kind; };
    auto make = [&]() {
        std::vector<Row> rows;
        Row last{std::vector<Q>(n), 0, 0};
        bool strict = false;
        for (int i = 0; i < k; ++i) {
            Row r{std::vector<Q>(n), number(c, cfg.nums), static_cast<int>(c.weighted({3, 2, 1}))};
            for (auto& x : r.a) if (c.chance(2, 3)) x = number(c, cfg.nums);
            Q lam = abs(nonzero(c, c.chance(1, 2) ? Nums::frac : Nums::small));
            if (r.kind == 2 && c.coin()) lam = -lam; // equalities may be used with any sign
            for (int j = 0; j < n; ++j) last.a[j] -= lam * r.a[j];
            last.b -= lam * r.b;
            strict = strict || r.kind == 1;
            rows.push_back(r);
        }
        // sum of rows gives 0 <= total; make total negative, or zero with a strict row
        last.kind = static_cast<int>(c.weighted({3, 2, 1}));
        if ((strict || last.kind == 1) && c.chance(1, 2)) { /* 0 < 0 */ }
        else last.b -= abs(nonzero(c, Nums::frac));
        rows.push_back(last);
        return rows;
    };
    auto to_e = [&](Row const& r) {
        std::vector<E> s;
        Q scale = c.chance(1, 3) ? Q(abs(nonzero(c, Nums::frac))) : Q(1);
        for (int j = 0; j < n; ++j) {
            Q q = r.a[j] * scale;
            if (q == 0) continue;
            s.push_back(q == 1 ? g.rvars[j] : mk(Op::Mul, Sort::Real, {g.num(q), g.rvars[j]}));
        }
        E l = s.empty() ? mk_num(0) : s.size() == 1 ? s[0] : mk(Op::Add, Sort::Real, s);
        E b = g.num(Q(r.b * scale));
        switch (r.kind) {
        case 0: return c.coin() ? mk(Op::Le, Sort::Bool, {l, b}) : c.coin() ? mk(Op::Ge, Sort::Bool, {b, l}) : mk_not(mk(Op::Gt, Sort::Bool, {l, b}));
        case 1: return c.coin() ? mk(Op::Lt, Sort::Bool, {l, b}) : c.coin() ? mk(Op::Gt, Sort::Bool, {b, l}) : mk_not(mk(Op::Ge, Sort::Bool, {l, b}));
        default: return c.coin() ? mk(Op::Eq, Sort::Bool, {l, b}) : mk(Op::And, Sort::Bool, {mk(Op::Le, Sort::Bool, {l, b}), mk(Op::Le, Sort::Bool, {b, l})});
        }
    };
    std::vector<E> out;
    if (!g.bvars.empty() && c.coin()) {
        // case split on a Boolean; each case is contradictory on its own
        E b = g.bvar();
        for (int side = 0; side < 2; ++side)
            for (auto& r : make()) out.push_back(mk(Op::Or, Sort::Bool, {side ? mk_not(b) : b, to_e(r)}));
    } else {
        for (auto& r : make()) out.push_back(to_e(r));
    }
    int noise = static_cast<int>(c.range(0, 6));
    for (int i = 0; i < noise; ++i) out.push_back(mk(Op::Or, Sort::Bool, {g.lit(g.bvar()), g.atom(3)}));
    // shuffle
    for (size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[c.below(i)]);
    g.p.asserts = out;
    g.p.known_unsat = true;
    return g.p;
}

Problem boolean_hard(pbt::Ctx& c, int scale)
{
    Cfg cfg;
    cfg.nreal = 0;
    int kind = static_cast<int>(c.below(3));
    if (kind == 0) { // pigeonhole with extra holes sometimes
        int holes = static_cast<int>(c.range(2, scale > 1 ? 5 : 4)), pig = holes + 1 - static_cast<int>(c.below(2));
        cfg.nbool = holes * pig;
        Gen g(c, cfg);
        auto v = [&](int p, int h) { return g.bvars[p * holes + h]; };
        for (int p = 0; p < pig; ++p) {
            std::vector<E> k;
            for (int h = 0; h < holes; ++h) k.push_back(v(p, h));
            g.p.asserts.push_back(mk(Op::Or, Sort::Bool, k));
        }
        for (int h = 0; h < holes; ++h)
            for (int p = 0; p < pig; ++p)
                for (int q = p + 1; q < pig; ++q) g.p.asserts.push_back(mk_not(mk(Op::And, Sort::Bool, {v(p, h), v(q, h)})));
        for (size_t i = g.p.asserts.size(); i > 1; --i) std::swap(g.p.asserts[i - 1], g.p.asserts[c.below(i)]);
        g.p.known_unsat = pig > holes;
        return g.p;
    }
    cfg.nbool = static_cast<int>(kind == 1 ? c.range(4, 40) : c.range(10, 25 + 30 * scale));
    Gen g(c, cfg);
    if (kind == 1) { // parity constraints
        int m = cfg.nbool / 2 + static_cast<int>(c.range(0, cfg.nbool / 2 + 2));
        m = std::min(m, 18);
        for (int i = 0; i < m; ++i) {
            E x = mk(Op::Xor, Sort::Bool, {c.pick(g.bvars), c.pick(g.bvars)});
            if (c.coin()) x = mk(Op::Xor, Sort::Bool, {x, c.pick(g.bvars)});
            g.p.asserts.push_back(g.lit(x));
        }
        return g.p;
    }
    int m = static_cast<int>(cfg.nbool * (3.8 + 0.1 * static_cast<double>(c.below(10))));
    int mixed = static_cast<int>(c.below(4)); // some clauses of other widths
    Interp w;
    bool planted = c.chance(1, 3);
    if (planted) for (auto& b : g.bvars) w.vars[b->name] = Value::of(c.coin());
    for (int i = 0; i < m; ++i) {
        int width = mixed == 0 && c.chance(1, 5) ? static_cast<int>(c.range(2, 6)) : 3;
        std::vector<E> k;
        bool ok = false;
        for (int j = 0; j < width; ++j) {
            E v = c.pick(g.bvars);
            k.push_back(g.lit(v));
            if (planted && holds(k.back(), w)) ok = true;
        }
        if (planted && !ok) k[0] = k[0]->op == Op::Not ? k[0]->kids[0] : mk_not(k[0]);
        g.p.asserts.push_back(mk(Op::Or, Sort::Bool, k));
    }
    if (planted) {
        for (auto& [n, v] : w.vars) w.text += n + " = " + v.str() + "\n";
        g.p.witness = w;
    }
    return g.p;
}

Problem scheduling(pbt::Ctx& c, int scale)
{
    Cfg cfg;
    cfg.nbool = 0;
    int jobs = static_cast<int>(c.range(2, 2 + scale));
    int machines = static_cast<int>(c.range(1, 2));
    cfg.nreal = jobs * machines;
    Gen g(c, cfg);
    std::vector<long> dur;
    for (int i = 0; i < cfg.nreal; ++i) dur.push_back(static_cast<long>(c.range(1, 5)));
    auto t = [&](int j, int m) { return g.rvars[j * machines + m]; };
    auto d = [&](int j, int m) { return dur[j * machines + m]; };
    long total = 0;
    for (auto x : dur) total += x;
    long deadline = static_cast<long>(c.range(total / 3, total + 1));
    auto diff = [&](E a, E b, long k) { // a + k <= b
        switch (c.below(3)) {
        case 0: return mk(Op::Le, Sort::Bool, {mk(Op::Add, Sort::Real, {a, g.num(Q(k))}), b});
        case 1: return mk(Op::Ge, Sort::Bool, {mk(Op::Sub, Sort::Real, {b, a}), g.num(Q(k))});
        default: return mk_not(mk(Op::Lt, Sort::Bool, {mk(Op::Sub, Sort::Real, {b, a}), g.num(Q(k))}));
        }
    };
    for (int j = 0; j < jobs; ++j) {
        for (int m = 0; m < machines; ++m) {
            g.p.asserts.push_back(mk(Op::Ge, Sort::Bool, {t(j, m), mk_num(0)}));
            g.p.asserts.push_back(mk(Op::Le, Sort::Bool, {mk(Op::Add, Sort::Real, {t(j, m), g.num(Q(d(j, m)))}), g.num(Q(deadline))}));
        }
        for (int m = 0; m + 1 < machines; ++m) g.p.asserts.push_back(diff(t(j, m), t(j, m + 1), d(j, m)));
    }
    for (int m = 0; m < machines; ++m)
        for (int a = 0; a < jobs; ++a)
            for (int b = a + 1; b < jobs; ++b)
                g.p.asserts.push_back(mk(Op::Or, Sort::Bool, {diff(t(a, m), t(b, m), d(a, m)), diff(t(b, m), t(a, m), d(b, m))}));
    return g.p;
}

/** clauses over bounds, differences and sums near the satisfiability threshold: many conflicts */
Problem dense(pbt::Ctx& c, Cfg cfg)
{
    cfg.nbool = static_cast<int>(c.range(0, 6));
    cfg.nreal = static_cast<int>(c.range(3, 12));
    Gen g(c, cfg);
    auto coef = [&](E x) -> E {
        if (c.chance(3, 4)) return x;
        return mk(Op::Mul, Sort::Real, {g.num(nonzero(c, Nums::small)), x});
    };
    auto rhs = [&]() { return g.num(number(c, cfg.nums)); };
    auto atom = [&]() -> E {
        static const Op ops[] = {Op::Le, Op::Lt, Op::Ge, Op::Gt, Op::Eq};
        Op op = ops[c.weighted({4, 3, 4, 3, 1})];
        switch (c.weighted({4, 5, 2, 2})) {
        case 0: return mk(op, Sort::Bool, {coef(g.rvar()), rhs()});
        case 1: return mk(op, Sort::Bool, {mk(Op::Sub, Sort::Real, {coef(g.rvar()), coef(g.rvar())}), rhs()});
        case 2: return mk(op, Sort::Bool, {mk(Op::Add, Sort::Real, {coef(g.rvar()), coef(g.rvar())}), rhs()});
        default: return mk(op, Sort::Bool, {mk(Op::Add, Sort::Real, {coef(g.rvar()), coef(g.rvar()), coef(g.rvar())}), rhs()});
        }
    };
    std::vector<E> atoms(g.bvars);
    int na = static_cast<int>(c.range(10, 60));
    for (int i = 0; i < na; ++i) atoms.push_back(atom());
    int nc = static_cast<int>(atoms.size()) * static_cast<int>(c.range(12, 36)) / 10;
    int w = static_cast<int>(c.range(2, 3));
    for (int i = 0; i < nc; ++i) {
        int k = w + (c.chance(1, 5) ? 1 : 0) - (w == 3 && c.chance(1, 5) ? 1 : 0);
        std::vector<E> ls;
        for (int j = 0; j < k; ++j) ls.push_back(g.lit(c.pick(atoms)));
        g.p.asserts.push_back(k == 1 ? ls[0] : mk(Op::Or, Sort::Bool, ls));
    }
    return g.p;
}

/** n points pairwise at least one apart in an interval: satisfiable iff its length is at least n - 1 */
Problem separated(pbt::Ctx& c, int scale)
{
    Cfg cfg;
    cfg.nbool = 0;
    cfg.nreal = static_cast<int>(c.range(2, 2 + scale));
    Gen g(c, cfg);
    int n = cfg.nreal;
    Q gap = abs(nonzero(c, Nums::frac)), start = number(c, Nums::frac);
    bool sat = c.coin();
    Q len = gap * (n - 1);
    bool strict = c.chance(1, 3); // an end point is excluded
    if (sat && strict) len += gap / 1000;
    if (!sat && !strict) len -= gap / static_cast<int>(c.range(2, 1000));
    for (int i = 0; i < n; ++i) {
        g.p.asserts.push_back(mk(Op::Ge, Sort::Bool, {g.rvars[i], g.num(start)}));
        g.p.asserts.push_back(mk(strict ? Op::Lt : Op::Le, Sort::Bool, {g.rvars[i], g.num(Q(start + len))}));
    }
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j) {
            E d = mk(Op::Sub, Sort::Real, {g.rvars[i], g.rvars[j]});
            E a = mk(Op::Ge, Sort::Bool, {d, g.num(gap)}), b = mk(Op::Le, Sort::Bool, {d, g.num(Q(-gap))});
            if (c.coin()) a = mk_not(mk(Op::Lt, Sort::Bool, {d, g.num(gap)}));
            g.p.asserts.push_back(c.coin() ? mk(Op::Or, Sort::Bool, {a, b}) : mk(Op::Implies, Sort::Bool, {mk_not(b), a}));
        }
    for (size_t i = g.p.asserts.size(); i > 1; --i) std::swap(g.p.asserts[i - 1], g.p.asserts[c.below(i)]);
    if (sat) {
        Interp w;
        for (int i = 0; i < n; ++i) w.vars[g.rvars[i]->name] = Value::of(Q(start + gap * i));
        w.text = "points in order\n";
        g.p.witness = w;
    } else {
        g.p.known_unsat = true;
    }
    return g.p;
}

/** weighted sums of Booleans through ite terms, bounded from both sides */
Problem knapsack(pbt::Ctx& c, Cfg cfg)
{
    cfg.nbool = static_cast<int>(c.range(2, 7));
    cfg.nreal = static_cast<int>(c.range(1, 3));
    Gen g(c, cfg);
    Interp w;
    for (auto& b : g.bvars) w.vars[b->name] = Value::of(c.coin());
    for (auto& x : g.rvars) w.vars[x->name] = Value::of(number(c, Nums::frac));
    bool witness = c.coin();
    int rows = static_cast<int>(c.range(1, 3));
    for (int r = 0; r < rows; ++r) {
        std::vector<E> k;
        for (auto& b : g.bvars)
            if (c.chance(3, 4)) k.push_back(mk(Op::Ite, Sort::Real, {g.lit(b), g.num(number(c, cfg.nums)), c.coin() ? g.rvar() : g.num(number(c, Nums::small))}));
        if (k.size() < 2) k = {g.rvar(), g.rvar()};
        E s = mk(Op::Add, Sort::Real, k);
        Q v = witness ? eval(s, w).q : number(c, cfg.nums);
        Q slack = c.coin() ? Q(0) : abs(number(c, Nums::frac));
        g.p.asserts.push_back(mk(Op::Le, Sort::Bool, {s, g.num(Q(v + slack))}));
        g.p.asserts.push_back(mk(Op::Ge, Sort::Bool, {s, g.num(v)}));
        g.p.asserts.push_back(mk(Op::Ge, Sort::Bool, {g.rvars[0], g.num(w.vars[g.rvars[0]->name].q)}));
    }
    int nc = static_cast<int>(c.range(0, 10));
    for (int i = 0; i < nc; ++i) {
        std::vector<E> k{g.lit(g.bvar()), g.lit(g.bvar())};
        if (c.coin()) k.push_back(mk(Op::Lt, Sort::Bool, {g.rvar(), g.num(number(c, Nums::frac))}));
        E cl = mk(Op::Or, Sort::Bool, k);
        if (witness && !holds(cl, w)) cl = mk_not(cl);
        g.p.asserts.push_back(cl);
    }
    if (witness) {
        for (auto& [n, v] : w.vars) w.text += n + " = " + v.str() + "\n";
        g.p.witness = w;
    }
    return g.p;
}

Problem ite_chain(pbt::Ctx& c, Cfg cfg)
{
    cfg.nbool = static_cast<int>(c.range(0, 2));
    cfg.nreal = static_cast<int>(c.range(2, 5));
    Gen g(c, cfg);
    std::vector<E> vals(g.rvars);
    int n = static_cast<int>(c.range(1, 5));
    for (int i = 0; i < n; ++i) {
        E a = c.pick(vals), b = c.pick(vals), r;
        switch (c.below(5)) {
        case 0: r = mk(Op::Ite, Sort::Real, {mk(Op::Lt, Sort::Bool, {a, b}), a, b}); break;
        case 1: r = mk(Op::Ite, Sort::Real, {mk(Op::Ge, Sort::Bool, {a, b}), a, b}); break;
        case 2: r = mk(Op::Ite, Sort::Real, {mk(Op::Ge, Sort::Bool, {a, mk_num(0)}), a, mk(Op::Neg, Sort::Real, {a})}); break;
        case 3: r = mk(Op::Ite, Sort::Real, {g.boolean(1), mk(Op::Add, Sort::Real, {a, b}), g.num(number(c, cfg.nums))}); break;
        default: r = mk(Op::Ite, Sort::Real, {g.lit(g.bvar()), mk(Op::Sub, Sort::Real, {a, g.num(number(c, cfg.nums))}), b}); break;
        }
        vals.push_back(r);
    }
    int m = static_cast<int>(c.range(1, 6));
    for (int i = 0; i < m; ++i) {
        static const Op ops[] = {Op::Le, Op::Lt, Op::Ge, Op::Gt, Op::Eq, Op::Distinct};
        E l = vals[vals.size() - 1 - c.below(std::min<size_t>(vals.size(), 4))];
        E r = c.coin() ? c.pick(vals) : g.num(number(c, cfg.nums));
        E a = mk(ops[c.below(6)], Sort::Bool, {l, r});
        if (c.chance(1, 4)) a = mk(Op::Or, Sort::Bool, {a, g.boolean(1)});
        g.p.asserts.push_back(a);
    }
    return g.p;
}

} // namespace gen
