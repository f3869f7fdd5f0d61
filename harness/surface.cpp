// C16: the same problem written in another way (let, define-fun, quoting, layout, comments, ...) means the same.
#include "gen.h"
#include "pbt.h"
#include "smt.h"

#include <algorithm>
#include <set>
#include <unordered_set>

using namespace smt;
using gen::Cfg;
using gen::Nums;

namespace {

Problem problem(pbt::Ctx& c, bool uf)
{
    Cfg f;
    f.nums = static_cast<Nums>(c.weighted({5, 3, 1, 2}));
    f.uf = uf;
    f.uf_bool = uf && c.coin();
    if (uf) {
        switch (c.below(5)) {
        case 0: return gen::clauses(c, f);
        case 1: return gen::congruence(c, f);
        case 2: return gen::uf_planted(c, f, static_cast<int>(c.range(0, 2)));
        case 3: return gen::uf_conflict(c, f);
        default: return gen::formula(c, f);
        }
    }
    switch (c.below(6)) {
    case 0: return gen::clauses(c, f);
    case 1: return gen::planted(c, f, static_cast<int>(c.range(0, 2)));
    case 2: return gen::farkas(c, f);
    case 3: return gen::dense(c, f);
    case 4: return gen::ite_chain(c, f);
    default: return gen::formula(c, f);
    }
}

/** Rebuilds terms with maximal sharing. */
struct Cons {
    std::map<std::tuple<int, int, std::string, std::string, int, std::vector<Node const*>>, E> table;
    E make(Node const& n, std::vector<E> kids)
    {
        std::vector<Node const*> ks;
        for (auto& k : kids) ks.push_back(k.get());
        auto key = std::make_tuple(static_cast<int>(n.op), static_cast<int>(n.sort), n.name, n.num.get_str(), n.style, ks);
        auto it = table.find(key);
        if (it != table.end()) return it->second;
        Node m = n;
        m.kids = std::move(kids);
        E e = std::make_shared<const Node>(std::move(m));
        table[key] = e;
        return e;
    }
};

bool has_var(E const& e)
{
    if (e->op == Op::Var || e->op == Op::App) return true;
    for (auto& k : e->kids)
        if (has_var(k)) return true;
    return false;
}

struct Macro {
    std::string name;
    std::vector<E> params; // variables with internal names
    E body;
    Sort ret;
};
struct Call {
    size_t macro;
    std::vector<E> args;
};

using Env = std::map<Node const*, std::string>;

class Surface {
public:
    Surface(pbt::Ctx& ctx, Problem& pr) : c(ctx), p(pr) {}
    pbt::Ctx& c;
    Problem& p;
    Cons cons;
    std::vector<Macro> macros;
    std::map<Node const*, Call> calls;
    std::set<std::string> globals;
    std::vector<std::string> toks;
    int n_let = 0, n_shadow = 0, n_call = 0, n_inst = 0;
    int let_budget = 0;
    int fresh_id = 0;

    std::string fresh(bool global)
    {
        static const std::vector<std::string> stems{"v", "?x", "a!b", ".def", "let", "x y", "and_", "T", "@", "not", "a;b", "(", "x0", "true.", "1", "as", "check-sat", "\"", "_", "define-fun", "=", "e'", "", " ", "\t", "x  y", "\xc3\xa9", "\xc3\xa8"};
        for (;;) {
            std::string n = c.pick(stems);
            if (c.chance(1, 6)) { // hard to tell from an existing one
                auto const& old = last_fresh;
                switch (c.below(7)) {
                case 0: n = old + " "; break;
                case 1: n = " " + old; break;
                case 2: n = old + "\n"; break;
                case 3: n = "\t" + old; break;
                case 4: n = old + old; break;
                case 5:
                    n = old;
                    for (auto& ch : n)
                        if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32);
                    break;
                default: n = old.substr(0, old.size() / 2) + " " + old.substr(old.size() / 2);
                }
                if (n.size() < 40 && n != "not" && n != "=" && n != "true" && n != "false" && !globals.count(n)) {
                    last_fresh = n;
                    if (global) globals.insert(n);
                    return n;
                }
                n = c.pick(stems);
            }
            // operators are not redefined, and reserved words need quotes
            bool op = n == "not" || n == "=";
            if (op || c.coin()) n += std::to_string(c.below(30));
            if (globals.count(n)) n += "." + std::to_string(++fresh_id);
            if (globals.count(n)) continue;
            if (global) globals.insert(n);
            last_fresh = n;
            return n;
        }
    }
    std::string last_fresh = "name";
    std::string sym(std::string const& n)
    {
        std::string q = quote_if_needed(n);
        if (q[0] != '|' && c.chance(1, 8)) return "|" + n + "|";
        return q;
    }
    void t(std::string const& s) { toks.push_back(s); }

    // ---- rewriting
    E rename(E const& e, std::map<std::string, std::string> const& m, std::map<Node const*, E>& memo)
    {
        auto it = memo.find(e.get());
        if (it != memo.end()) return it->second;
        std::vector<E> ks;
        for (auto& k : e->kids) ks.push_back(rename(k, m, memo));
        Node n = *e;
        n.kids.clear();
        if (e->op == Op::Var || e->op == Op::App) n.name = m.at(e->name);
        return memo[e.get()] = cons.make(n, std::move(ks));
    }
    E instance(Call const& k)
    {
        std::map<Node const*, E> act, memo;
        Macro const& m = macros[k.macro];
        for (size_t i = 0; i < m.params.size(); ++i) act[m.params[i].get()] = k.args[i];
        return subst(m.body, act, memo);
    }
    /** Can @p e be printed with calls such that @p target is printed on the way? */
    bool reaches(E const& e, Node const* target, std::set<Node const*>& seen)
    {
        if (e.get() == target) return true;
        if (!seen.insert(e.get()).second) return false;
        auto k = calls.find(e.get());
        if (k != calls.end())
            for (auto& a : k->second.args)
                if (reaches(a, target, seen)) return true;
        for (auto& x : e->kids)
            if (reaches(x, target, seen)) return true;
        return false;
    }
    void add_call(E const& e, Call const& k)
    {
        if (calls.count(e.get())) return;
        // arguments of unused parameters are arbitrary
        std::set<Node const*> seen;
        for (auto& a : k.args)
            if (reaches(a, e.get(), seen)) return;
        calls[e.get()] = k;
    }
    E subst(E const& e, std::map<Node const*, E> const& m, std::map<Node const*, E>& memo)
    {
        auto f = m.find(e.get());
        if (f != m.end()) return f->second;
        auto it = memo.find(e.get());
        if (it != memo.end()) return it->second;
        std::vector<E> ks;
        bool same = true;
        for (auto& k : e->kids) {
            ks.push_back(subst(k, m, memo));
            same = same && ks.back() == k;
        }
        E r = e;
        if (!same) {
            Node n = *e;
            n.kids.clear();
            r = cons.make(n, std::move(ks));
            auto cl = calls.find(e.get());
            if (cl != calls.end() && !calls.count(r.get())) {
                // instances of calls are calls, unless the replaced term is in the body of the function
                Call k{cl->second.macro, {}};
                for (auto& a : cl->second.args) k.args.push_back(subst(a, m, memo));
                if (instance(k) == r) add_call(r, k);
            }
        }
        return memo[e.get()] = r;
    }
    void collect(E const& e, std::vector<E>& out, std::set<Node const*>& seen, size_t limit = 150, Env const* stop = nullptr)
    {
        if (out.size() >= limit || !seen.insert(e.get()).second) return;
        out.push_back(e);
        if (stop && stop->count(e.get())) return; // only the name is printed
        for (auto& k : e->kids) collect(k, out, seen, limit, stop);
    }
    std::vector<E> subterms(E const& e)
    {
        std::vector<E> r;
        std::set<Node const*> s;
        collect(e, r, s);
        return r;
    }

    void add_macro()
    {
        std::vector<E> pool;
        std::set<Node const*> seen;
        for (auto& a : p.asserts) collect(a, pool, seen, 400);
        std::vector<E> cand;
        for (auto& e : pool)
            if (!calls.count(e.get()) && (!e->kids.empty() || c.chance(1, 6)) && subterms(e).size() <= 60) cand.push_back(e);
        if (cand.empty()) return;
        E n = c.pick(cand);
        std::vector<E> subs;
        for (auto& e : subterms(n))
            if (e != n && (e->sort == Sort::Bool || has_var(e))) subs.push_back(e);
        Macro m;
        m.name = fresh(true);
        m.ret = n->sort;
        std::vector<E> actual;
        std::map<Node const*, E> map;
        int k = subs.empty() ? 0 : static_cast<int>(c.range(0, 3));
        for (int i = 0; i < k; ++i) {
            E d = c.pick(subs);
            if (map.count(d.get())) continue;
            Node v;
            v.op = Op::Var;
            v.sort = d->sort;
            v.name = "\1" + std::to_string(macros.size()) + "." + std::to_string(i);
            E pv = cons.make(v, {});
            map[d.get()] = pv;
            m.params.push_back(pv);
            actual.push_back(d);
        }
        std::map<Node const*, E> memo;
        m.body = subst(n, map, memo);
        size_t id = macros.size();
        macros.push_back(m);
        add_call(n, Call{id, actual});
        // other instances become assertions of their own
        int inst = static_cast<int>(c.weighted({2, 3, 1}));
        for (int i = 0; i < inst; ++i) {
            std::vector<E> args;
            std::map<Node const*, E> act;
            for (auto& pv : m.params) {
                std::vector<E> fit;
                for (auto& e : c.coin() ? pool : actual)
                    if (e->sort == pv->sort) fit.push_back(e);
                if (fit.empty()) fit.push_back(actual[args.size()]);
                args.push_back(c.pick(fit));
                act[pv.get()] = args.back();
            }
            memo.clear();
            E e = subst(m.body, act, memo);
            if (subterms(e).size() > 120) continue;
            add_call(e, Call{id, args});
            ++n_inst;
            E atom = e;
            if (e->sort == Sort::Real) {
                E other;
                std::vector<E> reals;
                for (auto& x : pool)
                    if (x->sort == Sort::Real) reals.push_back(x);
                if (reals.empty() || c.coin()) {
                    Node v;
                    v.op = Op::Num;
                    v.sort = Sort::Real;
                    v.num = static_cast<long>(c.range(-5, 5));
                    other = cons.make(v, {});
                } else other = c.pick(reals);
                Node r;
                r.op = c.pick(std::vector<Op>{Op::Le, Op::Lt, Op::Ge, Op::Gt, Op::Eq});
                r.sort = Sort::Bool;
                atom = cons.make(r, {e, other});
            }
            bool neg = p.witness ? !holds(atom, *p.witness) : c.coin();
            if (neg) {
                Node r;
                r.op = Op::Not;
                r.sort = Sort::Bool;
                atom = cons.make(r, {atom});
            }
            p.asserts.insert(p.asserts.begin() + static_cast<long>(c.below(p.asserts.size() + 1)), atom);
        }
    }

    // ---- printing
    /** names on which printing of @p e in @p env depends; terms in @p cut do not count */
    void needs(E const& e, Env const& env, std::set<Node const*> const& cut, size_t limit, std::set<std::string>& out, std::set<Node const*>& seen)
    {
        if (!seen.insert(e.get()).second || cut.count(e.get())) return;
        auto b = env.find(e.get());
        if (b != env.end()) {
            out.insert(b->second);
            return;
        }
        auto k = calls.find(e.get());
        if (k != calls.end() && k->second.macro < limit) {
            out.insert(macros[k->second.macro].name);
            for (auto& a : k->second.args) needs(a, env, cut, limit, out, seen);
        }
        if (e->op == Op::Var || e->op == Op::App) out.insert(e->name);
        for (auto& x : e->kids) needs(x, env, cut, limit, out, seen);
    }
    std::vector<std::string> visible(Env const& env)
    {
        std::vector<std::string> v(globals.begin(), globals.end());
        for (auto& [n, s] : env) v.push_back(s);
        return v;
    }
    void emit(E const& e, Env const& env, size_t limit)
    {
        auto b = env.find(e.get());
        if (b != env.end()) {
            t(sym(b->second));
            return;
        }
        if (let_budget > 0 && c.chance(1, e->kids.empty() ? 12 : 5)) {
            --let_budget;
            emit_let(e, env, limit);
            return;
        }
        emit_plain(e, env, limit);
    }
    void emit_plain(E const& e, Env const& env, size_t limit)
    {
        auto b = env.find(e.get());
        if (b != env.end()) {
            t(sym(b->second));
            return;
        }
        auto k = calls.find(e.get());
        if (k != calls.end() && k->second.macro < limit && !c.chance(1, 5)) {
            ++n_call;
            Call cl = k->second;
            if (cl.args.empty()) {
                t(sym(macros[cl.macro].name));
                return;
            }
            t("(");
            t(sym(macros[cl.macro].name));
            for (auto& a : cl.args) emit(a, env, limit);
            t(")");
            return;
        }
        if (e->op == Op::Var) {
            t(sym(e->name));
            return;
        }
        if (e->kids.empty()) {
            Sx_tokens(print(e));
            return;
        }
        t("(");
        if (e->op == Op::App) t(sym(e->name));
        else {
            std::string s = print(mk(e->op, e->sort, {mk_true()}));
            t(s.substr(1, s.find(' ') - 1));
        }
        for (auto& x : e->kids) emit(x, env, limit);
        t(")");
    }
    void Sx_tokens(std::string const& s)
    {
        std::string cur;
        for (char ch : s + " ") {
            if (ch == ' ' || ch == '(' || ch == ')') {
                if (!cur.empty()) t(cur);
                cur.clear();
                if (ch != ' ') t(std::string(1, ch));
            } else cur += ch;
        }
    }
    void emit_let(E const& e, Env const& env, size_t limit)
    {
        std::vector<E> subs;
        {
            std::set<Node const*> s;
            collect(e, subs, s, 80, &env);
        }
        int k = static_cast<int>(c.range(1, 3));
        std::vector<E> ds;
        for (int i = 0; i < k; ++i) {
            E d = c.pick(subs);
            if (std::find(ds.begin(), ds.end(), d) == ds.end()) ds.push_back(d);
        }
        std::vector<std::string> names;
        std::vector<std::string> vis = visible(env);
        for (size_t i = 0; i < ds.size(); ++i) {
            std::string n;
            if (!vis.empty() && c.coin()) n = c.pick(vis);
            else n = fresh(false);
            while (std::find(names.begin(), names.end(), n) != names.end()) n = fresh(false);
            names.push_back(n);
        }
        for (int round = 0; round < 3; ++round) {
            Env inner;
            for (auto& [n, s] : env)
                if (std::find(names.begin(), names.end(), s) == names.end()) inner[n] = s;
            std::set<Node const*> cut;
            for (auto& d : ds) cut.insert(d.get());
            std::set<std::string> need;
            std::set<Node const*> seen;
            needs(e, env, cut, limit, need, seen);
            bool bad = false;
            for (auto& n : names)
                if (need.count(n)) {
                    bad = true;
                    do n = fresh(false);
                    while (std::count(names.begin(), names.end(), n) > 1);
                }
            if (!bad) {
                ++n_let;
                for (auto& n : names)
                    if (std::find(vis.begin(), vis.end(), n) != vis.end()) ++n_shadow;
                t("(");
                t("let");
                t("(");
                for (size_t i = 0; i < ds.size(); ++i) {
                    t("(");
                    t(sym(names[i]));
                    emit(ds[i], env, limit);
                    t(")");
                }
                t(")");
                for (size_t i = 0; i < ds.size(); ++i) inner[ds[i].get()] = names[i];
                emit(e, inner, limit);
                t(")");
                return;
            }
        }
        emit_plain(e, env, limit);
    }
    void emit_macro(size_t id)
    {
        Macro const& m = macros[id];
        std::vector<std::string> names, vis = visible({});
        std::set<Node const*> cut;
        for (auto& v : m.params) cut.insert(v.get());
        std::set<std::string> need;
        std::set<Node const*> seen;
        needs(m.body, {}, cut, id, need, seen);
        Env env;
        for (auto& v : m.params) {
            std::string n = c.coin() ? c.pick(vis) : fresh(false);
            while (need.count(n) || std::find(names.begin(), names.end(), n) != names.end()) n = fresh(false);
            names.push_back(n);
            env[v.get()] = n;
        }
        t("(");
        t("define-fun");
        t(sym(m.name));
        t("(");
        for (size_t i = 0; i < m.params.size(); ++i) {
            t("(");
            t(sym(names[i]));
            t(print_sort(m.params[i]->sort));
            t(")");
        }
        t(")");
        t(print_sort(m.ret));
        emit(m.body, env, id);
        t(")");
    }
    void noise()
    {
        static const std::vector<std::string> ks{":status", ":source", ":license", ":notes", ":smt-lib-version", ":produce-models", ":category"};
        static const std::vector<std::string> vs{"sat", "unsat", "|several words (of text|", "\"a string (with \"\"quotes\"\" and ; signs\"", "2.6", "1", "true", "|\nlines\n|", "unknown"};
        t("(");
        t(c.coin() ? "set-info" : "set-option");
        t(c.pick(ks));
        if (c.chance(1, 10)) Sx_tokens("(a (b 1) () c)");
        else t(c.pick(vs));
        t(")");
    }
    std::string script(bool renamed)
    {
        std::map<std::string, std::string> m;
        for (auto& [n, s] : p.vars) m[n] = n;
        for (auto& f : p.funs) m[f.name] = f.name;
        for (auto& [a, b] : m) globals.insert(a);
        if (renamed)
            for (auto& [a, b] : m)
                if (c.chance(1, 2)) {
                    b = fresh(true);
                    globals.erase(a);
                }
        // names which were given up can be used again only for local symbols
        std::map<Node const*, E> memo;
        for (auto& a : p.asserts) a = rename(a, m, memo);
        for (auto& [n, s] : p.vars) n = m[n];
        for (auto& f : p.funs) f.name = m[f.name];
        if (p.witness) {
            Interp w;
            w.text = p.witness->text;
            for (auto& [n, v] : p.witness->vars) w.vars[m.count(n) ? m[n] : n] = v;
            for (auto& [n, v] : p.witness->funs) w.funs[m.count(n) ? m[n] : n] = v;
            p.witness = w;
        }
        int nm = static_cast<int>(c.range(0, 4));
        for (int i = 0; i < nm; ++i) add_macro();
        bool quiet = c.coin();
        if (!quiet && c.coin()) noise();
        for (auto& s : {std::string("("), std::string("set-logic"), p.logic, std::string(")")}) t(s);
        std::vector<std::function<void()>> decls;
        for (auto& [n, s] : p.vars)
            decls.push_back([this, n = n, s = s] {
                t("(");
                if (c.coin()) {
                    t("declare-const");
                    t(sym(n));
                } else {
                    t("declare-fun");
                    t(sym(n));
                    t("(");
                    t(")");
                }
                t(print_sort(s));
                t(")");
            });
        for (auto& f : p.funs)
            decls.push_back([this, f = f] {
                t("(");
                t("declare-fun");
                t(sym(f.name));
                t("(");
                for (auto s : f.args) t(print_sort(s));
                t(")");
                t(print_sort(f.ret));
                t(")");
            });
        for (size_t i = decls.size(); i > 1; --i) std::swap(decls[i - 1], decls[c.below(i)]);
        for (auto& d : decls) {
            if (!quiet && c.chance(1, 10)) noise();
            d();
        }
        let_budget = static_cast<int>(c.range(0, 25));
        for (size_t i = 0; i < macros.size(); ++i) emit_macro(i);
        for (size_t i = 0; i < p.asserts.size(); ++i) {
            if (!quiet && c.chance(1, 10)) noise();
            t("(");
            t("assert");
            if (c.chance(1, 8) && i + 1 < p.asserts.size()) {
                t("(");
                t("and");
                emit(p.asserts[i], {}, macros.size());
                emit(p.asserts[i + 1], {}, macros.size());
                t(")");
                ++i;
            } else emit(p.asserts[i], {}, macros.size());
            t(")");
        }
        for (auto& s : {"(", "check-sat", ")", "(", "get-model", ")"}) t(s);
        if (c.coin())
            for (auto& s : {"(", "exit", ")"}) t(s);
        // layout
        int lay = static_cast<int>(c.below(4));
        std::string o;
        static const std::vector<std::string> seps{" ", "\n", "\t", "  ", "\r\n", " ; comment\n", ";(assert false)\n", "\n;; | \" ( ;\n", " ;\n"};
        bool tight = true;
        for (size_t i = 0; i < toks.size(); ++i) {
            auto& k = toks[i];
            bool paren = k == "(" || k == ")";
            bool prev = i == 0 || toks[i - 1] == "(" || toks[i - 1] == ")";
            if (lay == 0) { // conventional
                if (k == "(" && i > 0 && toks[i - 1] == ")" && depth == 0) o += "\n";
                else if (i > 0 && k != ")" && toks[i - 1] != "(") o += " ";
            } else {
                bool must = !paren && !prev;
                if (must || (lay == 1 ? false : c.chance(1, lay == 2 ? 3 : 12))) o += lay == 1 ? " " : c.pick(seps);
            }
            depth += k == "(" ? 1 : k == ")" ? -1 : 0;
            o += k;
        }
        (void)tight;
        if (lay == 0 || c.coin()) o += "\n";
        if (lay >= 2 && c.chance(1, 4)) o += "; the end";
        return o;
    }
    int depth = 0;
};

void run(pbt::Ctx& c, bool uf)
{
    Problem p = problem(c, uf);
    bool known_unsat = p.known_unsat;
    Surface s(c, p);
    std::string text = s.script(c.coin());
    p.known_unsat = known_unsat;
    c.note << text;
    c.publish();
    Run r = run_yaga(text, {});
    if (s.n_let) c.label("let");
    if (s.n_shadow) c.label("shadowing let");
    if (s.n_call) c.label("calls of defined functions");
    if (s.n_inst) c.label("other instances of defined functions");
    try {
        judge(c, p, r, Judge{});
    } catch (pbt::Failure const& f) {
        pbt::fail(f.msg + "\nplain form of the script:\n" + script(p).substr(0, 6000));
    }
    if (s.n_let + s.n_call >= 2) c.nontrivial(pbt::hash_str(text));
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    p.rule = "random problems written with random surface syntax: let (nested, parallel, shadowing global and local names), define-fun (shadowing parameters, nested calls, further "
             "instances), declare-const/declare-fun in any order, quoted and unusual symbols, set-info/set-option, comments and layout; the answer and the printed model are judged "
             "against the plain problem; non-trivial: at least two let terms or calls; distinct by text";
    p.assumptions = {"z3 only proposes witnesses; a reported wrong unsat is certified by exact evaluation of a model"};
    p.subs.push_back({"lra", [](pbt::Ctx& c) { run(c, false); }, 14000, 280000});
    p.subs.push_back({"uf", [](pbt::Ctx& c) { run(c, true); }, 12000, 240000});
    for (auto& s : p.subs) s.hang_fails = true; // no generated case comes near the budget
    return pbt::run_main(argc, argv, p);
}
