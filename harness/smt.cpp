#include "smt.h"

#include "Options.h"
#include "Smt2_parser.h"

#include <algorithm>
#include <cstring>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <z3++.h>

namespace smt {

Node::~Node()
{
    // flatten the destruction of deep terms
    std::vector<E> work(std::move(kids));
    while (!work.empty()) {
        E e = std::move(work.back());
        work.pop_back();
        if (e && e.use_count() == 1) {
            auto& k = const_cast<Node*>(e.get())->kids;
            for (auto& c : k) work.push_back(std::move(c));
            k.clear();
        }
    }
}

E mk(Op op, Sort s, std::vector<E> kids)
{
    auto n = std::make_shared<Node>();
    n->op = op;
    n->sort = s;
    n->kids = std::move(kids);
    return n;
}
E mk_true() { return mk(Op::True, Sort::Bool); }
E mk_false() { return mk(Op::False, Sort::Bool); }
E mk_num(Q const& q, int style)
{
    auto n = std::make_shared<Node>();
    n->op = Op::Num;
    n->sort = Sort::Real;
    n->num = q;
    n->style = style;
    return n;
}
E mk_var(std::string const& name, Sort s)
{
    auto n = std::make_shared<Node>();
    n->op = Op::Var;
    n->sort = s;
    n->name = name;
    return n;
}
E mk_app(std::string const& f, Sort ret, std::vector<E> args)
{
    auto n = std::make_shared<Node>();
    n->op = Op::App;
    n->sort = ret;
    n->name = f;
    n->kids = std::move(args);
    return n;
}

std::string Value::str() const { return sort == Sort::Bool ? (b ? "true" : "false") : q.get_str(); }

namespace {
using Memo = std::unordered_map<Node const*, Value>;

Value eval_node(Node const* n, std::vector<Value> const& k, Interp const& in)
{
    switch (n->op) {
    case Op::True: return Value::of(true);
    case Op::False: return Value::of(false);
    case Op::Num: return Value::of(n->num);
    case Op::Var: {
        auto it = in.vars.find(n->name);
        if (it == in.vars.end()) { Value v; v.sort = n->sort; return v; }
        PBT_CHECK(it->second.sort == n->sort, "model gives " << n->name << " a value of another sort");
        return it->second;
    }
    case Op::Not: return Value::of(!k[0].b);
    case Op::And: { bool r = true; for (auto& v : k) r = r && v.b; return Value::of(r); }
    case Op::Or: { bool r = false; for (auto& v : k) r = r || v.b; return Value::of(r); }
    case Op::Xor: { bool r = k[0].b; for (size_t i = 1; i < k.size(); ++i) r = r != k[i].b; return Value::of(r); }
    case Op::Implies: { // right associative
        bool r = k.back().b;
        for (size_t i = k.size() - 1; i-- > 0;) r = !k[i].b || r;
        return Value::of(r);
    }
    case Op::Eq: { bool r = true; for (size_t i = 1; i < k.size(); ++i) r = r && k[i - 1] == k[i]; return Value::of(r); }
    case Op::Distinct: {
        bool r = true;
        for (size_t i = 0; i < k.size(); ++i) for (size_t j = i + 1; j < k.size(); ++j) r = r && !(k[i] == k[j]);
        return Value::of(r);
    }
    case Op::Lt: { bool r = true; for (size_t i = 1; i < k.size(); ++i) r = r && k[i - 1].q < k[i].q; return Value::of(r); }
    case Op::Le: { bool r = true; for (size_t i = 1; i < k.size(); ++i) r = r && k[i - 1].q <= k[i].q; return Value::of(r); }
    case Op::Gt: { bool r = true; for (size_t i = 1; i < k.size(); ++i) r = r && k[i - 1].q > k[i].q; return Value::of(r); }
    case Op::Ge: { bool r = true; for (size_t i = 1; i < k.size(); ++i) r = r && k[i - 1].q >= k[i].q; return Value::of(r); }
    case Op::Add: { Q r = 0; for (auto& v : k) r += v.q; return Value::of(r); }
    case Op::Sub: { Q r = k[0].q; for (size_t i = 1; i < k.size(); ++i) r -= k[i].q; return Value::of(r); }
    case Op::Neg: return Value::of(Q(-k[0].q));
    case Op::Mul: { Q r = 1; for (auto& v : k) r *= v.q; return Value::of(r); }
    case Op::Div: { Q r = k[0].q; for (size_t i = 1; i < k.size(); ++i) r /= k[i].q; return Value::of(r); }
    case Op::Ite: return k[0].b ? k[1] : k[2];
    case Op::App: {
        auto it = in.funs.find(n->name);
        if (it == in.funs.end()) { Value v; v.sort = n->sort; return v; }
        Value v = it->second(k);
        PBT_CHECK(v.sort == n->sort, "model gives function " << n->name << " a value of another sort");
        return v;
    }
    }
    pbt::fail("eval: unreachable");
}

Value eval_memo(E const& root, Interp const& in, Memo& memo)
{
    std::vector<std::pair<Node const*, size_t>> st{{root.get(), 0}};
    while (!st.empty()) {
        auto& [n, i] = st.back();
        if (memo.count(n)) { st.pop_back(); continue; }
        if (i < n->kids.size()) {
            Node const* c = n->kids[i++].get();
            if (!memo.count(c)) st.push_back({c, 0});
            continue;
        }
        std::vector<Value> k;
        k.reserve(n->kids.size());
        for (auto& c : n->kids) k.push_back(memo.at(c.get()));
        Node const* nn = n;
        memo.emplace(nn, eval_node(nn, k, in));
        st.pop_back();
    }
    return memo.at(root.get());
}
} // namespace

Value eval(E const& e, Interp const& in)
{
    Memo m;
    return eval_memo(e, in, m);
}
bool holds(E const& e, Interp const& in) { return eval(e, in).b; }
int first_false(std::vector<E> const& as, Interp const& in)
{
    Memo m;
    for (size_t i = 0; i < as.size(); ++i) if (!eval_memo(as[i], in, m).b) return static_cast<int>(i);
    return -1;
}

std::string print_sort(Sort s) { return s == Sort::Bool ? "Bool" : "Real"; }

std::string quote_if_needed(std::string const& n)
{
    bool ok = !n.empty() && !(n[0] >= '0' && n[0] <= '9');
    for (char c : n)
        if (!isalnum(static_cast<unsigned char>(c)) && !strchr("~!@$%^&*+=<>.?/_-", c)) ok = false;
    static const std::set<std::string> reserved{"_", "!", "as", "let", "exists", "forall", "match", "par", "assert", "check-sat", "declare-const", "declare-fun", "declare-sort",
        "define-const", "define-fun", "define-sort", "echo", "exit", "get-assertions", "get-assignment", "get-info", "get-model", "get-option", "get-unsat-core", "get-value",
        "pop", "push", "reset", "set-info", "set-logic", "set-option", "BINARY", "DECIMAL", "HEXADECIMAL", "NUMERAL", "STRING"};
    ok = ok && !reserved.count(n);
    return ok ? n : "|" + n + "|";
}

std::string print_num(Q const& q, int style)
{
    Q a = abs(q);
    std::string s;
    mpz_class den = a.get_den();
    if (den == 1) {
        s = a.get_num().get_str();
        if (style & 1) s += ".0";
    } else {
        // decimal when the denominator divides a power of ten
        mpz_class d = den;
        unsigned two = 0, five = 0;
        while (mpz_divisible_ui_p(d.get_mpz_t(), 2)) { d /= 2; ++two; }
        while (mpz_divisible_ui_p(d.get_mpz_t(), 5)) { d /= 5; ++five; }
        unsigned k = std::max(two, five);
        if (d == 1 && (style & 1) && k <= 15) {
            mpz_class p10;
            mpz_ui_pow_ui(p10.get_mpz_t(), 10, k);
            mpz_class v = a.get_num() * (p10 / den);
            mpz_class ip = v / p10, fp = v % p10;
            std::string f = fp.get_str();
            s = ip.get_str() + "." + std::string(k - f.size(), '0') + f;
            if (style & 4) s += "0";
        } else {
            s = "(/ " + a.get_num().get_str() + " " + den.get_str() + ")";
        }
    }
    if (q < 0) {
        if ((style & 2) && s[0] == '(') s = "(/ (- " + a.get_num().get_str() + ") " + den.get_str() + ")";
        else s = "(- " + s + ")";
    }
    return s;
}

static char const* op_name(Op o)
{
    switch (o) {
    case Op::True: return "true";
    case Op::False: return "false";
    case Op::Not: return "not";
    case Op::And: return "and";
    case Op::Or: return "or";
    case Op::Xor: return "xor";
    case Op::Implies: return "=>";
    case Op::Eq: return "=";
    case Op::Distinct: return "distinct";
    case Op::Lt: return "<";
    case Op::Le: return "<=";
    case Op::Gt: return ">";
    case Op::Ge: return ">=";
    case Op::Add: return "+";
    case Op::Sub: case Op::Neg: return "-";
    case Op::Mul: return "*";
    case Op::Div: return "/";
    case Op::Ite: return "ite";
    default: return "?";
    }
}

static void print_to(std::string& o, Node const* n)
{
    switch (n->op) {
    case Op::Num: o += print_num(n->num, n->style); return;
    case Op::Var: o += quote_if_needed(n->name); return;
    case Op::True: o += "true"; return;
    case Op::False: o += "false"; return;
    default: break;
    }
    o += "(";
    o += n->op == Op::App ? quote_if_needed(n->name) : std::string(op_name(n->op));
    for (auto& k : n->kids) { o += " "; print_to(o, k.get()); }
    o += ")";
}
std::string print(E const& e)
{
    std::string o;
    print_to(o, e.get());
    return o;
}

std::string script(Problem const& p, bool get_model)
{
    std::string o = "(set-logic " + p.logic + ")\n";
    for (auto& [n, s] : p.vars) o += "(declare-fun " + quote_if_needed(n) + " () " + print_sort(s) + ")\n";
    for (auto& f : p.funs) {
        o += "(declare-fun " + quote_if_needed(f.name) + " (";
        for (size_t i = 0; i < f.args.size(); ++i) o += (i ? " " : "") + print_sort(f.args[i]);
        o += ") " + print_sort(f.ret) + ")\n";
    }
    for (auto& a : p.asserts) o += "(assert " + print(a) + ")\n";
    o += "(check-sat)\n";
    if (get_model) o += "(get-model)\n";
    o += "(exit)\n";
    return o;
}

size_t dag_size(std::vector<E> const& es)
{
    std::unordered_set<Node const*> seen;
    std::vector<Node const*> st;
    for (auto& e : es) st.push_back(e.get());
    while (!st.empty()) {
        auto n = st.back();
        st.pop_back();
        if (!seen.insert(n).second) continue;
        for (auto& k : n->kids) st.push_back(k.get());
    }
    return seen.size();
}

std::string Opts::str() const
{
    std::string s;
    if (phase) s += std::string(" --phase ") + (phase == 1 ? "positive" : phase == 2 ? "negative" : "cache");
    if (prop_rational) s += " --prop-rational";
    if (deduce_bounds) s += " --deduce-bounds";
    return s.empty() ? "(default options)" : s;
}

Run run_yaga(std::string const& text, Opts const& o)
{
    Run r;
    std::istringstream in(text);
    std::ostringstream out;
    yaga::Options yo;
    if (o.phase == 1) yo.phase = yaga::Phase::positive;
    if (o.phase == 2) yo.phase = yaga::Phase::negative;
    if (o.phase == 3) yo.phase = yaga::Phase::cache;
    yo.prop_rational = o.prop_rational;
    yo.deduce_bounds = o.deduce_bounds;
    yo.print_stats = true;
    std::ostringstream stats; // the counters go to std::cout
    struct Redirect {
        std::streambuf* old;
        explicit Redirect(std::ostream& to) : old(std::cout.rdbuf(to.rdbuf())) {}
        ~Redirect() { std::cout.rdbuf(old); }
    } redirect(stats);
    try {
        yaga::parser::Smt2_parser parser;
        parser.set_options(yo);
        parser.parse(in, out);
    } catch (std::exception const& e) {
        r.error = std::string("exception: ") + e.what();
    }
    r.out = out.str();
    std::istringstream lines(r.out), counters(stats.str());
    std::string l;
    while (std::getline(counters, l)) {
        auto eq = l.find(" = ");
        if (eq == std::string::npos) continue;
        long v = atol(l.c_str() + eq + 3);
        if (l.rfind("Conflicts", 0) == 0) r.conflicts = v;
        if (l.rfind("Restarts", 0) == 0) r.restarts = v;
    }
    while (std::getline(lines, l))
        if (l == "sat" || l == "unsat" || l == "unknown" || l == "error") r.verdicts.push_back(l);
    return r;
}

std::vector<Sx> read_sexprs(std::string const& t)
{
    std::vector<Sx> stack(1);
    stack[0].atom = false;
    size_t i = 0;
    while (i < t.size()) {
        char c = t[i];
        if (isspace(static_cast<unsigned char>(c))) { ++i; continue; }
        if (c == '(') { Sx s; s.atom = false; stack.push_back(s); ++i; continue; }
        if (c == ')') {
            PBT_CHECK(stack.size() > 1, "unbalanced ')' in output");
            Sx s = std::move(stack.back());
            stack.pop_back();
            stack.back().l.push_back(std::move(s));
            ++i;
            continue;
        }
        Sx a;
        if (c == '|') {
            size_t e = t.find('|', i + 1);
            PBT_CHECK(e != std::string::npos, "unterminated quoted symbol in output");
            a.s = t.substr(i + 1, e - i - 1);
            i = e + 1;
        } else if (c == '"') {
            size_t e = t.find('"', i + 1);
            PBT_CHECK(e != std::string::npos, "unterminated string in output");
            a.s = t.substr(i, e - i + 1);
            i = e + 1;
        } else {
            size_t e = i;
            while (e < t.size() && !isspace(static_cast<unsigned char>(t[e])) && t[e] != '(' && t[e] != ')') ++e;
            a.s = t.substr(i, e - i);
            i = e;
        }
        stack.back().l.push_back(std::move(a));
    }
    PBT_CHECK(stack.size() == 1, "unbalanced '(' in output");
    return stack[0].l;
}

namespace {
bool parse_number(std::string const& s, Q& q)
{
    if (s.empty()) return false;
    size_t dot = std::string::npos;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '.' && dot == std::string::npos && i > 0) dot = i;
        else if (s[i] < '0' || s[i] > '9') return false;
    }
    if (dot == std::string::npos) { q = Q(mpz_class(s)); return true; }
    if (dot + 1 == s.size()) return false;
    std::string d = s.substr(0, dot) + s.substr(dot + 1);
    mpz_class p10;
    mpz_ui_pow_ui(p10.get_mpz_t(), 10, s.size() - dot - 1);
    q = Q(mpz_class(d), p10);
    q.canonicalize();
    return true;
}

Value eval_sx(Sx const& e, std::map<std::string, Value> const& env)
{
    if (e.atom) {
        if (e.s == "true") return Value::of(true);
        if (e.s == "false") return Value::of(false);
        auto it = env.find(e.s);
        if (it != env.end()) return it->second;
        Q q;
        if (parse_number(e.s, q)) return Value::of(q);
        pbt::fail("model: not an SMT-LIB value: '" + e.s + "'");
    }
    PBT_CHECK(!e.l.empty() && e.l[0].atom, "model: malformed term");
    std::string const& f = e.l[0].s;
    std::vector<Value> k;
    for (size_t i = 1; i < e.l.size(); ++i) k.push_back(eval_sx(e.l[i], env));
    auto need = [&](Sort s, size_t from = 0) {
        for (size_t i = from; i < k.size(); ++i) PBT_CHECK(k[i].sort == s, "model: ill-sorted argument of " << f);
    };
    if (f == "-") { need(Sort::Real); PBT_CHECK(k.size() == 1 || k.size() == 2, "model: arity of -"); return k.size() == 1 ? Value::of(Q(-k[0].q)) : Value::of(Q(k[0].q - k[1].q)); }
    if (f == "/") { need(Sort::Real); PBT_CHECK(k.size() == 2 && k[1].q != 0, "model: bad division"); return Value::of(Q(k[0].q / k[1].q)); }
    if (f == "ite") { PBT_CHECK(k.size() == 3 && k[0].sort == Sort::Bool && k[1].sort == k[2].sort, "model: bad ite"); return k[0].b ? k[1] : k[2]; }
    if (f == "=") { PBT_CHECK(k.size() == 2 && k[0].sort == k[1].sort, "model: bad ="); return Value::of(k[0] == k[1]); }
    if (f == "and") { need(Sort::Bool); bool r = true; for (auto& v : k) r = r && v.b; return Value::of(r); }
    if (f == "or") { need(Sort::Bool); bool r = false; for (auto& v : k) r = r || v.b; return Value::of(r); }
    if (f == "not") { need(Sort::Bool); PBT_CHECK(k.size() == 1, "model: bad not"); return Value::of(!k[0].b); }
    pbt::fail("model: unknown operator '" + f + "'");
}
Sort to_sort(Sx const& s)
{
    PBT_CHECK(s.atom && (s.s == "Bool" || s.s == "Real"), "model: unknown sort");
    return s.s == "Bool" ? Sort::Bool : Sort::Real;
}
} // namespace

Interp parse_model(std::string const& out, Problem const& p)
{
    Interp in;
    auto pos = out.find("sat\n");
    std::string text = pos == std::string::npos ? out : out.substr(pos + 4);
    in.text = text;
    auto sx = read_sexprs(text);
    PBT_CHECK(sx.size() >= 1 && !sx[0].atom, "get-model printed no list");
    std::map<std::string, Sort> decl(p.vars.begin(), p.vars.end());
    std::map<std::string, Fun const*> fdecl;
    for (auto& f : p.funs) fdecl[f.name] = &f;
    for (auto& d : sx[0].l) {
        PBT_CHECK(!d.atom && d.l.size() == 5 && d.l[0].atom && d.l[0].s == "define-fun" && d.l[1].atom && !d.l[2].atom,
                  "get-model printed a malformed definition");
        std::string name = d.l[1].s;
        Sort ret = to_sort(d.l[3]);
        if (d.l[2].l.empty()) {
            auto it = decl.find(name);
            PBT_CHECK(it != decl.end(), "get-model defines undeclared constant '" << name << "'");
            PBT_CHECK(it->second == ret, "get-model defines '" << name << "' with another sort");
            PBT_CHECK(!in.vars.count(name), "get-model defines '" << name << "' twice");
            Value v = eval_sx(d.l[4], {});
            PBT_CHECK(v.sort == ret, "get-model: value of '" << name << "' has another sort");
            in.vars[name] = v;
        } else {
            auto it = fdecl.find(name);
            PBT_CHECK(it != fdecl.end(), "get-model defines undeclared function '" << name << "'");
            auto& f = *it->second;
            PBT_CHECK(f.ret == ret && f.args.size() == d.l[2].l.size(), "get-model defines function '" << name << "' with another signature");
            PBT_CHECK(!in.funs.count(name), "get-model defines function '" << name << "' twice");
            std::vector<std::string> params;
            for (size_t i = 0; i < f.args.size(); ++i) {
                auto& a = d.l[2].l[i];
                PBT_CHECK(!a.atom && a.l.size() == 2 && to_sort(a.l[1]) == f.args[i], "get-model: parameter sort of '" << name << "'");
                params.push_back(a.l[0].s);
            }
            Sx body = d.l[4];
            in.funs[name] = [params, body](std::vector<Value> const& args) {
                std::map<std::string, Value> env;
                for (size_t i = 0; i < params.size(); ++i) env[params[i]] = args[i];
                return eval_sx(body, env);
            };
        }
    }
    return in;
}

Sat solve_z3(Problem const& p, std::vector<E> const& asserts, Interp* witness, unsigned rlimit)
{
    static std::unique_ptr<z3::context> shared; // creating a context is expensive
    static int uses = 0;
    if (!shared || ++uses % 100 == 0) shared = std::make_unique<z3::context>();
    z3::context& c = *shared;
    std::map<std::string, z3::func_decl> fd;
    std::map<std::string, z3::expr> vars;
    auto zs = [&](Sort s) { return s == Sort::Bool ? c.bool_sort() : c.real_sort(); };
    for (auto& [n, s] : p.vars) vars.emplace(n, c.constant(("v!" + n).c_str(), zs(s)));
    for (auto& f : p.funs) {
        z3::sort_vector sv(c);
        for (auto a : f.args) sv.push_back(zs(a));
        fd.emplace(f.name, c.function(("f!" + f.name).c_str(), sv, zs(f.ret)));
    }
    std::unordered_map<Node const*, z3::expr> memo;
    auto conv = [&](E const& root) {
        std::vector<std::pair<Node const*, size_t>> st{{root.get(), 0}};
        while (!st.empty()) {
            auto& [n, i] = st.back();
            if (memo.count(n)) { st.pop_back(); continue; }
            if (i < n->kids.size()) {
                Node const* k = n->kids[i++].get();
                if (!memo.count(k)) st.push_back({k, 0});
                continue;
            }
            z3::expr_vector k(c);
            for (auto& ch : n->kids) k.push_back(memo.at(ch.get()));
            auto chain = [&](auto f) {
                z3::expr r = c.bool_val(true);
                for (unsigned j = 1; j < k.size(); ++j) r = j == 1 ? f(k[0], k[1]) : r && f(k[j - 1], k[j]);
                return r;
            };
            z3::expr r(c);
            switch (n->op) {
            case Op::True: r = c.bool_val(true); break;
            case Op::False: r = c.bool_val(false); break;
            case Op::Num: r = c.real_val(n->num.get_str().c_str()); break;
            case Op::Var: r = vars.at(n->name); break;
            case Op::Not: r = !k[0]; break;
            case Op::And: r = z3::mk_and(k); break;
            case Op::Or: r = z3::mk_or(k); break;
            case Op::Xor: r = k[0]; for (unsigned j = 1; j < k.size(); ++j) r = r != k[j]; break;
            case Op::Implies: r = k[k.size() - 1]; for (unsigned j = k.size() - 1; j-- > 0;) r = z3::implies(k[j], r); break;
            case Op::Eq: r = chain([](z3::expr a, z3::expr b) { return a == b; }); break;
            case Op::Distinct: {
                r = c.bool_val(true);
                for (unsigned a = 0; a < k.size(); ++a) for (unsigned b = a + 1; b < k.size(); ++b) r = r && k[a] != k[b];
                break;
            }
            case Op::Lt: r = chain([](z3::expr a, z3::expr b) { return a < b; }); break;
            case Op::Le: r = chain([](z3::expr a, z3::expr b) { return a <= b; }); break;
            case Op::Gt: r = chain([](z3::expr a, z3::expr b) { return a > b; }); break;
            case Op::Ge: r = chain([](z3::expr a, z3::expr b) { return a >= b; }); break;
            case Op::Add: r = k.size() ? k[0] : c.real_val(0); for (unsigned j = 1; j < k.size(); ++j) r = r + k[j]; break;
            case Op::Sub: r = k[0]; for (unsigned j = 1; j < k.size(); ++j) r = r - k[j]; break;
            case Op::Neg: r = -k[0]; break;
            case Op::Mul: r = k.size() ? k[0] : c.real_val(1); for (unsigned j = 1; j < k.size(); ++j) r = r * k[j]; break;
            case Op::Div: r = k[0]; for (unsigned j = 1; j < k.size(); ++j) r = r / k[j]; break;
            case Op::Ite: r = z3::ite(k[0], k[1], k[2]); break;
            case Op::App: r = fd.at(n->name)(k); break;
            }
            Node const* nn = n;
            memo.emplace(nn, r);
            st.pop_back();
        }
        return memo.at(root.get());
    };
    z3::solver s(c);
    z3::params par(c);
    par.set("rlimit", rlimit);
    s.set(par);
    for (auto& a : asserts) s.add(conv(a));
    z3::check_result res;
    try {
        res = s.check();
    } catch (z3::exception const&) {
        return Sat::unknown;
    }
    if (res == z3::unsat) return Sat::unsat;
    if (res != z3::sat) return Sat::unknown;
    if (witness) {
        z3::model m = s.get_model();
        auto val = [&](z3::expr const& e) {
            if (e.is_bool()) return Value::of(e.is_true());
            std::string num = e.numerator().to_string(), den = e.denominator().to_string();
            auto clean = [](std::string x) {
                std::string o;
                bool neg = false;
                for (char ch : x) { if (ch == '-') neg = true; else if (ch >= '0' && ch <= '9') o += ch; else if (ch == '.') break; }
                return mpz_class((neg ? "-" : "") + o);
            };
            Q q(clean(num), clean(den));
            q.canonicalize();
            return Value::of(q);
        };
        std::ostringstream t;
        for (auto& [n, e] : vars) {
            witness->vars[n] = val(m.eval(e, true));
            t << n << " = " << witness->vars[n].str() << "\n";
        }
        for (auto& [n, d] : fd) {
            std::vector<std::pair<std::vector<Value>, Value>> ent;
            Value def;
            def.sort = d.range().is_bool() ? Sort::Bool : Sort::Real;
            if (m.has_interp(d)) {
                auto fi = m.get_func_interp(d);
                for (unsigned i = 0; i < fi.num_entries(); ++i) {
                    auto en = fi.entry(i);
                    std::vector<Value> a;
                    for (unsigned j = 0; j < en.num_args(); ++j) a.push_back(val(en.arg(j)));
                    ent.push_back({a, val(m.eval(en.value(), true))});
                }
                z3::expr el = m.eval(fi.else_value(), true);
                if (el.is_numeral() || el.is_true() || el.is_false()) def = val(el);
            }
            for (auto& [a, v] : ent) {
                t << n << "(";
                for (auto& x : a) t << " " << x.str();
                t << " ) = " << v.str() << "\n";
            }
            t << n << "(else) = " << def.str() << "\n";
            witness->funs[n] = [ent, def](std::vector<Value> const& args) {
                for (auto& [a, v] : ent) if (a == args) return v;
                return def;
            };
        }
        witness->text = t.str();
    }
    return Sat::sat;
}

std::string judge(pbt::Ctx& ctx, Problem const& p, Run const& r, Judge const& j)
{
    std::string v = r.verdict();
    PBT_CHECK(r.error.empty(), "no answer for a valid script: " << r.error << "\noutput: " << r.out.substr(0, 500));
    PBT_CHECK(r.verdicts.size() == 1 && (v == "sat" || v == "unsat"), "no answer for a valid script; output: " << r.out.substr(0, 500));
    PBT_CHECK(r.out.find("(error") == std::string::npos || v == "unsat", "error reported for a valid script; output: " << r.out.substr(0, 500));
    ctx.label(v);
    if (r.conflicts >= 1) ctx.label("conflicts>=1");
    if (r.conflicts >= 10) ctx.label("conflicts>=10");
    if (r.conflicts >= 100) ctx.label("conflicts>=100");
    if (r.restarts >= 1) ctx.label("restarts>=1");
    if (v == "sat") {
        if (p.known_unsat && j.check_verdict) pbt::fail("answered sat, but the script is unsatisfiable by construction\noutput: " + r.out.substr(0, 1500));
        std::string why;
        try {
            Interp in = parse_model(r.out, p);
            int bad = first_false(p.asserts, in);
            if (bad >= 0) why = "assertion " + std::to_string(bad) + " is false in the printed model: " + print(p.asserts[bad]).substr(0, 1000);
        } catch (pbt::Failure const& f) {
            why = f.msg;
        }
        if (!why.empty()) {
            ctx.label("bad-model");
            if (j.check_model) pbt::fail("invalid model: " + why + "\noutput: " + r.out.substr(0, 1500));
            if (j.check_verdict && solve_z3(p, p.asserts, nullptr) == Sat::unsat)
                pbt::fail("answered sat, but the script is unsatisfiable (and the printed model is invalid: " + why + ")\noutput: " + r.out.substr(0, 1500));
        }
    } else if (j.check_verdict) {
        if (p.witness) {
            int bad = first_false(p.asserts, *p.witness);
            if (bad >= 0) throw std::logic_error("harness: planted witness does not satisfy assertion " + std::to_string(bad));
            pbt::fail("answered unsat, but the script has a model by construction:\n" + p.witness->text);
        }
        if (!p.known_unsat) {
            Interp w;
            Sat s = solve_z3(p, p.asserts, &w);
            ctx.label(s == Sat::unsat ? "unsat-confirmed" : s == Sat::sat ? "unsat-refuted" : "unsat-unknown");
            if (s == Sat::sat) {
                int bad = first_false(p.asserts, w);
                if (bad < 0) pbt::fail("answered unsat, but the script has a model (checked by exact evaluation):\n" + w.text);
                ctx.label("witness-not-confirmed");
            }
        } else {
            ctx.label("unsat-by-construction");
        }
    }
    return v;
}

} // namespace smt
