// C06: exact rational arithmetic against GMP, over histories of operations on a small register file.
#include "Rational.h"
#include "pbt.h"
#include <gmpxx.h>
#include <limits>
#include <unordered_set>

using yaga::Rational;
using Q = mpq_class;

namespace {

mpz_class integer(pbt::Ctx& c)
{
    mpz_class r;
    switch (c.weighted({4, 4, 3, 3, 2, 2})) {
    case 0: r = static_cast<long>(c.below(13)); break;
    case 1: { // around the limits of the word representation
        static const char* b[] = {"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615",
                                  "1073741824", "46341", "65536"};
        r = mpz_class(b[c.below(9)]) + static_cast<long>(c.range(-3, 3));
        break;
    }
    case 2: r = static_cast<unsigned long>(c.below(1ull << 31)); break;
    case 3: r = static_cast<unsigned long>(c.below(1ull << 33)); break;
    case 4: r = mpz_class(std::to_string(c.bits64())); break;
    default: r = mpz_class(std::to_string(c.bits64())) * mpz_class(std::to_string(c.bits64())); break;
    }
    return c.coin() ? mpz_class(-r) : r;
}

Q rational(pbt::Ctx& c)
{
    mpz_class n = integer(c), d = 1;
    if (c.chance(2, 3)) d = abs(integer(c));
    if (d == 0) d = 1;
    Q q(n, d);
    q.canonicalize();
    return q;
}

Q read(Rational const& r)
{
    Q q(r.get_str());
    mpz_class g;
    mpz_gcd(g.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    PBT_CHECK(g == 1 || (q == 0 && q.get_den() == 1), "not in lowest terms: " << r.get_str());
    PBT_CHECK(q.get_den() > 0, "denominator is not positive: " << r.get_str());
    return q;
}

std::string smt2(Q const& q, bool word)
{
    mpz_class n = abs(q.get_num());
    std::string num = q < 0 ? "(- " + n.get_str() + ")" : n.get_str();
    if (q.get_den() == 1 && word) return num;
    return "(/ " + num + " " + q.get_den().get_str() + ")";
}
Q value_of_print(std::string const& s)
{
    // <num>, (- n), (/ x y)
    std::vector<std::string> tok;
    std::string cur;
    for (char ch : s + " ") {
        if (ch == '(' || ch == ')' || ch == ' ') { if (!cur.empty()) tok.push_back(cur); cur.clear(); }
        else cur += ch;
    }
    int neg = 0;
    std::vector<mpz_class> nums;
    bool div = false;
    for (auto& t : tok) {
        if (t == "-") ++neg;
        else if (t == "/") { PBT_CHECK(!div, "printed as " << s); div = true; }
        else {
            for (char ch : t) PBT_CHECK(ch >= '0' && ch <= '9', "printed as " << s);
            nums.emplace_back(t);
        }
    }
    PBT_CHECK(nums.size() == (div ? 2u : 1u) && neg <= 1 && (!div || nums[1] != 0), "printed as " << s);
    Q q(nums[0], div ? nums[1] : mpz_class(1));
    q.canonicalize();
    return neg ? Q(-q) : q;
}

bool word(Q const& q)
{
    return q.get_num().fits_sint_p() && q.get_den().fits_uint_p();
}

Rational make(pbt::Ctx& c, Q& q)
{
    switch (c.below(5)) {
    case 0: { // integer constructor
        mpz_class n = q.get_num();
        if (n.fits_sint_p() ) { q = Q(n); return Rational(static_cast<int>(n.get_si())); }
        break;
    }
    case 1: { // numerator/denominator constructor, not in lowest terms
        if (q.get_num().fits_sint_p() && q.get_den().fits_uint_p()) {
            long k = static_cast<long>(c.range(1, 4));
            mpz_class n = q.get_num() * k, d = q.get_den() * k;
            if (n.fits_sint_p() && d.fits_uint_p())
                return Rational(static_cast<int>(n.get_si()), static_cast<unsigned>(d.get_ui()));
        }
        break;
    }
    case 2: if (q.get_den() == 1 && q.get_num() >= 0 && q.get_num().fits_uint_p()) return Rational(static_cast<uint32_t>(q.get_num().get_ui())); break;
    case 3: if (q.get_den() == 1) { mpz_class n = q.get_num(); return Rational(n.get_mpz_t()); } break;
    default: break;
    }
    std::string s = q.get_str();
    if (c.coin()) { // not in lowest terms
        mpz_class k = static_cast<long>(c.range(2, 9));
        s = mpz_class(q.get_num() * k).get_str() + "/" + mpz_class(q.get_den() * k).get_str();
    }
    return Rational(s.c_str());
}

void arithmetic(pbt::Ctx& c)
{
    constexpr int N = 5;
    std::vector<Rational> r(N);
    std::vector<Q> m(N);
    uint64_t h = 1;
    int changes = 0;
    auto log = [&](std::string const& s) { c.note << s << "\n"; };
    auto name = [](int i) { return "r" + std::to_string(i); };
    for (int i = 0; i < N; ++i) {
        Q q = rational(c);
        r[i] = make(c, q);
        m[i] = q;
        log(name(i) + " := " + q.get_str());
    }
    auto check = [&](int i, char const* what) {
        PBT_CHECK(r[i].isWellFormed(), what << ": " << name(i) << " is not well-formed");
        Q v = read(r[i]);
        PBT_CHECK(v == m[i], what << ": " << name(i) << " = " << v << ", exact result " << m[i]);
        PBT_CHECK(r[i].sign() == sgn(m[i]), what << ": sign of " << name(i));
        PBT_CHECK(r[i].isZero() == (m[i] == 0) && r[i].isOne() == (m[i] == 1), what << ": isZero/isOne of " << name(i));
        PBT_CHECK(r[i].isInteger() == (m[i].get_den() == 1), what << ": isInteger of " << name(i));
        h = h * 1000003 + pbt::hash_str(v.get_str());
        if (!word(m[i])) { c.label("big"); ++changes; }
    };
    for (int i = 0; i < N; ++i) check(i, "construction");
    c.publish();
    int ops = static_cast<int>(c.range(1, 25));
    for (int k = 0; k < ops; ++k) {
        int a = static_cast<int>(c.below(N)), b = static_cast<int>(c.below(N)), d = static_cast<int>(c.below(N));
        if (mpz_sizeinbase(m[a].get_num_mpz_t(), 2) + mpz_sizeinbase(m[a].get_den_mpz_t(), 2) > 3000 ||
            mpz_sizeinbase(m[b].get_num_mpz_t(), 2) + mpz_sizeinbase(m[b].get_den_mpz_t(), 2) > 3000) {
            Q q = rational(c);
            r[a] = make(c, q);
            m[a] = q;
            log(name(a) + " := " + q.get_str());
            check(a, "construction");
            continue;
        }
        std::string what;
        int touched = d;
        switch (c.below(24)) {
        case 0: what = name(d) + " = " + name(a) + " + " + name(b); log(what); r[d] = r[a] + r[b]; m[d] = Q(m[a] + m[b]); break;
        case 1: what = name(d) + " = " + name(a) + " - " + name(b); log(what); r[d] = r[a] - r[b]; m[d] = Q(m[a] - m[b]); break;
        case 2: what = name(d) + " = " + name(a) + " * " + name(b); log(what); r[d] = r[a] * r[b]; m[d] = Q(m[a] * m[b]); break;
        case 3: if (m[b] == 0) continue; what = name(d) + " = " + name(a) + " / " + name(b); log(what); r[d] = r[a] / r[b]; m[d] = Q(m[a] / m[b]); break;
        case 4: case 5: what = name(a) + " += " + name(b); log(what); r[a] += r[b]; m[a] = Q(m[a] + m[b]); touched = a; break;
        case 6: case 7: what = name(a) + " -= " + name(b); log(what); r[a] -= r[b]; m[a] = Q(m[a] - m[b]); touched = a; break;
        case 8: case 9: what = name(a) + " *= " + name(b); log(what); r[a] *= r[b]; m[a] = Q(m[a] * m[b]); touched = a; break;
        case 10: case 11: if (m[b] == 0) continue; what = name(a) + " /= " + name(b); log(what); r[a] /= r[b]; m[a] = Q(m[a] / m[b]); touched = a; break;
        case 12: what = name(d) + " = -" + name(a); log(what); r[d] = -r[a]; m[d] = Q(-m[a]); break;
        case 13: what = name(a) + ".negate()"; log(what); r[a].negate(); m[a] = Q(-m[a]); touched = a; break;
        case 14: if (m[a] == 0) continue; what = name(d) + " = 1/" + name(a); log(what);
            r[d] = c.coin() ? r[a].inv() : r[a].inverse(); m[d] = Q(1 / m[a]); break;
        case 15: what = name(d) + " = " + name(a) + " (copy)"; log(what); if (c.coin()) r[d] = r[a]; else r[d] = Rational(r[a]); m[d] = m[a]; break;
        case 16: { what = name(d) + " = " + name(a) + " (move)"; log(what);
            Rational t(std::move(r[a])); r[d] = std::move(t); Q v = m[a];
            Q f = rational(c); r[a] = make(c, f); m[a] = f; m[d] = v;
            if (a == d) { m[d] = f; }
            check(a, "after move"); break; }
        case 17: what = name(d) + " = ceil " + name(a); log(what); r[d] = r[a].ceil(); { mpz_class z; mpz_cdiv_q(z.get_mpz_t(), m[a].get_num_mpz_t(), m[a].get_den_mpz_t()); m[d] = z; } break;
        case 18: what = name(d) + " = floor " + name(a); log(what); r[d] = r[a].floor(); { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), m[a].get_num_mpz_t(), m[a].get_den_mpz_t()); m[d] = z; } break;
        case 19: what = name(d) + " = num " + name(a); log(what); r[d] = r[a].numerator(); m[d] = Q(m[a].get_num()); break;
        case 20: what = name(d) + " = den " + name(a); log(what); r[d] = r[a].denominator(); m[d] = Q(m[a].get_den()); break;
        case 21: { // mixed with machine integers
            int v = c.coin() ? static_cast<int>(c.range(-5, 5)) : c.coin() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::lowest();
            what = name(a) + " op= " + std::to_string(v); log(what);
            switch (c.below(4)) {
            case 0: r[a] += v; m[a] += v; break;
            case 1: r[a] -= v; m[a] -= v; break;
            case 2: r[a] = r[a] * v; m[a] *= v; break;
            default: if (v == 0) continue; r[a] = r[a] / v; m[a] /= v; break;
            }
            touched = a;
            break;
        }
        case 22: { // accumulate a dot product, as the solver does
            what = name(d) + " -= " + name(a) + " * " + name(b); log(what);
            Q e = m[a] * m[b];
            r[d] -= r[a] * r[b]; m[d] = Q(m[d] - e); break;
        }
        default: { Q q = rational(c); what = name(d) + " := " + q.get_str(); log(what); r[d] = make(c, q); m[d] = q; break; }
        }
        c.publish();
        check(touched, what.c_str());
        // operands keep their values
        check(a, what.c_str());
        check(b, what.c_str());
    }
    for (int i = 0; i < N; ++i) {
        for (int j = 0; j < N; ++j) {
            int cmp_ = cmp(m[i], m[j]);
            bool ok = (r[i] == r[j]) == (cmp_ == 0) && (r[i] != r[j]) == (cmp_ != 0) && (r[i] < r[j]) == (cmp_ < 0) && (r[i] <= r[j]) == (cmp_ <= 0) &&
                      (r[i] > r[j]) == (cmp_ > 0) && (r[i] >= r[j]) == (cmp_ >= 0);
            PBT_CHECK(ok, "comparison of " << m[i] << " and " << m[j]);
            PBT_CHECK(cmp_ != 0 || std::hash<Rational>{}(r[i]) == std::hash<Rational>{}(r[j]), "hash of equal values " << m[i]);
        }
        // a value computed in two ways hashes and compares equal
        Rational fresh(m[i].get_str().c_str());
        PBT_CHECK(fresh == r[i] && r[i] == fresh && std::hash<Rational>{}(fresh) == std::hash<Rational>{}(r[i]), "hash/equality of " << m[i]);
        std::ostringstream os;
        os << r[i];
        PBT_CHECK(value_of_print(os.str()) == m[i], "printed as " << os.str() << ", value " << m[i]);
        double dv = r[i].get_d(), ex = m[i].get_d();
        PBT_CHECK(dv == ex || std::abs(dv - ex) <= 1e-12 * std::abs(ex), "double approximation of " << m[i] << " is " << dv);
        check(i, "at the end");
    }
    if (changes > 0) c.label("left word representation");
    if (changes < ops * 2 + N) c.label("used word representation");
    c.nontrivial(h);
}

/** algebraic laws on triples, close to the limits of the word representation */
void laws(pbt::Ctx& c)
{
    Q qa = rational(c), qb = rational(c), qd = rational(c);
    if (c.chance(1, 3)) qb = -qa;
    if (c.chance(1, 3)) qd = qb / (qa == 0 ? Q(1) : qa);
    Rational a = make(c, qa), b = make(c, qb), d = make(c, qd);
    c.note << "a = " << qa << ", b = " << qb << ", d = " << qd << "\n";
    c.publish();
    PBT_CHECK((a + b) - b == a, "(a + b) - b != a");
    PBT_CHECK(a + b == b + a && a * b == b * a, "commutativity");
    PBT_CHECK((a + b) + d == a + (b + d), "associativity of +");
    PBT_CHECK((a * b) * d == a * (b * d), "associativity of *");
    PBT_CHECK(a * (b + d) == a * b + a * d, "distributivity");
    PBT_CHECK(a - b == -(b - a), "a - b != -(b - a)");
    if (qb != 0) { PBT_CHECK((a / b) * b == a, "(a / b) * b != a"); PBT_CHECK(a * b.inv() == a / b, "a * (1/b) != a / b"); }
    Rational x = a;
    x += b;
    PBT_CHECK(x == a + b, "+= differs from +");
    x = a; x -= b;
    PBT_CHECK(x == a - b, "-= differs from -");
    x = a; x *= b;
    PBT_CHECK(x == a * b, "*= differs from *");
    if (qb != 0) { x = a; x /= b; PBT_CHECK(x == a / b, "/= differs from /"); }
    x = a; x += x;
    PBT_CHECK(x == a * 2, "x += x");
    x = a; x *= x;
    PBT_CHECK(x == a * a, "x *= x");
    x = a; x -= x;
    PBT_CHECK(x == 0 && x.isZero(), "x -= x");
    if (qa != 0) { x = a; x /= x; PBT_CHECK(x == 1 && x.isOne(), "x /= x"); }
    PBT_CHECK((a < b) == (a - b < 0), "order and subtraction disagree");
    PBT_CHECK((a < b) == (-a > -b) || qa == qb, "order and negation disagree");
    c.nontrivial(pbt::hash_str(qa.get_str() + "|" + qb.get_str() + "|" + qd.get_str()));
}

/** integer functions: gcd, lcm, floor division, modulo, rounding, common multiples of denominators */
void integers(pbt::Ctx& c)
{
    mpz_class a = integer(c), b = integer(c);
    if (c.chance(1, 4)) a *= b;
    Q qa(a), qb(b);
    Rational ra = make(c, qa), rb = make(c, qb);
    c.note << "a = " << a << ", b = " << b << "\n";
    auto same = [&](Rational const& r, mpz_class const& z, char const* what) {
        Q v = read(r);
        PBT_CHECK(v == Q(z), what << " = " << v << ", expected " << z);
        PBT_CHECK(r.isWellFormed(), what << ": not well-formed");
    };
    mpz_class z;
    mpz_class pa = abs(a), pb = abs(b);
    Rational na = a < 0 ? -ra : ra, nb = b < 0 ? -rb : rb;
    c.publish();
    mpz_gcd(z.get_mpz_t(), pa.get_mpz_t(), pb.get_mpz_t());
    same(gcd(na, nb), z, "gcd(|a|, |b|)");
    mpz_lcm(z.get_mpz_t(), pa.get_mpz_t(), pb.get_mpz_t());
    same(lcm(na, nb), z, "lcm(|a|, |b|)");
    if (b != 0) {
        mpz_fdiv_q(z.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
        same(yaga::fastrat_fdiv_q(ra, rb), z, "floor(a / b)");
        mpz_fdiv_r(z.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
        same(ra % rb, z, "a mod b");
        mpz_class prod = a * b;
        Q qp(prod);
        Rational rp = make(c, qp);
        same(divexact(rp, rb), a, "(a * b) / b");
    }
    Q q = rational(c);
    Rational r = make(c, q);
    c.note << "q = " << q << "\n";
    c.publish();
    Q half = q + Q(1, 2);
    mpz_fdiv_q(z.get_mpz_t(), half.get_num_mpz_t(), half.get_den_mpz_t());
    same(yaga::fastrat_round_to_int(r), z, "round(q)");
    int ca = yaga::cmpabs(ra, rb);
    PBT_CHECK((ca > 0) - (ca < 0) == (pa > pb) - (pa < pb), "cmpabs(a, b)");
    std::vector<Rational> rs;
    std::vector<Q> qs;
    int n = static_cast<int>(c.range(0, 5));
    for (int i = 0; i < n; ++i) {
        Q x(static_cast<long>(c.range(-30, 30)), static_cast<long>(c.range(1, 60)));
        x.canonicalize();
        if (c.chance(1, 8)) x = rational(c);
        c.note << " " << x;
        qs.push_back(x);
        rs.push_back(make(c, x));
        qs.back() = x;
    }
    c.publish();
    Rational m = yaga::get_multiplicand(rs);
    z = 1;
    for (auto& x : qs) mpz_lcm(z.get_mpz_t(), z.get_mpz_t(), x.get_den_mpz_t());
    same(m, z, "least common denominator");
    c.nontrivial(pbt::hash_str(a.get_str() + "/" + b.get_str() + "/" + q.get_str()));
}

} // namespace

int main(int argc, char** argv)
{
    pbt::Prop p;
    p.id = PROP_ID;
    p.rule = "histories of 1-25 rational operations on 5 registers (operands at the 32/64-bit limits, fractions, 128-bit integers, aliased operands, "
             "copies and moves), each result compared with GMP; and algebraic laws on triples; every case is non-trivial, distinct by the values reached";
    p.assumptions = {"GMP's mpq arithmetic is exact"};
    p.subs.push_back({"arithmetic", arithmetic, 250000, 5000000});
    p.subs.push_back({"laws", laws, 250000, 5000000});
    p.subs.push_back({"integers", integers, 100000, 1500000});
    for (auto& s : p.subs) s.hang_fails = true; // no generated case comes near the budget
    return pbt::run_main(argc, argv, p);
}
