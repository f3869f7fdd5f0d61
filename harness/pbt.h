// Property-based testing runtime: choice-tape generators, forked workers, shrinking, replay, evidence.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure : std::exception {
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};
struct TapeOverrun {};

[[noreturn]] inline void fail(std::string const& m) { throw Failure(m); }

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    auto c = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}
inline uint64_t hash_str(std::string const& s) { return hash_bytes(s.data(), s.size()); }

/** All random choices of one case go through this object. */
class Ctx {
public:
    // generation mode: random; replay mode: values come from the tape (0 past its end)
    Ctx(uint64_t seed) : rng(seed), random(true) {}
    Ctx(std::vector<uint64_t> t) : tape(std::move(t)), random(false) {}

    /** 0 <= result < n */
    uint64_t below(uint64_t n)
    {
        if (n <= 1) return 0;
        uint64_t v;
        if (random) {
            v = splitmix(rng) % n;
            tape.push_back(v);
            if (on_choice) on_choice(v);
        } else {
            v = pos < tape.size() ? tape[pos] : 0;
            if (v >= n) { v %= n; }
        }
        used.push_back(v);
        ++pos;
        if (pos > max_choices) throw Discard{};
        return v;
    }
    /** lo <= result <= hi, shrinks to lo */
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
    bool coin() { return below(2) == 1; }
    /** true with probability num/den; shrinks to false */
    bool chance(int num, int den)
    {
        uint64_t v = below(static_cast<uint64_t>(den));
        return static_cast<int>(v) >= den - num;
    }
    /** index by weight; shrinks to 0 */
    size_t weighted(std::vector<int> const& w)
    {
        int total = 0;
        for (int x : w) total += x;
        int64_t v = static_cast<int64_t>(below(static_cast<uint64_t>(total)));
        for (size_t i = 0; i < w.size(); ++i) {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return w.size() - 1;
    }
    template <typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    uint64_t bits64() {
        uint64_t a = below(1ull << 32), b = below(1ull << 32);
        return (a << 32) | b;
    }

    void label(std::string const& l) { labels[l]++; }
    void label(std::string const& l, uint64_t n) { labels[l] += n; }
    /** mark the case as non-trivial, identified by @p h for distinct counting */
    void nontrivial(uint64_t h) { nontriv = true; nontriv_hash = h; }
    /** human-readable description of the case (used for samples and replay files) */
    std::ostringstream note;
    [[noreturn]] void discard() { throw Discard{}; }

    std::map<std::string, uint64_t> labels;
    bool nontriv = false;
    uint64_t nontriv_hash = 0;
    std::vector<uint64_t> tape;
    std::vector<uint64_t> used;
    uint64_t rng = 0;
    bool random;
    size_t pos = 0;
    size_t max_choices = 200000;
    std::function<void(uint64_t)> on_choice;
    /** make the note visible even if the case crashes afterwards */
    void publish() { if (on_publish) on_publish(note.str()); }
    std::function<void(std::string const&)> on_publish;
};

struct Sub {
    std::string name;
    std::function<void(Ctx&)> fn;
    uint64_t quick = 1000;
    uint64_t thorough = 20000;
    // CPU seconds allowed for one case; 0: default. A case that needs more is inconclusive
    // unless hang_fails is set, in which case it is replayed with a larger budget and reported.
    double cpu_limit = 10;
    bool hang_fails = false;
};

struct Prop {
    std::string id;
    std::string rule;
    std::vector<std::string> assumptions;
    std::vector<Sub> subs;
};

int run_main(int argc, char** argv, Prop const& prop);

} // namespace pbt

#define PBT_CHECK(cond, msg)                                                                       \
    do {                                                                                           \
        if (!(cond)) {                                                                             \
            std::ostringstream pbt_os_;                                                            \
            pbt_os_ << msg;                                                                        \
            throw pbt::Failure(pbt_os_.str());                                                     \
        }                                                                                          \
    } while (0)
