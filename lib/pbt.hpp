// Small property-based testing runtime.
//
// A test case is a *choice sequence* (vector of bounded integers). Generators draw choices
// from a Source; in generation mode they come from a PRNG seeded by (VERIF_SEED, facet,
// index), in replay mode from a stored sequence (zero once it is exhausted). Shrinking
// works on the choice sequence (delete blocks, zero, halve), so every generator shrinks and
// every failure is replayable from the sequence alone. The same facets run under libFuzzer
// (see fuzz_main in main.cpp) by decoding the fuzzer's bytes as a choice sequence.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

struct Failure : std::runtime_error {
    using std::runtime_error::runtime_error;
};
// thrown when a generated case is outside the property's domain (counted, kept rare)
struct Discard {};

/** Where the choices of the running case are recorded, so they survive a crash */
struct Progress {
    uint64_t facet, index, n;
    uint64_t used[1 << 14];
};
inline Progress *&progress() {
    static Progress *p = nullptr;
    return p;
}
/** Reseeds the (overridden) std::random_device and std::rand */
void seed_random(uint64_t s);

class Source {
 public:
    explicit Source(uint64_t seed) : rng_(seed), replay_(false) {}
    explicit Source(std::vector<uint64_t> c) : choices_(std::move(c)), replay_(true) {}

    /** Draws an integer in [0, n) ; 0 is the simplest choice */
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (replay_) {
            v = pos_ < choices_.size() ? choices_[pos_] : 0;
            ++pos_;
            if (v >= n) v = v % n;
        } else {
            v = splitmix(rng_);
            v = (uint64_t)(((__uint128_t) v * n) >> 64);
        }
        used_.push_back(v);
        if (auto *p = progress()) {
            if (p->n < (1 << 14)) p->used[p->n++] = v;
        }
        return v;
    }
    bool coin() { return below(2); }
    /** true with probability num/den; shrinks to false */
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
    int range(int lo, int hi) { return lo + (int) below((uint64_t)(hi - lo) + 1); }
    /** picks an element; shrinks to the first */
    template <typename T>
    const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    /** uniform in [0,1) on a 2^-40 grid */
    double unit() { return (double) below(1ull << 40) / (double) (1ull << 40); }
    double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
    /** uniform magnitude in [-m,m], shrinks to 0 */
    double symmetric(double m) {
        double u = unit() * m;
        return coin() ? -u : u;
    }

    void label(const std::string &l) { labels_.insert(l); }
    /** marks the case as non-trivial by the facet's rule */
    void nontrivial() { nontrivial_ = true; }
    bool tracing = false;
    template <typename F>
    void note(F &&f) {
        if (tracing) {
            std::ostringstream os;
            os.precision(17);
            f(os);
            notes_ += os.str();
            notes_ += "; ";
        }
    }
    const std::vector<uint64_t> &used() const { return used_; }
    const std::set<std::string> &labels() const { return labels_; }
    bool is_nontrivial() const { return nontrivial_; }
    const std::string &notes() const { return notes_; }

 private:
    uint64_t rng_ = 0;
    std::vector<uint64_t> choices_;
    size_t pos_ = 0;
    bool replay_;
    std::vector<uint64_t> used_;
    std::set<std::string> labels_;
    bool nontrivial_ = false;
    std::string notes_;
};

struct Facet {
    std::string name;
    double weight;                  // relative number of cases
    std::function<void(Source &)> fn;
};

inline std::vector<Facet> &facets() {
    static std::vector<Facet> f;
    return f;
}
struct Register {
    Register(const std::string &name, double weight, std::function<void(Source &)> fn) {
        facets().push_back({name, weight, std::move(fn)});
    }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define FACET(name, weight)                                                              \
    static void PBT_CAT(facet_, __LINE__)(pbt::Source &);                                \
    static pbt::Register PBT_CAT(reg_, __LINE__){name, weight, PBT_CAT(facet_, __LINE__)}; \
    static void PBT_CAT(facet_, __LINE__)(pbt::Source & s)

template <typename... A>
[[noreturn]] void fail(const A &... a) {
    std::ostringstream os;
    os.precision(17);
    (void) std::initializer_list<int>{(os << a, 0)...};
    throw Failure(os.str());
}
#define REQUIRE(cond, ...)                                                        \
    do {                                                                          \
        if (!(cond)) pbt::fail("required: " #cond " : ", ##__VA_ARGS__);          \
    } while (0)

}  // namespace pbt
