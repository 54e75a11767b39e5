// Choice-sequence property-based testing engine.
//
// A property is a function void(pbt::Src&, pbt::Ctx&).  All its random choices are drawn from Src as
// bounded integers (0 = simplest), which are recorded on a tape.  A run is a pure function of
// (code, seed).  A failing tape is shrunk (chunk deletion, zeroing, minimisation of values) and written
// to a replay file.  Every case runs inside a forked worker, so that crashes, sanitizer aborts and
// failed library assertions are failures with a reproducible tape as well.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

class Src {
public:
    std::vector<uint64_t> tape;     // what was drawn (post-normalisation)
    std::function<void(uint64_t)> on_draw;
    explicit Src(uint64_t seed) : replay_(false), s_(seed) {}
    explicit Src(std::vector<uint64_t> t) : in_(std::move(t)), replay_(true), s_(0) {}

    // integer in [0,bound]; 0 is the simplest
    uint64_t raw(uint64_t bound) {
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            ++pos_;
            if (v > bound) v = bound;
        } else {
            v = bound == UINT64_MAX ? splitmix(s_) : (uint64_t)(((__uint128_t)splitmix(s_) * ((__uint128_t)bound + 1)) >> 64);
        }
        tape.push_back(v);
        if (on_draw) on_draw(v);
        return v;
    }
    int integer(int lo, int hi) { return lo + (int)raw((uint64_t)(hi - lo)); }
    // biased towards small values but reaching hi
    int sized(int lo, int hi) {
        if (hi <= lo) return lo;
        if (raw(2) == 0) return integer(lo, std::min(hi, lo + 3));
        return integer(lo, hi);
    }
    bool boolean() { return raw(1) == 1; }
    bool chance(int percent) { return raw(99) >= (uint64_t)(100 - percent); }
    // real in [lo,hi]: coarse grid values shrink nicely, fine values explore
    double real(double lo, double hi) {
        if (raw(7) == 0) return lo + (hi - lo) * ((double)raw(16) / 16.0);
        return lo + (hi - lo) * ((double)raw((1ull << 48) - 1) / (double)(1ull << 48));
    }
    // symmetric real around 0 (0 simplest)
    double sym(double mag) {
        bool neg = raw(1);
        double v = real(0, mag);
        return neg ? -v : v;
    }
    // symmetric real with a wide spread of magnitudes
    double wide(double loexp, double hiexp) {
        bool neg = raw(1);
        double e = real(loexp, hiexp);
        double m = 1.0 + (double)raw((1u << 20) - 1) / (double)(1u << 20);
        double v = m * std::pow(10.0, e);
        return neg ? -v : v;
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size() - 1)]; }
    std::vector<int> permutation(int n) {
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) p[i] = i;
        for (int i = n - 1; i > 0; --i) { int j = i - (int)raw(i); std::swap(p[i], p[j]); }
        return p;
    }
    // A plain PRNG whose single seed is one tape entry: for bulk data (weights) that need not shrink
    // value by value.
    uint64_t bulk_seed() { return raw(UINT64_MAX - 1); }

private:
    std::vector<uint64_t> in_;
    size_t pos_ = 0;
    bool replay_;
    uint64_t s_;
};

// deterministic bulk generator seeded from the tape
struct Bulk {
    uint64_t s;
    explicit Bulk(uint64_t seed) : s(seed) {}
    double uni() { return (double)(splitmix(s) >> 11) / (double)(1ull << 53); }
    double sym(double m = 1.0) { return m * (2 * uni() - 1); }
    int integer(int lo, int hi) { return lo + (int)(splitmix(s) % (uint64_t)(hi - lo + 1)); }
};

class Ctx {
public:
    bool nontrivial = false;
    std::vector<std::string> labels;
    std::string desc;
    std::string progress;                 // a note shown for crashes
    void label(const std::string& l) { labels.push_back(l); }
    template <class... A> void describe(A&&... a) { if (desc.size() > 6000) return; std::ostringstream o; o.precision(17); (o << ... << a); desc += o.str(); }
};

template <class... A> std::string str(A&&... a) {
    std::ostringstream o; o.precision(17); (o << ... << a); return o.str();
}
template <class V> std::string vec(const V& v, size_t maxn = 64) {
    std::ostringstream o; o.precision(17); o << "[";
    size_t n = 0;
    for (auto& x : v) { if (n) o << ","; if (n++ >= maxn) { o << "..."; break; } o << x; }
    o << "]"; return o.str();
}

inline bool finite(double x) { uint64_t b; std::memcpy(&b, &x, 8); return ((b >> 52) & 0x7ff) != 0x7ff; }

inline bool close(double a, double b, double atol, double rtol = 0) {
    if (!finite(a) || !finite(b)) return false;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
// PBT_TIGHT scales every tolerance (to measure how much headroom the checks have)
inline double tight() { static const double t = getenv("PBT_TIGHT") ? atof(getenv("PBT_TIGHT")) : 1.0; return t; }
inline void check_close(double got, double want, double atol, double rtol, const std::string& what) {
    atol *= tight(); rtol *= tight();
    if (!close(got, want, atol, rtol))
        fail(str(what, ": got ", got, ", expected ", want, " (difference ", got - want, ", allowed ", atol + rtol * std::max(std::fabs(got), std::fabs(want)), ")"));
}
inline void check(bool ok, const std::string& what) { if (!ok) fail(what); }

using PropFn = void (*)(Src&, Ctx&);
struct Prop { std::string name; PropFn fn; std::string rule; };
inline std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }
struct Reg { Reg(const char* n, PropFn f, const char* rule) { registry().push_back({n, f, rule}); } };
#define PBT_PROPERTY(name, rule) \
    static void name(pbt::Src&, pbt::Ctx&); \
    static pbt::Reg reg_##name(#name, name, rule); \
    static void name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Ctx& ctx)

inline void (*&before_fork())() { static void (*f)() = nullptr; return f; }   // one-time set-up shared by all worker processes
int run_main(int argc, char** argv);

}  // namespace pbt
