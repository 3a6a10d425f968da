// Monitoring framework shared by every driver.
//
// A driver is a set of *groups*; a group runs a bounded number of seeded cases
// against the real library and feeds what it observed to oracles
// (Monitor::check).  Case seeds are a hash of (VERIF_SEED, group, index), so
// any case can be replayed alone with --only group:index.
#ifndef VF_H
#define VF_H

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <complex>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vf {

inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; }
    return mix64(h);
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return mix64(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t u64() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    int range(int a, int b) { return a + int(u64() % (uint64_t)((int64_t)b - a + 1)); } // inclusive
    bool chance(double p) { return uni() < p; }
    double gauss() {
        double u = uni(), v = uni();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
    }
    double logUni(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    template <class T> T pick(std::initializer_list<T> l) {
        return *(l.begin() + (u64() % l.size()));
    }
    template <class T> const T &pickv(const std::vector<T> &v) { return v[u64() % v.size()]; }
};

inline std::string fmtv(const char *f, va_list ap) {
    char buf[2048];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap); return s;
}
inline std::string jesc(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o;
}

struct Case {
    std::string group;
    int idx;
    Rng rng;
    bool nontrivial = true;           // counts towards distinct_nontrivial
    std::string desc;                 // what was generated (for reports)
    void say(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap);
        if (!desc.empty()) desc += " ";
        desc += s;
    }
};

// ---------------------------------------------------------------- watchdog
extern char g_progressPath[4096];
extern char g_progressText[512];

class Monitor {
public:
    struct RuleStat { uint64_t evals = 0, fails = 0; };
    struct Violation { std::string rule, group, desc, msg; int idx; };
    std::map<std::string, RuleStat> rules;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, double> maxima;
    std::set<uint64_t> distinct;      // distinct non-trivial cases
    std::set<uint64_t> observed;      // distinct observed behaviours / states
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    std::map<std::string, int> groupCases;
    uint64_t seed = 1;
    double scale = 1.0;
    bool thorough = false;
    std::string outPath, onlyGroup;
    int onlyIdx = -1;
    std::set<std::string> skip;
    Case *cur = nullptr;
    double cpuLimit = 60;
    int part = 0, nparts = 1;          // shard
    std::string arg;                   // driver specific
    long own = 0;                      // heap bytes the monitor's own records take
    static long heap();
    bool leaks = true;                 // judge what each case leaves on the heap (where the build can tell)

    void parse(int argc, char **argv);
    void group(const char *name, int cases, std::function<void(Case &)> fn);

    // one oracle decision
    bool check(bool ok, const char *rule, const char *f, ...) __attribute__((format(printf, 4, 5)));
    // cheap form: counts n decisions that were all good
    void passed(const char *rule, uint64_t n = 1) { rules[rule].evals += n; }
    bool close(double got, double want, double tol, const char *rule, const char *what);
    bool closeVec(const double *got, const double *want, int n, double tol, const char *rule, const char *what);
    bool closeVec(const std::vector<double> &got, const std::vector<double> &want, double tol, const char *rule, const char *what);
    bool sameVec(const std::vector<double> &got, const std::vector<double> &want, const char *rule, const char *what);
    void saw(const std::string &sig) { observed.insert(hashStr(sig)); }
    void sawHash(uint64_t h) { long b = heap(); observed.insert(h); own += heap() - b; }
    void count(const char *what, uint64_t n = 1) { counters[what] += n; }
    void maxim(const char *what, double v) {
        std::map<std::string, double>::iterator i = maxima.find(what);
        if (i == maxima.end() || i->second < v) maxima[what] = v;
    }
    void sample(const std::string &s) { if (samples.size() < 40) samples.push_back(s); }
    int finish();
    int n(int quick, int thor) const { return int((thorough ? thor : quick) * scale + 0.5); }
private:
    void arm();
    int m_maxViol = 60;
};

extern Monitor mon;

// ---------------------------------------------------------------- helpers
typedef std::vector<double> dvec;
typedef std::complex<double> cpx;

// Heap block of exactly n elements: with ASan any access outside is reported.
// Without ASan, guard zones around it are checked when released / on demand.
template <class T> class Guarded {
    enum { G = 64 };
    T *m_raw; size_t m_n;
    Guarded(const Guarded &); Guarded &operator=(const Guarded &);
#if defined(__SANITIZE_ADDRESS__)
    static const bool exact = true;
#else
    static const bool exact = false;
#endif
    static unsigned char pat(size_t i) { return (unsigned char)(0xA5 ^ (i * 37)); }
public:
    explicit Guarded(size_t n, T fill = T()) : m_n(n) {
        if (exact) { m_raw = (T *)malloc(n * sizeof(T)); }
        else {
            m_raw = (T *)malloc((n + 2 * G) * sizeof(T));
            unsigned char *b = (unsigned char *)m_raw;
            for (size_t i = 0; i < G * sizeof(T); ++i) { b[i] = pat(i); b[(n + G) * sizeof(T) + i] = pat(i); }
        }
        for (size_t i = 0; i < n; ++i) p()[i] = fill;
    }
    explicit Guarded(const std::vector<T> &v) : Guarded(v.size()) { std::copy(v.begin(), v.end(), p()); }
    ~Guarded() { free(m_raw); }
    T *p() { return exact ? m_raw : m_raw + G; }
    operator T *() { return p(); }
    size_t size() const { return m_n; }
    std::vector<T> vec() { return std::vector<T>(p(), p() + m_n); }
    bool intact() {
        if (exact) return true;
        unsigned char *b = (unsigned char *)m_raw;
        for (size_t i = 0; i < G * sizeof(T); ++i)
            if (b[i] != pat(i) || b[(m_n + G) * sizeof(T) + i] != pat(i)) return false;
        return true;
    }
};

// Library diagnostics go nowhere; sanitizer reports still reach fd 2.
void quietCerr();
// Leaves a recognisable pattern in the stack area that later calls will use.
__attribute__((noinline)) inline void dirtyStack(double v, int n = 8000) {
    volatile double *a = (volatile double *)__builtin_alloca(n * sizeof(double));
    for (int i = 0; i < n; ++i) a[i] = v;
}
// Bytes the program currently holds on the heap (0 when the allocator cannot tell).
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
inline long heapBytes() { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
inline long heapBytes() { return 0; }
#endif
inline bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
inline double maxAbs(const dvec &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
inline bool allFinite(const dvec &v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }

// signals ------------------------------------------------------------
dvec noise(Rng &r, int n, double amp = 1.0);
dvec sine(int n, double freqPerSample, double amp = 1.0, double phase = 0.0);
// A mixed bag of audio-like and hostile shapes; `kind` (if given) receives its name.
dvec signal(Rng &r, int n, std::string *kind = 0, bool hostile = false);
// Remoulds a signal into one of the shapes special cases hang on (about the same level); returns the shape's name.
std::string shape(Rng &r, dvec &v);
// With probability p, moves the signal to another level (or to 16-bit integers when hi allows); returns the factor.
double level(Rng &r, dvec &v, double lo, double hi, double p = 0.35);
dvec clicks(int n, double period, double offset, double amp, double width);
std::string bucket(double v); // coarse log2 bucket name, for signatures

} // namespace vf
#endif
