// Workloads over every component, watched at each call boundary: shared by the
// checks of C01-C04.  A scenario is a function of a seed; it appends everything
// the library returned to a log, and notes breaches at the call boundary.
#ifndef VF_SCEN_H
#define VF_SCEN_H
#include "vf.h"
#include <new>
namespace scen {
using vf::dvec; using vf::Rng;
struct Env {                     // what a run may differ in without any effect on its log
    unsigned char objFill = 0xA5;   // memory an object is constructed in
    unsigned char outFill = 0x5A;   // output buffers before a call
    double stack = 0.0;             // stack contents before a call
    uint64_t draws = 1;             // rand() stream (scenarios that draw at random keep theirs)
    bool readOnly = false;          // inputs in read-only pages
    bool hostile = false;           // extreme levels, denormals
    bool odd = false;               // some samples are not numbers
    std::function<void()> between;  // activity between calls
};
struct Ctx {
    Rng r; const Env &env; dvec log; std::string what;
    std::vector<std::pair<std::string, std::string> > issues;
    unsigned calls = 0, inputs = 0, outputs = 0; int part = 0; const char *name = "";
    Ctx(uint64_t seed, const Env &e) : r(seed), env(e) {}
    void say(const char *f, ...) __attribute__((format(printf, 2, 3))) { va_list ap; va_start(ap, f); std::string s = vf::fmtv(f, ap); va_end(ap); if (!what.empty()) what += " "; what += s; }
    void issue(const char *rule, const std::string &m) { if (issues.size() < 20) issues.push_back(std::make_pair(std::string(rule), m)); }
    void put(double v) { log.push_back(v); }
    template <class V> void puts(const V &v) { log.push_back((double)v.size()); for (size_t i = 0; i < v.size(); ++i) log.push_back((double)v[i]); }
    void putm(const std::vector<dvec> &m) { log.push_back(m.size()); for (auto &v : m) puts(v); }
    void putp(const double *p, int n) { for (int i = 0; i < n; ++i) log.push_back(p[i]); }
    void call() { ++calls; if (env.between) env.between(); vf::dirtyStack(env.stack, 4000); }
    dvec audio(int n) { dvec v = vf::signal(r, n, 0, env.hostile);
        if (r.chance(0.15)) { double o = r.uni(-5, 5); for (auto &x : v) x += o; }        // an offset; another level; whole numbers
        if (r.chance(0.15)) { double g = r.pick({1e-6, 1e-3, 30.0, 1e4, 32768.0}); bool whole = g > 1e4; for (auto &x : v) x = whole ? std::floor(x * g) : x * g; }
        if (env.odd && n) { int k = r.range(0, 2); static const double o[] = {NAN, INFINITY, -INFINITY}; while (k-- > 0) v[r.pick({0, n / 2, n - 1, r.range(0, n - 1)})] = o[r.range(0, 2)]; if (r.chance(0.05)) v.assign(n, NAN); } return v; }
};
struct Ro { unsigned char *base; size_t len; };
Ro roAlloc(size_t bytes);                       // pages, still writable
inline bool nothing() { return false; }

// Caller's input: must be unchanged when the call has returned, and is destroyed then.
template <class T> class In {
    Ctx &c; std::vector<T> orig; vf::Guarded<T> *g; Ro ro; T *ptr; bool m_const;
public:
    In(Ctx &c_, const std::vector<T> &v, bool isConst = true);
    ~In() { done(); }
    operator T *() { return ptr; }
    T *p() { return ptr; }
    size_t size() const { return orig.size(); }
    void done();
};
// Caller's output: every element must be written; goes to the log when done.
template <class T> class Out {
    Ctx &c; vf::Guarded<T> g; bool logged;
public:
    Out(Ctx &c_, size_t n) : c(c_), g(n), logged(false) { memset((void *)g.p(), c.env.outFill, n * sizeof(T)); ++c.outputs; }
    Out(Ctx &c_, const std::vector<T> &v) : c(c_), g(v), logged(false) { ++c.outputs; }      // updated in place
    ~Out() { done(); }
    operator T *() { return g.p(); }
    T *p() { return g.p(); }
    std::vector<T> vec() { return g.vec(); }
    void done() { if (logged) return; logged = true; for (size_t i = 0; i < g.size(); ++i) c.log.push_back((double)g.p()[i]); if (!g.intact()) c.issue("write-outside-output", vf::fmt("%s: around %zu elements", c.name, g.size())); }
};
void roProtect(Ro r); void roFree(Ro r);
template <class T> In<T>::In(Ctx &c_, const std::vector<T> &v, bool isConst) : c(c_), orig(v), g(0), ptr(0), m_const(isConst) {
    ++c.inputs; ro.base = 0;
    if (c.env.readOnly && isConst) { ro = roAlloc(v.size() * sizeof(T)); ptr = (T *)(ro.base + ro.len - v.size() * sizeof(T)); std::copy(v.begin(), v.end(), ptr); roProtect(ro); }
    else { g = new vf::Guarded<T>(v); ptr = g->p(); }
    c.call();
}
template <class T> void In<T>::done() {
    if (!ptr) return;
    if (m_const && orig.size() && memcmp((void *)ptr, (void *)orig.data(), orig.size() * sizeof(T)) != 0) {
        size_t i = 0; while (i < orig.size() && memcmp(&ptr[i], &orig[i], sizeof(T)) == 0) ++i;
        c.issue("input-modified", vf::fmt("%s: element %zu of %zu was %.17g, is %.17g", c.name, i, orig.size(), (double)orig[i], (double)ptr[i]));
    }
    if (g && !g->intact()) c.issue("write-outside-input", vf::fmt("%s: around %zu elements", c.name, orig.size()));
    if (ro.base) roFree(ro); else { memset((void *)ptr, 0xFF, orig.size() * sizeof(T)); delete g; }
    ptr = 0;
}
// An object built in memory with known previous contents.
template <class T> class Obj {
    unsigned char *mem; T *o;
    Obj(const Obj &); Obj &operator=(const Obj &);
public:
    template <class F> Obj(Ctx &c, F make) { c.call(); mem = (unsigned char *)malloc(sizeof(T)); memset(mem, c.env.objFill, sizeof(T)); o = make(mem); }
    ~Obj() { o->~T(); free(mem); }
    T *operator->() { return o; }
    T &operator*() { return *o; }
};
#define MAKE(T, ...) [&](void *vf_mem) { return new (vf_mem) T(__VA_ARGS__); }
struct Scenario { const char *name; const char *anchor; void (*fn)(Ctx &); bool draws; };
extern const Scenario all[];
extern const int count;
void run(const Scenario &s, Ctx &c);            // pins rand() and time() for this thread
}
#endif
