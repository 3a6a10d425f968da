#include "vf.h"
#include <sys/resource.h>
#include <time.h>
#include <iostream>

// Should the library refer to Fortran I/O again, its programs still link here.
extern "C" {
__attribute__((weak)) int s_wsfe(void *) { return 0; }
__attribute__((weak)) int do_fio(void *, void *, int) { return 0; }
__attribute__((weak)) int e_wsfe(void) { return 0; }
}

namespace vf {
void quietCerr() { std::cerr.rdbuf(0); std::cerr.clear(std::ios::badbit); }

char g_progressPath[4096];
char g_progressText[512];
Monitor mon;
static int g_progressFd = -1;

static void progress(const char *text) {
    snprintf(g_progressText, sizeof g_progressText, "%-200s\n", text);
    if (g_progressFd >= 0) { ssize_t r = pwrite(g_progressFd, g_progressText, strlen(g_progressText), 0); (void)r; }
}

static void onCpu(int) {
    static const char m[] = "\nVF-CPU-LIMIT\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(77);
}

long Monitor::heap() { return heapBytes(); }
void Monitor::arm() {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)cpuLimit;
    setitimer(ITIMER_PROF, &it, 0);
}

void Monitor::parse(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return argv[++i]; };
        if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
        else if (a == "--scale") scale = atof(next().c_str());
        else if (a == "--thorough") thorough = true;
        else if (a == "--out") outPath = next();
        else if (a == "--progress") { std::string p = next(); snprintf(g_progressPath, sizeof g_progressPath, "%s", p.c_str()); g_progressFd = open(g_progressPath, O_CREAT | O_RDWR | O_TRUNC, 0644); }
        else if (a == "--only") { std::string s = next(); size_t c = s.rfind(':'); onlyGroup = s.substr(0, c); onlyIdx = c == std::string::npos ? -1 : atoi(s.c_str() + c + 1); }
        else if (a == "--skip") skip.insert(next());
        else if (a == "--cpu") cpuLimit = atof(next().c_str());
        else if (a == "--part") { std::string s = next(); sscanf(s.c_str(), "%d/%d", &part, &nparts); }
        else if (a == "--arg") arg = next();
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(3); }
    }
    ::signal(SIGPROF, onCpu);
}

static char desc[1 << 16];
void Monitor::group(const char *name, int cases, std::function<void(Case &)> fn) {
    if (!onlyGroup.empty() && onlyGroup != name) return;
    int ran = 0;
    for (int i = 0; i < cases; ++i) {
        if (onlyIdx >= 0 && i != onlyIdx) continue;
        if (onlyGroup.empty() && nparts > 1 && (i % nparts) != part) continue;
        std::string id = fmt("%s:%d", name, i);
        if (skip.count(id)) { counters["cases_skipped"]++; continue; }
        progress(id.c_str());
        Case c; c.group = name; c.idx = i;
        // A run that leaves the heap as it was has leaked nothing. What the monitor itself has grown by it will not grow by
        // again, so only what is left over each time the same case runs counts.
        long kept = 0;
        size_t v0 = violations.size();
        for (int run = 0; run < 4 && (run == 0 || (kept > 0 && violations.size() == v0)); ++run) {
            arm();
            long h0 = heapBytes() - own;
            {
                Case d; d.group = name; d.idx = i;
                d.rng = Rng(mix64(seed * 0x9E3779B97F4A7C15ull + hashStr(name)) ^ mix64((uint64_t)i + 17));
                cur = &d;
                { static const double pats[] = {0.0, 1e300, -1e300, NAN, 1.5, -3e9}; dirtyStack(pats[i % 6]); }
                fn(d);
                cur = nullptr;
                c.nontrivial = d.nontrivial;
                snprintf(desc, sizeof desc, "%s", d.desc.c_str());
            }
            kept = heapBytes() - own - h0;
        }
        c.desc = desc;
        cur = &c;
        if (heapBytes() && leaks && violations.size() == v0) check(kept <= 0, "no-leak", "%ld bytes more on the heap each time", kept);
        cur = nullptr;
        ++ran;
        if (c.nontrivial) distinct.insert(hashStr(c.group + "|" + c.desc));
        if ((int)violations.size() >= m_maxViol) { groupCases[name] += ran; exit(finish()); }
        if (i == 0 || i == cases / 2) sample(fmt("%s %s", id.c_str(), c.desc.c_str()));
    }
    groupCases[name] += ran;
    progress("between-groups");
}

bool Monitor::check(bool ok, const char *rule, const char *f, ...) {
    RuleStat &s = rules[rule];
    s.evals++;
    if (ok) return true;
    s.fails++;
    if (s.fails <= 5) {
        va_list ap; va_start(ap, f); std::string m = fmtv(f, ap); va_end(ap);
        Violation v; v.rule = rule; v.msg = m;
        if (cur) { v.group = cur->group; v.idx = cur->idx; v.desc = cur->desc; } else v.idx = -1;
        violations.push_back(v);
    }
    return false;
}

bool Monitor::close(double got, double want, double tol, const char *rule, const char *what) {
    bool ok = std::fabs(got - want) <= tol || sameBits(got, want);
    return check(ok, rule, "%s: got %.17g expected %.17g (tolerance %.3g)", what, got, want, tol);
}

bool Monitor::closeVec(const double *got, const double *want, int n, double tol, const char *rule, const char *what) {
    for (int i = 0; i < n; ++i) {
        if (!(std::fabs(got[i] - want[i]) <= tol || sameBits(got[i], want[i]))) {
            return check(false, rule, "%s[%d of %d]: got %.17g expected %.17g (tolerance %.3g)", what, i, n, got[i], want[i], tol);
        }
    }
    rules[rule].evals += n > 0 ? n : 1;
    return true;
}
bool Monitor::closeVec(const std::vector<double> &got, const std::vector<double> &want, double tol, const char *rule, const char *what) {
    if (!check(got.size() == want.size(), rule, "%s: got %zu values, expected %zu", what, got.size(), want.size())) return false;
    return closeVec(got.data(), want.data(), (int)got.size(), tol, rule, what);
}
bool Monitor::sameVec(const std::vector<double> &got, const std::vector<double> &want, const char *rule, const char *what) {
    if (!check(got.size() == want.size(), rule, "%s: got %zu values, expected %zu", what, got.size(), want.size())) return false;
    for (size_t i = 0; i < got.size(); ++i)
        if (!sameBits(got[i], want[i]))
            return check(false, rule, "%s[%zu of %zu]: got %.17g expected bit-identical %.17g", what, i, got.size(), got[i], want[i]);
    rules[rule].evals += got.size();
    return true;
}

int Monitor::finish() {
    FILE *f = outPath.empty() ? stdout : fopen(outPath.c_str(), "w");
    if (!f) { perror("out"); return 3; }
    uint64_t ev = 0;
    fprintf(f, "{\"rules\":{");
    bool first = true;
    for (auto &r : rules) { fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second.evals, (unsigned long long)r.second.fails); first = false; ev += r.second.evals; }
    fprintf(f, "},\"evaluations\":%llu,\"groups\":{", (unsigned long long)ev);
    first = true;
    for (auto &g : groupCases) { fprintf(f, "%s\"%s\":%d", first ? "" : ",", jesc(g.first).c_str(), g.second); first = false; }
    fprintf(f, "},\"counters\":{");
    first = true;
    for (auto &g : counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(g.first).c_str(), (unsigned long long)g.second); first = false; }
    fprintf(f, "},\"maxima\":{");
    first = true;
    for (auto &g : maxima) { fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", jesc(g.first).c_str(), std::isfinite(g.second) ? g.second : 1e308); first = false; }
    fprintf(f, "},\"distinct\":[");
    first = true;
    for (auto d : distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)d); first = false; }
    fprintf(f, "],\"observed\":[");
    first = true;
    for (auto d : observed) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)d); first = false; }
    fprintf(f, "],\"samples\":[");
    first = true;
    for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto &v : violations) {
        fprintf(f, "%s{\"rule\":\"%s\",\"case\":\"%s:%d\",\"desc\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", jesc(v.rule).c_str(), jesc(v.group).c_str(), v.idx, jesc(v.desc).c_str(), jesc(v.msg).c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return violations.empty() ? 0 : 9;
}

// ------------------------------------------------------------------ signals
dvec noise(Rng &r, int n, double amp) { dvec v(n); for (auto &x : v) x = amp * r.uni(-1, 1); return v; }
dvec sine(int n, double f, double amp, double phase) { dvec v(n); for (int i = 0; i < n; ++i) v[i] = amp * std::sin(2 * M_PI * f * i + phase); return v; }
dvec clicks(int n, double period, double offset, double amp, double width) {
    dvec v(n, 0.0);
    for (double t = offset; t < n; t += period)
        for (int i = std::max(0, (int)(t - 5 * width)); i < std::min((double)n, t + 5 * width + 1); ++i)
            v[i] += amp * std::exp(-0.5 * (i - t) * (i - t) / (width * width));
    return v;
}
std::string shape(Rng &r, dvec &v) {
    int n = v.size(); if (n == 0) return "";
    double m = maxAbs(v); if (m == 0) m = 1;
    int a = r.range(0, n - 1), b = r.range(0, n - 1);
    switch (r.range(0, 16)) {
    case 0: for (auto &x : v) x = std::floor(x / m * 32767) / 16384; return "/16bit";
    case 1: for (auto &x : v) x = std::floor(4 * x / m + 0.5); return "/integers";
    case 2: for (auto &x : v) x += 10 * m; return "/bias";
    case 3: for (auto &x : v) x = std::fabs(x) + 0.01 * m; return "/positive";
    case 4: for (auto &x : v) x = -std::fabs(x) - 0.01 * m; return "/negative";
    case 5: std::sort(v.begin(), v.end()); return "/ascending";
    case 6: std::sort(v.rbegin(), v.rend()); return "/descending";
    case 7: for (int i = 0; i <= a; ++i) v[i] = 0; return "/zeros-first";
    case 8: for (int i = a; i < n; ++i) v[i] = 0; return "/zeros-last";
    case 9: for (int i = 1; i < n; ++i) v[i] = 0; if (v[0] == 0) v[0] = 1; return "/first-only";
    case 10: for (int i = 0; i + 1 < n; ++i) v[i] = 0; if (v[n - 1] == 0) v[n - 1] = 1; return "/last-only";
    case 11: for (auto &x : v) x = m * std::floor(1.5 * x / m + 0.5); return "/three-levels";
    case 12: for (auto &x : v) if (r.chance(0.3)) x = -0.0; return "/negative-zeros";
    case 13: { int i = std::max_element(v.begin(), v.end()) - v.begin(); v[a] = v[i]; i = std::min_element(v.begin(), v.end()) - v.begin(); v[b] = v[i]; return "/tied-extremes"; }
    case 14: for (auto &x : v) if (r.chance(0.7)) x = 0; return "/mostly-zero";
    case 15: for (int i = 0; i < n; ++i) v[i] = (i & 1 ? -1 : 1) * (std::fabs(v[i]) + 0.01 * m); return "/alternating";
    default: { auto e = r.chance(0.5) ? std::max_element(v.begin(), v.end()) : std::min_element(v.begin(), v.end()); std::swap(*e, r.chance(0.5) ? v[0] : v[n - 1]); return "/extreme-at-end"; }
    }
}
double level(Rng &r, dvec &v, double lo, double hi, double p) {
    if (!r.chance(p)) return 1;
    double g;
    if (hi >= 65536 && r.chance(0.25)) { g = 32767; for (auto &x : v) x = std::floor(x * g); }
    else { g = r.chance(0.5) ? r.logUni(lo, hi) : r.logUni(std::max(lo, 1e-12), std::min(hi, 1e12)); for (auto &x : v) x *= g; }
    return g;
}
dvec signal(Rng &r, int n, std::string *kind, bool hostile) {
    if (r.chance(0.3)) { dvec v; std::string k; { Rng q(r.u64()); v = signal(q, n, &k, hostile && q.chance(0.5)); } k += shape(r, v); if (kind) *kind = k; return v; }
    int k = r.range(0, hostile ? 15 : 9);
    dvec v(n, 0.0);
    const char *name = "";
    switch (k) {
    case 0: name = "noise"; v = noise(r, n); break;
    case 1: name = "sine"; v = sine(n, r.uni(0, 0.5), 1, r.uni(0, 6.28)); break;
    case 2: name = "sines"; for (int j = 0; j < 4; ++j) { dvec s = sine(n, r.uni(0, 0.5), r.uni(0, 0.5), r.uni(0, 6.28)); for (int i = 0; i < n; ++i) v[i] += s[i]; } break;
    case 3: name = "impulse"; if (n) v[r.range(0, n - 1)] = r.uni(-2, 2); break;
    case 4: name = "step"; { int p = n ? r.range(0, n) : 0; double a = r.uni(-1, 1); for (int i = p; i < n; ++i) v[i] = a; } break;
    case 5: name = "zero"; break;
    case 6: name = "constant"; { double a = r.uni(-1, 1); for (auto &x : v) x = a; } break;
    case 7: name = "walk"; { double a = 0; for (auto &x : v) { a += 0.1 * r.gauss(); a *= 0.999; x = a; } } break;
    case 8: name = "sparse"; for (auto &x : v) if (r.chance(0.05)) x = r.gauss(); break;
    case 9: name = "chirp"; { double ph = 0; for (int i = 0; i < n; ++i) { ph += M_PI * i / std::max(1, n); v[i] = std::sin(ph); } } break;
    case 10: name = "huge"; v = noise(r, n, 1e6); break;
    case 11: name = "tiny"; v = noise(r, n, 1e-12); break;
    case 12: name = "denormal"; v = noise(r, n, 1e-310); break;
    case 13: name = "ramp"; for (int i = 0; i < n; ++i) v[i] = i * r.uni(0.5, 0.5001); break;
    case 14: name = "alternating"; for (int i = 0; i < n; ++i) v[i] = (i & 1) ? -1 : 1; break;
    case 15: name = "negzero"; for (auto &x : v) x = -0.0; break;
    }
    if (kind) *kind = name;
    return v;
}
std::string bucket(double v) {
    if (v == 0) return "0";
    int e = (int)std::floor(std::log2(std::fabs(v)));
    return fmt("%s2^%d", v < 0 ? "-" : "", e);
}
} // namespace vf
