// C17: tempo tracking v2: most probable beat-period path and best beat sequence.
#include "vf.h"
#include "ref.h"
#include "dsp/tempotracking/TempoTrackV2.h"
using namespace vf;
typedef long double LD;
static const double EPSV = 0.0000008;

static dvec thresh(const dvec &v) {
    int n = v.size(); dvec w(n);
    for (int i = 0; i < n; ++i) {
        int a = std::max(0, i - 8), b = std::min(n - 1, i + 7);
        LD s = 0; for (int j = a; j <= b; ++j) s += v[j];
        w[i] = std::max(0.0, (double)(v[i] - s / (b - a + 1)));
    }
    return w;
}
static dvec onsets(Rng &r, int n, std::string *kind) {
    static const char *nm[] = {"clicks", "clicks+noise", "jitter", "accel", "noise", "silence", "constant", "two-tempi", "sparse", "ramp", "gap", "accents"};
    int k = r.range(0, 11); *kind = nm[k];
    dvec v(n, 0.0);
    double p = r.chance(0.7) ? r.uni(12, 110) : r.chance(0.6) ? r.uni(103, 126) : r.uni(3, 23), amp = r.logUni(0.01, 100);
    switch (k) {
    case 0: v = clicks(n, p, r.uni(0, p), amp, r.uni(0.5, 2)); break;
    case 1: v = clicks(n, p, r.uni(0, p), amp, r.uni(0.5, 2)); for (auto &x : v) x += 0.2 * amp * r.uni(); break;
    case 2: for (double t = r.uni(0, p); t < n; t += p + r.uni(-3, 3)) v[(int)t] += amp; break;
    case 3: { double q = p; for (double t = 0; t < n; t += q) { v[(int)t] += amp; q = std::max(15.0, q * r.uni(0.98, 1.01)); } } break;
    case 4: for (auto &x : v) x = amp * r.uni(); break;
    case 6: for (auto &x : v) x = amp; break;
    case 7: { double q = r.uni(25, 100); double t = 0; while (t < n) { v[(int)t] += amp; t += t < n / 2 ? p : q; } } break;
    case 8: for (auto &x : v) if (r.chance(0.003)) x = amp; break;
    case 9: for (int i = 0; i < n; ++i) v[i] = amp * i / n; break;
    case 10: v = clicks(n, p, 0, amp, 1); for (int i = n / 3; i < n * 2 / 3; ++i) v[i] = 0; break;
    case 11: { int c = 0; for (double t = 0; t < n; t += p) v[(int)t] += amp * (c++ % 4 ? 0.4 : 1); } break;
    }
    if (r.chance(0.15)) { *kind += shape(r, v); for (auto &x : v) x = std::fabs(x); }
    if (r.chance(0.15)) { double g = r.logUni(1e-8, 1e8); for (auto &x : v) x *= g; *kind += fmt("*%.2g", g); }
    return v;
}
struct Lattice {
    std::vector<dvec> obs; dvec wv;       // obs[t][state]
    int T() const { return obs.size(); }
    Lattice(const dvec &df, double bpm, bool constrain) : wv(128) {
        double ray = (60 * 44100 / 512) / bpm;
        for (int i = 0; i < 128; ++i) wv[i] = constrain ? std::exp(-(i - ray) * (i - ray) / (2 * (ray / 4) * (ray / 4))) : i / (ray * ray) * std::exp(-(double)i * i / (2 * ray * ray));
        for (int s = 0; s + 512 < (int)df.size(); s += 128) {
            dvec f = thresh(dvec(df.begin() + s, df.begin() + s + 512)), acf(512), rcf(128, 0.0);
            for (int l = 0; l < 512; ++l) { double x = 0; for (int n = 0; n + l < 512; ++n) x += f[n] * f[n + l]; acf[l] = x / (512 - l); }
            for (int i = 1; i < 127; ++i) for (int a = 1; a <= 4; ++a) for (int b = 1 - a; b < a; ++b) rcf[i] += acf[a * (i + 1) + b - 1] * wv[i] / (2. * a - 1);
            rcf = thresh(rcf);
            double sum = 0; for (auto &x : rcf) { x += EPSV; sum += x; }
            for (auto &x : rcf) x /= sum + EPSV;
            obs.push_back(rcf);
        }
    }
    static LD tr(int i, int j) { return -(LD)(i - j) * (i - j) / 128; }      // log, 20..107 only
    LD score(const std::vector<int> &p) const {
        LD s = logl(wv[p[0]]) + logl(obs[0][p[0]]);
        for (int t = 1; t < T(); ++t) s += logl(obs[t][p[t]]) + tr(p[t], p[t - 1]);
        return s;
    }
    LD best() const {
        std::vector<LD> d(128), e(128);
        for (int j = 20; j < 108; ++j) d[j] = logl(wv[j]) + logl(obs[0][j]);
        for (int t = 1; t < T(); ++t) {
            for (int j = 20; j < 108; ++j) { LD m = -1e300L; for (int i = 20; i < 108; ++i) m = std::max(m, d[i] + tr(i, j)); e[j] = m + logl(obs[t][j]); }
            d = e;
        }
        return *std::max_element(d.begin() + 20, d.begin() + 108);
    }
};
static void checkBeats(const dvec &df, const dvec &bp, const dvec &beats, double alpha, double tight) {
    int n = df.size();
    std::vector<LD> cum(n), vv(n);
    LD mx = 0;
    auto weight = [&](int i, int j) { double mu = bp[i]; return expl(-0.5L * powl(tight * logl((roundl(2 * mu) - j) / mu), 2)); };
    auto count = [&](int i) { return (int)std::round(-0.5 * bp[i]) - (int)(-2 * bp[i]) + 1; };
    for (int i = 0; i < n; ++i) {
        int lo = -2 * bp[i], m = count(i); LD v = 0;
        for (int j = 0; j < m; ++j) if (i + lo + j >= 0) v = std::max(v, weight(i, j) * cum[i + lo + j]);
        vv[i] = v; cum[i] = alpha * v + (1 - alpha) * df[i]; mx = std::max(mx, cum[i]);
    }
    LD tol = 1e-9L * mx;
    if (!mon.check(!beats.empty(), "beats-not-empty", "no beats for %d values", n)) return;
    for (size_t k = 0; k < beats.size(); ++k) {
        double b = beats[k];
        if (!mon.check(b == std::floor(b) && b >= 0 && b < n, "beats-in-range", "beat %zu of %zu at %g of %d", k, beats.size(), b, n)) return;
        if (k && !mon.check(b > beats[k - 1], "beats-ascending", "beat %zu at %g after %g", k, b, beats[k - 1])) return;
    }
    int last = beats.back(), from = std::max(0, n - (int)bp.back());
    mon.check(last >= from, "last-beat-in-last-period", "last beat %d, %d values, period %g", last, n, bp.back());
    LD m = 0; for (int i = from; i < n; ++i) m = std::max(m, cum[i]);
    mon.check(cum[last] >= m - tol, "last-beat-best", "cumulative score %Lg at last beat %d, best in the last period is %Lg", cum[last], last, m);
    for (size_t k = beats.size(); k-- > 0;) {
        int b = beats[k], lo = -2 * bp[b];
        if (k == 0) {
            // nothing reachable with a better score that lies after sample 0
            LD q = 0; int where = -1;
            for (int j = 0; j < count(b); ++j) { int s = b + lo + j; if (s >= 0) { LD w = weight(b, j) * cum[s]; if (w > q) { q = w; where = s; } } }
            LD q0 = b + lo <= 0 && b + lo + count(b) > 0 ? weight(b, -(b + lo)) * cum[0] : 0;
            mon.check(where <= 0 || q <= q0 + tol || q <= tol, "first-beat-is-first", "first beat at %d but %d precedes it with score %Lg", b, where, q);
            break;
        }
        int p = beats[k - 1], j = p - b - lo;
        if (!mon.check(j >= 0 && j < count(b), "beat-interval", "interval %d to %d outside half to twice the period %g", p, b, bp[b])) return;
        LD w = weight(b, j) * cum[p];
        if (!mon.check(w >= vv[b] - tol, "predecessor-best", "beat %d preceded by %d with score %Lg, best available %Lg", b, p, w, vv[b])) return;
    }
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    mon.group("track", mon.n(400, 4000), [](Case &c) {
        Rng &r = c.rng;
        double rate = r.pick({44100.0, 48000.0, 22050.0, 96000.0, 8000.0, 11025.0}); int inc = r.pick({512, 441, 1024, 128});
        TempoTrackV2 t(rate, inc);
        for (int piece = 0, np = r.chance(0.15) ? 2 : 1; piece < np; ++piece) {      // one object may track several pieces
        int n = r.pick({641, 700, 767, 768, 769, 900, 1024, 1500, r.range(641, 3000), r.range(1000, np == 1 ? 6000 : 2500)});
        bool con = r.chance(0.4); double bpm = r.pick({120.0, 120.0, r.uni(50, 220), r.pick({r.uni(20, 27), r.uni(110, 220)})});
        std::string k; dvec df = onsets(r, n, &k);
        c.say("n=%d %s bpm=%.4g constrain=%d rate=%g/%d", n, k.c_str(), bpm, con, rate, inc);
        dvec in = df, bp(n, 0.0), tempi, beats;
        if (bpm == 120 && !con && r.chance(0.5)) t.calculateBeatPeriod(in, bp, tempi);
        else t.calculateBeatPeriod(in, bp, tempi, bpm, con);
        mon.check(in == df, "inputs-untouched", "df");
        Lattice L(df, bpm, con);
        int T = L.T();
        std::vector<int> path(T);
        for (int f = 0; f < T; ++f) {
            path[f] = bp[f * 128];
            if (!mon.check(bp[f * 128] >= 20 && bp[f * 128] <= 107 && bp[f * 128] == path[f], "period-range", "frame %d: period %g", f, bp[f * 128])) return;
            mon.saw(fmt("p%d", path[f]));
        }
        for (int i = 0; i < n; ++i) if (!mon.check(bp[i] == path[std::min(i / 128, T - 1)], "period-piecewise", "value %d: %g, frame %d has %d", i, bp[i], std::min(i / 128, T - 1), path[std::min(i / 128, T - 1)])) return;
        LD got = L.score(path), best = L.best();
        mon.check(got >= best - 1e-5L * T, "most-probable-path", "log score %.10Lg, best path has %.10Lg", got, best);
        mon.maxim("path_deficit", (double)(best - got));
        if (mon.check((int)tempi.size() == n, "tempi-count", "%zu of %d", tempi.size(), n))
            for (int i = 0; i < n; ++i) if (!mon.close(tempi[i], 60. * rate / inc / bp[i], 1e-9 * rate, "tempi", fmt("value %d", i).c_str())) return;
        double alpha = r.pick({0.9, 0.9, r.uni(0.1, 0.99)}), tight = r.pick({4.0, 4.0, r.uni(0.5, 12)});
        bool plain = alpha == 0.9 && tight == 4 && r.chance(0.5);
        dvec b0 = bp;
        if (plain) t.calculateBeats(in, bp, beats); else t.calculateBeats(in, bp, beats, alpha, tight);
        mon.check(in == df && bp == b0, "inputs-untouched", "beats");
        c.say("alpha=%.3g tight=%.3g", alpha, tight);
        checkBeats(df, bp, beats, alpha, tight);
        mon.count("beats", beats.size()); mon.count("frames", T);
        }
    });
    // caller-supplied periods, any length of df
    mon.group("given-period", mon.n(400, 4000), [](Case &c) {
        Rng &r = c.rng;
        int n = r.pick({1, 2, 5, 30, r.range(1, 200), r.range(100, 1500)});
        std::string k; dvec df = onsets(r, n, &k);
        dvec bp(n); int p = r.range(2, 120);
        bool vary = r.chance(0.4);
        for (int i = 0; i < n; ++i) { if (vary && i % 64 == 0) p = std::max(2, p + r.range(-6, 6)); bp[i] = p; }
        double alpha = r.pick({0.9, r.uni(0.1, 0.99)}), tight = r.pick({4.0, r.uni(0.5, 12)});
        c.say("n=%d %s period=%d%s alpha=%.3g tight=%.3g", n, k.c_str(), p, vary ? " varying" : "", alpha, tight);
        TempoTrackV2 t(44100, 512); dvec beats;
        t.calculateBeats(df, bp, beats, alpha, tight);
        checkBeats(df, bp, beats, alpha, tight);
    });
    mon.group("short", mon.n(60, 400), [](Case &c) {
        Rng &r = c.rng;
        int n = r.pick({0, 1, 2, 127, 128, 500, 512, 513, 600, 639, 640, r.range(0, 640)});
        std::string k; dvec df = onsets(r, n, &k);
        c.say("n=%d %s", n, k.c_str());
        TempoTrackV2 t(44100, 512); dvec bp(n, 0.0), tempi, beats;
        t.calculateBeatPeriod(df, bp, tempi);
        mon.check(tempi.empty() && bp == dvec(n, 0.0), "too-short-no-tempo", "%zu tempi", tempi.size());
        t.calculateBeats(df, bp, beats);
        mon.check(beats.size() <= 1, "too-short-beats", "%zu beats", beats.size());
        for (double b : beats) mon.check(b >= 0 && b < n, "beats-in-range", "%g of %d", b, n);
    });
    // what it is for: evenly spaced onsets are tracked
    mon.group("steady", mon.n(120, 1000), [](Case &c) {
        Rng &r = c.rng;
        double P = r.uni(26, 95); int n = r.range(1500, 4000);
        double ph = r.uni(0, P), amp = r.logUni(0.05, 50), nz = r.pick({0.0, 0.05, 0.15});
        dvec df = clicks(n, P, ph, amp, 1.0);
        for (auto &x : df) x += nz * amp * r.uni();
        double bpm = 60. * 44100 / 512 / P;
        c.say("P=%.4g n=%d noise=%g", P, n, nz);
        TempoTrackV2 t(44100, 512); dvec bp(n, 0.0), tempi, beats;
        t.calculateBeatPeriod(df, bp, tempi, bpm, true);
        for (int i = 0; i < n; i += 64) if (!mon.check(std::fabs(bp[i] - P) <= 1.6, "steady-period", "value %d: period %g, onsets every %g", i, bp[i], P)) return;
        t.calculateBeats(df, bp, beats);
        int off = 0;
        for (double b : beats) { double d = std::fmod(b - ph + 100 * P, P); d = std::min(d, P - d); if (b > 3 * P && b < n - P && d > 1.6) ++off; }
        mon.check(off == 0, "steady-beats-on-onsets", "%d of %zu beats away from onsets", off, beats.size());
        double expect = (n - ph) / P;
        mon.check(std::fabs(beats.size() - expect) <= 3, "steady-beat-count", "%zu beats, %g onsets", beats.size(), expect);
    });
    // long pieces: hundreds to thousands of analysis frames, tempo and noise changing on the way
    mon.group("long", mon.n(16, 80), [](Case &c) {
        Rng &r = c.rng;
        int n = r.pick({r.range(20000, 60000), r.range(80000, 160000)}); dvec df(n, 0.0);
        int i = 0; double P = r.uni(22, 100); while (i < n) { int len = r.range(1500, 30000); double amp = r.logUni(0.05, 20), nz = r.pick({0.0, 0.02, 0.3, 1.0}); bool beat = r.chance(0.8); if (r.chance(0.6)) P = r.uni(22, 100); double next = i; for (int e = std::min(n, i + len); i < e; ++i) { df[i] = amp * nz * r.uni(); if (beat && i >= next) { df[i] += amp; next += P; } } }
        c.say("n=%d", n);
        TempoTrackV2 t(44100, 512); dvec bp(n, 0.0), tempi, beats;
        t.calculateBeatPeriod(df, bp, tempi);
        Lattice L(df, 120, false); int T = L.T(); std::vector<int> path(T);
        for (int f = 0; f < T; ++f) { path[f] = bp[f * 128]; if (!mon.check(bp[f * 128] >= 20 && bp[f * 128] <= 107 && bp[f * 128] == path[f], "period-range", "frame %d: period %g", f, bp[f * 128])) return; }
        LD got = L.score(path), best = L.best();
        mon.check(got >= best - 1e-5L * T, "most-probable-path", "log score %.10Lg, best path has %.10Lg", got, best);
        t.calculateBeats(df, bp, beats); checkBeats(df, bp, beats, 0.9, 4);
        mon.count("beats", beats.size()); mon.count("frames", T); mon.count("long_frames", T);
    });
    mon.group("sparse-long", mon.n(8, 60), [](Case &c) {
        Rng &r = c.rng;
        int n = r.range(12000, 22000);
        double P = r.uni(300, 600), amp = r.logUni(0.01, 3e3);
        dvec df(n, 0.0); for (double t = 0; t < n; t += P) df[(int)t] = amp;
        c.say("P=%.4g n=%d amp=%.3g", P, n, amp);
        TempoTrackV2 t(44100, 512); dvec bp(n, 0.0), tempi, beats;
        t.calculateBeatPeriod(df, bp, tempi);
        for (int i = 0; i < n; i += 128) if (!mon.check(bp[i] >= 20 && bp[i] <= 107, "period-range", "value %d: period %g", i, bp[i])) return;
        t.calculateBeats(df, bp, beats);
        mon.check(beats.size() > n / 215.0 - 2, "beats-not-empty", "%zu beats in %d values", beats.size(), n);
    });
    return mon.finish();
}
