// C12: detection-function conditioning and peak picking.
#include "vf.h"
#include "ref.h"
#include "dsp/signalconditioning/DFProcess.h"
#include "dsp/onsets/PeakPicking.h"
using namespace vf;
using ref::LD;

static double A2[3] = {1.0000, -0.5949, 0.2348}, B2[3] = {0.1600, 0.3200, 0.1600};
struct Coef { dvec a, b; };
static Coef coeffs(Rng &r, int *kind) {
    Coef c; *kind = r.range(0, 3);
    if (*kind == 0) { c.a.assign(A2, A2 + 3); c.b.assign(B2, B2 + 3); }
    else if (*kind == 1) { double p = r.uni(0, 0.9); c.a = {1, -p}; c.b = {(1 - p) / 2, (1 - p) / 2}; }
    else if (*kind == 2) { c.a = {1}; c.b = {1}; }
    else { double rad = r.uni(0.1, 0.7), th = r.uni(0, 3); c.a = {1, -2 * rad * std::cos(th), rad * rad}; c.b = {r.uni(0.1, 1), r.uni(-1, 1), r.uni(0.1, 1)}; }
    return c;
}
static dvec novelty(Rng &r, int n, std::string *kind) {
    int k = r.range(0, 8);
    dvec v(n, 0.0);
    static const char *nm[] = {"pulses", "noise", "silence", "constant", "ramp", "pulses+noise", "negative", "single", "steps"};
    *kind = nm[k];
    if (k == 0 || k == 5) { double p = r.uni(5, 60); v = clicks(n, p, r.uni(0, p), r.uni(0.1, 50), r.uni(0.5, 3)); }
    if (k == 1 || k == 5) for (auto &x : v) x += r.uni();
    if (k == 3) for (auto &x : v) x = 3.7;
    if (k == 4) for (int i = 0; i < n; ++i) v[i] = i * 0.01;
    if (k == 6) for (auto &x : v) x = r.gauss() - 3;
    if (k == 7 && n) v[r.range(0, n - 1)] = r.uni(0.1, 100);
    if (k == 8) { int levels = r.range(2, 6); for (auto &x : v) x = r.range(0, levels); }       // many exact ties
    return v;
}
struct Model { std::vector<LD> val; LD scale; };
static Model condition(const dvec &src, const Coef &co, int pre, int post, int alpha, LD delta, bool clip) {
    int n = src.size();
    Model m;
    LD mn = src[0], al = 0, mx = 0;
    for (double x : src) { mn = std::min(mn, (LD)x); al += powl(fabsl(x), alpha); mx = std::max(mx, fabsl((LD)x)); }
    al = powl(al / n, 1.0L / alpha);
    std::vector<LD> y(n);
    for (int i = 0; i < n; ++i) y[i] = mx == 0 ? 0 : (src[i] - mn) / al;
    y = ref::filtfilt(co.a, co.b, y);
    m.scale = delta;
    for (LD v : y) m.scale = std::max(m.scale, fabsl(v));
    m.val.resize(n);
    for (int i = 0; i < n; ++i) {
        std::vector<LD> w(y.begin() + std::max(0, i - pre), y.begin() + std::min(n - 1, i + post) + 1);
        m.val[i] = y[i] - ref::median(w) - delta;
        if (clip && m.val[i] < 0) m.val[i] = 0;
    }
    return m;
}
struct Peaks { std::vector<int> sure, maybe; };
static Peaks pick(const std::vector<LD> &v, LD a, LD c, LD tol) {
    Peaks p;
    int n = v.size();
    for (int i = 2; i < n - 2; ++i) {
        LD g = std::min(std::min(v[i] - v[i - 1], v[i] - v[i + 1]), v[i]);
        // least-squares parabola over -2..2
        LD s0 = 0, s2 = 0;
        for (int k = -2; k <= 2; ++k) { s0 += v[i + k]; s2 += k * k * v[i + k]; }
        LD f = (34 * s0 - 10 * s2) / 70, h = (5 * s2 - 10 * s0) / 70;
        LD d = std::max(-a - h, f - c);
        LD m = std::min(g, d);
        if (m > tol) p.sure.push_back(i); else if (m > -tol) p.maybe.push_back(i);
    }
    return p;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    mon.group("conditioning", mon.n(1500, 20000), [](Case &c) {
        Rng &r = c.rng;
        int kind; Coef co = coeffs(r, &kind);
        int pre = r.pick({8, 0, 1, r.range(0, 20), r.chance(0.1) ? r.range(20, 100) : 4}), post = r.pick({7, 0, 1, r.range(0, 20), r.chance(0.1) ? r.range(20, 100) : 4});
        int n = r.pick({1, 2, 3, pre, pre + 1, post, post + 1, pre + post, pre + post + 1, pre + post + 2, r.range(1, 30), r.range(1, 300), r.chance(0.05) ? r.range(1500, 6000) : 8, r.chance(0.01) ? r.range(16385, 140000) : 9});
        if (n < 1) n = 1;
        int alpha = r.pick({9, 1, 2, 8});
        float delta = r.pick({0.f, 0.f, (float)r.uni(0, 0.5)});
        bool clip = r.chance(0.5);
        c.say("n=%d pre=%d post=%d alpha=%d delta=%g clip=%d coef=%d", n, pre, post, alpha, delta, clip, kind);
        DFProcConfig cf;
        cf.length = n; cf.LPOrd = co.a.size() - 1; cf.LPACoeffs = co.a.data(); cf.LPBCoeffs = co.b.data();
        cf.winPre = pre; cf.winPost = post; cf.AlphaNormParam = alpha; cf.isMedianPositive = clip; cf.delta = delta;
        DFProcess p(cf);
        for (int k = 0, calls = r.range(1, 3); k < calls; ++k) {
            std::string nm; dvec src = novelty(r, n, &nm); if (r.chance(0.25)) nm += shape(r, src); level(r, src, 1e-30, 1e30);
            c.say("%s", nm.c_str());
            double mx = maxAbs(src);
            Model m = condition(src, co, pre, post, alpha, delta, clip);
            Guarded<double> in(src), out(n, -55.0);
            p.process(in, out);
            mon.check(in.vec() == src && out.intact(), "inputs-untouched", "call %d", k);
            for (int i = 0; i < n; ++i) if (!mon.close(out[i], (double)m.val[i], 1e-8 * (double)m.scale, "conditioning", fmt("call %d value %d of %d", k, i, n).c_str())) return;
            if (clip) for (int i = 0; i < n; ++i) mon.check(out[i] >= 0, "clipped", "%d: %g", i, out[i]);
            mon.saw(fmt("%d %d %d %s", std::min(n, 40), pre, post, nm.c_str()));
        }
    });
    mon.group("zero-length", 1, [](Case &c) {
        dvec a(A2, A2 + 3), b(B2, B2 + 3);
        DFProcConfig cf; cf.length = 0; cf.LPOrd = 2; cf.LPACoeffs = a.data(); cf.LPBCoeffs = b.data(); cf.winPre = 8; cf.winPost = 7; cf.AlphaNormParam = 9;
        DFProcess p(cf);
        double z = 4; p.process(&z, &z);
        mon.check(z == 4, "inputs-untouched", "zero length");
    });
    mon.group("peaks", mon.n(1500, 20000), [](Case &c) {
        Rng &r = c.rng;
        int kind; Coef co = coeffs(r, &kind);
        int pre = r.pick({8, 0, r.range(0, 20)}), post = r.pick({7, 0, r.range(0, 20)});
        int n = r.pick({0, 1, 2, 3, 4, 5, 6, 16, r.range(4, 40), r.range(4, 400), r.range(200, 400), r.chance(0.05) ? r.range(1500, 6000) : 60, r.chance(0.01) ? r.range(16385, 140000) : 61});
        int alpha = r.pick({9, 9, 2});
        float delta = r.pick({0.f, 0.f, (float)r.uni(0, 0.3)});
        // as used by clients: b fixed 0, c negative/positive, a tied to sensitivity
        double qa = r.pick({0.0, r.uni(0, 0.2), 1e9}), qc = r.pick({1.5, 0.0, r.uni(0, 2), 1e9});
        PPickParams pp;
        pp.length = n; pp.tau = 0.01; pp.alpha = alpha; pp.cutoff = 0.5; pp.LPOrd = co.a.size() - 1; pp.LPACoeffs = co.a.data(); pp.LPBCoeffs = co.b.data();
        pp.WinT.pre = pre; pp.WinT.post = post; pp.QuadThresh.a = qa; pp.QuadThresh.b = 0; pp.QuadThresh.c = qc; pp.delta = delta;
        PeakPicking pk(pp);
        std::vector<int> last; dvec before;
        for (int k = 0, calls = r.range(1, 3); k < calls; ++k) {
            std::string nm; dvec src = novelty(r, n, &nm); if (r.chance(0.25)) nm += shape(r, src); level(r, src, 1e-30, 1e30);
            if (!before.empty() && r.chance(0.25)) src = before;     // the same again
            before = src;
            if (k == 0) c.say("n=%d pre=%d post=%d alpha=%d delta=%g a=%.3g c=%.3g coef=%d", n, pre, post, alpha, delta, qa, qc, kind);
            c.say("%s", nm.c_str());
            Guarded<double> in(src);
            std::vector<int> on;
            if (r.chance(0.3)) on.push_back(-7);      // results are appended
            else if (r.chance(0.4)) on = last;        // to whatever is there, the results of the last call included
            std::vector<int> had = on;
            pk.process(in, n, on);
            mon.check(in.intact(), "extent", "peaks");
            if (n < 4) { mon.check(on == had && in.vec() == src, "too-short-ignored", "n=%d", n); continue; }
            mon.check(on.size() >= had.size() && std::equal(had.begin(), had.end(), on.begin()), "appended", "earlier contents changed");
            on.erase(on.begin(), on.begin() + std::min(on.size(), had.size()));
            Model m = condition(src, co, pre, post, alpha, delta, false);
            for (int i = 0; i < n; ++i) if (!mon.close(in[i], (double)m.val[i], 1e-8 * (double)m.scale, "source-replaced-by-conditioned", fmt("call %d value %d of %d", k, i, n).c_str())) return;
            for (size_t i = 0; i < on.size(); ++i)
                mon.check(on[i] >= 2 && on[i] < n - 2 && (i == 0 || on[i] > on[i - 1]), "ordered-in-range", "onset %zu at %d of %d", i, on[i], n);
            Peaks p = pick(m.val, qa, qc, 1e-7L * m.scale + 1e-12L);
            last = on;
            std::set<int> got(on.begin(), on.end()), may(p.maybe.begin(), p.maybe.end()), sure(p.sure.begin(), p.sure.end());
            for (int s : sure) if (!mon.check(got.count(s), "peak-found", "call %d: qualifying peak at %d of %d missing", k, s, n)) return;
            for (int g : got) if (!mon.check(sure.count(g) || may.count(g), "peak-justified", "call %d: onset at %d of %d does not qualify", k, g, n)) return;
            // and by the conditioned values themselves, where a level top is not a peak however it came about
            for (int i = 2; i < n - 2; ++i) {
                bool top = in[i] > in[i - 1] && in[i] > in[i + 1] && in[i] > 0;
                if (!top && !mon.check(!got.count(i), "peak-strict", "call %d: onset at %d of %d: %.17g beside %.17g and %.17g", k, i, n, in[i], in[i - 1], in[i + 1])) return;
                if (in[i] > 0 && (in[i] == in[i - 1] || in[i] == in[i + 1])) mon.count("level_tops", 1);
            }
            mon.count("peaks_expected", sure.size()); mon.count("peaks_marginal", may.size());
            mon.saw(fmt("%zu", sure.size()));
        }
    });
    return mon.finish();
}
