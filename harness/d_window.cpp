// C07: window families against their closed forms.
#include "vf.h"
#include "base/Window.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
using namespace vf;
typedef long double LD;

static dvec refWindow(WindowType t, int n) {
    dvec w(n, 1.0);
    auto cosw = [&](LD a0, LD a1, LD a2, LD a3) {
        if (n > 1) for (int i = 0; i < n; ++i) { LD p = 2 * M_PIl * i / n; w[i] = a0 - a1 * cosl(p) + a2 * cosl(2 * p) - a3 * cosl(3 * p); }
    };
    switch (t) {
    case RectangularWindow: for (auto &x : w) x = 0.5; break;
    case BartlettWindow:
        if (n == 2) w[0] = w[1] = 0;
        else if (n == 3) { w[0] = 0; w[1] = w[2] = 2.0 / 3; }
        else if (n > 3) { int h = n / 2; for (int i = 0; i < h; ++i) { w[i] = (LD)i / h; w[i + n - h] = 1 - (LD)i / h; } }
        break;
    case HammingWindow: cosw(0.54L, 0.46L, 0, 0); break;
    case HanningWindow: cosw(0.5L, 0.5L, 0, 0); break;
    case BlackmanWindow: cosw(0.42L, 0.5L, 0.08L, 0); break;
    case BlackmanHarrisWindow: cosw(0.35875L, 0.48829L, 0.14128L, 0.01168L); break;
    }
    return w;
}
static LD I0(LD x) { LD s = 1, t = 1; for (int i = 1; i < 500; ++i) { t *= (x / 2) * (x / 2) / ((LD)i * i); s += t; if (t < s * 1e-22L) break; } return s; }

template <typename T> static void cosineCase(Case &c, const char *tn, double tol) {
    Rng &r = c.rng;
    WindowType t = (WindowType)r.range(FirstWindow, LastWindow);
    int n = c.idx < 140 ? c.idx + 1 : r.pick({256, 512, 1024, 1023, 2048, 4096, 8192, 32768, 65536, 65537, 777, 2, 3, 4, 5, 441, 11025, r.range(140, 20000)});
    c.say("%s type=%d n=%d", tn, t, n);
    dvec ref = refWindow(t, n);
    Window<T> w0(t, n);
    Window<T> w1(w0);
    Window<T> w2((WindowType)r.range(FirstWindow, LastWindow), r.range(1, 50));
    if (r.chance(0.5)) { Window<T> &self = w2; w2 = self; }
    w2 = w0;
    const Window<T> *ws[3] = {&w0, &w1, &w2};
    for (int k = 0; k < 3; ++k) {
        const Window<T> &w = *ws[k];
        mon.check(w.getType() == t && w.getSize() == n, "window-identity", "%s copy %d: type %d size %d", tn, k, w.getType(), w.getSize());
        std::vector<T> d = w.getWindowData();
        if (!mon.check((int)d.size() == n, "window-length", "%zu vs %d", d.size(), n)) continue;
        for (int i = 0; i < n; ++i)
            if (!mon.close(d[i], ref[i], tol, "window-closed-form", fmt("%s type %d n %d coefficient %d", tn, t, n, i).c_str())) break;
        std::vector<T> x(n);
        for (auto &v : x) v = r.uni(-2, 2);
        Guarded<T> src(x), dst(n, T(55)), inp(x);
        w.cut(src, dst);
        w.cut(inp);
        for (int i = 0; i < n; ++i)
            if (!mon.check(std::fabs((double)dst[i] - (double)x[i] * d[i]) <= tol * 4 && std::fabs((double)inp[i] - (double)x[i] * d[i]) <= tol * 4, "cut-multiplies", "%s sample %d: %g * %g -> %g / %g", tn, i, (double)x[i], (double)d[i], (double)dst[i], (double)inp[i])) break;
        mon.check(src.vec() == x && src.intact() && dst.intact() && inp.intact(), "extent", "%s type %d n %d", tn, t, n);
    }
    mon.saw(fmt("%s %d %d", tn, t, n));
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("double", mon.n(420, 4000), [](Case &c) { cosineCase<double>(c, "double", 1e-13); });
    mon.group("float", mon.n(300, 3000), [](Case &c) { cosineCase<float>(c, "float", 1e-6); });
    mon.group("all-types-and-sizes", mon.n(6 * 64, 6 * 300), [](Case &c) {
        WindowType t = (WindowType)(FirstWindow + c.idx % 6); int n = c.idx / 6 + 1;
        c.say("type=%d n=%d", t, n);
        Window<double> w(t, n);
        mon.closeVec(w.getWindowData(), refWindow(t, n), 1e-13, "window-closed-form", fmt("type %d n %d", t, n).c_str());
    });
    mon.group("kaiser", mon.n(500, 6000), [](Case &c) {
        Rng &r = c.rng;
        KaiserWindow::Parameters p;
        p.length = c.idx < 120 ? c.idx + 1 : r.range(1, 1500);
        bool big = r.chance(0.2);
        p.beta = big ? r.pick({r.uni(12, 30), r.uni(30, 150)}) : r.pick({0.0, r.uni(0, 12), r.uni(0, 12), 2.5, 4.0});
        c.say("length=%d beta=%.6g", p.length, p.beta);
        KaiserWindow k(p), k2(k);
        mon.check(k.getLength() == p.length, "kaiser-length", "%d vs %d", k.getLength(), p.length);
        const double *w = k.getWindow();
        int n = p.length;
        LD den = I0(p.beta);
        for (int i = 0; i < n; ++i) {
            LD kk = n > 1 ? 2.0L * i / (n - 1) - 1 : 0;
            double want = (double)(I0(p.beta * sqrtl(std::max(0.0L, 1 - kk * kk))) / den);
            if (!mon.close(w[i], want, 1e-9, "kaiser-closed-form", fmt("length %d beta %g coefficient %d", n, p.beta, i).c_str())) break;
            if (!mon.close(w[i], w[n - 1 - i], 1e-12, "kaiser-symmetric", fmt("coefficient %d of %d", i, n).c_str())) break;
        }
        dvec x = noise(r, n);
        Guarded<double> s(x), d(n, 9.0), e(x);
        k.cut(s, d); k2.cut(e);
        for (int i = 0; i < n; ++i)
            if (!mon.check(sameBits(d[i], x[i] * w[i]) || std::fabs(d[i] - x[i] * w[i]) < 1e-15, "cut-multiplies", "kaiser %d", i)) break;
        mon.closeVec(d.p(), e.p(), n, 1e-15, "cut-multiplies", "kaiser in place vs copy");
        mon.check(d.intact() && e.intact() && s.vec() == x, "extent", "kaiser");
    });
    mon.group("kaiser-parameters", mon.n(400, 5000), [](Case &c) {
        Rng &r = c.rng;
        double att = r.pick({r.uni(1, 130), r.uni(100, 500), 21.0, 50.0, r.uni(20, 22), r.uni(49, 51)});
        double tr = r.logUni(1e-3, 3.0);
        bool band = r.chance(0.5);
        double rate = r.pick({8000.0, 44100.0, 48000.0, 96000.0});
        double bw = tr * rate / (2 * M_PI);
        c.say("attenuation=%.6g transition=%.6g", att, tr);
        KaiserWindow::Parameters p = band ? KaiserWindow::parametersForBandwidth(att, bw, rate) : KaiserWindow::parametersForTransitionWidth(att, tr);
        double m = att > 21 ? (att - 7.95) / (2.285 * tr) : 5.79 / tr;
        int want = 1 + (int)std::ceil(m);
        bool nearInt = std::fabs(m - std::round(m)) < 1e-6 * m;
        mon.check(p.length == want || (nearInt && std::abs(p.length - want) <= 1), "kaiser-parameters", "length %d expected %d", p.length, want);
        double b = att > 50 ? 0.1102 * (att - 8.7) : att > 21 ? 0.5842 * std::pow(att - 21, 0.4) + 0.07886 * (att - 21) : 0;
        mon.close(p.beta, b, 1e-9, "kaiser-parameters", "beta");
        if (p.length < 5000) {
            KaiserWindow k = band ? KaiserWindow::byBandwidth(att, bw, rate) : KaiserWindow::byTransitionWidth(att, tr);
            KaiserWindow k2(p);
            mon.check(k.getLength() == p.length, "kaiser-parameters", "byX length %d vs %d", k.getLength(), p.length);
            mon.closeVec(k.getWindow(), k2.getWindow(), p.length, 1e-14, "kaiser-parameters", "byX window");
        }
    });
    mon.group("sinc", mon.n(400, 4000), [](Case &c) {
        Rng &r = c.rng;
        int n = c.idx < 100 ? c.idx + 1 : r.range(1, 2000);
        double p = r.pick({1.0, 2.0, 4.0, r.uni(1, 50), r.logUni(0.5, 500)});
        c.say("length=%d p=%.6g", n, p);
        SincWindow w(n, p);
        mon.check(w.getLength() == n, "sinc-length", "%d", w.getLength());
        int centre = n % 2 ? (n - 1) / 2 : n / 2;
        const double *d = w.getWindow();
        for (int i = 0; i < n; ++i) {
            LD x = (i - centre) * 2 * M_PIl / p;
            double want = i == centre ? 1.0 : (double)(sinl(x) / x);
            if (!mon.close(d[i], want, 1e-11, "sinc-closed-form", fmt("length %d p %g coefficient %d", n, p, i).c_str())) break;
        }
        dvec x = noise(r, n);
        Guarded<double> s(x), o(n, 9.0), e(x);
        w.cut(s, o); w.cut(e);
        for (int i = 0; i < n; ++i) if (!mon.check(std::fabs(o[i] - x[i] * d[i]) < 1e-15 && std::fabs(e[i] - x[i] * d[i]) < 1e-15, "cut-multiplies", "sinc %d", i)) break;
        mon.check(o.intact() && e.intact() && s.vec() == x, "extent", "sinc");
    });
    return mon.finish();
}
