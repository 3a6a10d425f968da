// C10: Filter and FiltFilt against the difference equation.
#include "vf.h"
#include "dsp/signalconditioning/Filter.h"
#include "dsp/signalconditioning/FiltFilt.h"
#include <stdexcept>
using namespace vf;
typedef long double LD;

struct Ref {
    dvec b, a; std::vector<LD> xs, ys;
    Ref(const Filter::Parameters &p) : b(p.b), a(p.a), xs(p.b.size() + 1, 0), ys(p.b.size() + 1, 0) {}
    void reset() { std::fill(xs.begin(), xs.end(), 0); std::fill(ys.begin(), ys.end(), 0); }
    LD step(LD x) {
        for (size_t i = xs.size() - 1; i > 0; --i) xs[i] = xs[i - 1];
        xs[0] = x;
        LD y = 0;
        for (size_t i = 0; i < b.size(); ++i) y += b[i] * xs[i];
        if (!a.empty()) {
            for (size_t i = 1; i < a.size(); ++i) y -= a[i] * ys[i - 1];
            for (size_t i = ys.size() - 1; i > 0; --i) ys[i] = ys[i - 1];
            ys[0] = y;
        }
        return y;
    }
};
// stable denominator: product of first/second order sections with poles inside the circle
static dvec stablePoly(Rng &r, int order, double maxRadius) {
    dvec p(1, 1.0);
    while ((int)p.size() - 1 < order) {
        dvec s;
        if (order - ((int)p.size() - 1) >= 2 && r.chance(0.7)) { double rad = r.uni(0, maxRadius), th = r.uni(0, M_PI); s = {1, -2 * rad * std::cos(th), rad * rad}; }
        else s = {1, r.uni(-maxRadius, maxRadius)};
        dvec q(p.size() + s.size() - 1, 0.0);
        for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < s.size(); ++j) q[i + j] += p[i] * s[j];
        p = q;
    }
    return p;
}
static Filter::Parameters params(Case &c, bool &fir) {
    Rng &r = c.rng;
    Filter::Parameters p;
    fir = r.chance(0.4);
    int order = r.pick({0, 1, 2, 3, 4, 6, 8, r.range(0, 12), fir ? r.range(13, 60) : 5, fir ? r.range(18, 24) : 2});
    for (int i = 0; i <= order; ++i) p.b.push_back(r.chance(0.1) ? 0.0 : r.uni(-1, 1));
    if (!fir) p.a = stablePoly(r, order, order > 6 ? 0.8 : 0.95);
    c.say("%s order=%d", fir ? "fir" : "iir", order);
    return p;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("filter", mon.n(900, 9000), [](Case &c) {
        Rng &r = c.rng;
        bool fir; Filter::Parameters p = params(c, fir);
        int n = r.chance(0.03) ? r.range(8000, 40000) : r.range(1, 900);
        std::string kind;
        dvec x = signal(r, n, &kind, true); level(r, x, 1e-200, 1e200);
        Filter f(p); Ref ref(p);
        mon.check(f.getOrder() == (int)p.b.size() - 1, "order", "%d", f.getOrder());
        int style = r.range(0, 3);
        c.say("n=%d %s chunks=%d", n, kind.c_str(), style);
        int pos = 0;
        double scale = 0;
        while (pos < n) {
            int k = style == 0 ? n : style == 1 ? 1 : style == 2 ? r.range(0, 45) : 20 + r.range(-1, 2);
            k = std::min(k, n - pos);
            if (r.chance(style == 1 ? 0.01 : 0.1)) { f.reset(); ref.reset(); mon.count("resets"); scale = 0; }
            dvec part(x.begin() + pos, x.begin() + pos + k);
            Guarded<double> in(part), out(k, 123.0);
            f.process(in, out, k);
            bool ok = true;
            for (int i = 0; i < k && ok; ++i) {
                double w = (double)ref.step(part[i]);
                scale = std::max(scale, std::max(std::fabs(w), std::fabs(part[i])));
                ok = mon.close(out[i], w, 1e-8 * scale + 1e-300, "difference-equation", fmt("sample %d", pos + i).c_str());
            }
            mon.check(in.vec() == part && out.intact(), "extent", "at %d", pos);
            if (!ok) return;
            pos += k;
        }
        mon.saw(fmt("%d %zu %d", fir, p.b.size(), style));
    });
    // one object over a stream of many calls and samples
    mon.group("long-lived", mon.n(24, 160), [](Case &c) {
        Rng &r = c.rng; bool fir; Filter::Parameters p = params(c, fir);
        Filter f(p); Ref ref(p); int style = r.range(0, 2); int64_t pos = 0; double scale = 1;
        for (int k = 0; k < (style == 0 ? 70000 : 3000); ++k) {
            int n = style == 0 ? r.range(0, 2) : style == 1 ? r.range(1, 60) : r.range(1, 7);
            dvec x = noise(r, n), o(n); bool inplace = r.chance(0.3);
            double *out = inplace ? 0 : o.data();
            dvec y(x); if (inplace) out = y.data();
            f.process(inplace ? y.data() : x.data(), out, n);
            for (int i = 0; i < n; ++i) { double w = (double)ref.step(x[i]); scale = std::max(scale, std::fabs(w)); if (!(std::fabs(out[i] - w) <= 1e-8 * scale)) { mon.check(false, "difference-equation", "call %d sample %lld: %.17g expected %.17g", k, (long long)(pos + i), out[i], w); return; } }
            pos += n;
        }
        mon.passed("difference-equation", pos);
    });
    mon.group("bad-parameters", mon.n(40, 200), [](Case &c) {
        Rng &r = c.rng;
        Filter::Parameters p;
        int nb = r.range(0, 6), na = r.range(0, 6);
        if (na == 0) nb = 0; else if (na == nb) ++na;
        for (int i = 0; i < na; ++i) p.a.push_back(1);
        for (int i = 0; i < nb; ++i) p.b.push_back(1);
        c.say("a=%d b=%d", na, nb);
        bool thrown = false;
        try { Filter f(p); } catch (const std::logic_error &) { thrown = true; }
        mon.check(thrown, "inconsistent-coefficients-refused", "a.size=%d b.size=%d accepted", na, nb);
        thrown = false;
        try { FiltFilt f(p); } catch (const std::logic_error &) { thrown = true; }
        mon.check(thrown, "inconsistent-coefficients-refused", "FiltFilt a.size=%d b.size=%d accepted", na, nb);
    });
    mon.group("filtfilt", mon.n(500, 5000), [](Case &c) {
        Rng &r = c.rng;
        bool fir; Filter::Parameters p = params(c, fir);
        int ord = p.b.size() - 1, ext = 3 * ord;
        FiltFilt f(p);
        int calls = r.range(1, 5);
        for (int k = 0; k < calls; ++k) {
            int n = r.pick({0, 1, 2, 3, ext, ext + 1, std::max(1, ext - 1), r.range(1, 40), r.range(1, 500), r.chance(0.1) ? r.range(4000, 12000) : 7, r.chance(0.02) ? r.range(20000, 90000) : 9});
            std::string kind;
            dvec x = signal(r, n, &kind); level(r, x, 1e-200, 1e200);
            c.say("n=%d %s", n, kind.c_str());
            dvec e(n + 2 * ext, 0.0);
            // point reflection about each end; missing reflections are zero
            for (int i = 0; i < n; ++i) e[ext + i] = x[i];
            for (int i = 1; i <= ext && i < n; ++i) { e[ext - i] = 2 * x[0] - x[i]; e[ext + n - 1 + i] = 2 * x[n - 1] - x[n - 1 - i]; }
            Ref a(p), b(p);
            std::vector<LD> y(e.size());
            LD sc = 0;
            for (size_t i = 0; i < e.size(); ++i) { y[i] = a.step(e[i]); sc = std::max(sc, fabsl(y[i])); }
            for (size_t i = e.size(); i-- > 0;) { y[i] = b.step(y[i]); sc = std::max(sc, fabsl(y[i])); }
            Guarded<double> in(x), out(n, 55.0);
            f.process(in, out, n);
            mon.check(in.vec() == x && out.intact(), "extent", "filtfilt call %d", k);
            double tol = 1e-8 * ((double)sc + maxAbs(x)) + 1e-300;
            bool ok = true;
            for (int i = 0; i < n && ok; ++i)
                ok = mon.close(out[i], (double)y[ext + i], tol, k ? "filtfilt-model-later-call" : "filtfilt-model", fmt("call %d sample %d of %d", k, i, n).c_str());
            if (!ok) return;
            mon.saw(fmt("ff %d %d %d", ord, n, k));
        }
    });
    // zero phase: response to a centred impulse is symmetric about it
    mon.group("filtfilt-zero-phase", mon.n(120, 1200), [](Case &c) {
        Rng &r = c.rng;
        bool fir; Filter::Parameters p = params(c, fir);
        int n = 801, mid = 400;
        if (!fir) p.a = stablePoly(r, (int)p.b.size() - 1, 0.85);
        dvec x(n, 0.0); x[mid] = 1;
        dvec y(n);
        FiltFilt f(p);
        f.process(x.data(), y.data(), n);
        double amp = maxAbs(y);
        for (int i = 1; i <= 200; ++i)
            if (!mon.close(y[mid + i], y[mid - i], 1e-7 * amp + 1e-300, "zero-phase", fmt("offset %d", i).c_str())) break;
    });
    return mon.finish();
}
