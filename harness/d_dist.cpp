// C25: distances, autocorrelation, beat spectrum.
#include "vf.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include "maths/Correlation.h"
#include "dsp/rhythm/BeatSpectrum.h"
using namespace vf;
typedef long double LD;
static LD cosRef(const dvec &a, const dvec &b) {
    LD s = 0, x = 0, y = 0;
    for (size_t i = 0; i < a.size(); ++i) { s += (LD)a[i] * b[i]; x += (LD)a[i] * a[i]; y += (LD)b[i] * b[i]; }
    LD d = sqrtl(x * y);
    return d == 0 ? 1 : 1 - s / d;
}
static dvec vecOf(Rng &r, int n, std::string *k, double range) { dvec v = signal(r, n, k); level(r, v, 1 / range, range, 0.5); return v; }
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    mon.group("cosine", mon.n(2000, 30000), [](Case &c) {
        Rng &r = c.rng;
        CosineDistance cd;                      // one object, several calls
        for (int k = 0, nc = r.range(1, 4); k < nc; ++k) {
            int n = r.pick({1, 2, 12, r.range(1, 100), r.chance(0.05) ? r.range(1000, 5000) : 6});
            std::string k1, k2;
            dvec a = vecOf(r, n, &k1, 1e70), b = r.chance(0.2) ? a : vecOf(r, n, &k2, 1e70);
            if (r.chance(0.1)) for (auto &x : b) x = -x;
            if (r.chance(0.1)) { double g = r.logUni(1e-3, 1e3); b = a; for (auto &x : b) x *= g; }
            c.say("n=%d %s/%s", n, k1.c_str(), k2.c_str());
            double na = 0, nb = 0; for (double x : a) na += x * x; for (double x : b) nb += x * x;
            if (na * nb != 0 && na * nb < 1e-24) continue;    // the guard constant dominates
            dvec ka = a, kb = b;
            double d = cd.distance(a, b);
            mon.close(d, (double)cosRef(a, b), 1e-7, "cosine-distance", "distance");
            mon.check(d >= -1e-9 && d <= 2 + 1e-9, "cosine-range", "%g", d);
            mon.close(cd.distance(b, a), d, 1e-12, "cosine-symmetric", "swapped");
            mon.check(a == ka && b == kb, "inputs-untouched", "cosine");
        }
        mon.check(cd.distance(dvec(3, 1.0), dvec(4, 1.0)) == 1.0, "cosine-size-mismatch", "different sizes give 1");
    });
    mon.group("kl", mon.n(2000, 30000), [](Case &c) {
        Rng &r = c.rng;
        int n = r.pick({1, 2, 13, 20, r.range(1, 64), r.chance(0.05) ? r.range(500, 3000) : 5, r.chance(0.02) ? r.range(4000, 30000) : 6});
        dvec m1(n), m2(n), v1(n), v2(n), p(n), q(n);
        double sp = 0, sq = 0;
        for (int i = 0; i < n; ++i) {
            m1[i] = r.uni(-5, 5); m2[i] = r.chance(0.2) ? m1[i] : r.uni(-5, 5); v1[i] = r.logUni(1e-4, 1e3); v2[i] = r.chance(0.2) ? v1[i] : r.logUni(1e-4, 1e3);
            p[i] = r.chance(0.1) ? 0 : r.logUni(1e-4, 1); q[i] = r.chance(0.1) && p[i] == 0 ? 0 : r.logUni(1e-4, 1); sp += p[i]; sq += q[i];
        }
        if (sp == 0) { p[0] = sp = 1; } if (sq == 0) { q[0] = sq = 1; }
        for (auto &x : p) x /= sp; for (auto &x : q) x /= sq;
        if (r.chance(0.1)) { m2 = m1; v2 = v1; q = p; }
        double scale = r.chance(0.3) ? std::ldexp(1.0, r.range(-8, 120)) : 1;
        for (int i = 0; i < n; ++i) { m1[i] *= scale; m2[i] *= scale; v1[i] *= scale * scale; v2[i] *= scale * scale; }
        c.say("n=%d scale=%g", n, scale);
        KLDivergence kl;
        LD g = 0; for (int i = 0; i < n; ++i) { LD d = (LD)m1[i] - m2[i]; g += 0.5L * ((LD)v1[i] / v2[i] + (LD)v2[i] / v1[i] - 2 + d * d * (1 / (LD)v1[i] + 1 / (LD)v2[i])); }
        double got = kl.distanceGaussian(m1, v1, m2, v2);
        mon.close(got, (double)g, 1e-9 * (1 + (double)g) * n, "kl-gaussian", "symmetrised Gaussian divergence");
        mon.check(got >= -1e-9 * n, "kl-nonnegative", "gaussian %g", got);
        mon.close(kl.distanceGaussian(m2, v2, m1, v1), got, 1e-9 * (1 + (double)g) * n, "kl-symmetric", "gaussian");
        auto ref = [&](const dvec &a, const dvec &b) { LD s = 0; for (int i = 0; i < n; ++i) if (a[i] > 0) s += a[i] * log10l(((LD)a[i] + 1e-20L) / ((LD)b[i] + 1e-20L)); return s; };
        double d1 = kl.distanceDistribution(p, q, false), d2 = kl.distanceDistribution(q, p, false), ds = kl.distanceDistribution(p, q, true);
        mon.close(d1, (double)ref(p, q), 1e-9, "kl-distribution", "divergence");
        mon.close(ds, d1 + d2, 1e-9, "kl-symmetrised", "symmetrised");
        mon.check(d1 >= -1e-9, "kl-nonnegative", "distribution %g", d1);
        // where the second distribution is zero the divergence is large, not infinite
        int z = r.range(0, n - 1), z2 = r.range(0, n - 1);
        dvec q0 = q, w1 = v1, w2 = v2; q0[z] = 0; w1[z] = 0; w2[r.chance(0.5) ? z : z2] = 0;
        mon.close(kl.distanceDistribution(p, q0, false), (double)ref(p, q0), 1e-9, "kl-distribution", "divergence from a distribution with zeros");
        double gz = kl.distanceGaussian(m1, w1, m2, w2);
        mon.check(std::isfinite(gz) && gz >= -1e-9 * n, "kl-finite", "Gaussians without variance: %g", gz);
    });
    mon.group("autocorrelation", mon.n(800, 10000), [](Case &c) {
        Rng &r = c.rng;
        int n = r.pick({1, 2, 3, r.range(1, 60), r.range(1, 300), r.chance(0.05) ? r.range(1000, 2500) : 7});
        std::string k;
        dvec v = vecOf(r, n, &k, 1e100);
        if (r.chance(0.3)) for (auto &x : v) x = std::fabs(x);
        c.say("n=%d %s", n, k.c_str());
        Guarded<double> in(v), out(n, -77.0);
        Correlation().doAutoUnBiased(in, out, n);
        double mx = maxAbs(v);
        for (int i = 0; i < n; ++i) {
            LD s = 0; for (int j = i; j < n; ++j) s += (LD)v[j] * v[j - i];
            s /= n - i;
            double tol = 1e-12 * mx * mx * n + 1e-300;
            bool ok;
            if (s > tol) ok = mon.close(out[i], (double)s, tol, "autocorrelation", fmt("lag %d of %d", i, n).c_str());
            else ok = mon.check(out[i] > 0 && out[i] <= (s < -tol ? 1e-15 : std::max(1e-15, 2 * tol)), "autocorrelation-floor", "lag %d: raw %Lg gave %g", i, s, out[i]);
            if (!ok) return;
        }
        mon.check(in.vec() == v && in.intact() && out.intact(), "inputs-untouched", "autocorrelation");
    });
    mon.group("beat-spectrum", mon.n(400, 5000), [](Case &c) {
        Rng &r = c.rng;
        int cols = r.pick({0, 1, 2, 3, r.range(0, 60), r.chance(0.1) ? r.range(100, 400) : 8}), d = r.pick({r.range(1, 20), r.range(1, 20), r.chance(0.05) ? r.range(20, 700) : 12}), per = r.range(1, 12);
        c.say("columns=%d dim=%d period=%d", cols, d, per);
        std::vector<dvec> m(cols), pool(per);
        int style = r.range(0, 3);
        for (auto &p : pool) p = style == 3 ? dvec(d, 0.0) : noise(r, d);
        for (int i = 0; i < cols; ++i) m[i] = style == 0 ? noise(r, d) : pool[i % per];
        std::vector<dvec> keep = m;
        dvec out = BeatSpectrum().process(m);
        mon.check(m == keep, "inputs-untouched", "beat spectrum");
        int h = cols / 2;
        if (!mon.check((int)out.size() == h, "half-length", "%zu of %d columns", out.size(), cols)) return;
        std::vector<LD> w(h, 0); LD mx = 0;
        for (int i = 0; i < h; ++i) for (int j = 0; j < h; ++j) w[j] += cosRef(m[i], m[i + j + 1]);
        for (LD x : w) mx = std::max(mx, x);
        if (mx < 1e-9L * h) return;    // everything identical: only rounding noise to normalise
        for (int i = 0; i < h; ++i) if (!mon.close(out[i], (double)(w[i] / mx), 1e-7, "beat-spectrum", fmt("lag %d", i + 1).c_str())) return;
    });
    return mon.finish();
}
