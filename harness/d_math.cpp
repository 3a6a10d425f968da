// C23: MathUtilities against independent definitions.
#include "vf.h"
#include "maths/MathUtilities.h"
#include <climits>
using namespace vf;
typedef long double LD;
typedef MathUtilities MU;

static dvec data(Case &c, int lo, int hi) {
    int n = c.rng.pick({lo, lo + 1, lo + 2, lo + 3, c.rng.range(lo, hi), c.rng.range(lo, 20), hi});
    std::string k;
    dvec v = signal(c.rng, n, &k);
    if (c.rng.chance(0.2)) for (auto &x : v) x = std::floor(x * 4) / 2;           // many ties
    if (c.rng.chance(0.3)) { double o = c.rng.uni(-5, 5); for (auto &x : v) x += o; k += "+offset"; }
    if (c.rng.chance(0.2)) { double g = c.rng.chance(0.5) ? c.rng.logUni(1e-6, 1e6) : c.rng.logUni(1e-80, 1e80); for (auto &x : v) x *= g; k += "*gain"; }
    c.say("n=%d %s", n, k.c_str());
    return v;
}
static double ulps(const dvec &v, double f) { return f * (maxAbs(v) + 1e-300); }

int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("statistics", mon.n(2500, 25000), [](Case &c) {
        dvec v = data(c, 1, c.idx % 50 == 0 ? 9000 : 400);
        int n = v.size();
        dvec s = v; std::sort(s.begin(), s.end());
        double want = n % 2 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2;
        Guarded<double> g(v);
        mon.close(MU::median(g, n), want, ulps(v, 1e-14), "median", "median");
        LD sum = 0; for (double x : v) sum += x;
        LD abssum = 0; for (double x : v) abssum += fabsl(x);
        mon.close(MU::sum(g, n), (double)sum, 1e-12 * (double)abssum + 1e-300, "sum", "sum");
        mon.close(MU::mean(g, n), (double)(sum / n), 1e-12 * (double)abssum / n + 1e-300, "mean", "mean");
        int st = c.rng.range(0, n - 1), ct = c.rng.range(0, n - st);
        LD p = 0; for (int i = 0; i < ct; ++i) p += v[st + i];
        mon.close(MU::mean(v, st, ct), ct ? (double)(p / ct) : 0.0, 1e-12 * (double)abssum + 1e-300, "mean-range", fmt("mean(%d,%d)", st, ct).c_str());
        double mn = 99, mx = -99;
        MU::getFrameMinMax(g, n, &mn, &mx);
        mon.check(mn == s[0] && mx == s[n - 1], "min-max", "got %g..%g expected %g..%g", mn, mx, s[0], s[n - 1]);
        double m1 = -1, m2 = -1;
        int i1 = MU::getMax(g, n, &m1), i2 = MU::getMax(v, &m2);
        int first = std::max_element(v.begin(), v.end()) - v.begin();
        mon.check(i1 == first && i2 == first && m1 == v[first] && m2 == v[first], "max", "index %d/%d expected %d, value %g/%g expected %g", i1, i2, first, m1, m2, v[first]);
        mon.check(MU::getMax(v) == first && MU::getMax((double *)g, n) == first, "max", "without max pointer");
        for (int a = 1; a <= 9; a += c.rng.range(1, 4)) {
            LD t = 0, mxa = maxAbs(v);
            for (double x : v) t += powl(fabsl(x), a);
            LD w = powl(t / n, 1.0L / a);
            double b = -1;
            MU::getAlphaNorm(g, n, a, &b);
            double tol = 1e-11 * (double)mxa + 1e-300;
            if (t > 1e-290L && t < 1e290L) {
                mon.close(b, (double)w, tol, "alpha-norm", fmt("alpha %d", a).c_str());
                mon.close(MU::getAlphaNorm(v, a), (double)w, tol, "alpha-norm", fmt("vector, alpha %d", a).c_str());
            }
        }
        mon.check(g.vec() == v && g.intact(), "inputs-untouched", "statistics changed their input");
        mon.saw(fmt("%d %d", n % 2, n));
    });
    mon.group("empty", 1, [](Case &c) {
        dvec e;
        double mn = 5, mx = 5;
        MU::getFrameMinMax(e.data(), 0, &mn, &mx);
        mon.check(mn == 0 && mx == 0 && MU::median(e.data(), 0) == 0 && MU::mean(e.data(), 0) == 0 && MU::sum(e.data(), 0) == 0, "empty", "empty input");
        MU::normalise(e, MU::NormaliseUnitSum); MU::normalise(e, MU::NormaliseUnitMax); MU::adaptiveThreshold(e);
        mon.check(e.empty() && MU::normaliseLp(e, 2).empty(), "empty", "empty normalise");
    });
    mon.group("normalise", mon.n(2000, 20000), [](Case &c) {
        dvec v = data(c, 1, c.idx % 50 == 0 ? 6000 : 300);
        int n = v.size();
        for (int t = 0; t < 3; ++t) {
            MU::NormaliseType ty = t == 0 ? MU::NormaliseNone : t == 1 ? MU::NormaliseUnitSum : MU::NormaliseUnitMax;
            double den = 1;
            if (t == 1) { double s = 0; for (double x : v) s += x; den = s; LD as = 0; for (double x : v) as += fabsl(x); if (s != 0 && std::fabs(s) < 1e-9 * (double)as) continue; }
            if (t == 2) den = maxAbs(v);
            if (den == 0) den = 1;
            dvec w(n); for (int i = 0; i < n; ++i) w[i] = v[i] / den;
            dvec a = v; MU::normalise(a, ty);
            Guarded<double> g(v); MU::normalise(g, n, ty);
            double tol = 1e-9 * (maxAbs(w) + 1e-300);
            mon.closeVec(a, w, tol, "normalise", fmt("vector type %d", t).c_str());
            mon.closeVec(g.vec(), w, tol, "normalise", fmt("array type %d", t).c_str());
            mon.check(g.intact(), "extent", "normalise");
        }
        int p = c.rng.chance(0.1) ? c.rng.range(6, 24) : c.rng.range(0, 5);
        double thr = c.rng.pick({1e-6, 0.0, 0.5, 1e3});
        LD tot = 0; for (double x : v) tot += fabsl(powl(x, p));
        dvec keep = v;
        dvec out = MU::normaliseLp(v, p, thr);
        if (p > 0) {
            LD norm = powl(tot, 1.0L / p);
            if (tot > 1e-290L && tot < 1e290L) mon.close(MU::getLpNorm(v, p), (double)norm, 1e-10 * (double)norm + 1e-300, "lp-norm", fmt("p=%d", p).c_str());
            if (fabsl(norm - thr) > 1e-9L * (norm + thr) && norm > 1e-300L && tot > 1e-290L && tot < 1e290L) {
                dvec w(n);
                for (int i = 0; i < n; ++i) w[i] = norm < thr ? (double)powl(n, -1.0L / p) : (double)(v[i] / norm);
                mon.closeVec(out, w, 1e-9 * (maxAbs(w) + 1e-300), "normalise-lp", fmt("p=%d threshold=%g", p, thr).c_str());
                LD un = 0; for (double x : out) un += powl(fabsl(x), p);
                mon.close((double)un, 1.0, 1e-8, "normalise-lp-unit", fmt("p=%d", p).c_str());
            }
        } else mon.sameVec(out, v, "normalise-lp", "p=0 leaves the data unchanged");
        mon.check(v == keep, "inputs-untouched", "normaliseLp");
    });
    mon.group("adaptive-threshold", mon.n(1500, 15000), [](Case &c) {
        dvec v = data(c, 1, c.idx % 50 == 0 ? 6000 : 200);
        int n = v.size();
        dvec w(n);
        for (int i = 0; i < n; ++i) {
            int a = std::max(0, i - 8), b = std::min(n - 1, i + 7);
            LD s = 0; for (int j = a; j <= b; ++j) s += v[j];
            w[i] = std::max(0.0, (double)(v[i] - s / (b - a + 1)));
        }
        dvec g = v; MU::adaptiveThreshold(g);
        mon.closeVec(g, w, 1e-12 * maxAbs(v) + 1e-300, "adaptive-threshold", "output");
    });
    mon.group("shift", mon.n(600, 6000), [](Case &c) {
        dvec v = data(c, 1, c.idx % 20 == 0 ? 3000 : 40);
        int n = v.size(), sh = c.rng.pick({0, 1, n - 1, n, n + 1, 2 * n + 3, c.rng.range(0, 200), c.rng.range(0, 7000)});
        c.say("shift=%d", sh);
        dvec w(n); for (int i = 0; i < n; ++i) w[(i + sh) % n] = v[i];
        Guarded<double> g(v); MU::circShift(g, n, sh);
        mon.sameVec(g.vec(), w, "circular-shift", "shift");
        mon.check(g.intact(), "extent", "shift");
    });
    mon.group("scalars", mon.n(4000, 60000), [](Case &c) {
        Rng &r = c.rng;
        double x = r.pick({r.uni(-10, 10), r.uni(-1e4, 1e4), r.uni(-1e7, 1e7), (double)r.range(-50, 50), r.range(-100, 100) * 0.5, r.range(-40, 40) * M_PI, r.range(-40, 40) * M_PI / 2});
        double y = r.pick({r.uni(0.1, 20), -r.uni(0.1, 20), (double)r.range(1, 12), -(double)r.range(1, 12), 2 * M_PI, -2 * M_PI});
        c.say("x=%.17g y=%.17g", x, y);
        double m = MU::mod(x, y);
        LD q = floorl((LD)x / y), want = (LD)x - y * q;
        LD dd = fabsl(m - want); dd = std::min(dd, fabsl(dd - fabsl(y)));
        mon.check(dd <= 1e-9L * (1 + fabsl(x)), "mod", "mod(%.17g,%.17g)=%.17g expected %.17Lg", x, y, m, want);
        double lo = std::min(0.0, y), hi = std::max(0.0, y), e = 1e-9 * (1 + std::fabs(x));
        mon.check(m >= lo - e && m <= hi + e, "mod-sign", "mod(%.17g,%.17g)=%.17g outside [0,y]", x, y, m);
        double p = MU::princarg(x);
        mon.check(p >= -M_PI - e && p <= M_PI + e, "princarg-range", "princarg(%.17g)=%.17g", x, p);
        double turns = (x - p) / (2 * M_PI);
        mon.check(std::fabs(turns - std::floor(turns + 0.5)) < 1e-9 * (1 + std::fabs(turns)), "princarg-congruent", "princarg(%.17g)=%.17g", x, p);
        if (r.chance(0.2)) x = r.pick({r.uni(-1, 1) * pow(2.0, r.range(0, 60)), std::floor(r.uni(0, 1e9)) + 0.5, -std::floor(r.uni(0, 1e12)) - 0.5, 4503599627370495.0, -0.5, 0.5});
        double rd = MU::round(x), ref = x < 0 ? -std::floor(-x + 0.5) : std::floor(x + 0.5);
        mon.check(rd == ref, "round", "round(%.17g)=%g expected %g", x, rd, ref);
    });
    mon.group("integers", mon.n(4000, 60000), [](Case &c) {
        Rng &r = c.rng;
        int x = r.pick({c.idx - 5, r.range(-10, 70000), (1 << r.range(0, 30)) + r.range(-1, 1), 3 << r.range(0, 28), r.range(1, 1 << 30)});
        if (x > (1 << 30)) x = 1 << 30;
        c.say("x=%d", x);
        bool p2 = false; long up = 1, dn = 1;
        if (x >= 1) { while (up < x) up *= 2; p2 = up == x; dn = p2 ? up : up / 2; }
        long nr = (x - dn < up - x) ? dn : up;
        mon.check(MU::isPowerOfTwo(x) == p2, "is-power-of-two", "%d", x);
        mon.check(MU::nextPowerOfTwo(x) == up, "next-power-of-two", "%d -> %d expected %ld", x, MU::nextPowerOfTwo(x), up);
        mon.check(MU::previousPowerOfTwo(x) == dn, "previous-power-of-two", "%d -> %d expected %ld", x, MU::previousPowerOfTwo(x), dn);
        mon.check(MU::nearestPowerOfTwo(x) == nr, "nearest-power-of-two", "%d -> %d expected %ld", x, MU::nearestPowerOfTwo(x), nr);
        int a = r.range(1, 300) * r.range(1, 300), b = r.range(1, 300) * r.range(1, 300);
        if (r.chance(0.2)) b = a * r.range(1, 5);
        long u = a, v = b; while (v) { long t = u % v; u = v; v = t; }
        mon.check(MU::gcd(a, b) == u && MU::gcd(b, a) == u, "gcd", "gcd(%d,%d)=%d expected %ld", a, b, MU::gcd(a, b), u);
        int f = r.range(-3, 170);
        LD ff = f < 0 ? 0 : 1; for (int i = 2; i <= f; ++i) ff *= i;
        mon.close(MU::factorial(f), (double)ff, 1e-13 * (double)ff, "factorial", fmt("%d!", f).c_str());
        int k1 = r.pick({r.range(-100000, 100000), (int)r.u64(), INT_MIN, INT_MAX, 0, -1}), k2 = r.chance(0.2) ? k1 : r.pick({r.range(-100000, 100000), (int)r.u64(), INT_MIN, INT_MAX, 0, 1}), cmp = MU::compareInt(&k1, &k2);
        mon.check((cmp < 0) == (k1 < k2) && (cmp == 0) == (k1 == k2), "compare-int", "%d %d", k1, k2);
    });
    return mon.finish();
}
