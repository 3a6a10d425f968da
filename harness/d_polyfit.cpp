// C30: TPolyFit::PolyFit2 is a least-squares polynomial fit.
#include "vf.h"
#include "maths/Polyfit.h"
using namespace vf;
typedef long double LD;
// QR (modified Gram-Schmidt, twice) least squares in long double on the Vandermonde matrix.
static std::vector<LD> lsq(const dvec &x, const dvec &y, int m, LD &cond) {
    int n = x.size();
    std::vector<std::vector<LD>> q(m, std::vector<LD>(n)), R(m, std::vector<LD>(m, 0));
    for (int i = 0; i < n; ++i) { LD p = 1; for (int j = 0; j < m; ++j) { q[j][i] = p; p *= x[i]; } }
    LD worst = 1;
    for (int j = 0; j < m; ++j) {
        LD n0 = 0; for (int i = 0; i < n; ++i) n0 += q[j][i] * q[j][i];
        for (int pass = 0; pass < 2; ++pass)
            for (int k = 0; k < j; ++k) {
                LD d = 0; for (int i = 0; i < n; ++i) d += q[k][i] * q[j][i];
                R[k][j] += d; for (int i = 0; i < n; ++i) q[j][i] -= d * q[k][i];
            }
        LD n1 = 0; for (int i = 0; i < n; ++i) n1 += q[j][i] * q[j][i];
        R[j][j] = sqrtl(n1);
        worst = std::max(worst, n1 > 0 ? sqrtl(n0 / n1) : 1e30L);
        if (n1 > 0) for (int i = 0; i < n; ++i) q[j][i] /= R[j][j];
    }
    cond = worst;
    std::vector<LD> c(m, 0);
    for (int j = m - 1; j >= 0; --j) {
        LD b = 0; for (int i = 0; i < n; ++i) b += q[j][i] * y[i];
        for (int k = j + 1; k < m; ++k) b -= R[j][k] * c[k];
        c[j] = b / R[j][j];
    }
    return c;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("header", 1, [](Case &c) {       // usable from more than one file of a program
        char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n <= 0) { mon.count("no_symbols"); return; } self[n] = 0;
        FILE *f = popen(fmt("nm -C '%s' 2>/dev/null", self).c_str(), "r"); if (!f) return;
        char line[4096]; int seen = 0;
        while (fgets(line, sizeof line, f)) if (strstr(line, " TPolyFit::")) { ++seen; mon.check(!strstr(line, " T TPolyFit::"), "header-in-several-files", "%s", line); }
        pclose(f); c.say("symbols=%d", seen);
    });
    quietCerr();
    mon.group("fit", mon.n(3000, 40000), [](Case &c) {
        Rng &r = c.rng;
        int m = r.pick({3, 1, 2, 3, 4, 5, 6, 7}), n = r.pick({5, m, m + 1, m + 2, r.range(2, 40), r.range(2, 40), r.range(2, 400), r.range(2, 3000)});
        if (n < std::max(2, m)) n = std::max(2, m);
        int xs = r.range(0, 4);
        double g = r.logUni(1e-3, 1e3);
        c.say("terms=%d points=%d xstyle=%d g=%.3g", m, n, xs, g);
        dvec x(n), y(n), co(m, 7.0);
        for (int i = 0; i < n; ++i) {
            x[i] = xs == 0 ? i - n / 2 : xs == 1 ? r.uni(-1, 1) : xs == 2 ? i * 0.25 + r.uni(0, 0.1) : xs == 3 ? -2.0 + 4.0 * i / (n - 1) : 1.0 + r.uni(0, 3);
        }
        if (r.chance(0.3)) { int k = r.range(1, std::max(1, n / 2)); while (k--) { int i = r.range(0, n - 1), j = r.chance(0.5) ? std::max(0, i - 1) : r.range(0, n - 1); x[i] = x[j]; } mon.count("repeated_abscissae"); }   // several measurements at one place
        if (r.chance(0.2)) { int s = r.range(0, 1); for (int i = n - 1; i > 0; --i) { int j = r.range(0, i); if (s) std::swap(x[i], x[j]); } if (!s) std::reverse(x.begin(), x.end()); }                        // in any order
        int ystyle = r.range(0, 3);
        dvec truth(m); for (auto &t : truth) t = r.uni(-2, 2);
        for (int i = 0; i < n; ++i) {
            double p = 0; for (int j = m - 1; j >= 0; --j) p = p * x[i] + truth[j];
            y[i] = g * (ystyle == 0 ? r.uni(-1, 1) : ystyle == 1 ? p : ystyle == 2 ? p + 0.05 * r.gauss() : 1.0 / (1 + x[i] * x[i]));
        }
        double unit = r.chance(0.7) ? 1 : r.pick({r.logUni(1e-9, 1e6), r.logUni(1e-4, 1e4), 1.0 / 44100}); for (auto &v : x) v *= unit; c.say("unit=%g", unit); if (unit != 1) mon.count("other_units");      // the same points in other units
        LD cond; std::vector<LD> w = lsq(x, y, m, cond);
        LD wmax = 0, scale = 0;
        for (int j = 0; j < m; ++j) wmax = std::max(wmax, fabsl(w[j]) * powl(unit, j));
        for (double v : y) scale = std::max(scale, (LD)fabsl(v));
        if (cond > 300) { c.nontrivial = false; return; }   // near-singular designs are not judged
        dvec kx = x, ky = y;
        double corr = TPolyFit::PolyFit2(x, y, co);
        mon.check(x == kx && y == ky, "inputs-untouched", "fit");
        double tol = 1e-9 * (double)((wmax + scale) * cond * cond);
        for (int j = 0; j < m; ++j) if (!mon.close(co[j], (double)w[j], tol * std::pow(unit, -j), "least-squares", fmt("coefficient %d", j).c_str())) return;
        // normal equations: residual orthogonal to every power
        LD sy = 0, sy2 = 0, rs = 0;
        std::vector<LD> orth(m, 0), mag(m, 0);
        for (int i = 0; i < n; ++i) {
            LD p = 0; for (int j = m - 1; j >= 0; --j) p = p * x[i] + co[j];
            LD e = y[i] - p; rs += e * e; sy += y[i]; sy2 += (LD)y[i] * y[i];
            LD q = 1; for (int j = 0; j < m; ++j) { orth[j] += e * q; mag[j] += fabsl(q) * (scale + fabsl(p)); q *= x[i]; }
        }
        for (int j = 0; j < m; ++j) mon.check(fabsl(orth[j]) <= 1e-8L * cond * cond * mag[j], "residual-orthogonal", "power %d: %Lg", j, orth[j]);
        LD var = sy2 - sy * sy / n;
        if (var > 1e-9L * sy2) {
            LD t = rs / var, cw = t >= 1 ? 0 : sqrtl(1 - t);
            if (t < 0.99) mon.close(corr, (double)cw, 1e-6, "correlation", "coefficient");
            mon.check(corr >= 0 && corr <= 1 + 1e-9, "correlation-range", "%g", corr);
        }
        mon.saw(fmt("%d %d %d %d", m, n, xs, ystyle));
    });
    mon.group("bad-arguments", mon.n(60, 600), [](Case &c) {
        Rng &r = c.rng;
        int k = r.range(0, 3);
        c.say("kind=%d", k);
        dvec co(k == 0 ? 0 : 3, 1.0), x(k == 1 ? r.range(0, 1) : 6), y(k == 2 ? r.range(0, 5) : (int)x.size());
        for (size_t i = 0; i < x.size(); ++i) x[i] = k == 3 ? 1.0 : i;      // 3: all points at one x: singular
        for (auto &v : y) v = r.uni(-1, 1);
        double rv = TPolyFit::PolyFit2(x, y, co);
        if (k < 3) mon.check(rv == 0, "bad-arguments-reported", "kind %d returned %g", k, rv);
        else mon.check(rv == -1, "singular-reported", "all points at one x: returned %g", rv);
    });
    return mon.finish();
}
