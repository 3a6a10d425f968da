// C27: wavelet decomposition filter tables satisfy the defining equations.
#include "vf.h"
#include "dsp/wavelet/Wavelet.h"
using namespace vf;
typedef long double LD;
struct Info { Wavelet::Type t; const char *name; int len; int moments; bool orth; double tol; };
#define DB(n) { Wavelet::Daubechies_##n, "Daubechies " #n, 2 * n, n, true, n == 40 ? 4e-5 : 1e-10 }
#define SY(n) { Wavelet::Symlet_##n, "Symlet " #n, 2 * n, n, true, n == 30 ? 4e-8 : 1e-10 }
#define CO(n) { Wavelet::Coiflet_##n, "Coiflet " #n, 6 * n, 2 * n, true, n == 5 ? 1e-8 : 1e-10 }
#define BI(a, b, len, m) { Wavelet::Biorthogonal_##a##_##b, "Biorthogonal " #a "." #b, len, m, false, 1e-11 }
static const Info infos[] = {
    { Wavelet::Haar, "Haar", 2, 1, true, 1e-11 }, DB(2), DB(3), DB(4), DB(5), DB(6), DB(7), DB(8), DB(9), DB(10), DB(20), DB(40),
    SY(2), SY(3), SY(4), SY(5), SY(6), SY(7), SY(8), SY(9), SY(10), SY(20), SY(30), CO(1), CO(2), CO(3), CO(4), CO(5),
    BI(1, 3, 6, 1), BI(1, 5, 10, 1), BI(2, 2, 6, 2), BI(2, 4, 10, 2), BI(2, 6, 14, 2), BI(2, 8, 18, 2), BI(3, 1, 4, 3), BI(3, 3, 8, 3),
    BI(3, 5, 12, 3), BI(3, 7, 16, 3), BI(3, 9, 20, 3), BI(4, 4, 10, 4), BI(5, 5, 12, 5), BI(6, 8, 18, 6), { Wavelet::Meyer, "Meyer", 102, 1, true, 1e-5 } };
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    const int N = sizeof infos / sizeof *infos;
    mon.group("tables", N, [](Case &c) {
        const Info &f = infos[c.idx];
        c.say("%s", f.name);
        mon.check(Wavelet::getWaveletName(f.t) == f.name, "name", "%s called %s", f.name, Wavelet::getWaveletName(f.t).c_str());
        dvec l, h, l2(5, 1.0), h2(9, 2.0);
        Wavelet::createDecompositionFilters(f.t, l, h);
        Wavelet::createDecompositionFilters(f.t, l2, h2);
        mon.check(l == l2 && h == h2, "previous-contents-replaced", "%s", f.name);
        int n = l.size();
        if (!mon.check(n == f.len && (int)h.size() == n, "filter-length", "%s: %d/%zu expected %d", f.name, n, h.size(), f.len)) return;
        LD s = 0, hs = 0, ha = 0, s2 = 0;
        for (double x : l) { s += x; s2 += (LD)x * x; }
        for (double x : h) { hs += x; ha += fabsl(x); }
        mon.close((double)s, std::sqrt(2.0), 1e-12, "low-pass-gain", f.name);
        mon.close((double)hs, 0, f.tol, "high-pass-no-dc", f.name);
        for (int p = 0; p < std::min(f.moments, 10); ++p) {
            LD m = 0, a = 0;
            for (int i = 0; i < n; ++i) { LD q = powl((i - (n - 1) / 2.0L) / n, p); m += h[i] * q; a += fabsl(h[i] * q); }
            mon.check(fabsl(m) <= 1e-5L * a, "vanishing-moments", "%s: moment %d is %Lg of %Lg", f.name, p, m, a);
        }
        if (f.orth) {
            mon.close((double)s2, 1.0, f.tol, "orthonormal", f.name);
            for (int k = 1; 2 * k < n; ++k) { LD d = 0; for (int i = 0; i + 2 * k < n; ++i) d += (LD)l[i] * l[i + 2 * k]; mon.close((double)d, 0, f.tol, "orthonormal", f.name); }
            // the high-pass mirrors the low-pass, odd terms positive, in every orthogonal family
            double a = 0, centre = 0;
            for (int i = 0; i < n; ++i) { double q = ((i & 1) ? 1 : -1) * l[n - 1 - i]; a = std::max(a, std::fabs(h[i] - q)); centre += i * l[i] * l[i]; }
            mon.check(a <= 1e-12, "quadrature-mirror", "%s: %g", f.name, a);
            // which of the factorisations of the same half-band filter the family name stands for
            if (!strncmp(f.name, "Daub", 4)) mon.check(centre > 0.7 * (n - 1), "extremal-phase", "%s: centre %g of %d", f.name, centre, n);
            if (!strncmp(f.name, "Syml", 4) && n >= 8) mon.check(std::fabs(centre / (n - 1) - 0.5) < 0.12, "least-asymmetric", "%s: centre %g of %d", f.name, centre, n);
            if (!strncmp(f.name, "Coif", 4)) mon.check(std::fabs(centre - (2 * n / 3 - 1)) < 0.05, "coiflet-centre", "%s: centre %g of %d", f.name, centre, n);
            if (!strcmp(f.name, "Meyer")) { double as = 0; for (int i = 1; i < n; ++i) as = std::max(as, std::fabs(l[i] - l[n - i])); mon.check(as < 1e-9, "meyer-symmetric", "%g", as); }
        } else {
            int nr = f.name[13] - '0', nd = f.name[15] - '0', odd = nr == 1 || nr == 3, lo = odd ? 0 : 1;       // Nr.Nd: linear phase, and Nd zeros of the low-pass at half the rate
            for (int i = lo; i < n; ++i) { mon.close(l[i], l[n - 1 - i + lo], f.tol, "linear-phase", f.name); if (i < n - lo) mon.close(h[i], (odd ? -1 : 1) * h[n - 1 - lo - i], f.tol, "linear-phase", f.name); }
            mon.check(f.moments == nr, "moments", "%s", f.name);
            for (int p = 0; p < nd - (nr == 5); ++p) {
                LD m = 0, a = 0; for (int i = 0; i < n; ++i) { LD q = powl((i - (n - 1) / 2.0L) / n, p); m += ((i & 1) ? -1 : 1) * l[i] * q; a += fabsl(l[i] * q); }
                mon.check(fabsl(m) <= 1e-5L * a, "zeros-at-half-rate", "%s: order %d is %Lg of %Lg", f.name, p, m, a);
            }
        }
        // perfect reconstruction condition: low-pass times modulated high-pass is a half-band pure delay
        for (int k = 0; k < 2 * n; ++k) {
            if ((k - (n - 1)) & 1) continue;
            LD d = 0;
            for (int i = 0; i < n; ++i) if (k - i >= 0 && k - i < n) d += ((i & 1) ? -1 : 1) * (LD)h[i] * l[k - i];
            if (k == n - 1) mon.check(fabsl(fabsl(d) - 1) <= f.tol && d < 0, "perfect-reconstruction", "%s: gain %Lg", f.name, d);
            else mon.check(fabsl(d) <= f.tol, "perfect-reconstruction", "%s: aliasing term %d is %Lg", f.name, k, d);
        }
    });
    // analyse and resynthesise a signal with the tables
    mon.group("round-trip", mon.n(3, 30) * N, [](Case &c) {
        const Info &f = infos[c.idx % (sizeof infos / sizeof *infos)];
        dvec l, h;
        Wavelet::createDecompositionFilters(f.t, l, h);
        int n = l.size(), len = c.rng.range(20, 200);
        std::string k;
        dvec x = signal(c.rng, len, &k);
        c.say("%s n=%d %s", f.name, len, k.c_str());
        int tot = len + 4 * n;
        auto at = [&](const dvec &v, int i) { return i >= 0 && i < (int)v.size() ? v[i] : 0.0; };
        dvec a(tot, 0.0), d(tot, 0.0);
        for (int i = 0; i < tot; i += 2) { for (int j = 0; j < n; ++j) { a[i] += l[j] * at(x, i - j); d[i] += h[j] * at(x, i - j); } }
        // alias cancellation synthesis filters
        dvec y(tot + n, 0.0);
        for (int i = 0; i < tot; i += 2) for (int j = 0; j < n; ++j) { y[i + j] += ((j & 1) ? -1 : 1) * (h[j] * a[i] - l[j] * d[i]); }
        double sgn = 0, best = 1e300;
        int dl = 0;
        for (int s = -1; s <= 1; s += 2) for (int q = 0; q < 2 * n; ++q) {
            double e = 0; for (int i = 0; i < len && e < best; ++i) e = std::max(e, std::fabs(y[i + q] - s * x[i]));
            if (e < best) { best = e; sgn = s; dl = q; }
        }
        mon.check(best <= 20 * f.tol * (maxAbs(x) + 1e-12), "round-trip", "%s: reconstruction error %g (delay %d sign %g)", f.name, best, dl, sgn);
    });
    return mon.finish();
}
