// C22: principal component projection, and soft clustering of histograms.
#include "vf.h"
#include "cmat.h"
#include "melt.h"
#include "maths/pca/pca.h"
extern "C" {
#include "dsp/segmentation/cluster_melt.h"
}
using namespace vf;
typedef long double LD;
typedef std::vector<LD> lvec;
typedef std::vector<lvec> lmat;

// eigenvalues of a symmetric matrix by Jacobi rotations, descending
static lvec eigenvalues(lmat a) {
    int n = a.size();
    for (int sweep = 0; sweep < 60; ++sweep) {
        LD off = 0, tot = 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { tot += a[i][j] * a[i][j]; if (i != j) off += a[i][j] * a[i][j]; }
        if (off <= 1e-34L * tot) break;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
            if (a[p][q] == 0) continue;
            LD th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
            for (int k = 0; k < n; ++k) { LD x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
            for (int k = 0; k < n; ++k) { LD x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
        }
    }
    lvec e(n); for (int i = 0; i < n; ++i) e[i] = a[i][i];
    std::sort(e.rbegin(), e.rend());
    return e;
}
static void projection(Case &c, const char *kindFilter) {
    Rng &r = c.rng; (void)kindFilter;
    int n = r.pick({1, 2, r.range(2, 20), r.range(10, 150), r.chance(0.15) ? r.range(200, 2000) : 40}), m = r.pick({1, 2, 3, r.range(2, 12), r.range(8, 40), r.range(60, 100)}), nc = r.chance(0.3) ? m : r.range(1, m);
    int kind = r.range(0, 11);
    static const char *names[] = {"gaussian", "spread", "low-rank", "duplicated-columns", "constant-columns", "integers", "equal-rows", "isotropic", "decibels", "blocks", "equal-fractions", "graded"};
    dmat x(n, dvec(m));
    dvec sc(m); for (auto &v : sc) v = r.logUni(1e-3, 1e3);
    int rank = r.range(1, m);
    dmat base(rank, dvec(m)); for (auto &v : base) for (auto &y : v) y = r.gauss();
    for (int i = 0; i < n; ++i) {
        dvec z(rank); for (auto &y : z) y = r.gauss();
        for (int j = 0; j < m; ++j) switch (kind) {
            case 0: x[i][j] = r.gauss() + 3; break;
            case 1: x[i][j] = sc[j] * r.gauss(); break;
            case 2: x[i][j] = 0; for (int k = 0; k < rank; ++k) x[i][j] += z[k] * base[k][j]; break;
            case 3: x[i][j] = j % 2 && j > 0 ? x[i][j - 1] : r.gauss(); break;
            case 4: x[i][j] = j % 3 == 1 ? 2.5 : r.gauss(); break;
            case 5: x[i][j] = r.range(-2, 2); break;
            case 6: x[i][j] = j; break;
            case 7: x[i][j] = (i % (2 * m)) / 2 == j ? (i % 2 ? 1 : -1) : 0; break;
            case 8: x[i][j] = 10 * std::log10(r.uni() * r.uni() + 1e-15); break;
            case 10: x[i][j] = i ? x[0][j] : r.range(0, 3) * 0.1 - 0.7; break;
            case 11: x[i][j] = (i % 4 == j % 4) * std::ldexp(r.uni(), -(j * 13) % 200) + (i ? 0 : 1e-3); break;
            case 9: x[i][j] = (i * 4 / n + j) % 3 + 0.01 * r.gauss(); break;
        }
    }
    if (kind == 8) for (auto &v : x) { double s = 0; for (double y : v) s += y * y; for (auto &y : v) y /= std::sqrt(s); }
    double gain = r.chance(0.3) ? r.chance(0.3) ? r.logUni(1e-50, 1e50) : r.logUni(1e-8, 1e8) : 1;
    for (auto &v : x) for (auto &y : v) y *= gain;
    c.say("%s n=%d m=%d nc=%d gain=%.3g", names[kind], n, m, nc, gain);
    int extra = r.range(0, 2);                    // room after the features, as the segmenter keeps
    dmat in(x); for (auto &v : in) for (int i = 0; i < extra; ++i) v.push_back(55.5);
    Mat d(in);
    long h0 = heapBytes(); pca_project(d, n, m, nc); long h1 = heapBytes();
    mon.check(h0 == h1, "no-leak", "pca_project left %ld bytes", h1 - h0);
    dmat y = d.vec();
    for (auto &v : y) for (int i = 0; i < extra; ++i) mon.check(v[m + i] == 55.5, "in-bounds", "value after the features changed");
    lmat X(n, lvec(m));
    for (int j = 0; j < m; ++j) { LD s = 0; for (int i = 0; i < n; ++i) s += x[i][j]; for (int i = 0; i < n; ++i) X[i][j] = x[i][j] - s / n; }
    lmat C(m, lvec(m, 0));
    for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) for (int i = 0; i < n; ++i) C[a][b] += X[i][a] * X[i][b];
    lvec ev = eigenvalues(C);
    LD top = std::max(ev[0], 1e-290L), big = 0;
    for (auto &v : x) for (double q : v) big = std::max(big, fabsl((LD)q));
    LD noise = 1e-13L * n * big * big * m;      // rounding of the centred data itself
    for (int k = 0; k < nc; ++k) {
        LD s = 0; for (int i = 0; i < n; ++i) { if (!mon.check(std::isfinite(y[i][k]), "finite", "row %d column %d", i, k)) return; s += (LD)y[i][k] * y[i][k]; }
        if (!mon.check(fabsl(s - ev[k]) <= 1e-9L * top + noise, "leading-variance", "column %d: scatter %.12Lg, eigenvalue %.12Lg of largest %.6Lg", k, s, ev[k], top)) return;
        for (int k2 = 0; k2 < k; ++k2) {
            LD q = 0; for (int i = 0; i < n; ++i) q += (LD)y[i][k] * y[i][k2];
            if (!mon.check(fabsl(q) <= 1e-9L * top + noise, "uncorrelated", "columns %d and %d: %.6Lg of %.6Lg", k2, k, q, top)) return;
        }
        if (ev[k] > 1e-6L * top && ev[k] > 1e4L * noise) {
            lvec w(m, 0); LD nw = 0, e = 0;
            for (int j = 0; j < m; ++j) { for (int i = 0; i < n; ++i) w[j] += X[i][j] * y[i][k]; w[j] /= s; nw += w[j] * w[j]; }
            for (int i = 0; i < n; ++i) { LD p = 0; for (int j = 0; j < m; ++j) p += X[i][j] * w[j]; e = std::max(e, fabsl(p - y[i][k])); }
            mon.check(fabsl(nw - 1) <= 1e-6L, "unit-axis", "column %d: axis length %.12Lg", k, sqrtl(nw));
            mon.check(e <= 1e-6L * sqrtl(top), "projection", "column %d: rows differ by %.6Lg from the projection on one axis", k, e);
        } else mon.count("tiny_components");
    }
    if (nc == m) for (int i = 0; i < n; ++i) {
        LD a = 0, b = 0; for (int j = 0; j < m; ++j) { a += X[i][j] * X[i][j]; b += (LD)y[i][j] * y[i][j]; }
        mon.check(fabsl(a - b) <= 1e-9L * top + noise, "isometry", "row %d: %.12Lg became %.12Lg", i, a, b);
    }
    mon.saw(fmt("%s %d %d %s", names[kind], m, nc, bucket((double)(ev[m - 1] / top)).c_str()));
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("projection", mon.n(900, 9000), [](Case &c) { projection(c, 0); });
    mon.group("clustering", mon.n(260, 2600), [](Case &c) {
        Rng &r = c.rng; g_rand = r.u64();
        int n = r.pick({1, 2, r.range(2, 30), r.range(20, 150), r.chance(0.15) ? r.range(200, 1200) : 25}), m = r.pick({2, 3, r.range(2, 10), r.range(8, 40)}), k = r.pick({1, 2, 3, r.range(2, 10)}), l = r.pick({-1, 0, 1, 5, 20, r.range(1, 60)});
        int kind = r.range(0, 3);
        dmat h(n, dvec(m, 0.0));
        int hl = 2 * r.range(0, 7) + 1, parts = r.range(1, 5);
        if (kind < 3) {
            dmat prof(parts, dvec(m)); for (auto &v : prof) for (auto &y : v) y = r.chance(0.6) ? 0 : r.uni();
            for (int i = 0; i < n; ++i) {
                const dvec &p = prof[(i * 2 * parts / n) % parts]; double s = 0;
                for (int j = 0; j < m; ++j) {
                    if (kind == 0) h[i][j] = p[j] + 0.05 * r.uni();
                    else if (kind == 1) h[i][j] = r.uni();
                    else h[i][j] = p[j] > 0 ? r.range(0, hl) : 0;
                    s += kind == 2 ? h[i][j] * h[i][j] : h[i][j];
                }
                if (s == 0) { h[i][0] = 1; s = 1; }
                for (auto &y : h[i]) y /= s;
            }
        } else for (int i = 0; i < n; ++i) h[i][(i * parts / n) % m] = 1.0 / hl;
        int nb = r.pick({1, 5, 20}); std::vector<double> sched(nb); for (int i = 0; i < nb; ++i) sched[i] = i ? sched[i - 1] * 0.7 : r.pick({100.0, 30.0, 5.0});
        c.say("n=%d m=%d k=%d limit=%d kind=%d schedule=%d from %g", n, m, k, l, kind, nb, sched[0]);
        dvec flat; for (auto &v : h) flat.insert(flat.end(), v.begin(), v.end());
        uint64_t g0 = g_rand; std::vector<LD> draws(k * m); for (auto &d : draws) d = rand();
        std::vector<int> got[2];
        for (int rep = 0; rep < 2; ++rep) {
            Guarded<double> hh(flat), bs(sched); Guarded<int> q(n, rep ? 3 : -7);
            g_rand = g0;
            long a = heapBytes(); cluster_melt(hh, m, n, bs, nb, k, l, q); long b = heapBytes();
            mon.check(a == b, "no-leak", "cluster_melt left %ld bytes", b - a);
            mon.check(hh.vec() == flat && bs.vec() == sched && hh.intact() && q.intact(), "inputs-untouched", "clustering");
            got[rep] = q.vec();
        }
        mon.check(got[0] == got[1], "repeatable", "same random start, different clusters");
        for (int i = 0; i < n; ++i) if (!mon.check(got[0][i] >= 1 && got[0][i] <= k, "cluster-range", "histogram %d: %d of %d", i, got[0][i], k)) return;
        lmat hl2(n, lvec(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) hl2[i][j] = h[i][j];
        std::vector<int> want = ref::stableMelt(hl2, sched, k, l, draws, Rng(r.u64()));
        if (want.empty()) { mon.count("ambiguous"); return; }
        mon.count("decided"); { std::set<int> u(want.begin(), want.end()); mon.saw(fmt("%d of %d", (int)u.size(), k)); mon.maxim("clusters_used", u.size()); if (u.size() > 1) mon.count("several_clusters"); }
        for (int i = 0; i < n; ++i) if (!mon.check(got[0][i] == want[i], "clusters", "histogram %d of %d: cluster %d, expected %d", i, n, got[0][i], want[i])) return;
    });
    return mon.finish();
}
