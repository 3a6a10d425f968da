// Independent model of the annealed soft clustering of histograms (long double).
#ifndef VF_MELT_H
#define VF_MELT_H
#include "cmat.h"
namespace ref {
typedef long double LD;
inline LD jsd(const std::vector<LD> &a, const std::vector<LD> &b) {
    LD d = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        LD q = (a[i] + b[i]) / 2;
        if (a[i] > 0) d += a[i] * logl(a[i] / q);
        if (b[i] > 0) d += b[i] * logl(b[i] / q);
    }
    return d;
}
// draws: the k*m random starting values. eps/r: relative perturbation used to find ambiguous inputs.
inline std::vector<int> melt(const std::vector<std::vector<LD> > &h, const std::vector<double> &sched, int k, int limit, const std::vector<LD> &draws, LD eps, vf::Rng &r, bool *ok) {
    typedef std::vector<LD> lv; typedef std::vector<lv> lm;
    int n = h.size(), m = h[0].size();
    if (limit <= 0) limit = 20;
    lm x(h), cl(k, lv(m)), lp(n, lv(k));
    if (eps > 0) for (auto &v : x) for (auto &y : v) y *= 1 + eps * r.uni(-1, 1);
    for (int i = 0; i < k; ++i) {
        LD s = 0;
        for (int j = 0; j < m; ++j) { cl[i][j] = draws[i * m + j] * (1 + (eps > 0 ? eps * r.uni(-1, 1) : 0)); s += cl[i][j] * cl[i][j]; }
        for (int j = 0; j < m; ++j) cl[i][j] /= sqrtl(s);
    }
    std::vector<int> c(n, 0), old;
    *ok = true;
    for (size_t a = 0; a < sched.size(); ++a) for (int it = 0; it < (a == 0 ? 20 : 5); ++it) {
        old = c;
        std::vector<std::vector<int> > pre(k, std::vector<int>(n + 1, 0));
        for (int j = 0; j < k; ++j) for (int i = 0; i < n; ++i) pre[j][i + 1] = pre[j][i] + (c[i] == j);
        std::vector<int> next(n);
        for (int i = 0; i < n; ++i) {
            int b0 = std::max(0, i - limit), b1 = std::min(n - 1, i + limit);
            LD s = 0, best = 0, second = -INFINITY;
            for (int j = 0; j < k; ++j) { lp[i][j] = -(LD)sched[a] * jsd(cl[j], x[i]); s += expl(lp[i][j]); }
            if (!(s > 1e-250L)) *ok = false;
            for (int j = 0; j < k; ++j) lp[i][j] -= logl(s) + 0.02L * (b1 - b0 + 1 - (pre[j][b1 + 1] - pre[j][b0]));
            next[i] = 0; best = lp[i][0];
            for (int j = 1; j < k; ++j) { if (lp[i][j] > best) { second = std::max(second, best); best = lp[i][j]; next[i] = j; } else second = std::max(second, lp[i][j]); }
            if (best - second < 1e-9L) *ok = false;
        }
        c = next;
        if (c == old) break;
        for (int j = 0; j < k; ++j) {
            LD s = 0; for (int i = 0; i < n; ++i) s += expl(lp[i][j]);
            if (!(s > 1e-250L)) *ok = false;
            for (int b = 0; b < m; ++b) { LD t = 0; for (int i = 0; i < n; ++i) t += expl(lp[i][j]) * x[i][b]; cl[j][b] = t / s; }
        }
    }
    for (auto &v : c) ++v;
    return c;
}
// assignment if it is the same under small perturbations, empty otherwise
inline std::vector<int> stableMelt(const std::vector<std::vector<LD> > &h, const std::vector<double> &sched, int k, int limit, const std::vector<LD> &draws, vf::Rng r) {
    bool ok; std::vector<int> c = melt(h, sched, k, limit, draws, 0, r, &ok);
    if (!ok) return std::vector<int>();
    for (int i = 0; i < 2; ++i) if (melt(h, sched, k, limit, draws, 1e-11L, r, &ok) != c || !ok) return std::vector<int>();
    return c;
}
}
#endif
