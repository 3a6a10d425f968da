// C21: hidden Markov model with Gaussian observations, and the matrix inversion below it.
#include "vf.h"
#include "ref.h"
#include "cmat.h"
#include "hmm/hmm.h"
using namespace vf;
typedef long double LD;
typedef std::vector<LD> lvec;
typedef std::vector<lvec> lmat;

static lmat inverse(const dmat &m, LD *det, LD *cond) {
    int n = m.size(); lmat a(n, lvec(n)), b(n, lvec(n, 0));
    LD na = 0;
    for (int i = 0; i < n; ++i) { b[i][i] = 1; for (int j = 0; j < n; ++j) { a[i][j] = m[i][j]; na = std::max(na, fabsl(a[i][j])); } }
    *det = 1;
    for (int c = 0; c < n; ++c) {
        int p = c; for (int i = c + 1; i < n; ++i) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i;
        std::swap(a[p], a[c]); std::swap(b[p], b[c]); if (p != c) *det = -*det;
        *det *= a[c][c];
        LD d = a[c][c]; for (int j = 0; j < n; ++j) { a[c][j] /= d; b[c][j] /= d; }
        for (int i = 0; i < n; ++i) if (i != c) { LD f = a[i][c]; if (f != 0) for (int j = 0; j < n; ++j) { a[i][j] -= f * a[c][j]; b[i][j] -= f * b[c][j]; } }
    }
    LD nb = 0; for (auto &r : b) for (LD x : r) nb = std::max(nb, fabsl(x));
    *cond = na * nb * n;
    return b;
}
static dmat spd(Rng &r, int L, double spread) {
    dmat a(L, dvec(L)), m(L, dvec(L, 0.0));
    dvec sc(L); for (auto &x : sc) x = r.logUni(1 / spread, spread);
    for (auto &v : a) for (auto &x : v) x = r.gauss();
    for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) { for (int k = 0; k < L; ++k) m[i][j] += a[i][k] * a[j][k] / L; if (i == j) m[i][j] += 0.3; }
    for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) m[i][j] *= sc[i] * sc[j];
    for (int i = 0; i < L; ++i) for (int j = 0; j < i; ++j) m[i][j] = m[j][i];
    return m;
}
static LD logGauss(const dvec &x, const dvec &mu, const lmat &ic, LD det) {
    int L = x.size(); LD s = 0;
    for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) s += (x[i] - mu[i]) * ic[i][j] * (x[j] - mu[j]);
    return -0.5L * (s + L * logl(2 * M_PIl) + logl(fabsl(det)));
}
struct Model { int N, L; dvec p0; dmat a, mu, cov; };
static dvec stoch(Rng &r, int n, bool zeros) { dvec v(n); double s = 0; for (auto &x : v) { x = zeros && r.chance(0.3) ? 0 : r.uni(0.05, 1); s += x; } if (s == 0) { v[0] = 1; s = 1; } for (auto &x : v) x /= s; return v; }
static Model randomModel(Rng &r, int N, int L, bool zeros, double sep) {
    Model m; m.N = N; m.L = L; m.p0 = stoch(r, N, zeros);
    for (int i = 0; i < N; ++i) { m.a.push_back(stoch(r, N, zeros)); dvec u(L); for (auto &x : u) x = sep * r.gauss(); m.mu.push_back(u); }
    m.cov = spd(r, L, 1.5);
    return m;
}
static Model read(model_t *t) {
    Model m; m.N = t->N; m.L = t->L; m.p0.assign(t->p0, t->p0 + t->N);
    for (int i = 0; i < t->N; ++i) { m.a.push_back(dvec(t->a[i], t->a[i] + t->N)); m.mu.push_back(dvec(t->mu[i], t->mu[i] + t->L)); }
    for (int i = 0; i < t->L; ++i) m.cov.push_back(dvec(t->cov[i], t->cov[i] + t->L));
    return m;
}
struct CModel { Mat a, mu, cov; Guarded<double> p0; model_t t;
    CModel(const Model &m) : a(m.a), mu(m.mu), cov(m.cov), p0(m.p0) { t.N = m.N; t.L = m.L; t.p0 = p0; t.a = a; t.mu = mu; t.cov = cov; }
};
static dmat generate(Rng &r, const Model &m, int T, std::vector<int> *path = 0) {
    // correlated noise via Cholesky
    dmat ch(m.L, dvec(m.L, 0.0));
    for (int i = 0; i < m.L; ++i) for (int j = 0; j <= i; ++j) { double s = m.cov[i][j]; for (int k = 0; k < j; ++k) s -= ch[i][k] * ch[j][k]; ch[i][j] = i == j ? std::sqrt(s) : s / ch[j][j]; }
    auto draw = [&](const dvec &p) { double u = r.uni(); for (size_t i = 0; i < p.size(); ++i) { u -= p[i]; if (u < 0) return (int)i; } return (int)p.size() - 1; };
    dmat x; int s = draw(m.p0);
    for (int t = 0; t < T; ++t) {
        if (path) path->push_back(s);
        dvec g(m.L), v(m.mu[s]); for (auto &y : g) y = r.gauss();
        for (int i = 0; i < m.L; ++i) for (int j = 0; j <= i; ++j) v[i] += ch[i][j] * g[j];
        x.push_back(v); s = draw(m.a[s]);
    }
    return x;
}
static LD lse(const lvec &v) { LD m = -INFINITY; for (LD x : v) m = std::max(m, x); if (m == -INFINITY) return m; LD s = 0; for (LD x : v) s += expl(x - m); return m + logl(s); }
struct FB { lmat gamma; std::vector<lmat> xi; LD loglik; };
static FB posterior(const Model &m, const lmat &lb) {
    int T = lb.size(), N = m.N; lmat al(T, lvec(N)), be(T, lvec(N, 0)); FB f;
    for (int i = 0; i < N; ++i) al[0][i] = logl(m.p0[i]) + lb[0][i];
    for (int t = 1; t < T; ++t) for (int j = 0; j < N; ++j) { lvec v(N); for (int i = 0; i < N; ++i) v[i] = al[t - 1][i] + logl(m.a[i][j]); al[t][j] = lse(v) + lb[t][j]; }
    for (int t = T - 2; t >= 0; --t) for (int i = 0; i < N; ++i) { lvec v(N); for (int j = 0; j < N; ++j) v[j] = logl(m.a[i][j]) + lb[t + 1][j] + be[t + 1][j]; be[t][i] = lse(v); }
    f.loglik = lse(al[T - 1]);
    f.gamma.assign(T, lvec(N)); f.xi.assign(T, lmat(N, lvec(N, 0)));
    for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) f.gamma[t][i] = expl(al[t][i] + be[t][i] - f.loglik);
    for (int t = 0; t + 1 < T; ++t) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) f.xi[t][i][j] = expl(al[t][i] + logl(m.a[i][j]) + lb[t + 1][j] + be[t + 1][j] - f.loglik);
    return f;
}
static lmat obs(const Model &m, const dmat &x) {
    LD det, cond; lmat ic = inverse(m.cov, &det, &cond);
    lmat lb; for (auto &v : x) { lvec r; for (int i = 0; i < m.N; ++i) r.push_back(logGauss(v, m.mu[i], ic, det)); lb.push_back(r); }
    return lb;
}
static LD pathScore(const Model &m, const lmat &lb, const std::vector<int> &q) {
    LD s = logl(m.p0[q[0]]) + lb[0][q[0]];
    for (size_t t = 1; t < q.size(); ++t) s += logl(m.a[q[t - 1]][q[t]]) + lb[t][q[t]];
    return s;
}
static LD bestScore(const Model &m, const lmat &lb) {
    lvec d(m.N), e(m.N);
    for (int i = 0; i < m.N; ++i) d[i] = logl(m.p0[i]) + lb[0][i];
    for (size_t t = 1; t < lb.size(); ++t) { for (int j = 0; j < m.N; ++j) { LD b = -INFINITY; for (int i = 0; i < m.N; ++i) b = std::max(b, d[i] + logl(m.a[i][j])); e[j] = b + lb[t][j]; } d = e; }
    LD b = d[0]; for (LD x : d) b = std::max(b, x); return b;
}
static bool stochastic(const dvec &v, double tol) { double s = 0; for (double x : v) { if (!(x >= 0 && x <= 1 + tol)) return false; s += x; } return std::fabs(s - 1) <= tol; }

int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("invert", mon.n(400, 4000), [](Case &c) {
        Rng &r = c.rng;
        int L = r.pick({1, 2, 3, 5, 10, 20, 21, r.range(1, 40), r.range(40, 90)});
        double spread = r.pick({1.0, 3.0, 30.0}), gain = r.chance(0.5) ? r.logUni(0.03, 30) : std::pow(10.0, r.uni(-1, 1) * std::min(20.0, 100.0 / L));
        dmat m = spd(r, L, spread);
        for (auto &v : m) for (auto &x : v) x *= gain / spread;
        bool general = r.chance(0.3);
        if (general) for (auto &v : m) for (auto &x : v) x = L < 12 && r.chance(0.3) ? r.range(-2, 2) : r.uni(-1, 1);   // any invertible matrix
        c.say("L=%d spread=%g gain=%.3g%s", L, spread, gain, general ? " general" : "");
        LD det, cond; lmat want = inverse(m, &det, &cond);
        if (!(cond <= 1e8)) { c.nontrivial = false; return; }
        Mat cm(m), ic(L, L); double d = -1;
        long h0 = heapBytes(); invert(cm, L, ic, &d); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "invert left %ld bytes", h1 - h0);
        mon.check(cm.vec() == m, "inputs-untouched", "matrix");
        mon.check(std::fabs(d - fabsl(det)) <= 1e-9 * fabsl(det) * (1 + cond * 1e-4), "determinant", "%.17g expected %.17Lg", d, fabsl(det));
        LD mx = 0; for (auto &v : want) for (LD x : v) mx = std::max(mx, fabsl(x));
        dmat g = ic.vec();
        for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) if (!mon.close(g[i][j], want[i][j], (double)(mx * cond * 1e-14), "inverse", fmt("[%d][%d] of %d", i, j, L).c_str())) return;
        Mat i2(L, L); double d2; invert(cm, L, i2, &d2);
        mon.check(d2 == d && i2.vec() == g, "repeatable", "inverse");
    });
    mon.group("gauss", mon.n(500, 5000), [](Case &c) {
        Rng &r = c.rng; int L = r.range(1, 25);
        dmat cov = spd(r, L, 2); LD det, cond; lmat ic = inverse(cov, &det, &cond);
        dmat icd(L, dvec(L)); for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) icd[i][j] = ic[i][j];
        dvec x(L), mu(L); double far = r.pick({0.0, 1.0, 1.0, 5.0, 30.0}); for (auto &v : x) v = far * r.gauss(); for (auto &v : mu) v = r.gauss();
        if (r.chance(0.1)) x = mu;
        double gain = r.chance(0.4) ? std::pow(10.0, r.uni(-1, 1) * std::min(20.0, 60.0 / L)) : 1;
        for (auto &v : x) v *= gain; for (auto &v : mu) v *= gain; for (auto &v : icd) for (auto &y : v) y /= gain * gain; for (auto &v : ic) for (auto &y : v) y /= (LD)gain * gain; det *= powl(gain, 2 * L);
        c.say("L=%d far=%g gain=%.3g", L, far, gain);
        Mat m(icd); Guarded<double> gx(x), gm(mu), y(L), z(L);
        double g = gauss(gx, L, gm, m, (double)det, y, z), lg = loggauss(gx, L, gm, m, (double)det, y, z);
        LD want = logGauss(x, mu, ic, det);
        mon.check(fabsl(lg - want) <= 1e-9L * (1 + fabsl(want)), "log-density", "%.17g expected %.17Lg", lg, want);
        mon.check(fabsl(g - expl(want)) <= 1e-9L * (1 + fabsl(want)) * expl(want) + 1e-290L * std::max(1.0L, expl(logGauss(mu, mu, ic, det))), "density", "%.17g expected %.17Lg", g, expl(want));
        mon.check(gx.vec() == x && gm.vec() == mu && m.vec() == icd && y.intact() && z.intact(), "inputs-untouched", "gauss");
    });
    mon.group("posteriors", mon.n(300, 3000), [](Case &c) {
        Rng &r = c.rng;
        int N = r.range(1, 8), T = r.pick({1, 2, 3, r.range(2, 60), r.range(50, 300)}), L = r.range(1, 4);
        if (r.chance(0.05)) T = r.range(1000, 4000); else if (r.chance(0.05)) { N = r.range(20, 45); T = std::min(T, 200); }
        if (c.idx % 100 == 50) { N = r.range(257, 280); T = r.range(2, 5); }
        bool zeros = r.chance(0.4); double sep = r.uni(0, 3);
        Model m = randomModel(r, N, L, zeros, sep);
        dmat x = generate(r, m, T);
        c.say("N=%d T=%d L=%d%s sep=%.3g", N, T, L, zeros ? " zeros" : "", sep);
        lmat lb = obs(m, x); FB want = posterior(m, lb);
        Mat b(T, N), gamma(T, N), a(m.a);
        for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) ((double **)b)[t][i] = expl(lb[t][i]);
        std::vector<Mat *> xm; std::vector<double **> xp; for (int t = 0; t < T; ++t) { xm.push_back(new Mat(N, N)); xp.push_back(*xm[t]); }
        Guarded<double> p0(m.p0);
        double ll = 123.5, l1 = -1, l2 = -2; int iter = r.range(1, 4);
        long h0 = heapBytes(); forward_backwards(xp.data(), gamma, &ll, &l1, &l2, iter, N, T, p0, a, b); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "forward_backwards left %ld bytes", h1 - h0);
        mon.check(fabsl(ll - want.loglik) <= 1e-8L * (1 + fabsl(want.loglik)), "log-likelihood", "%.15g expected %.15Lg", ll, want.loglik);
        mon.check(l1 == 123.5, "previous-likelihood-kept", "%g", l1);
        mon.check(a.vec() == m.a && p0.vec() == m.p0, "inputs-untouched", "model");
        dmat g = gamma.vec(); bool ok = true;
        for (int t = 0; t < T && ok; ++t) for (int i = 0; i < N && ok; ++i) ok = mon.close(g[t][i], (double)want.gamma[t][i], 1e-9, "state-posterior", fmt("t=%d state %d", t, i).c_str());
        for (int t = 0; t + 1 < T && ok; ++t) { dmat q = xm[t]->vec(); for (int i = 0; i < N && ok; ++i) for (int j = 0; j < N && ok; ++j) ok = mon.close(q[i][j], (double)want.xi[t][i][j], 1e-9, "transition-posterior", fmt("t=%d %d->%d", t, i, j).c_str()); }
        for (auto p : xm) delete p;
    });
    mon.group("re-estimate", mon.n(300, 3000), [](Case &c) {
        Rng &r = c.rng;
        int N = r.range(1, 6), T = r.range(2, 120), L = r.range(1, 6);
        if (r.chance(0.06)) T = r.range(800, 2500);
        Model m = randomModel(r, N, L, r.chance(0.3), r.uni(0, 3));
        dmat x = generate(r, m, T);
        c.say("N=%d T=%d L=%d", N, T, L);
        FB f = posterior(m, obs(m, x));
        for (int i = 0; i < N; ++i) { LD s = 0; for (int t = 0; t + 1 < T; ++t) s += f.gamma[t][i]; if (s < 1e-6L) { c.nontrivial = false; return; } }
        CModel cm(m); Mat xs(x), gm(T, N);
        std::vector<Mat *> xm; std::vector<double **> xp;
        for (int t = 0; t < T; ++t) { xm.push_back(new Mat(N, N)); xp.push_back(*xm[t]); for (int i = 0; i < N; ++i) { ((double **)gm)[t][i] = f.gamma[t][i]; for (int j = 0; j < N; ++j) xp[t][i][j] = t + 1 < T ? (double)f.xi[t][i][j] : -5e5; } }
        long h0 = heapBytes(); baum_welch(cm.t.p0, cm.t.a, cm.t.mu, cm.t.cov, N, T, L, xs, xp.data(), gm); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "baum_welch left %ld bytes", h1 - h0);
        mon.check(xs.vec() == x, "inputs-untouched", "data");
        Model g = read(&cm.t); bool ok = true; LD dm = 0; for (auto &v : x) for (double y : v) dm = std::max(dm, fabsl((LD)y)); for (auto &v : m.mu) for (double y : v) dm = std::max(dm, fabsl((LD)y));
        for (int i = 0; i < N && ok; ++i) {
            LD sg = 0, sx = 0; for (int t = 0; t + 1 < T; ++t) sg += f.gamma[t][i];
            ok = mon.close(g.p0[i], (double)f.gamma[0][i], 1e-9, "initial-re-estimate", fmt("%d", i).c_str());
            for (int j = 0; j < N && ok; ++j) { LD s = 0; for (int t = 0; t + 1 < T; ++t) s += f.xi[t][i][j]; ok = mon.close(g.a[i][j], (double)(s / sg), 1e-8, "transition-re-estimate", fmt("%d->%d", i, j).c_str()); }
            sx = sg + f.gamma[T - 1][i];
            for (int d = 0; d < L && ok; ++d) { LD s = 0; for (int t = 0; t < T; ++t) s += f.gamma[t][i] * x[t][d]; ok = mon.close(g.mu[i][d], (double)(s / sx), (double)(1e-8L * dm), "mean-re-estimate", fmt("state %d dim %d", i, d).c_str()); }
        }
        for (int d = 0; d < L && ok; ++d) for (int e = 0; e < L && ok; ++e) { LD s = 0; for (int j = 0; j < N; ++j) for (int t = 0; t < T; ++t) s += f.gamma[t][j] * (x[t][d] - m.mu[j][d]) * (x[t][e] - m.mu[j][e]); ok = mon.close(g.cov[d][e], (double)(s / T), (double)(1e-8L * dm * dm), "covariance-re-estimate", fmt("[%d][%d]", d, e).c_str()); }
        for (auto p : xm) delete p;
    });
    // posteriors of any shape: states reached only at the end or only at the start, certain ones, shared ones
    mon.group("re-estimate-given", mon.n(300, 3000), [](Case &c) {
        Rng &r = c.rng;
        int N = r.range(1, 6), T = r.pick({1, 2, 3, r.range(2, 60)}), L = r.range(1, 5), hard = r.range(0, 2);
        std::vector<int> kind(N); for (auto &k : kind) k = r.pick({0, 0, 1, 2, 3}); kind[r.range(0, N - 1)] = 0;       // everywhere, only last, only first, nowhere
        dmat g(T, dvec(N, 0.0)), x(T, dvec(L)); for (auto &v : x) for (auto &y : v) y = r.gauss() * 3;
        for (int t = 0; t < T; ++t) { double s = 0; for (int i = 0; i < N; ++i) { bool on = kind[i] == 0 || (kind[i] == 1 && t == T - 1) || (kind[i] == 2 && t == 0); if (on) g[t][i] = r.uni(0.01, 1); s += g[t][i]; } if (hard == 1 || (hard == 2 && t == T - 1)) { int w; do w = r.range(0, N - 1); while (g[t][w] == 0); if (t == T - 1) for (int i = 0; i < N; ++i) if (kind[i] == 1) w = i; for (int i = 0; i < N; ++i) g[t][i] = i == w; } else for (auto &v : g[t]) v /= s; }
        Model m; m.N = N; m.L = L; m.p0.assign(N, 1.0 / N); m.a.assign(N, dvec(N, 1.0 / N)); m.mu.assign(N, dvec(L)); m.cov.assign(L, dvec(L, 0.0)); for (auto &v : m.mu) for (auto &y : v) y = r.gauss(); for (int d = 0; d < L; ++d) m.cov[d][d] = 1;
        c.say("N=%d T=%d L=%d%s", N, T, L, hard ? " certain" : "");
        CModel cm(m); Mat xs(x), gm(g); std::vector<Mat *> xm; std::vector<double **> xp;
        for (int t = 0; t < T; ++t) { xm.push_back(new Mat(N, N)); xp.push_back(*xm[t]); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) xp[t][i][j] = t + 1 < T ? g[t][i] * g[t + 1][j] : -5e5; }
        baum_welch(cm.t.p0, cm.t.a, cm.t.mu, cm.t.cov, N, T, L, xs, xp.data(), gm);
        Model q = read(&cm.t); bool ok = true; LD dm = 1; for (auto &v : x) for (double y : v) dm = std::max(dm, fabsl((LD)y)); for (auto &v : m.mu) for (double y : v) dm = std::max(dm, fabsl((LD)y));
        for (int i = 0; i < N && ok; ++i) {
            LD sg = 0, sx = 0; for (int t = 0; t < T; ++t) { if (t + 1 < T) sg += g[t][i]; sx += g[t][i]; }
            ok = mon.close(q.p0[i], g[0][i], 1e-12, "initial-re-estimate", fmt("%d", i).c_str());
            for (int j = 0; j < N && ok && sg > 0; ++j) { LD s = 0; for (int t = 0; t + 1 < T; ++t) s += (LD)g[t][i] * g[t + 1][j]; ok = mon.close(q.a[i][j], (double)(s / sg), 1e-9, "transition-re-estimate", fmt("%d->%d", i, j).c_str()); }
            for (int d = 0; d < L && ok && sx > 0; ++d) { LD s = 0; for (int t = 0; t < T; ++t) s += (LD)g[t][i] * x[t][d]; ok = mon.close(q.mu[i][d], (double)(s / sx), (double)(1e-9L * dm), "mean-re-estimate", fmt("state %d of kind %d, dim %d", i, kind[i], d).c_str()); }
            for (int d = 0; d < L && ok && sx == 0; ++d) ok = mon.check(std::isfinite(q.mu[i][d]), "unvisited-state-finite", "mean of state %d", i);
        }
        for (int d = 0; d < L && ok; ++d) for (int e = 0; e < L && ok; ++e) { LD s = 0; for (int j = 0; j < N; ++j) for (int t = 0; t < T; ++t) s += (LD)g[t][j] * (x[t][d] - m.mu[j][d]) * (x[t][e] - m.mu[j][e]); ok = mon.close(q.cov[d][e], (double)(s / T), (double)(1e-9L * dm * dm), "covariance-re-estimate", fmt("[%d][%d]", d, e).c_str()); }
        for (auto p : xm) delete p;
    });
    // states that nothing visits: the rest is estimated as ever and nothing becomes undefined
    mon.group("unvisited", mon.n(150, 1500), [](Case &c) {
        Rng &r = c.rng;
        int N = r.range(2, 8), T = r.range(2, 80), L = r.range(1, 5);
        Model m = randomModel(r, N, L, false, r.uni(0, 3)); std::vector<bool> dead(N); for (int i = 0; i < N; ++i) dead[i] = r.chance(0.4); dead[r.range(0, N - 1)] = false;
        for (int i = 0; i < N; ++i) if (dead[i]) { m.p0[i] = 0; for (auto &row : m.a) row[i] = 0; }
        double s0 = 0; for (double v : m.p0) s0 += v; for (auto &v : m.p0) v /= s0;
        for (auto &row : m.a) { double s = 0; for (double v : row) s += v; for (auto &v : row) v /= s; }
        dmat x = generate(r, m, T); c.say("N=%d T=%d L=%d dead=%d", N, T, L, (int)std::count(dead.begin(), dead.end(), true));
        FB f = posterior(m, obs(m, x));
        CModel cm(m); Mat xs(x), gm(T, N); std::vector<Mat *> xm; std::vector<double **> xp;
        for (int t = 0; t < T; ++t) { xm.push_back(new Mat(N, N)); xp.push_back(*xm[t]); for (int i = 0; i < N; ++i) { ((double **)gm)[t][i] = f.gamma[t][i]; for (int j = 0; j < N; ++j) xp[t][i][j] = t + 1 < T ? (double)f.xi[t][i][j] : 0; } }
        baum_welch(cm.t.p0, cm.t.a, cm.t.mu, cm.t.cov, N, T, L, xs, xp.data(), gm);
        Model g = read(&cm.t); LD dm = 0; for (auto &v : x) for (double y : v) dm = std::max(dm, fabsl((LD)y));
        for (int i = 0; i < N; ++i) {
            if (!mon.check(allFinite(g.mu[i]) && allFinite(g.a[i]) && std::isfinite(g.p0[i]), "unvisited-state-finite", "state %d (%s)", i, dead[i] ? "unvisited" : "visited")) break;
            LD sx = 0; for (int t = 0; t < T; ++t) sx += f.gamma[t][i];
            if (!dead[i] && sx > 1e-6L) for (int d = 0; d < L; ++d) { LD s = 0; for (int t = 0; t < T; ++t) s += f.gamma[t][i] * x[t][d]; mon.close(g.mu[i][d], (double)(s / sx), (double)(1e-8L * dm), "mean-re-estimate", fmt("state %d dim %d", i, d).c_str()); }
        }
        for (auto &v : g.cov) mon.check(allFinite(v), "unvisited-state-finite", "covariance");
        for (auto p : xm) delete p;
    });
    mon.group("init", mon.n(200, 2000), [](Case &c) {
        Rng &r = c.rng; g_rand = r.u64();
        int N = r.range(1, 40), T = r.range(2, 100), L = r.range(1, 21);
        if (r.chance(0.05)) T = r.range(1000, 6000);
        dmat x(T, dvec(L)); for (auto &v : x) for (auto &y : v) y = 3 * r.gauss() + 1;
        if (r.chance(0.3)) for (auto &v : x) v[0] = 4;
        if (r.chance(0.2)) for (auto &v : x) for (auto &y : v) y = std::floor(y);
        double gain = r.chance(0.3) ? r.logUni(1e-20, 1e20) : 1; for (auto &v : x) for (auto &y : v) y *= gain;
        c.say("N=%d T=%d L=%d gain=%g", N, T, L, gain);
        Mat xs(x);
        long h0 = heapBytes(); model_t *t = hmm_init(xs, T, L, N); hmm_close(t); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "hmm_init/hmm_close left %ld bytes", h1 - h0);
        t = hmm_init(xs, T, L, N); Model m = read(t); hmm_close(t);
        mon.check(xs.vec() == x, "inputs-untouched", "data");
        mon.check(m.N == N && m.L == L && stochastic(m.p0, 1e-9), "initial-distribution", "N=%d L=%d", m.N, m.L);
        for (int i = 0; i < N; ++i) mon.check(stochastic(m.a[i], 1e-9), "initial-distribution", "row %d", i);
        for (int d = 0; d < L; ++d) {
            LD mean = 0, var = 0; for (auto &v : x) mean += v[d] / T; for (auto &v : x) var += (v[d] - mean) * (v[d] - mean) / (T - 1);
            for (int e = 0; e < L; ++e) mon.close(m.cov[d][e], d == e ? (double)var : 0, 1e-10 * (gain * gain + (double)var), "initial-covariance", fmt("[%d][%d]", d, e).c_str());
            for (int i = 0; i < N; ++i) mon.check(fabsl(m.mu[i][d] - mean) <= 0.25L * sqrtl(var) + 1e-9L * gain, "initial-means-near-centre", "state %d dim %d: %g, mean %Lg sd %Lg", i, d, m.mu[i][d], mean, sqrtl(var));
        }
    });
    mon.group("decode", mon.n(300, 3000), [](Case &c) {
        Rng &r = c.rng;
        int N = r.range(1, 12), T = r.pick({1, 2, 3, r.range(1, 100), r.range(50, 500)}), L = r.range(1, 6);
        if (r.chance(0.06)) { T = r.range(1500, 6000); } else if (r.chance(0.05)) { N = r.range(20, 45); T = std::min(T, 200); L = r.range(5, 21); }
        if (c.idx % 60 == 7) { N = r.pick({256, 257, r.range(258, 400)}); T = r.range(4, 20); L = r.range(1, 3); }        // more states, or a longer sequence, than
        if (c.idx % 100 == 37) { N = r.range(2, 3); T = r.pick({r.range(33000, 40000), r.range(66000, 80000)}); L = r.range(1, 2); }   // small integers can count
        bool zeros = r.chance(0.4); double sep = r.pick({0.0, r.uni(0, 1), r.uni(0, 5), 60.0});
        Model m = randomModel(r, N, L, zeros, sep);
        dmat x = generate(r, m, T);
        if (r.chance(0.2)) for (auto &v : x) for (auto &y : v) y = 30 * r.gauss();
        c.say("N=%d T=%d L=%d%s sep=%.3g", N, T, L, zeros ? " zeros" : "", sep);
        CModel cm(m); Mat xs(x); Guarded<int> q(T, -9);
        long h0 = heapBytes(); viterbi_decode(xs, T, &cm.t, q); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "viterbi_decode left %ld bytes", h1 - h0);
        Model g = read(&cm.t);
        mon.check(xs.vec() == x && q.intact() && g.p0 == m.p0 && g.a == m.a && g.mu == m.mu && g.cov == m.cov, "inputs-untouched", "decode");
        std::vector<int> p = q.vec();
        for (int t = 0; t < T; ++t) if (!mon.check(p[t] >= 0 && p[t] < N, "state-range", "t=%d: %d", t, p[t])) return;
        lmat lb = obs(m, x); LD best = bestScore(m, lb), got = pathScore(m, lb, p);
        if (best == -INFINITY) { mon.count("impossible"); return; }
        mon.check(got >= best - 1e-8L * (1 + fabsl(best)), "most-probable-path", "log score %.12Lg, best path %.12Lg", got, best);
        mon.sawHash(hashBytes(p.data(), p.size() * sizeof(int)));
    });
    mon.group("train", mon.n(160, 1600), [](Case &c) {
        Rng &r = c.rng; g_rand = r.u64();
        int S = r.range(1, 5), L = r.range(1, 6), N = r.pick({1, 2, r.range(2, 8), r.range(5, 40)}), T = r.range(std::max(30, 4 * L + 8), 200);
        if (r.chance(0.06)) { T = r.range(600, 1500); N = std::min(N, 10); }
        double sep = r.pick({0.0, 1.0, 5.0, 50.0});
        if (r.chance(0.25)) { S = 2; L = r.range(1, 3); N = r.range(15, 45); T = r.range(40, 130); sep = 50; }    // many states, far apart: some are never visited
        Model src = randomModel(r, S, L, false, sep);
        for (int i = 0; i < S; ++i) for (int j = 0; j < S; ++j) src.a[i][j] = S == 1 ? 1 : i == j ? 0.9 : 0.1 / (S - 1);
        dmat x = generate(r, src, T);
        double gain = r.chance(0.3) ? r.logUni(1e-4, 1e4) : r.logUni(0.1, 10); if (r.chance(0.1)) for (auto &v : x) for (auto &y : v) y = std::floor(4 * y); for (auto &v : x) for (auto &y : v) y *= gain;
        c.say("states=%d of %d L=%d T=%d sep=%g", N, S, L, T, sep);
        Mat xs(x); model_t *t = hmm_init(xs, T, L, N);
        LD before = posterior(read(t), obs(read(t), x)).loglik;
        long h0 = heapBytes(); hmm_train(xs, T, t); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "hmm_train left %ld bytes", h1 - h0);
        mon.check(xs.vec() == x, "inputs-untouched", "data");
        Model m = read(t); Guarded<int> q(T, -9); viterbi_decode(xs, T, t, q);
        hmm_close(t);
        mon.check(stochastic(m.p0, 1e-6), "trained-distribution", "initial probabilities");
        bool fin = true;
        for (int i = 0; i < N; ++i) {
            double s = 0; for (double v : m.a[i]) { s += v; fin = fin && std::isfinite(v); } fin = fin && allFinite(m.mu[i]);
            mon.check(stochastic(m.a[i], 1e-6) || s == 0, "trained-distribution", "row %d sums to %g", i, s);
        }
        for (auto &v : m.cov) fin = fin && allFinite(v);
        if (!mon.check(fin, "trained-model-finite", "N=%d T=%d L=%d", N, T, L)) return;
        for (int i = 0; i < T; ++i) mon.check(q[i] >= 0 && q[i] < N, "state-range", "t=%d: %d", i, q[i]);
        LD det, cond; inverse(m.cov, &det, &cond);
        if (!(cond <= 1e10)) { mon.count("ill_conditioned"); return; }
        LD after = posterior(m, obs(m, x)).loglik;
        mon.check(after >= before - 1e-6L * (1 + fabsl(before)), "training-does-not-worsen-fit", "log likelihood %.10Lg before, %.10Lg after", before, after);
        mon.maxim("gain_in_loglik", (double)(after - before));
    });
    // features that do not vary at all (silence): still a valid sequence of states
    mon.group("degenerate", mon.n(60, 300), [](Case &c) {
        Rng &r = c.rng; g_rand = r.u64();
        int L = r.range(1, 6), N = r.range(1, 40), T = r.range(2, 60), kind = r.range(0, 2);
        dmat x(T, dvec(L, 2.5));
        if (kind == 1) for (auto &v : x) for (int d = 1; d < L; ++d) v[d] = r.gauss();
        if (kind == 2) for (int t = T / 2; t < T; ++t) x[t] = dvec(L, -1.0);
        c.say("L=%d N=%d T=%d kind=%d", L, N, T, kind);
        Mat xs(x); Guarded<int> q(T, -9);
        long h0 = heapBytes(); model_t *t = hmm_init(xs, T, L, N); hmm_train(xs, T, t); viterbi_decode(xs, T, t, q); hmm_close(t); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "left %ld bytes", h1 - h0);
        mon.check(xs.vec() == x && q.intact(), "inputs-untouched", "data");
        for (int i = 0; i < T; ++i) mon.check(q[i] >= 0 && q[i] < N, "state-range", "t=%d: %d", i, q[i]);
    });
    return mon.finish();
}
