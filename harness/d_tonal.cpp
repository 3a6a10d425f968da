// C26: tonal centroid and harmonic change detection.
#include "vf.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
using namespace vf;
typedef long double LD;
static ChromaVector chroma(Rng &r, std::string *k) {
    ChromaVector v;
    int s = r.range(0, 6);
    static const char *n[] = {"random", "triad", "zero", "single", "flat", "signed", "tied"};
    *k = n[s];
    int root = r.range(0, 11);
    for (int i = 0; i < 12; ++i) {
        int d = (i - root + 12) % 12;
        v[i] = s == 0 ? r.uni() : s == 1 ? (d == 0 || d == 4 || d == 7) : s == 2 ? 0.0 : s == 3 ? d == 0 : s == 5 ? r.uni(-1, 1) : s == 6 ? 0.5 * r.range(0, 2) : 1.0;
    }
    return v;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("centroid", mon.n(1500, 20000), [](Case &c) {
        Rng &r = c.rng;
        std::string k;
        ChromaVector v = chroma(r, &k);
        double g = r.pick({1.0, r.logUni(1e-3, 1e3), r.logUni(1e-100, 1e100)});
        for (int i = 0; i < 12; ++i) v[i] *= g;
        c.say("%s gain=%g", k.c_str(), g);
        TonalEstimator te;
        TCSVector t = te.transform2TCS(v);
        LD w[6] = {0}, rad[3] = {1, 0.6L, 1.1L}, st[3] = {7.0L / 6, 2.0L / 3, 3.0L / 2};
        for (int d = 0; d < 3; ++d) for (int i = 0; i < 12; ++i) { w[2 * d] += v[i] * rad[d] * sinl(st[d] * i * M_PIl); w[2 * d + 1] += v[i] * rad[d] * cosl(st[d] * i * M_PIl); }
        LD m2 = 0;
        for (int d = 0; d < 6; ++d) { mon.close(t[d], (double)w[d], 1e-10 * 12 * g, "tonal-centroid", fmt("dimension %d", d).c_str()); m2 += w[d] * w[d]; }
        mon.close(t.magnitude(), (double)sqrtl(m2), 1e-9 * 12 * g, "magnitude", "magnitude");
        // transposition rotates each circle
        int tr = r.range(0, 11);
        ChromaVector u; for (int i = 0; i < 12; ++i) u[(i + tr) % 12] = v[i];
        TCSVector t2 = te.transform2TCS(u);
        for (int d = 0; d < 3; ++d) mon.close(std::hypot(t2[2 * d], t2[2 * d + 1]), std::hypot(t[2 * d], t[2 * d + 1]), 1e-9 * 12 * g, "transposition-rotates", fmt("circle %d by %d", d, tr).c_str());
        ChromaVector z = v; z.normalizeL1();
        double s = 0, sv = 0; for (int i = 0; i < 12; ++i) { s += std::fabs(z[i]); sv += std::fabs(v[i]); }
        if (sv > 2e-7) { mon.close(s, 1, 1e-12, "l1-normalised", "sum"); for (int i = 0; i < 12; ++i) mon.close(z[i], v[i] / sv, 1e-12, "l1-normalised", "element"); }
        if (sv == 0) mon.check(s == 0, "l1-normalised", "zero stays zero");
        z.clear(); for (int i = 0; i < 12; ++i) mon.check(z[i] == 0, "clear", "%d", i);
    });
    mon.group("change", mon.n(1200, 15000), [](Case &c) {
        Rng &r = c.rng;
        int width = r.pick({0, 1, 2, 5, r.range(0, 20), r.chance(0.2) ? r.range(20, 80) : 3}), n = r.pick({0, 1, 2, 3, width, 2 * width + 1, r.range(0, 80), r.chance(0.1) ? r.range(300, 1500) : 9}), style = r.range(0, 2);
        double dur = r.pick({10.0, 46.4, r.uni(1, 500), 1e6 / 3});
        bool setdur = r.chance(0.7);
        c.say("width=%d frames=%d style=%d duration=%g", width, n, style, setdur ? dur : -1);
        TCSGram g;
        g.setFrameDuration(dur);
        TonalEstimator te;
        std::vector<TCSVector> v;
        std::string k;
        ChromaVector ch = chroma(r, &k);
        double lev = r.pick({1.0, 1.0, r.logUni(1e-8, 1e8), r.logUni(1e-60, 1e60)});
        for (int i = 0; i < n; ++i) {
            if (style == 0 || (style == 1 && r.chance(0.1))) ch = chroma(r, &k);
            ChromaVector cl = ch; for (int d = 0; d < 12; ++d) cl[d] *= lev;
            TCSVector t = te.transform2TCS(cl);
            v.push_back(t); g.addTCSVector(t);
        }
        mon.check(g.getSize() == n, "gram-size", "%d", g.getSize());
        mon.check(g.getDuration() == (long)(n * dur), "gram-duration", "%ld expected %ld", g.getDuration(), (long)(n * dur));
        for (int i = 0; i < n; ++i) {
            TCSVector t; g.getTCSVector(i, t);
            bool same = true; for (int d = 0; d < 6; ++d) same = same && t[d] == v[i][d];
            mon.check(same && g.getTime(i) == (long)(i * dur), "gram-contents", "%d", i);
        }
        TCSVector o; o[0] = 5; g.getTCSVector(-1, o); mon.check(o.magnitude() == 0, "gram-outside-zero", "-1");
        o[0] = 5; g.getTCSVector(n, o); mon.check(o.magnitude() == 0, "gram-outside-zero", "n");
        ChangeDFConfig cf; cf.smoothingWidth = width;
        ChangeDetectionFunction df(cf);
        for (int rep = 0; rep < 2; ++rep) {
            ChangeDistance d = df.process(g);
            if (!mon.check((int)d.size() == n, "change-length", "%zu of %d", d.size(), n)) return;
            int fw = 2 * width + 1; LD sigma = fw / (2 * 2.3548L);
            std::vector<std::vector<LD>> s(n, std::vector<LD>(6, 0));
            for (int i = 0; i < n; ++i) for (int x = -width; x <= width; ++x) if (i + x >= 0 && i + x < n)
                for (int k = 0; k < 6; ++k) s[i][k] += v[i + x][k] * expl(-(LD)x * x / (2 * sigma * sigma)) / (sigma * sqrtl(2 * M_PIl));
            for (int i = 0; i < n; ++i) {
                LD t = 0;
                for (int k = 0; k < 6; ++k) { LD a = i + 1 < n ? s[i + 1][k] : 0, b = i > 0 ? s[i - 1][k] : 0; t += (a - b) * (a - b); }
                if (!mon.close(d[i], (double)sqrtl(t), 1e-10 * lev, "change-function", fmt("frame %d of %d", i, n).c_str())) return;
                if (style == 2 && i > width && i + 1 + width < n) mon.check(d[i] < 1e-9 * lev, "steady-harmony-no-change", "frame %d: %g", i, d[i]);
            }
        }
    });
    return mon.finish();
}
