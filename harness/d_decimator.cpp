// C09: Decimator / DecimatorB against long-double direct-form models, and
// against frequency-domain expectations that do not use the coefficients.
#include "vf.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include <memory>
using namespace vf;
typedef long double LD;

static const double B8[] = {0.060111378492136, -0.257323420830598, 0.420583503165928, -0.222750785197418, -0.222750785197418, 0.420583503165928, -0.257323420830598, 0.060111378492136};
static const double A8[] = {1, -5.667654878577432, 14.062452278088417, -19.737303840697738, 16.889698874608641, -8.796600612325928, 2.577553446979888, -0.326903916815751};
static const double B4[] = {0.10133306904918619, -0.2447523353702363, 0.33622528590120965, -0.13936581560633518, -0.13936581560633382, 0.3362252859012087, -0.2447523353702358, 0.10133306904918594};
static const double A4[] = {1, -3.9035590278139427, 7.5299379980621133, -8.6890803793177511, 6.4578667096099176, -3.0242979431223631, 0.83043385136748382, -0.094420800837809335};
static const double B2[] = {0.20898944260075727, 0.40011234879814367, 0.819741973072733, 1.0087419911682323, 1.0087419911682325, 0.81974197307273156, 0.40011234879814295, 0.20898944260075661};
static const double A2[] = {1, 0.0077331184208358217, 1.9853971155964376, 0.19296739275341004, 1.2330748872852182, 0.18705341389316466, 0.23659265908013868, 0.032352924250533946};
static const double BB[] = {0.029588223638661, 0.177529341831965, 0.443823354579912, 0.591764472773216, 0.443823354579912, 0.177529341831965, 0.029588223638661};
static const double AB[] = {1, 0, 0.777695961855673, 0, 0.114199425062434, 0, 0.001750925956183};

struct Iir { // direct form, full history
    const double *b, *a; int n; std::vector<LD> xs, ys;
    Iir(const double *bb, const double *aa, int nn) : b(bb), a(aa), n(nn), xs(nn, 0), ys(nn, 0) {}
    LD step(LD x) {
        for (int i = n - 1; i > 0; --i) { xs[i] = xs[i - 1]; }
        xs[0] = x;
        LD y = 0;
        for (int i = 0; i < n; ++i) y += b[i] * xs[i];
        for (int i = 1; i < n; ++i) y -= a[i] * ys[i - 1];
        for (int i = n - 1; i > 0; --i) ys[i] = ys[i - 1];
        ys[0] = y;
        return y;
    }
};
struct RefA {
    int f; std::unique_ptr<Iir> q; int64_t t;
    RefA(int ff) : f(ff) { reset(); }
    void reset() { t = 0; q.reset(f == 2 ? new Iir(B2, A2, 8) : f == 4 ? new Iir(B4, A4, 8) : f == 8 ? new Iir(B8, A8, 8) : 0); }
    // one block; subsampling restarts with each block (block length is a multiple of f)
    dvec block(const dvec &x) { dvec o; for (size_t i = 0; i < x.size(); ++i) { LD y = q ? q->step(x[i]) : (LD)x[i]; if (i % f == 0) o.push_back((double)y); } return o; }
};
struct RefB {
    int f; std::vector<Iir> q;
    RefB(int ff) : f(ff) { for (int k = f; k > 1; k /= 2) q.push_back(Iir(BB, AB, 7)); }
    dvec block(const dvec &x) {
        dvec cur(x);
        for (auto &s : q) { dvec nx; for (size_t i = 0; i < cur.size(); ++i) { LD y = s.step(cur[i]); if (i % 2 == 0) nx.push_back((double)y); } cur = nx; }
        return cur;
    }
};

int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    mon.group("decimator", mon.n(700, 8000), [](Case &c) {
        Rng &r = c.rng;
        int f = r.pick({1, 2, 4, 8, 2, 4, 8});
        int len = f * r.pick({1, 2, 3, r.range(1, 20), r.range(1, 300), 512 / f, 1024 / f, r.chance(0.1) ? 65536 / f : 4, r.chance(0.05) ? r.range(8200, 100000) / f : 6, r.chance(0.2) ? 8192 / f : 5});
        int blocks = r.range(1, 12);
        int mode = r.range(0, 3);   // double, float, double in place, float in place
        std::string kind;
        dvec x = signal(r, len * blocks, &kind, true); level(r, x, mode & 1 ? 1e-25 : 1e-200, mode & 1 ? 1e25 : 1e200);
        if (r.chance(0.1)) for (int i = len; i < len * blocks; ++i) x[i] = x[i - len];   // the same block again and again
        if (kind == "denormal" || kind == "tiny" || kind == "huge") for (auto &v : x) if (mode & 1) v = (float)v;
        c.say("factor=%d len=%d blocks=%d mode=%d %s", f, len, blocks, mode, kind.c_str());
        if (mode & 1) for (auto &v : x) v = (float)v;
        Decimator d(len, f);
        mon.check(d.getFactor() == f, "factor", "%d", d.getFactor());
        RefA ref(f);
        double amp = maxAbs(x) + 1e-300, tol = amp * ((mode & 1) ? 2e-6 : 1e-8);
        for (int k = 0; k < blocks; ++k) {
            if (r.chance(0.12)) { d.resetFilter(); ref.reset(); mon.count("resets"); }
            dvec blk(x.begin() + k * len, x.begin() + (k + 1) * len);
            dvec want = ref.block(blk);
            dvec got;
            if (mode == 0) { Guarded<double> in(blk), out(len / f, 7.5); d.process(in, out); got = out.vec(); mon.check(in.vec() == blk && out.intact(), "extent", "block %d", k); }
            else if (mode == 1) { std::vector<float> fb(blk.begin(), blk.end()); Guarded<float> in(fb), out(len / f, 7.5f); d.process(in, out); std::vector<float> o = out.vec(); got.assign(o.begin(), o.end()); mon.check(in.vec() == fb && out.intact(), "extent", "block %d", k); }
            else if (mode == 2) { Guarded<double> io(blk); d.process(io.p(), io.p()); got = io.vec(); got.resize(len / f); }
            else { std::vector<float> fb(blk.begin(), blk.end()); Guarded<float> io(fb); d.process(io.p(), io.p()); std::vector<float> o = io.vec(); got.assign(o.begin(), o.begin() + len / f); }
            if (!mon.closeVec(got, want, tol, "difference-equation", fmt("block %d", k).c_str())) break;
        }
        mon.saw(fmt("%d %d %d", f, len, mode));
    });
    // same stream, two block sizes: identical
    mon.group("decimator-blocking", mon.n(200, 2000), [](Case &c) {
        Rng &r = c.rng;
        bool useB = r.chance(0.5);
        int f = useB ? r.pick({2, 4, 8, 16, 32}) : r.pick({2, 4, 8});
        int unit = f * r.range(1, 8), k = r.range(2, 9), reps = r.range(1, 5);
        dvec x = signal(r, unit * k * reps);
        c.say("%s factor=%d small=%d large=%d", useB ? "B" : "A", f, unit, unit * k);
        dvec a(x.size() / f), b(x.size() / f);
        auto run = [&](int len, dvec &out) {
            if (useB) { DecimatorB d(len, f); for (size_t i = 0; i < x.size(); i += len) d.process(&x[i], &out[i / f]); }
            else { Decimator d(len, f); for (size_t i = 0; i < x.size(); i += len) d.process(&x[i], &out[i / f]); }
        };
        run(unit, a); run(unit * k, b);
        mon.closeVec(a, b, 1e-9 * (maxAbs(x) + 1e-300), "block-size-invariance", useB ? "DecimatorB" : "Decimator");
    });
    mon.group("decimatorb", mon.n(500, 6000), [](Case &c) {
        Rng &r = c.rng;
        int f = 1 << r.range(1, 7);
        int len = f * r.pick({1, 2, 3, r.range(1, 20), r.range(1, 60)});
        int blocks = r.range(1, 10);
        bool fl = r.chance(0.4);
        std::string kind;
        dvec x = signal(r, len * blocks, &kind, true); level(r, x, fl ? 1e-25 : 1e-200, fl ? 1e25 : 1e200);
        if (r.chance(0.1)) for (int i = len; i < len * blocks; ++i) x[i] = x[i - len];
        if (fl) for (auto &v : x) v = (float)v;
        c.say("factor=%d len=%d blocks=%d %s %s", f, len, blocks, fl ? "float" : "double", kind.c_str());
        DecimatorB d(len, f);
        mon.check(d.getFactor() == f, "factor", "%d", d.getFactor());
        RefB ref(f);
        double tol = (maxAbs(x) + 1e-300) * (fl ? 2e-6 : 1e-9);
        for (int k = 0; k < blocks; ++k) {
            dvec blk(x.begin() + k * len, x.begin() + (k + 1) * len), want = ref.block(blk), got;
            if (!fl) { Guarded<double> in(blk), out(len / f, 7.5); d.process(in, out); got = out.vec(); mon.check(in.vec() == blk && out.intact(), "extent", "block %d", k); }
            else { std::vector<float> fb(blk.begin(), blk.end()); Guarded<float> in(fb), out(len / f, 7.5f); d.process(in, out); std::vector<float> o = out.vec(); got.assign(o.begin(), o.end()); mon.check(in.vec() == fb && out.intact(), "extent", "block %d", k); }
            if (!mon.closeVec(got, want, tol, "difference-equation-b", fmt("block %d", k).c_str())) break;
        }
        mon.saw(fmt("b %d %d", f, len));
    });
    // factors outside the list: no filtering (with a warning), one sample kept in each
    mon.group("decimator-other-factors", mon.n(60, 300), [](Case &c) {
        Rng &r = c.rng; int f = r.pick({3, 5, 6, 7, 9, 16, 32, 64, r.range(3, 100)}); if (f == 4 || f == 8) f = 16;
        int len = f * r.range(1, 40), fl = r.range(0, 1); c.say("factor=%d len=%d %s", f, len, fl ? "float" : "double");
        Decimator d(len, f); RefA ref(f);
        for (int k = 0; k < 3; ++k) {
            dvec x = noise(r, len); std::vector<float> fx(x.begin(), x.end()); if (fl) x.assign(fx.begin(), fx.end());
            dvec want = ref.block(x), got;
            if (fl) { Guarded<float> in(fx), out(len / f, 3.5f); d.process(in, out); std::vector<float> o = out.vec(); got.assign(o.begin(), o.end()); mon.check(in.vec() == fx && out.intact(), "extent", "block %d", k); }
            else { Guarded<double> in(x), out(len / f, 3.5); d.process(in, out); got = out.vec(); mon.check(in.vec() == x && out.intact(), "extent", "block %d", k); }
            if (!mon.closeVec(got, want, 1e-12 * maxAbs(x), "unsupported-factor-unfiltered", fmt("block %d", k).c_str())) break;
        }
    });
    mon.group("decimatorb-refuses", mon.n(60, 300), [](Case &c) {
        Rng &r = c.rng;
        int f, len = r.range(1, 200);
        do { f = r.chance(0.2) ? r.range(-2, 1) : r.range(-3, 70); } while (f >= 2 && !(f & (f - 1)) && len % f == 0);
        c.say("factor=%d len=%d", f, len);
        DecimatorB d(len, f);
        dvec x = noise(r, len);
        Guarded<double> in(x), out(len, 3.5);
        d.process(in, out);
        for (int i = 0; i < len; ++i) if (!mon.check(out[i] == 3.5, "invalid-configuration-refused", "factor %d len %d wrote output %d", f, len, i)) break;
        mon.check(d.getFactor() == 0, "invalid-configuration-refused", "factor %d len %d accepted as %d", f, len, d.getFactor());
    });
    // one object through very many blocks
    mon.group("long-lived", mon.n(24, 160), [](Case &c) {
        Rng &r = c.rng; bool useB = c.idx & 1, fl = r.chance(0.4);
        int f = useB ? 1 << r.range(1, 5) : r.pick({2, 4, 8}), len = f * r.range(1, 3), blocks = r.pick({70000, 9000}) / (f > 8 ? 4 : 1);
        c.say("%s factor=%d len=%d blocks=%d %s", useB ? "B" : "A", f, len, blocks, fl ? "float" : "double");
        std::unique_ptr<Decimator> a(useB ? 0 : new Decimator(len, f)); std::unique_ptr<DecimatorB> b(useB ? new DecimatorB(len, f) : 0);
        RefA ra(f); RefB rb(f); double tol = fl ? 2e-6 : 1e-8;
        dvec x(len), got(len / f); std::vector<float> fx(len), fg(len / f);
        for (int k = 0; k < blocks; ++k) {
            for (auto &v : x) { v = r.uni(-1, 1); if (fl) v = (float)v; }
            std::copy(x.begin(), x.end(), fx.begin());
            if (useB) { if (fl) b->process(fx.data(), fg.data()); else b->process(x.data(), got.data()); } else { if (fl) a->process(fx.data(), fg.data()); else a->process(x.data(), got.data()); }
            if (fl) std::copy(fg.begin(), fg.end(), got.begin());
            dvec want = useB ? rb.block(x) : ra.block(x);
            if (!mon.closeVec(got, want, tol, useB ? "difference-equation-b" : "difference-equation", fmt("block %d", k).c_str())) return;
        }
    });
    // spectral behaviour, independent of the coefficients
    mon.group("band", mon.n(160, 1600), [](Case &c) {
        Rng &r = c.rng;
        bool useB = r.chance(0.5);
        int f = useB ? r.pick({2, 4, 8, 16}) : r.pick({2, 4, 8});
        bool pass = r.chance(0.5);
        double fr;                               // relative to output Nyquist
        if (!useB && r.chance(0.3)) f = Decimator::getHighestSupportedFactor();   // whatever it says it supports
        if (pass) fr = r.uni(0.01, useB ? 0.5 : 0.7);
        else fr = r.uni(useB ? 1.75 : 1.35, useB ? 2.0 : (double)f);
        if (useB && !pass && f > 2) fr = r.uni(1.8, 2.0);
        double w = fr * M_PI / f;
        int n = f * 1500;
        c.say("%s factor=%d freq/out-nyquist=%.4g %s", useB ? "B" : "A", f, fr, pass ? "pass" : "stop");
        dvec x(n), y(n / f);
        for (int i = 0; i < n; ++i) x[i] = std::cos(w * i + 0.3);
        if (useB) { DecimatorB d(n, f); d.process(x.data(), y.data()); } else { Decimator d(n, f); d.process(x.data(), y.data()); }
        double pw = 0; int cnt = 0;
        for (int i = 500; i < n / f; ++i, ++cnt) pw += y[i] * y[i];
        double rms = std::sqrt(2 * pw / cnt);
        if (pass) mon.check(rms > 0.85 && rms < 1.12, "passband-gain", "gain %.4g at %.3g of output Nyquist", rms, fr);
        else mon.check(rms < 0.16, "alias-rejection", "gain %.4g at %.3g of output Nyquist", rms, fr);
        mon.maxim(pass ? "passband_gain" : "stopband_gain", rms);
    });
    return mon.finish();
}
