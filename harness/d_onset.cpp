// C13: phase vocoder and onset detection functions.
#include "vf.h"
#include "ref.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include "dsp/onsets/DetectionFunction.h"
#include <memory>
using namespace vf;

struct DfModel {
    int n, type; double rise; bool white; double relax, flr;
    dvec mh, ph, po, pk, e1, e2;   // e1,e2: phase uncertainty of the two history frames
    DfModel(const DFConfig &c) : n(c.frameLength / 2 + 1), type(c.DFType), rise(c.dbRise), white(c.adaptiveWhitening), relax(c.whiteningRelaxCoeff), flr(c.whiteningFloor),
        mh(n, 0.0), ph(n, 0.0), po(n, 0.0), pk(n, 0.0), e1(n, 0.0), e2(n, 0.0) { if (relax < 0) relax = 0.9997; if (flr < 0) flr = 0.01; }
    // returns value, tolerance and (broadband) how many bins are too close to call; `merr` bounds the error of mag
    double step(dvec &mag, const dvec &th, double merr, double &tol, int &slack) {
        tol = 0; slack = 0;
        dvec e(n, merr), e0(n);
        for (int i = 0; i < n; ++i) e0[i] = merr == 0 ? 1e-12 : mag[i] > 0 ? std::min(M_PI, 2 * merr / mag[i]) : M_PI;
        if (white) for (int i = 0; i < n; ++i) {
            double m = mag[i];
            if (m < pk[i]) m = m + (pk[i] - m) * relax;
            if (m < flr) m = flr;
            pk[i] = m; mag[i] /= m; e[i] = merr / m;
        }
        double v = 0;
        for (int i = 0; i < n; ++i) {
            double m = mag[i], dev = ref::princarg(th[i] - 2 * ph[i] + po[i]);
            switch (type) {
            case DF_HFC: v += m * (i + 1); tol += (e[i] + 1e-12 * m) * (i + 1); break;
            case DF_SPECDIFF: v += std::sqrt(std::fabs(m * m - mh[i] * mh[i])); tol += std::sqrt((m + mh[i]) * 2 * (e[i] + 1e-14 * (m + mh[i]))) + 1e-150; mh[i] = m; break;
            case DF_PHASEDEV: v += std::fabs(dev); tol += std::min(2 * M_PI, 1e-9 + e0[i] + 2 * e1[i] + e2[i]); e2[i] = e1[i]; e1[i] = e0[i]; po[i] = ph[i]; ph[i] = th[i]; break;
            case DF_COMPLEXSD: { v += std::abs(cpx(mh[i], 0) - m * std::polar(1.0, dev)); tol += 4 * e[i] + 1e-10 * (m + mh[i]) + std::min(m, mh[i] + m) * std::min(2.0, e0[i] + 2 * e1[i] + e2[i]); e2[i] = e1[i]; e1[i] = e0[i]; po[i] = ph[i]; ph[i] = th[i]; mh[i] = m; } break;
            case DF_BROADBAND: {
                double s = m * m;
                if (mh[i] > 0 && s > 0) { double d = 10 * std::log10(s / mh[i]); double g = 1e-6 + (merr > 0 ? 20 * e[i] / m + 20 * e[i] / std::sqrt(mh[i]) : 0); if (std::fabs(d - rise) < g || merr >= 1e-3 * m) slack++; if (d > rise) v += 1; }
                else if (merr > 0) slack++;
                mh[i] = s;
            } break;
            }
        }
        return v;
    }
};
static DFConfig config(Rng &r, int type, int n) {
    DFConfig d;
    d.frameLength = n; d.stepSize = r.pick({n / 2, n, std::max(1, n / 4), std::max(1, n / 8)}); d.DFType = type; d.dbRise = r.pick({3.0, 0.0, r.uni(-3, 12)});
    d.adaptiveWhitening = r.chance(0.4); d.whiteningRelaxCoeff = r.pick({-1.0, r.uni(0, 1), 0.9, 0.0, 1.0}); d.whiteningFloor = r.pick({-1.0, r.uni(0, 1), 1e-3, 1e-6});
    return d;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("phase-vocoder", mon.n(500, 6000), [](Case &c) {
        Rng &r = c.rng;
        int n = 2 * r.pick({1, 2, 3, 4, 5, 8, 16, 32, 50, r.range(1, 100), 128, 256, r.chance(0.3) ? 512 : 7, r.chance(0.2) ? 1024 : 9, r.chance(0.1) ? 2048 : 11, r.chance(0.05) ? 16384 : 13});
        int hop = r.pick({n / 2, n, std::max(1, n / 4), r.range(1, n), r.chance(0.3) ? 3 * n : 1}), b = n / 2 + 1;
        bool freq = r.chance(0.4);
        c.say("n=%d hop=%d %s", n, hop, freq ? "freq" : "time");
        PhaseVocoder pv(n, hop);
        dvec prev(b), unw(b), lre, lim, lx;
        auto rs = [&] { for (int i = 0; i < b; ++i) prev[i] = unw[i] = -2 * M_PI * hop * i / n; };
        rs();
        for (int f = 0, frames = r.range(1, 12); f < frames; ++f) {
            if (r.chance(0.1)) { pv.reset(); rs(); mon.count("resets"); }
            Guarded<double> mag(b, 9e9), th(b, 9e9), un(b, 9e9);
            std::vector<cpx> X;
            double err;
            if (freq) {
                dvec re = noise(r, b, 3), im = noise(r, b, 3);
                if (r.chance(0.2)) im = dvec(b, 0.0);
                if (r.chance(0.3)) { re = signal(r, b); if (r.chance(0.5)) im = signal(r, b); double g = level(r, re, 1e-100, 1e100); for (auto &v : im) v *= g; }
                if (f && r.chance(0.15)) { re = lre; im = lim; } lre = re; lim = im;   // a frame like the one before
                X.resize(b); for (int i = 0; i < b; ++i) X[i] = cpx(re[i], im[i]);
                Guarded<double> gr(re), gi(im);
                pv.processFrequencyDomain(gr, gi, mag, th, un);
                mon.check(gr.vec() == re && gi.vec() == im, "inputs-untouched", "freq");
                err = 0;
            } else {
                std::string k; dvec x = signal(r, n, &k); level(r, x, 1e-100, 1e100); if (f && r.chance(0.15)) x = lx; lx = x;
                dvec sh(n); for (int i = 0; i < n; ++i) sh[i] = x[(i + n / 2) % n];
                X = ref::spectrum(sh);
                Guarded<double> g(x);
                pv.processTimeDomain(g, mag, th, un);
                mon.check(g.vec() == x, "inputs-untouched", "time");
                double e = 0; for (double v : x) e += std::fabs(v);
                err = 1e-12 * e;
            }
            mon.check(mag.intact() && th.intact() && un.intact(), "extent", "frame %d", f);
            for (int i = 0; i < b; ++i) {
                double m = std::abs(X[i]), ph = std::arg(X[i]);
                if (!mon.close(mag[i], m, err + 1e-12 * m + 1e-150, "magnitude", fmt("frame %d bin %d", f, i).c_str())) return;
                if (m > 1e4 * err) {
                    double d = ref::princarg(th[i] - ph);
                    if (!mon.check(std::fabs(d) < 1e-9 + 10 * err / m, "phase", "frame %d bin %d: %g expected %g", f, i, th[i], ph)) return;
                }
                mon.check(th[i] >= -M_PI - 1e-9 && th[i] <= M_PI + 1e-9, "phase-range", "%g", th[i]);
                // unwrapped: congruent to the phase, and advance within half a turn of the expected one
                double om = 2 * M_PI * hop * i / n, mag0 = 1 + std::fabs(un[i]) + std::fabs(unw[i]);
                double d = ref::princarg(un[i] - th[i]);
                if (!mon.check(std::fabs(d) < 1e-9 * mag0, "unwrapped-congruent", "frame %d bin %d: unwrapped %g phase %g", f, i, un[i], th[i])) return;
                double adv = un[i] - unw[i] - om;
                if (!mon.check(std::fabs(adv) <= M_PI + 1e-9 * mag0, "unwrapped-advance", "frame %d bin %d: advance error %g", f, i, adv)) return;
                unw[i] = un[i]; prev[i] = th[i];
            }
        }
    });
    // a stationary bin-centred sinusoid advances by exactly the expected phase
    mon.group("phase-vocoder-sine", mon.n(150, 1500), [](Case &c) {
        Rng &r = c.rng;
        int n = 1 << r.range(4, 9), hop = n / r.pick({2, 4, 8}), bin = r.range(2, n / 2 - 2);
        double ph0 = r.uni(-3, 3), off = r.uni(-0.3, 0.3);
        double w = 2 * M_PI * (bin + off * r.range(0, 1)) / n;
        c.say("n=%d hop=%d bin=%d w=%g", n, hop, bin, w);
        PhaseVocoder pv(n, hop);
        Window<double> win(HanningWindow, n);
        dvec last, wv(n, 1.0); win.cut(wv.data());
        // how far the image at -w can pull the phase at this bin: twice asin of the ratio of the window's transforms
        cpx direct = 0, image = 0;
        for (int i = 0; i < n; ++i) { double wb = 2 * M_PI * bin / n; direct += wv[i] * std::polar(1.0, (w - wb) * i); image += wv[i] * std::polar(1.0, (-w - wb) * i); }
        double tol = 2 * std::asin(std::min(1.0, std::abs(image) / std::abs(direct))) + 1e-6;
        for (int f = 0; f < 6; ++f) {
            dvec x(n), mag(n / 2 + 1), th(n / 2 + 1), un(n / 2 + 1);
            for (int i = 0; i < n; ++i) x[i] = std::cos(w * (i + f * hop) + ph0);
            win.cut(x.data());
            pv.processTimeDomain(x.data(), mag.data(), th.data(), un.data());
            int pk = std::max_element(mag.begin(), mag.end()) - mag.begin();
            mon.check(std::abs(pk - bin) <= 1, "sine-peak-bin", "%d expected %d", pk, bin);
            if (f > 0 && std::fabs(off) * hop / n < 0.4) mon.close(un[bin] - last[bin], w * hop, tol, "sine-phase-advance", fmt("frame %d", f).c_str());
            last = un;
        }
    });
    mon.group("detection-frequency-domain", mon.n(900, 10000), [](Case &c) {
        Rng &r = c.rng;
        int type = 1 + c.idx % 5, n = 2 * r.pick({1, 2, 4, 8, 16, 32, 64, r.range(1, 80), 256, r.chance(0.5) ? 512 : 3, r.chance(0.3) ? 1024 : 5}), b = n / 2 + 1;
        DFConfig cf = config(r, type, n);
        c.say("type=%d n=%d step=%d whiten=%d(%g,%g) rise=%g", type, n, cf.stepSize, cf.adaptiveWhitening, cf.whiteningRelaxCoeff, cf.whiteningFloor, cf.dbRise);
        DetectionFunction df(cf); DfModel m(cf);
        double g = r.pick({1.0, r.logUni(1e-3, 1e3), r.logUni(1e-60, 1e60)}); dvec lre, lim;
        for (int f = 0, frames = r.range(1, 12); f < frames; ++f) {
            int st = r.range(0, 4);
            dvec re = noise(r, b, g), im = noise(r, b, g);
            if (st == 3) re = im = dvec(b, 0.0);
            if (st == 4) { for (auto &x : re) x *= 100; for (auto &x : im) x *= 100; }
            if (r.chance(0.2)) { re = signal(r, b); im = signal(r, b); for (auto &v : re) v *= g; for (auto &v : im) v *= g; }
            if (f && r.chance(0.15)) { re = lre; im = lim; }
            lre = re; lim = im;
            Guarded<double> gr(re), gi(im);
            double got = df.processFrequencyDomain(gr, gi), tol; int slack;
            dvec mag(b), th(b); for (int i = 0; i < b; ++i) { mag[i] = std::hypot(re[i], im[i]); th[i] = std::atan2(im[i], re[i]); }
            double want = m.step(mag, th, 0, tol, slack);
            mon.check(gr.vec() == re && gi.vec() == im && gr.intact() && gi.intact(), "inputs-untouched", "frame %d", f);
            static const char *rule[] = {"", "high-frequency-content", "spectral-difference", "phase-deviation", "complex-domain", "broadband-rise"};
            if (type == DF_BROADBAND) { if (!mon.check(std::fabs(got - want) <= slack, rule[type], "frame %d: %g expected %g (+-%d)", f, got, want, slack)) return; }
            else if (!mon.close(got, want, tol + 1e-9 * want, rule[type], fmt("frame %d", f).c_str())) return;
            mon.closeVec(df.getSpectrumMagnitude(), mag.data(), b, 1e-9 * (maxAbs(mag) + 1e-300), "spectrum-magnitude", "magnitude");
            mon.saw(fmt("%d %s", type, bucket(got).c_str()));
        }
    });
    // long histories, and both entry points used on one object
    mon.group("long-lived", mon.n(40, 300), [](Case &c) {
        Rng &r = c.rng; int type = 1 + c.idx % 5, n = 2 * r.pick({1, 2, 4, r.range(2, 12)}), b = n / 2 + 1;
        DFConfig cf = config(r, type, n); bool mixed = r.chance(0.5);
        c.say("type=%d n=%d whiten=%d(%g,%g)%s", type, n, cf.adaptiveWhitening, cf.whiteningRelaxCoeff, cf.whiteningFloor, mixed ? " both domains" : "");
        DetectionFunction df(cf); DfModel m(cf); std::vector<cpx> X; dvec re(b), im(b), mag(b), th(b); double level = 1;
        for (int f = 0, frames = c.idx < 5 ? 70000 : r.range(500, 3000); f < frames; ++f) {
            if (r.chance(0.01)) level = r.logUni(1e-3, 1e3);
            double got, tol, merr = 0, e = 0; int slack;
            if (mixed && r.chance(0.5)) {
                dvec x = noise(r, n, level), w(n);
                for (int i = 0; i < n; ++i) { int s = (i + n / 2) % n; w[i] = x[s] * (0.5 - 0.5 * std::cos(2 * M_PI * s / n)); e += std::fabs(w[i]); }
                X = ref::spectrum(w); for (int i = 0; i < b; ++i) { mag[i] = std::abs(X[i]); th[i] = std::arg(X[i]); }
                merr = 1e-12 * e; got = df.processTimeDomain(x.data());
            } else {
                for (int i = 0; i < b; ++i) { re[i] = r.uni(-level, level); im[i] = r.uni(-level, level); mag[i] = std::hypot(re[i], im[i]); th[i] = std::atan2(im[i], re[i]); }
                got = df.processFrequencyDomain(re.data(), im.data()); merr = mixed ? 1e-13 * level : 0;
            }
            double want = m.step(mag, th, merr, tol, slack);
            bool ok = type == DF_BROADBAND ? std::fabs(got - want) <= slack : std::fabs(got - want) <= tol + 1e-9 * want + 1e-9 * e;
            if (!ok) { mon.check(false, "long-history", "type %d frame %d: %g expected %g (tolerance %g)", type, f, got, want, tol); return; }
            mon.passed("long-history", 1);
        }
    });
    mon.group("phase-vocoder-long", mon.n(16, 100), [](Case &c) {
        Rng &r = c.rng; int n = 2 * r.pick({1, 2, 4, r.range(2, 12)}), hop = r.pick({n / 2, n, std::max(1, n / 4)}), b = n / 2 + 1;
        c.say("n=%d hop=%d", n, hop);
        PhaseVocoder pv(n, hop); dvec unw(b), re(b), im(b), mag(b), th(b), un(b);
        for (int i = 0; i < b; ++i) unw[i] = -2 * M_PI * hop * i / n;
        for (int f = 0; f < (c.idx < 4 ? 70000 : 5000); ++f) {
            for (int i = 0; i < b; ++i) { re[i] = r.uni(-1, 1); im[i] = r.uni(-1, 1); }
            pv.processFrequencyDomain(re.data(), im.data(), mag.data(), th.data(), un.data());
            for (int i = 0; i < b; ++i) {
                double m0 = 1 + std::fabs(un[i]), d = ref::princarg(un[i] - th[i]), adv = un[i] - unw[i] - 2 * M_PI * hop * i / n;
                if (!(std::fabs(mag[i] - std::hypot(re[i], im[i])) < 1e-12 && std::fabs(ref::princarg(th[i] - std::atan2(im[i], re[i]))) < 1e-9 && std::fabs(d) < 1e-9 * m0 && std::fabs(adv) <= M_PI + 1e-9 * m0)) { mon.check(false, "long-history", "frame %d bin %d: magnitude %g phase %g unwrapped %g before %g", f, i, mag[i], th[i], un[i], unw[i]); return; }
                unw[i] = un[i];
            }
            mon.passed("long-history", 1);
        }
    });
    mon.group("detection-time-domain", mon.n(500, 6000), [](Case &c) {
        Rng &r = c.rng;
        int type = 1 + c.idx % 5, n = 2 * r.pick({2, 4, 8, 16, 32, 64, r.range(2, 60), 256, r.chance(0.5) ? 512 : 3, r.chance(0.3) ? 1024 : 5, r.chance(0.1) ? 8192 : 7}), b = n / 2 + 1;
        DFConfig cf = config(r, type, n);
        c.say("type=%d n=%d step=%d whiten=%d", type, n, cf.stepSize, cf.adaptiveWhitening);
        double far = r.chance(0.2) ? r.logUni(1e-60, 1e60) : 1;
        DetectionFunction df(cf); DfModel m(cf);
        for (int f = 0, frames = r.range(1, 8); f < frames; ++f) {
            int st = r.range(0, 3);
            dvec x = st == 0 ? noise(r, n) : st == 1 ? noise(r, n, 30) : st == 2 ? noise(r, n, 0.01) : signal(r, n);
            if (type == DF_PHASEDEV || type == DF_BROADBAND) x = noise(r, n, r.logUni(0.01, 10));
            for (auto &v : x) v *= far;
            Guarded<double> g(x);
            double got = df.processTimeDomain(g), tol; int slack;
            dvec w(n); double e = 0;
            for (int i = 0; i < n; ++i) { int s = (i + n / 2) % n; w[i] = x[s] * (0.5 - 0.5 * std::cos(2 * M_PI * s / n)); e += std::fabs(w[i]); }
            std::vector<cpx> X = ref::spectrum(w);
            dvec mag(b), th(b); for (int i = 0; i < b; ++i) { mag[i] = std::abs(X[i]); th[i] = std::arg(X[i]); }
            if (e == 0) for (double v : x) if (v == 0 && std::signbit(v)) e = 1e-280;      // the phase of a frame of negative zeros is anyone's
            double want = m.step(mag, th, 1e-12 * e, tol, slack);
            mon.check(g.vec() == x && g.intact(), "inputs-untouched", "frame %d", f);
            if (type == DF_BROADBAND) mon.check(std::fabs(got - want) <= slack, "time-domain-detection", "type %d frame %d: %g expected %g (+-%d)", type, f, got, want, slack);
            else mon.close(got, want, tol + 1e-9 * want + 1e-9 * e, "time-domain-detection", fmt("type %d frame %d", type, f).c_str());
        }
    });
    return mon.finish();
}
