// C16: MFCC against an independent filterbank + cosine transform.
#include "vf.h"
#include "ref.h"
#include "dsp/mfcc/MFCC.h"
using namespace vf;

struct Bank {
    int n, half; std::vector<dvec> w;
    Bank(int fs, int n_) : n(n_), half(n_ / 2) {
        dvec f(42);
        for (int i = 0; i < 13; ++i) f[i] = 66.6666666 + i * 66.66666666;
        for (int i = 13; i < 42; ++i) f[i] = f[12] * std::pow(1.0711703, i - 12);
        for (int i = 0; i < 40; ++i) {
            dvec r(half, 0.0);
            double h = 2 / (f[i + 2] - f[i]);
            for (int j = 0; j < half; ++j) {
                double q = (double)j / n * fs;
                if (q > f[i] && q <= f[i + 1]) r[j] = h * (q - f[i]) / (f[i + 1] - f[i]);
                else if (q > f[i + 1] && q < f[i + 2]) r[j] = h * (f[i + 2] - q) / (f[i + 2] - f[i + 1]);
            }
            w.push_back(r);
        }
    }
    dvec energies(const std::vector<cpx> &X) const {
        dvec e(40, 0.0);
        for (int i = 0; i < 40; ++i) for (int j = 0; j < half; ++j) e[i] += w[i][j] * std::abs(X[j]);
        return e;
    }
};
static dvec cepstra(const dvec &e, double p, int nceps, bool c0) {
    dvec l(40), out;
    for (int i = 0; i < 40; ++i) { l[i] = e[i] > 0 ? std::log10(e[i]) : 0; if (p != 1) l[i] = std::pow(l[i], p); }
    for (int k = c0 ? 0 : 1; k <= nceps; ++k) {
        double s = 0;
        for (int j = 0; j < 40; ++j) s += l[j] * std::cos(M_PI * k * (j + 0.5) / 40);
        s *= std::sqrt(2.0 / 40); if (k == 0) s *= std::sqrt(0.5);
        out.push_back(s);
    }
    return out;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("model", mon.n(400, 4000), [](Case &c) {
        Rng &r = c.rng;
        MFCCConfig cf(r.pick({44100, 22050, 16000, 8000, 48000, r.range(4000, 96000)}));
        cf.fftsize = r.pick({512, 1024, 2048, 256, 64, 2 * r.range(10, 300)});
        if (r.chance(0.3)) cf.fftsize = 256;
        if (r.chance(0.02)) cf.fftsize = r.pick({4096, 8192, 16384, 2 * r.range(2049, 5000)});
        cf.nceps = r.pick({19, 12, 0, 1, 13, 39, 40, r.range(0, 45)});
        cf.want_c0 = r.chance(0.5);
        cf.logpower = r.pick({1.0, 1.0, 2.0, 3.0, 0.0});
        cf.window = r.pick({HammingWindow, HanningWindow, RectangularWindow, BlackmanWindow});
        int n = cf.fftsize, no = cf.nceps + (cf.want_c0 ? 1 : 0);
        c.say("fs=%d n=%d nceps=%d c0=%d power=%g window=%d", cf.FS, n, cf.nceps, cf.want_c0, cf.logpower, (int)cf.window);
        MFCC m(cf);
        mon.check(m.getfftlength() == n, "fft-length", "%d", m.getfftlength());
        Bank bank(cf.FS, n);
        Window<double> win(cf.window, n);
        double gain = r.chance(0.3) ? r.logUni(1e-60, 1e60) : 1;
        dvec prev;
        for (int call = 0; call < 4; ++call) {
            int st = r.range(0, 3);
            std::string k;
            dvec x = st == 0 ? dvec(n, 0.0) : st == 1 ? noise(r, n, r.logUni(1e-3, 1e3)) : signal(r, n, &k);
            for (auto &v : x) if (st != 0) v += 1e-3 * r.gauss();      // keep every band above rounding noise
            if (call == 3 && st != 0) { x = noise(r, n, r.logUni(10, 1e4)); }
            if (gain != 1) for (auto &v : x) v *= gain;
            if (!prev.empty() && r.chance(0.15)) x = prev;
            prev = x;
            bool time = r.chance(0.5);
            Guarded<double> out(no, -99.0);
            dvec y(n); win.cut(x.data(), y.data());
            std::vector<cpx> X = ref::spectrum(y);
            int rv;
            if (time) { Guarded<double> in(x); rv = m.process(in, out); mon.check(in.vec() == x && in.intact(), "inputs-untouched", "mfcc"); }
            else {
                dvec re(n / 2 + 1), im(n / 2 + 1); for (int i = 0; i <= n / 2; ++i) { re[i] = X[i].real(); im[i] = X[i].imag(); }
                Guarded<double> a(re), b(im); rv = m.process(a, b, out); mon.check(a.vec() == re && b.vec() == im, "inputs-untouched", "mfcc");
            }
            mon.check(out.intact(), "extent", "mfcc");
            mon.check(rv == cf.nceps, "return-value", "%d expected %d", rv, cf.nceps);
            dvec e = bank.energies(X);
            double mx = maxAbs(e);
            bool shaky = false; for (double v : e) if (v > 0 && v < 1e-9 * mx) shaky = true;
            if (shaky) { mon.count("frames_with_negligible_bands"); continue; }
            dvec want = cepstra(e, cf.logpower, cf.nceps, cf.want_c0);
            double lm = 1; for (double v : e) if (v > 0) lm = std::max(lm, std::pow(std::fabs(std::log10(v)), std::max(1.0, cf.logpower)));
            if (!mon.closeVec(out.vec(), want, 3e-5 * lm * std::max(1.0, cf.logpower) * 1e-2, time ? "cepstrum-time" : "cepstrum-frequency", fmt("call %d", call).c_str())) return;
            mon.check(allFinite(out.vec()), "finite", "call %d", call);
            mon.saw(fmt("%d %d %d %d", n, cf.nceps, cf.want_c0, st));
        }
    });
    // consequences users rely on
    mon.group("gain-moves-c0-only", mon.n(120, 1200), [](Case &c) {
        Rng &r = c.rng;
        MFCCConfig cf(r.pick({44100, 16000})); cf.fftsize = r.pick({512, 1024}); cf.nceps = r.range(1, 30); cf.want_c0 = true;
        MFCC m(cf);
        double g = r.logUni(0.01, 100);
        c.say("fs=%d n=%d gain=%.4g", cf.FS, cf.fftsize, g);
        dvec x = noise(r, cf.fftsize), y = x, a(cf.nceps + 1), b(cf.nceps + 1);
        for (auto &v : y) v *= g;
        m.process(x.data(), a.data()); m.process(y.data(), b.data());
        for (int i = 1; i <= cf.nceps; ++i) { bool all = cf.fftsize * 66.0 / cf.FS > 1.5; if (all && !mon.close(b[i], a[i], 1e-8, "gain-moves-c0-only", fmt("coefficient %d", i).c_str())) break; }
        if (cf.fftsize * 66.0 / cf.FS > 1.5) mon.close(b[0] - a[0], std::sqrt(40.0) * std::log10(g), 1e-7, "gain-moves-c0-only", "c0");
        mon.passed("gain-moves-c0-only");
    });
    // one object for a whole recording: a frame gives what it gave the first time
    mon.group("long-lived", mon.n(12, 60), [](Case &c) {
        Rng &r = c.rng; MFCCConfig cf(r.pick({44100, 8000})); cf.fftsize = r.pick({256, 512}); cf.want_c0 = r.chance(0.5); cf.nceps = r.range(5, 25);
        MFCC m(cf); int no = cf.nceps + cf.want_c0, frames = r.pick({300, 2000, 8000}), n = cf.fftsize;
        c.say("fs=%d n=%d frames=%d", cf.FS, n, frames);
        std::vector<dvec> in, out; for (int i = 0; i < 5; ++i) { in.push_back(i ? signal(r, n) : dvec(n, 0.0)); dvec o(no); m.process(in[i].data(), o.data()); out.push_back(o); }
        for (int f = 0; f < frames; ++f) { int i = r.range(0, 4); dvec o(no, 7.0); m.process(in[i].data(), o.data()); if (!mon.sameVec(o, out[i], "frames-independent", fmt("frame %d", f).c_str())) return; }
        mon.count("long_frames", frames);
    });
    // fractional powers: defined whenever the band level is above one
    mon.group("fractional-power", mon.n(60, 300), [](Case &c) {
        Rng &r = c.rng;
        MFCCConfig cf(16000); cf.fftsize = 512; cf.logpower = r.pick({0.5, 1.5, 2.7});
        bool quiet = c.idx % 3 == 0;
        c.say("power=%g %s", cf.logpower, quiet ? "quiet" : "loud");
        MFCC m(cf);
        dvec x = noise(r, 512, quiet ? 1e-4 : 1e6), o(cf.nceps + 1);
        m.process(x.data(), o.data());
        if (quiet) mon.check(allFinite(o), "finite-fractional-power-quiet", "coefficients are not finite");
        else {
            dvec y(512); Window<double>(cf.window, 512).cut(x.data(), y.data());
            mon.closeVec(o, cepstra(Bank(cf.FS, 512).energies(ref::spectrum(y)), cf.logpower, cf.nceps, true), 1e-5, "cepstrum-fractional-power", "loud");
        }
    });
    mon.group("defaults", 1, [](Case &) {
        MFCCConfig k(22050);
        mon.check(k.FS == 22050 && k.fftsize == 2048 && k.nceps == 19 && k.logpower == 1.0 && k.want_c0 && k.window == HammingWindow, "default-parameters", "fs %d n %d nceps %d power %g c0 %d window %d", k.FS, k.fftsize, k.nceps, k.logpower, k.want_c0, (int)k.window);
    });
    return mon.finish();
}
