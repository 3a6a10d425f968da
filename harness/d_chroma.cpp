// C14: constant-Q transform and chromagram.
#include "vf.h"
#include "ref.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/chromagram/Chromagram.h"
using namespace vf;

struct Kernel {                       // independent evaluation of the definition
    int N, K; double Q;
    struct Cell { int col; cpx v; bool unsure; };
    std::vector<std::vector<Cell> > cells;
    std::vector<int> wl;
    Kernel(const CQConfig &c, int N_, int K_) : N(N_), K(K_) {
        Q = 1 / (std::pow(2.0, 1.0 / c.BPO) - 1);
        for (int j = 0; j < K; ++j) {
            double f = c.min * std::pow(2.0, (double)j / c.BPO);
            double lw = Q * c.FS / f;
            int W = (int)std::ceil(lw - 1e-9);
            wl.push_back(W);
            std::vector<cpx> a(N, cpx(0, 0));
            int org = N / 2 - W / 2;
            for (int i = 0; i < W; ++i) {
                double h = (0.54 - 0.46 * std::cos(2 * M_PI * i / W)) / W;
                a[(org + i + N / 2) % N] = h * std::polar(1.0, 2 * M_PI * Q * i / W);
            }
            ref::fft2(a);
            std::vector<Cell> r;
            for (int i = 1; i < N; ++i) {
                double m = std::abs(a[i]);
                if (m > c.CQThresh * (1 - 1e-9) - 1e-15) { Cell x; x.col = i; x.v = std::conj(a[i]) / (double)N; x.unsure = m < c.CQThresh * (1 + 1e-9) + 1e-15; r.push_back(x); }
            }
            cells.push_back(r);
        }
    }
    void apply(const std::vector<cpx> &X, std::vector<cpx> &out, dvec &tol) {
        out.assign(K, 0); tol.assign(K, 0);
        for (int j = 0; j < K; ++j) for (auto &c : cells[j]) {
            cpx p = c.v * X[N - c.col];
            tol[j] += 1e-11 * std::abs(p) + (c.unsure ? std::abs(p) : 0);
            out[j] += p;
        }
    }
};
static CQConfig config(Rng &r) {
    CQConfig c;
    c.FS = r.pick({2000.0, 4000.0, 8000.0, r.uni(1500, 9000)});
    c.BPO = r.pick({12, 12, 24, 36, 7, 5, r.range(3, 30)});
    double nyq = c.FS / 2;
    c.min = r.pick({110.0, 65.4, r.uni(60, 200)});
    c.max = r.pick({c.min * 2, c.min * 4, c.min * r.uni(1.05, 6), nyq * 0.9});
    if (c.max > nyq * 0.9) c.max = nyq * 0.9;
    if (c.max < c.min * 1.05) c.max = c.min * 1.05;
    c.CQThresh = r.pick({0.0054, 0.0054, 0.01, 1e-5, r.uni(0.001, 0.1)});
    return c;
}
static dvec tone(int n, double f, double amp, double ph) { dvec x(n); for (int i = 0; i < n; ++i) x[i] = amp * std::sin(2 * M_PI * f * i + ph); return x; }
static std::vector<cpx> shiftedSpectrum(const dvec &x, bool window) {
    int n = x.size();
    std::vector<cpx> a(n);
    for (int i = 0; i < n; ++i) { int s = (i + n / 2) % n; a[i] = x[s] * (window ? 0.54 - 0.46 * std::cos(2 * M_PI * s / n) : 1.0); }
    ref::fft2(a);
    return a;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    mon.group("constant-q", mon.n(160, 1600), [](Case &c) {
        Rng &r = c.rng;
        CQConfig cf = config(r);
        c.say("fs=%g min=%g max=%g bpo=%d thresh=%g", cf.FS, cf.min, cf.max, cf.BPO, cf.CQThresh);
        ConstantQ cq(cf);
        double Q = 1 / (std::pow(2.0, 1.0 / cf.BPO) - 1);
        mon.close(cq.getQ(), Q, 1e-9 * Q, "q-factor", "Q");
        double kk = cf.BPO * std::log2(cf.max / cf.min);
        int K = cq.getK(), N = cq.getFFTLength();
        mon.check(K == (int)std::ceil(kk) || std::fabs(kk - std::floor(kk + 0.5)) < 1e-9, "bin-count", "%d for %g", K, kk);
        double need = Q * cf.FS / cf.min;
        mon.check((N & (N - 1)) == 0 && N >= need - 1e-6 && N < 2 * std::ceil(need + 1e-6), "fft-length", "%d for %g", N, need);
        mon.check(cq.getHop() == N / 8, "hop", "%d for %d", cq.getHop(), N);
        // before the kernel exists the call is refused
        { dvec z(2 * N, 1.0), re(K, 3.0), im(K, 4.0); cq.process(z.data(), z.data(), re.data(), im.data()); cq.process(z.data()); }
        cq.sparsekernel();
        if (r.chance(0.1)) cq.sparsekernel();
        Kernel k(cf, N, K);
        for (int call = 0; call < 3; ++call) {
            std::string kind;
            int st = r.range(0, 3);
            dvec x = st == 0 ? noise(r, N) : st == 1 ? tone(N, cf.min * std::pow(2.0, r.range(0, K - 1) / (double)cf.BPO) / cf.FS, 1, r.uni(0, 6)) : signal(r, N, &kind); level(r, x, 1e-100, 1e100);
            std::vector<cpx> X = shiftedSpectrum(x, false);
            dvec re(N), im(N);
            if (st == 0 && r.chance(0.5)) for (auto &v : X) v += cpx(r.uni(-1, 1), r.uni(-1, 1)) * maxAbs(x);   // not a real signal's spectrum
            for (int i = 0; i < N; ++i) { re[i] = X[i].real(); im[i] = X[i].imag(); }
            Guarded<double> gr(re), gi(im), cr(K, 99.0), ci(K, 99.0);
            cq.process(gr, gi, cr, ci);
            std::vector<cpx> want; dvec tol;
            k.apply(X, want, tol);
            mon.check(gr.vec() == re && gi.vec() == im, "inputs-untouched", "constant-q");
            mon.check(cr.intact() && ci.intact(), "extent", "constant-q");
            double sc = 0; for (auto &v : X) sc = std::max(sc, std::abs(v));
            for (int j = 0; j < K; ++j)
                if (!mon.check(std::abs(cpx(cr[j], ci[j]) - want[j]) <= 4 * tol[j] + 1e-11 * sc, "kernel-transform", "bin %d of %d: (%g,%g) expected (%g,%g)", j, K, cr[j], ci[j], want[j].real(), want[j].imag())) return;
            dvec il(2 * N); for (int i = 0; i < N; ++i) { il[2 * i] = re[i]; il[2 * i + 1] = im[i]; }
            Guarded<double> gl(il);
            double *d = cq.process((const double *)gl);
            for (int j = 0; j < K; ++j)
                if (!mon.check(std::abs(cpx(d[2 * j], d[2 * j + 1]) - want[j]) <= 4 * tol[j] + 1e-11 * sc, "interleaved-agrees", "bin %d of %d: (%g,%g) expected (%g,%g)", j, K, d[2 * j], d[2 * j + 1], want[j].real(), want[j].imag())) return;
            mon.saw(fmt("%d %d %d %d", N, K, cf.BPO, st));
        }
    });
    // time-domain meaning: magnitude of the inner product with a windowed complex sinusoid
    mon.group("constant-q-tone", mon.n(160, 1600), [](Case &c) {
        Rng &r = c.rng;
        CQConfig cf = config(r);
        cf.CQThresh = r.pick({0.0054, 0.001});
        cf.BPO = std::max(cf.BPO, 5);
        ConstantQ cq(cf); cq.sparsekernel();
        int K = cq.getK(), N = cq.getFFTLength(), bin = r.range(0, K - 1);
        double f = cf.min * std::pow(2.0, bin / (double)cf.BPO), amp = r.logUni(0.01, 10);
        c.say("fs=%g min=%g max=%g bpo=%d bin=%d amp=%g", cf.FS, cf.min, cf.max, cf.BPO, bin, amp);
        dvec x = tone(N, f / cf.FS, amp, r.uni(0, 6.28));
        std::vector<cpx> X = shiftedSpectrum(x, false);
        dvec re(N), im(N), cr(K), ci(K);
        double tot = 0;
        for (int i = 0; i < N; ++i) { re[i] = X[i].real(); im[i] = X[i].imag(); tot += std::abs(X[i]); }
        cq.process(re.data(), im.data(), cr.data(), ci.data());
        dvec mag(K);
        for (int j = 0; j < K; ++j) mag[j] = std::hypot(cr[j], ci[j]);
        int pk = std::max_element(mag.begin(), mag.end()) - mag.begin();
        mon.check(pk == bin, "tone-peaks-at-its-bin", "tone of bin %d peaks at %d (%g against %g)", bin, pk, mag[pk], mag[bin]);
        double tol = cf.CQThresh * tot / N + 0.03 * amp;
        if (f < 0.4 * cf.FS) mon.close(mag[bin], amp * 0.54 / 2, tol, "tone-level", "peak magnitude");      // (the image of the tone comes in close to Nyquist)
        for (int j = 0; j < K; ++j) {
            double fj = cf.min * std::pow(2.0, j / (double)cf.BPO);
            int W = (int)std::ceil(cq.getQ() * cf.FS / fj - 1e-9), org = N / 2 - W / 2;
            cpx s = 0;
            for (int i = 0; i < W; ++i) s += x[org + i] * (0.54 - 0.46 * std::cos(2 * M_PI * i / W)) / (double)W * std::polar(1.0, -2 * M_PI * cq.getQ() * i / W);
            if (!mon.close(mag[j], std::abs(s), tol, "inner-product", fmt("bin %d of %d", j, K).c_str())) return;
        }
    });
    mon.group("degenerate", mon.n(30, 200), [](Case &c) {
        Rng &r = c.rng;
        CQConfig cf = config(r);
        int k = r.range(0, 1);
        if (k == 0) cf.CQThresh = 10;      // nothing above the threshold
        else cf.max = cf.min;              // no bins
        c.say("%s", k ? "no bins" : "no kernel cells");
        ConstantQ cq(cf); cq.sparsekernel();
        int N = cq.getFFTLength(), K = cq.getK();
        dvec re = noise(r, N), im = noise(r, N), il = noise(r, 2 * N), cr(K, 5.0), ci(K, 5.0);
        cq.process(re.data(), im.data(), cr.data(), ci.data());
        double *d = cq.process(il.data());
        for (int j = 0; j < K; ++j) mon.check(cr[j] == 0 && ci[j] == 0 && d[2 * j] == 0 && d[2 * j + 1] == 0, "empty-kernel-zero", "bin %d", j);
        mon.passed("empty-kernel-zero");
    });
    mon.group("chromagram", mon.n(160, 1600), [](Case &c) {
        Rng &r = c.rng;
        CQConfig q = config(r);
        ChromaConfig cf; cf.FS = q.FS; cf.min = q.min; cf.max = q.max; cf.BPO = q.BPO; cf.CQThresh = q.CQThresh;
        int oct = (int)std::ceil(std::log2(cf.max / cf.min) - 1e-9); if (oct < 1) oct = 1;
        while (cf.min * std::pow(2.0, oct) > cf.FS / 2 && oct > 1) { --oct; cf.max = cf.min * std::pow(2.0, oct - 0.3); }
        if (cf.min * 2 > cf.FS / 2) { cf.min = cf.FS / 8; cf.max = cf.FS / 5; oct = 1; }
        int nt = r.range(0, 2);
        cf.normalise = nt == 0 ? MathUtilities::NormaliseNone : nt == 1 ? MathUtilities::NormaliseUnitSum : MathUtilities::NormaliseUnitMax;
        c.say("fs=%g min=%g max=%g bpo=%d thresh=%g norm=%d", cf.FS, cf.min, cf.max, cf.BPO, cf.CQThresh, nt);
        Chromagram ch(cf);
        int N = ch.getFrameSize(), B = cf.BPO;
        mon.check(ch.getHopSize() == N / 8 && ch.getK() / B >= oct, "sizes", "frame %d hop %d K %d", N, ch.getHopSize(), ch.getK());
        int K = (ch.getK() / B) * B;
        CQConfig kc = q; kc.FS = cf.FS; kc.min = cf.min; kc.max = 0; kc.BPO = B; kc.CQThresh = cf.CQThresh;
        Kernel k(kc, N, K);
        for (int k = 0; k < 2; ++k) {          // the helpers it offers besides
            dvec x(B); for (auto &v : x) v = r.uni(-0.5, 1);
            double mx = *std::max_element(x.begin(), x.end()); if (mx <= 0.01) { x[0] = 1; mx = 1; }
            Guarded<double> g(x); ch.unityNormalise(g); mon.check(g.intact(), "extent", "unityNormalise");
            for (int i = 0; i < B; ++i) if (!mon.close(g[i], x[i] / mx, 1e-14 / mx, "unity-normalise", "bin")) break;
            double re = r.uni(-3, 3), im = r.uni(-3, 3); mon.close(ch.kabs(re, im), std::hypot(re, im), 1e-14, "kabs", "modulus");
        }
        dvec last; for (int call = 0; call < 4; ++call) {
            int st = r.range(0, 3);
            bool time = r.chance(0.6);
            dvec x = st == 0 ? noise(r, N) : st == 3 ? dvec(N, 0.0) : tone(N, cf.min * std::pow(2.0, r.range(0, K - 1) / (double)B) / cf.FS, r.logUni(0.01, 5), r.uni(0, 6));
            if (r.chance(0.25)) x = signal(r, N);
            level(r, x, 1e-100, 1e100); if (call && r.chance(0.15)) x = last;
            last = x;
            std::vector<cpx> X = shiftedSpectrum(x, true);
            double *d;
            if (time) { Guarded<double> g(x); d = ch.process(g); mon.check(g.vec() == x && g.intact(), "inputs-untouched", "chromagram"); }
            else {
                dvec re(N), im(N); for (int i = 0; i < N; ++i) { re[i] = X[i].real(); im[i] = X[i].imag(); }
                Guarded<double> a(re), b(im); d = ch.process(a, b); mon.check(a.vec() == re && b.vec() == im, "inputs-untouched", "chromagram");
            }
            std::vector<cpx> v; dvec tl, want(B, 0.0), tol(B, 0.0);
            k.apply(X, v, tl);
            double sc = 0; for (auto &t : X) sc = std::max(sc, std::abs(t));
            for (int j = 0; j < K; ++j) { want[j % B] += std::abs(v[j]); tol[j % B] += 4 * tl[j] + 1e-11 * sc; }
            double den = 1, dt = 0;
            if (nt == 1) { den = 0; for (int i = 0; i < B; ++i) { den += want[i]; dt += tol[i]; } }
            if (nt == 2) { den = maxAbs(want); dt = maxAbs(tol); }
            if (den == 0) den = 1;
            if (nt && den < 1e3 * dt) { mon.count("normalised_noise_frames"); continue; }
            for (int i = 0; i < B; ++i) if (!mon.close(d[i], want[i] / den, (tol[i] + dt * want[i] / den) / den + 1e-300, time ? "chroma-time-domain" : "chroma-frequency-domain", fmt("frame %d bin %d of %d", call, i, B).c_str())) return;
            mon.saw(fmt("%d %d %d %d", N, B, nt, st));
        }
    });
    // many octaves: each is folded in, none twice
    mon.group("octaves", mon.n(6, 60), [](Case &c) {
        Rng &r = c.rng; ChromaConfig cf; cf.FS = r.pick({44100.0, 48000.0, 96000.0, 22050.0}); cf.BPO = r.pick({12, 5, 6, 7, 3}); cf.CQThresh = r.pick({0.0054, 0.01});
        int oct = r.range(6, 10); cf.min = std::max(cf.FS * 0.49 / std::pow(2.0, oct), cf.FS / 2400); oct = (int)std::floor(std::log2(cf.FS * 0.49 / cf.min) + 1e-6); cf.max = cf.min * std::pow(2.0, oct - r.uni(0.1, 0.4));
        cf.normalise = MathUtilities::NormaliseNone; Chromagram ch(cf); int N = ch.getFrameSize(), B = cf.BPO, K = ch.getK() / B * B;
        c.say("fs=%g min=%g max=%g bpo=%d octaves=%d frame=%d", cf.FS, cf.min, cf.max, B, oct, N);
        mon.check(ch.getK() / B >= oct, "sizes", "%d bins for %d octaves of %d", ch.getK(), oct, B);
        CQConfig kc; kc.FS = cf.FS; kc.min = cf.min; kc.max = 0; kc.BPO = B; kc.CQThresh = cf.CQThresh;
        Kernel k(kc, N, K); mon.maxim("most_octaves", K / B);
        for (int o = 0; o <= K / B; ++o) {              // a tone in each octave, then noise
            dvec x = o < K / B ? tone(N, cf.min * std::pow(2.0, o + r.range(0, B - 1) / (double)B) / cf.FS, r.logUni(0.01, 5), r.uni(0, 6)) : noise(r, N);
            std::vector<cpx> X = shiftedSpectrum(x, true), v; dvec tl, want(B, 0.0), tol(B, 0.0); double sc = 0;
            k.apply(X, v, tl); for (auto &t : X) sc = std::max(sc, std::abs(t));
            for (int j = 0; j < K; ++j) { want[j % B] += std::abs(v[j]); tol[j % B] += 4 * tl[j] + 1e-11 * sc; }
            Guarded<double> g(x); double *d = ch.process(g);
            for (int i = 0; i < B; ++i) if (!mon.close(d[i], want[i], tol[i] + 1e-300, "chroma-time-domain", fmt("tone in octave %d, bin %d of %d", o, i, B).c_str())) return;
        }
    });
    // full-rate settings, long windows
    mon.group("large", mon.n(6, 40), [](Case &c) {
        Rng &r = c.rng; CQConfig cf;
        cf.FS = r.pick({44100.0, 48000.0, 22050.0, 96000.0}); cf.BPO = r.pick({36, 24, 48, 60}); cf.min = r.pick({65.406, 82.4, 130.8, 55.0}); cf.max = cf.min * std::pow(2.0, r.uni(0.3, 1.2)); cf.CQThresh = r.pick({0.0054, 0.001});
        if (cf.BPO > 36) cf.FS = 22050;
        c.say("fs=%g min=%g max=%g bpo=%d", cf.FS, cf.min, cf.max, cf.BPO);
        ConstantQ cq(cf); cq.sparsekernel(); int K = cq.getK(), N = cq.getFFTLength();
        double need = cq.getQ() * cf.FS / cf.min; mon.check((N & (N - 1)) == 0 && N >= need - 1e-6 && N < 2 * std::ceil(need + 1e-6), "fft-length", "%d for %g", N, need);
        Kernel k(cf, N, K); mon.maxim("largest_fft", N); mon.maxim("most_bins", K);
        for (int call = 0; call < 3; ++call) {
            dvec x = call ? tone(N, cf.min * std::pow(2.0, r.range(0, K - 1) / (double)cf.BPO) / cf.FS, 1, r.uni(0, 6)) : noise(r, N);
            std::vector<cpx> X = shiftedSpectrum(x, false), want; dvec re(N), im(N), tol; double sc = 0;
            for (int i = 0; i < N; ++i) { re[i] = X[i].real(); im[i] = X[i].imag(); sc = std::max(sc, std::abs(X[i])); }
            Guarded<double> gr(re), gi(im), cr(K, 99.0), ci(K, 99.0); cq.process(gr, gi, cr, ci); k.apply(X, want, tol);
            for (int j = 0; j < K; ++j) if (!mon.check(std::abs(cpx(cr[j], ci[j]) - want[j]) <= 4 * tol[j] + 1e-11 * sc, "kernel-transform", "bin %d of %d: (%g,%g) expected (%g,%g)", j, K, cr[j], ci[j], want[j].real(), want[j].imag())) return;
        }
    });
    // one object for a whole recording: a frame gives what it gave the first time
    mon.group("long-lived", mon.n(12, 60), [](Case &c) {
        Rng &r = c.rng; CQConfig q = config(r);
        ChromaConfig cf; cf.FS = 4000; cf.min = r.uni(100, 300); cf.max = cf.min * 3.9; cf.BPO = r.pick({12, 24, 7}); cf.CQThresh = 0.0054; int nt = r.range(0, 2);
        cf.normalise = nt == 0 ? MathUtilities::NormaliseNone : nt == 1 ? MathUtilities::NormaliseUnitSum : MathUtilities::NormaliseUnitMax;
        q.FS = 4000; q.min = cf.min; q.max = cf.max; q.BPO = cf.BPO;
        Chromagram ch(cf); ConstantQ cq(q); cq.sparsekernel(); int N = ch.getFrameSize(), M = cq.getFFTLength(), K = cq.getK();
        int frames = r.pick({300, 1200, 5000}); c.say("bpo=%d norm=%d frames=%d", cf.BPO, nt, frames);
        std::vector<dvec> in, out, re, im, o2;
        for (int i = 0; i < 5; ++i) {
            in.push_back(i ? signal(r, N) : noise(r, N)); double *d = ch.process(in[i].data()); out.push_back(dvec(d, d + cf.BPO));
            re.push_back(noise(r, M)); im.push_back(noise(r, M)); dvec a(K), b(K); cq.process(re[i].data(), im[i].data(), a.data(), b.data()); a.insert(a.end(), b.begin(), b.end()); o2.push_back(a);
        }
        for (int f = 0; f < frames; ++f) {
            int i = r.range(0, 4); double *d = ch.process(in[i].data());
            if (!mon.sameVec(dvec(d, d + cf.BPO), out[i], "frames-independent", fmt("chromagram frame %d", f).c_str())) return;
            dvec a(K), b(K); cq.process(re[i].data(), im[i].data(), a.data(), b.data()); a.insert(a.end(), b.begin(), b.end());
            if (!mon.sameVec(a, o2[i], "frames-independent", fmt("constant-q frame %d", f).c_str())) return;
        }
        mon.count("long_frames", frames);
    });
    // realistic settings: note names
    mon.group("pitch-class", mon.n(48, 480), [](Case &c) {
        Rng &r = c.rng;
        int pcBase = r.range(0, 11), nt = r.range(1, 2), bpp = r.pick({1, 1, 3});
        ChromaConfig cf; cf.FS = r.pick({11025.0, 8000.0}); cf.BPO = 12 * bpp; cf.CQThresh = 0.0054;
        cf.min = 440 * std::pow(2.0, (48 + pcBase - 69) / 12.0); cf.max = cf.min * 8;
        cf.normalise = nt == 1 ? MathUtilities::NormaliseUnitSum : MathUtilities::NormaliseUnitMax;
        Chromagram ch(cf);
        int N = ch.getFrameSize();
        for (int k = 0; k < 3; ++k) {
            int midi = 48 + pcBase + r.range(0, 30);
            double f = 440 * std::pow(2.0, (midi - 69) / 12.0);
            c.say("base=%d bpp=%d midi=%d", pcBase, bpp, midi);
            dvec x = tone(N, f / cf.FS, r.logUni(0.01, 2), r.uni(0, 6));
            for (auto &v : x) v += 1e-4 * r.gauss() * 0.01;
            double *d = ch.process(x.data());
            int pk = std::max_element(d, d + cf.BPO) - d;
            mon.check(pk == ((midi - 48 - pcBase) % 12) * bpp, "note-gives-its-pitch-class", "midi %d peaks at bin %d of %d", midi, pk, cf.BPO);
            double s = 0, m = 0; for (int i = 0; i < cf.BPO; ++i) { s += d[i]; m = std::max(m, d[i]); }
            mon.close(nt == 1 ? s : m, 1, 1e-9, "normalised", "frame");
        }
    });
    return mon.finish();
}
