// C05: FFT / FFTReal against the DFT definition.
#include "vf.h"
#include "dsp/transforms/FFT.h"
#include <stdexcept>
using namespace vf;

typedef long double LD;
static std::vector<cpx> dft(const dvec &re, const dvec *im, bool inv, const std::vector<int> &bins) {
    int n = re.size();
    std::vector<LD> c(n), s(n);
    for (int i = 0; i < n; ++i) { LD a = 2 * (LD)M_PIl * i / n; c[i] = cosl(a); s[i] = (inv ? 1 : -1) * sinl(a); }
    std::vector<cpx> out;
    for (int k : bins) {
        LD sr = 0, si = 0;
        size_t t = 0;
        for (int i = 0; i < n; ++i) {
            LD a = re[i], b = im ? (*im)[i] : 0;
            sr += a * c[t] - b * s[t];
            si += a * s[t] + b * c[t];
            t += k; if (t >= (size_t)n) t -= n;
        }
        if (inv) { sr /= n; si /= n; }
        out.push_back(cpx((double)sr, (double)si));
    }
    return out;
}
static std::vector<int> binsFor(Rng &r, int n) {
    std::vector<int> b;
    if (n <= 700) for (int i = 0; i < n; ++i) b.push_back(i);
    else { b = {0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 1, n - 2}; for (int i = 0; i < 120; ++i) b.push_back(r.range(0, n - 1)); }
    return b;
}
static int largestPrime(int n) { int p = 1; for (int q = 2; q * q <= n; ++q) while (n % q == 0) { p = q; n /= q; } return std::max(p, n); }
static double tolFor(int n, double amp, bool inv) {
    // the sums over a large prime factor may be taken in sequence, each step rounded alike
    double t = (4e-15 * (std::log2(n + 1.0) + 4) + 1.2e-16 * largestPrime(n)) * n * (amp + 1e-300);
    return inv ? t / n * 4 : t;
}
static int pickSize(Case &c, bool even) {
    Rng &r = c.rng;
    int n;
    switch (r.range(0, 7)) {
    case 0: n = 1 << r.range(0, 13); break;
    case 1: n = r.range(1, 64); break;
    case 2: n = r.pick({3, 5, 7, 11, 13, 17, 97, 101, 499, 1009, 2003}); break;
    case 3: n = r.pick({9, 25, 49, 121, 169, 343, 1331, 1001, 2401, 1155, 77, 35, 105, 143, 289}); break;
    case 4: n = (1 << r.range(1, 6)) * r.pick({3, 5, 7, 9, 11, 13, 15, 21, 25, 35, 63}); break;
    case 5: n = r.range(1, 3000); break;
    case 6: { n = 1; while (n < r.range(50, 4000)) n *= r.pick({2, 3, 4, 5}); break; }
    default: n = r.range(65, 700);
    }
    if (even && n % 2) n *= 2;
    return n;
}
static void testComplex(Case &c, FFT &fft, int n, const char *tag) {
    Rng &r = c.rng;
    std::string kr, ki;
    dvec re = signal(r, n, &kr, true), im = signal(r, n, &ki, true);
    if (kr.find("denormal") == 0) re = noise(r, n);
    if (ki.find("denormal") == 0) im = noise(r, n);
    { double g = level(r, re, 1e-250, 1e250); for (auto &v : im) v *= g; }
    bool inv = r.chance(0.5), nullIm = r.chance(0.35);
    c.say("%s %s%s re=%s im=%s", tag, inv ? "inverse" : "forward", nullIm ? " real-input" : "", kr.c_str(), ki.c_str());
    Guarded<double> gre(re), gim(im), ore(n, 12345.678), oim(n, -9876.5);
    fft.process(inv, gre, nullIm ? 0 : gim.p(), ore, oim);
    double amp = std::max(maxAbs(re), nullIm ? 0 : maxAbs(im));
    std::vector<int> bins = binsFor(r, n);
    std::vector<cpx> want = dft(re, nullIm ? 0 : &im, inv, bins);
    double tol = tolFor(n, amp, inv);
    bool ok = true;
    for (size_t j = 0; j < bins.size() && ok; ++j) {
        int k = bins[j];
        ok = std::fabs(ore[k] - want[j].real()) <= tol && std::fabs(oim[k] - want[j].imag()) <= tol;
        mon.check(ok, "dft-definition", "size %d %s bin %d: got (%.12g,%.12g) definition gives (%.12g,%.12g) tol %.3g", n, inv ? "inverse" : "forward", k, ore[k], oim[k], want[j].real(), want[j].imag(), tol);
    }
    mon.check(gre.vec() == re && gim.vec() == im, "input-unmodified", "size %d: input changed", n);
    mon.check(gre.intact() && gim.intact() && ore.intact() && oim.intact(), "extent", "size %d: wrote outside n values", n);
    // round trip through the other direction
    Guarded<double> bre(n, 5.0), bim(n, 5.0);
    fft.process(!inv, ore, oim, bre, bim);
    double t2 = 40e-15 * (std::log2(n + 1.0) + 4) * std::sqrt((double)n) * (amp + 1e-300) + 2 * tolFor(n, amp, true);
    for (int i = 0; i < n && ok; ++i) {
        double wi = nullIm ? 0 : im[i];
        ok = std::fabs(bre[i] - re[i]) <= t2 && std::fabs(bim[i] - wi) <= t2;
        if (!ok) mon.check(false, "round-trip", "size %d sample %d: (%.12g,%.12g) came back (%.12g,%.12g)", n, i, re[i], wi, bre[i], bim[i]);
    }
    if (ok) mon.passed("round-trip", n);
    mon.saw(fmt("c %d %d %d", n, inv, nullIm));
}
static void testReal(Case &c, FFTReal &fft, int n) {
    Rng &r = c.rng;
    std::string k;
    int op = r.range(0, 2);
    double amp;
    if (op < 2) {
        dvec x = signal(r, n, &k, true);
        if (k.find("denormal") == 0) x = noise(r, n);
        level(r, x, 1e-120, 1e120);
        c.say("%s x=%s", op ? "magnitude" : "forward", k.c_str());
        amp = maxAbs(x);
        Guarded<double> gx(x), re(n, 777.0), im(n, -777.0);
        std::vector<int> bins = binsFor(r, n);
        std::vector<cpx> want = dft(x, 0, false, bins);
        double tol = tolFor(n, amp, false);
        if (op == 0) fft.forward(gx, re, im); else fft.forwardMagnitude(gx, re);
        bool ok = true;
        for (size_t j = 0; j < bins.size() && ok; ++j) {
            int b = bins[j];
            if (op == 0) {
                ok = std::fabs(re[b] - want[j].real()) <= tol && std::fabs(im[b] - want[j].imag()) <= tol;
                mon.check(ok, "real-forward-definition", "size %d bin %d: got (%.12g,%.12g) definition (%.12g,%.12g)", n, b, re[b], im[b], want[j].real(), want[j].imag());
            } else {
                ok = std::fabs(re[b] - std::abs(want[j])) <= 2 * tol;
                mon.check(ok, "real-magnitude-definition", "size %d bin %d: got %.12g definition %.12g", n, b, re[b], std::abs(want[j]));
            }
        }
        for (int b = 1; b < n && ok; ++b) {
            ok = op == 0 ? (std::fabs(re[b] - re[n - b]) <= tol && std::fabs(im[b] + im[n - b]) <= tol) : std::fabs(re[b] - re[n - b]) <= 2 * tol;
            if (!ok) mon.check(false, "conjugate-half", "size %d bin %d: (%.12g,%.12g) vs bin %d (%.12g,%.12g)", n, b, re[b], im[b], n - b, re[n - b], im[n - b]);
        }
        mon.passed("conjugate-half", n - 1);
        mon.check(gx.vec() == x && gx.intact() && re.intact() && im.intact(), "extent", "size %d", n);
        if (op == 0 && ok) {
            // only the first n/2+1 are given: the rest is not there to be read
            dvec hre(re.p(), re.p() + n / 2 + 1), him(im.p(), im.p() + n / 2 + 1);
            Guarded<double> a(hre), b(him), out(n, 3.25);
            fft.inverse(a, b, out);
            double t2 = 40e-15 * (std::log2(n + 1.0) + 4) * std::sqrt((double)n) * (amp + 1e-300) + 2 * tolFor(n, amp, true);
            mon.closeVec(out.p(), x.data(), n, t2, "real-round-trip", "inverse(forward(x))");
        }
    } else {
        // arbitrary half spectrum; purely real at DC and Nyquist
        int h = n / 2 + 1;
        dvec re = signal(r, h, &k), im = noise(r, h);
        { double g = level(r, re, 1e-250, 1e250); for (auto &v : im) v *= g; }
        im[0] = 0; im[h - 1] = 0;
        bool longer = r.chance(0.5);
        c.say("inverse re=%s%s", k.c_str(), longer ? " (full-length input with unused garbage)" : "");
        dvec fre(n), fim(n);
        for (int i = 0; i < h; ++i) { fre[i] = re[i]; fim[i] = im[i]; }
        for (int i = h; i < n; ++i) { fre[i] = re[n - i]; fim[i] = -im[n - i]; }
        if (longer) { re.resize(n, NAN); im.resize(n, NAN); }
        Guarded<double> gr(re), gi(im), out(n, 999.0);
        fft.inverse(gr, gi, out);
        amp = std::max(maxAbs(fre), maxAbs(fim));
        std::vector<int> bins = binsFor(r, n);
        std::vector<cpx> want = dft(fre, &fim, true, bins);
        for (size_t j = 0; j < bins.size(); ++j)
            if (!mon.close(out[bins[j]], want[j].real(), tolFor(n, amp, true), "real-inverse-definition", fmt("size %d sample %d", n, bins[j]).c_str())) break;
        mon.check(out.intact(), "extent", "size %d", n);
    }
    mon.saw(fmt("r %d %d", n, op));
}

int main(int argc, char **argv) {
    mon.parse(argc, argv);
    // every size in a dense range, one object used for several calls
    mon.group("complex-all-sizes", mon.n(420, 1500), [](Case &c) {
        int n = c.idx + 1;
        c.say("n=%d", n);
        FFT fft(n);
        int reps = mon.thorough ? 4 : 2;
        for (int k = 0; k < reps; ++k) testComplex(c, fft, n, "");
    });
    mon.group("complex-sizes", mon.n(260, 3000), [](Case &c) {
        int n = pickSize(c, false);
        c.say("n=%d", n);
        FFT fft(n);
        for (int k = 0; k < 3; ++k) testComplex(c, fft, n, "");
    });
    mon.group("real-all-sizes", mon.n(260, 1000), [](Case &c) {
        int n = 2 * (c.idx + 1);
        c.say("n=%d", n);
        FFTReal fft(n);
        for (int k = 0; k < 4; ++k) testReal(c, fft, n);
    });
    mon.group("real-sizes", mon.n(260, 3000), [](Case &c) {
        int n = pickSize(c, true);
        c.say("n=%d", n);
        FFTReal fft(n);
        for (int k = 0; k < 4; ++k) testReal(c, fft, n);
    });
    mon.group("big", mon.n(16, 120), [](Case &c) {
        int n = c.rng.pick({16384, 32768, 65536, 131072, 10007, 12100, 30030, 44100, 48000, 96000, 20736, 8218, 65522, 99990, c.rng.range(1, 100) * c.rng.range(1, 500) * 2});
        c.say("n=%d", n);
        if (c.rng.chance(0.2)) { int o = c.rng.pick({50625, 59049, 78125, 16807, 14641, 28561, 9973, 99225}); FFT f(o); testComplex(c, f, o, ""); } else { FFT f(n); testComplex(c, f, n, ""); }
        { int e = n + n % 2; FFTReal f(e); testReal(c, f, e); }
    });
    // several live objects of different sizes, calls interleaved: no state is shared
    mon.group("interleaved-objects", mon.n(60, 600), [](Case &c) {
        std::vector<FFT *> f; std::vector<FFTReal *> g; std::vector<int> fn, gn;
        for (int i = 0; i < 3; ++i) {
            int n = std::min(pickSize(c, false), 700); fn.push_back(n); f.push_back(new FFT(n));
            n = std::min(pickSize(c, true), 700); gn.push_back(n); g.push_back(new FFTReal(n));
        }
        c.say("sizes %d %d %d / %d %d %d", fn[0], fn[1], fn[2], gn[0], gn[1], gn[2]);
        for (int k = 0; k < 8; ++k) {
            int i = c.rng.range(0, 2);
            if (c.rng.chance(0.5)) testComplex(c, *f[i], fn[i], ""); else testReal(c, *g[i], gn[i]);
            if (c.rng.chance(0.15)) { delete f[i]; fn[i] = c.rng.range(1, 300); f[i] = new FFT(fn[i]); }
        }
        for (int i = 0; i < 3; ++i) { delete f[i]; delete g[i]; }
    });
    // one object through very many calls: each call stands alone
    mon.group("long-lived", mon.n(16, 96), [](Case &c) {
        Rng &r = c.rng; bool real = c.idx & 1;
        int n = r.pick({1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 30}); if (real && n % 2) n *= 2;
        c.say("%s n=%d", real ? "real" : "complex", n);
        FFT f(n); FFTReal g(real ? n : 2);
        dvec re = noise(r, n), im = noise(r, n), a(n), b(n), a0, b0, t(n);
        int h = n / 2 + 1;
        for (int k = 0; k < 140000; ++k) {
            bool probe = k % 7 == 0; const dvec &x = probe ? re : im, &y = probe ? im : re;
            if (!real) f.process(k % 5 == 2 && !probe, x.data(), y.data(), a.data(), b.data());
            else if (k % 3 == 1 && !probe) { b.assign(n, 0.0); g.inverse(x.data(), b.data(), a.data()); }
            else if (k % 5 == 1 && !probe) g.forwardMagnitude(x.data(), a.data());
            else g.forward(x.data(), a.data(), b.data());
            if (!probe) continue;
            if (k == 0) { a0 = a; b0 = b; std::vector<int> bins; for (int i = 0; i < n; ++i) bins.push_back(i); std::vector<cpx> want = dft(re, real ? 0 : &im, false, bins); for (int i = 0; i < n; ++i) mon.check(std::abs(cpx(a[i], b[i]) - want[i]) <= 2 * tolFor(n, 1, false), "dft-definition", "size %d bin %d", n, i); }
            else if (memcmp(a.data(), a0.data(), n * sizeof(double)) || memcmp(b.data(), b0.data(), n * sizeof(double))) { mon.check(false, "each-call-stands-alone", "size %d: call %d of the same object differs from the first", n, k); return; }
        }
        (void)h; mon.passed("each-call-stands-alone", 20000);
    });
    mon.group("odd-real-rejected", mon.n(40, 400), [](Case &c) {
        int n = 2 * c.idx + 1;
        c.say("n=%d", n);
        bool thrown = false, other = false;
        try { FFTReal f(n); } catch (const std::invalid_argument &) { thrown = true; } catch (...) { other = true; }
        mon.check(thrown && !other, "odd-size-rejected", "FFTReal(%d) did not throw invalid_argument", n);
    });
    return mon.finish();
}
