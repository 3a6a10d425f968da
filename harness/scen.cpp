// Scenarios over every component of the library.
#include "scen.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
#include "base/Window.h"
#include "base/Pitch.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/onsets/DetectionFunction.h"
#include "dsp/onsets/PeakPicking.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include "dsp/rateconversion/Resampler.h"
#include "dsp/rhythm/BeatSpectrum.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/signalconditioning/DFProcess.h"
#include "dsp/signalconditioning/Filter.h"
#include "dsp/signalconditioning/FiltFilt.h"
#include "dsp/signalconditioning/Framer.h"
#include "dsp/tempotracking/DownBeat.h"
#include "dsp/tempotracking/TempoTrack.h"
#include "dsp/tempotracking/TempoTrackV2.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/transforms/DCT.h"
#include "dsp/transforms/FFT.h"
#include "dsp/wavelet/Wavelet.h"
#include "hmm/hmm.h"
#include "maths/Correlation.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include "maths/MathUtilities.h"
#include "maths/MedianFilter.h"
#include "maths/Polyfit.h"
#include "maths/pca/pca.h"
#include "thread/Thread.h"
#include "thread/AsynchronousTask.h"
#include "thread/BlockAllocator.h"
extern "C" {
#include "dsp/segmentation/cluster_segmenter.h"
}
#include <sstream>
#include <sys/mman.h>
#include <time.h>

// rand() and time() as this thread sees them
static thread_local uint64_t t_rand = 1; static thread_local long t_time = 1000;
extern "C" int rand() { t_rand = t_rand * 6364136223846793005ull + 1442695040888963407ull; return (int)((t_rand >> 33) & RAND_MAX); }
extern "C" void srand(unsigned) {}
extern "C" time_t time(time_t *t) { if (t) *t = t_time; return t_time; }

namespace scen {
using namespace vf;
typedef std::vector<float> fvec;
typedef std::vector<int> ivec;
typedef std::vector<dvec> dmat;

Ro roAlloc(size_t bytes) {
    size_t pg = 4096; Ro r; r.len = (bytes + pg - 1) / pg * pg; if (!r.len) r.len = pg;
    r.base = (unsigned char *)mmap(0, r.len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (r.base == MAP_FAILED) { perror("mmap"); _exit(3); }
    memset(r.base, 0xA5, r.len);
    mprotect(r.base + r.len, pg, PROT_NONE);
    return r;
}
void roProtect(Ro r) { mprotect(r.base, r.len, PROT_READ); }
void roFree(Ro r) { munmap(r.base, r.len + 4096); }

static bool differs(const dvec &a, const dvec &b) { return a.size() != b.size() || (a.size() && memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static bool differs(const dmat &a, const dmat &b) { if (a.size() != b.size()) return true; for (size_t i = 0; i < a.size(); ++i) if (differs(a[i], b[i])) return true; return false; }
static fvec toFloat(const dvec &v) { fvec f(v.size()); for (size_t i = 0; i < v.size(); ++i) f[i] = (float)v[i]; return f; }
struct Rows {              // C-style array of exactly sized input rows
    std::vector<In<double> *> in; std::vector<Out<double> *> out; std::vector<double *> p;
    Rows(Ctx &c, const dmat &m, bool input) { for (auto &v : m) { if (input) { in.push_back(new In<double>(c, v)); p.push_back(*in.back()); } else { out.push_back(new Out<double>(c, v)); p.push_back(*out.back()); } } p.push_back(0); }
    Rows(Ctx &c, int n, int m) { for (int i = 0; i < n; ++i) { out.push_back(new Out<double>(c, (size_t)m)); p.push_back(*out[i]); } p.push_back(0); }
    ~Rows() { for (auto x : in) delete x; for (auto x : out) delete x; }
    operator double **() { return p.data(); }
};
static dmat randomRows(Ctx &c, int n, int m) { dmat d(n, dvec(m)); int parts = c.r.range(1, 3); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) d[i][j] = 2.0 * ((i * parts / n * 7 + j * 3) % 5) + c.r.gauss(); return d; }

static void fft(Ctx &c) {
    int n = c.r.pick({1, 2, 16, 64, 75, 128, c.r.range(1, 200), c.r.chance(0.3) ? c.r.range(200, 5000) : 24}); c.say("n=%d", n);
    Obj<FFT> f(c, MAKE(FFT, n));
    for (int k = 0; k < 4; ++k) {
        bool noImag = c.r.chance(0.3);
        In<double> re(c, c.audio(n)), im(c, c.audio(n)); Out<double> ro(c, n), io(c, n);
        f->process(c.r.chance(0.5), re, noImag ? (double *)0 : im.p(), ro, io);
    }
}
static void fftreal(Ctx &c) {
    int n = 2 * c.r.pick({1, 8, 32, 45, 64, c.r.range(1, 100), c.r.chance(0.3) ? c.r.range(100, 2500) : 12}); c.say("n=%d", n);
    Obj<FFTReal> f(c, MAKE(FFTReal, n));
    for (int k = 0; k < 3; ++k) {
        { In<double> re(c, c.audio(n)); Out<double> ro(c, n), io(c, n); f->forward(re, ro, io); }
        { In<double> re(c, c.audio(n)); Out<double> m(c, n); f->forwardMagnitude(re, m); }
        { In<double> re(c, c.audio(n / 2 + 1)), im(c, c.audio(n / 2 + 1)); Out<double> ro(c, n); f->inverse(re, im, ro); }
    }
    if (c.r.chance(0.3)) try { FFTReal odd(2 * c.r.range(1, 20) + 1); c.put(1); } catch (std::exception &) { c.put(0); }
}
static void dct(Ctx &c) {
    int n = c.r.pick({1, 2, 16, 33, c.r.range(1, 120), c.r.chance(0.3) ? c.r.range(120, 1200) : 20}); c.say("n=%d", n);
    Obj<DCT> d(c, MAKE(DCT, n));
    for (int k = 0; k < 6; ++k) {
        In<double> in(c, c.audio(n)); Out<double> out(c, n);
        switch (c.r.range(0, 3)) { case 0: d->forward(in, out); break; case 1: d->forwardUnitary(in, out); break; case 2: d->inverse(in, out); break; default: d->inverseUnitary(in, out); }
    }
}
static void windows(Ctx &c) {
    int n = c.r.chance(0.1) ? c.r.range(90, 3000) : c.r.range(1, 90); WindowType t = (WindowType)c.r.range(FirstWindow, LastWindow); c.say("type=%d n=%d", t, n);
    Obj<Window<double> > w(c, MAKE(Window<double>, t, n)); Obj<Window<float> > wf(c, MAKE(Window<float>, t, n));
    c.puts(w->getWindowData()); c.puts(wf->getWindowData());
    { In<double> in(c, c.audio(n)); Out<double> out(c, n); w->cut(in, out); }
    { In<float> in(c, toFloat(c.audio(n))); Out<float> out(c, n); wf->cut(in, out); }
    { Out<double> io(c, c.audio(n)); w->cut(io); } { Out<float> io(c, toFloat(c.audio(n))); wf->cut(io); }
    { Window<double> copy(*w); c.puts(copy.getWindowData()); Window<double> other((WindowType)c.r.range(FirstWindow, LastWindow), c.r.range(1, 40)); copy = other; c.puts(copy.getWindowData()); other = *w; c.puts(other.getWindowData()); }
    c.put(w->getSize()); c.put(w->getType());
}
static void kaiserSinc(Ctx &c) {
    int n = c.r.range(1, 150); double beta = c.r.pick({0.0, c.r.uni(0.1, 15), c.r.uni(0.1, 15), c.r.uni(15, 40)}), p = c.r.uni(0.5, 40); c.say("n=%d beta=%g p=%g", n, beta, p);
    KaiserWindow::Parameters kp; kp.length = n; kp.beta = beta;
    Obj<KaiserWindow> k(c, MAKE(KaiserWindow, kp)); Obj<SincWindow> s(c, MAKE(SincWindow, n, p));
    c.putp(k->getWindow(), k->getLength()); c.putp(s->getWindow(), s->getLength());
    { In<double> in(c, c.audio(n)); Out<double> o(c, n), q(c, n); k->cut(in, o); s->cut(in, q); }
    KaiserWindow b = KaiserWindow::byBandwidth(c.r.uni(10, 100), c.r.uni(500, 5000), 44100), t = KaiserWindow::byTransitionWidth(c.r.uni(10, 100), c.r.uni(0.1, 1));
    c.putp(b.getWindow(), b.getLength()); c.putp(t.getWindow(), t.getLength());
}
static void pitch(Ctx &c) {
    for (int i = 0; i < 20; ++i) { float cents = 0, a = c.r.pick({440.f, (float)c.r.uni(400, 480), (float)c.r.uni(100, 2000)}); int p = c.r.range(-20, 140); float f = Pitch::getFrequencyForPitch(p, (float)c.r.uni(-50, 50), a); c.put(f); c.put(Pitch::getPitchForFrequency(f, &cents, a)); c.put(cents); c.put(Pitch::getPitchForFrequency(f)); }
}
static void resampler(Ctx &c) {
    static const int rates[] = {1, 2, 3, 8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000};
    int s = rates[c.r.range(0, 10)], t = rates[c.r.range(0, 10)]; if ((s < 4) != (t < 4)) t = s < 4 ? c.r.range(1, 5) : 44100;
    double snr = c.r.uni(20, c.r.pick({60, 60, 120})), bw = c.r.uni(0.1, 0.4); c.say("%d->%d snr=%.0f bw=%.2f", s, t, snr, bw);
    Obj<Resampler> r(c, [&](void *m) { return c.r.chance(0.7) ? new (m) Resampler(s, t, snr, bw) : new (m) Resampler(s, t); });
    c.put(r->getLatency());
    for (int k = 0; k < 4; ++k) {
        int n = c.r.pick({0, 1, c.r.range(2, 60), c.r.range(60, 400), c.r.chance(0.1) ? c.r.range(400, 5000) : 33});
        In<double> in(c, c.audio(n));
        int cap = (int)std::ceil((double)n * t / s) + 1;
        if (c.r.chance(0.5)) { dvec keep(cap, 0.0); Guarded<double> o(cap, c.env.outFill * 1e5); int got = r->process(in, o, n); c.put(got); if (got > cap || !o.intact()) c.issue("write-outside-output", "resampler"); else c.putp(o, got); for (int i = std::max(0, got); i < cap; ++i) if (o[i] != c.env.outFill * 1e5) c.issue("write-outside-output", fmt("resampler wrote element %d after the %d returned", i, got)); }
        else c.puts(r->process(in, n));
    }
    if (s < 9000 && t < 9000) { In<double> in(c, c.audio(c.r.range(0, 150))); c.puts(Resampler::resample(s, t, in, (int)in.size())); }
}
static void decimator(Ctx &c) {
    int f = c.r.pick({1, 2, 4, 8}), n = c.r.range(0, c.r.chance(0.1) ? 600 : 40) * f + c.r.range(0, f - 1); c.say("factor=%d n=%d", f, n);
    Obj<Decimator> d(c, MAKE(Decimator, n, f));
    c.put(d->getFactor());
    for (int k = 0; k < 5; ++k) {
        if (c.r.chance(0.2)) d->resetFilter();
        if (c.r.chance(0.2)) { if (c.r.chance(0.5)) { Out<double> io(c, c.audio(n)); d->process(io, io); } else { Out<float> io(c, toFloat(c.audio(n))); d->process(io, io); } continue; }
        if (c.r.chance(0.5)) { In<double> in(c, c.audio(n)); Out<double> o(c, n / f); d->process(in, o); }
        else { In<float> in(c, toFloat(c.audio(n))); Out<float> o(c, n / f); d->process(in, o); }
    }
}
static void decimatorB(Ctx &c) {
    int f = c.r.pick({2, 4, 8, 16, 32}), n = c.r.range(1, c.r.chance(0.1) ? 200 : 20) * f; c.say("factor=%d n=%d", f, n);
    Obj<DecimatorB> d(c, MAKE(DecimatorB, n, f));
    c.put(d->getFactor());
    for (int k = 0; k < 5; ++k) {
        if (c.r.chance(0.5)) { In<double> in(c, c.audio(n)); Out<double> o(c, n / f); d->process(in, o); }
        else { In<float> in(c, toFloat(c.audio(n))); Out<float> o(c, n / f); d->process(in, o); }
    }
}
static Filter::Parameters filterParams(Ctx &c) {
    Filter::Parameters p; int o = c.r.pick({c.r.range(0, 4), c.r.range(0, 4), c.r.range(5, 14)});
    p.a.assign(o + 1, 0.0); p.b.assign(o + 1, 0.0); p.a[0] = 1;
    for (int i = 0; i <= o; ++i) { p.b[i] = c.r.uni(-1, 1); if (i) p.a[i] = c.r.uni(-1, 1) * 0.8 / o; }
    return p;
}
static void filter(Ctx &c) {
    Filter::Parameters p = filterParams(c); c.say("order=%zu", p.a.size() - 1);
    Obj<Filter> f(c, MAKE(Filter, p)); c.put(f->getOrder());
    for (int k = 0; k < 6; ++k) { int n = c.r.chance(0.05) ? c.r.range(60, 2000) : c.r.range(0, 60); if (c.r.chance(0.2)) f->reset(); if (c.r.chance(0.2)) { Out<double> io(c, c.audio(n)); f->process(io, io, n); continue; } In<double> in(c, c.audio(n)); Out<double> o(c, n); f->process(in, o, n); }
}
static void filtfilt(Ctx &c) {
    Filter::Parameters p = filterParams(c); c.say("order=%zu", p.a.size() - 1);
    Obj<FiltFilt> f(c, MAKE(FiltFilt, p));
    for (int k = 0; k < 4; ++k) { int n = c.r.pick({0, 1, c.r.range(2, 100), c.r.chance(0.2) ? c.r.range(100, 2000) : 40}); In<double> in(c, c.audio(n)); Out<double> o(c, n); f->process(in, o, n); }
}
static void framer(Ctx &c) {
    int n = c.r.range(1, 300), f = c.r.range(1, 80), h = c.r.range(1, 60); c.say("n=%d frame=%d hop=%d", n, f, h);
    Obj<Framer> fr(c, MAKE(Framer));
    In<double> src(c, c.audio(n));
    fr->configure(f, h); fr->setSource(src, n);
    int k = fr->getMaxNoFrames(); c.put(k);
    for (int pass = 0; pass < 2; ++pass) { for (int i = 0; i < k; ++i) { Out<double> o(c, f); c.call(); fr->getFrame(o); } fr->resetCounters(); }
    fr->configure(h, f); fr->setSource(src, n); k = fr->getMaxNoFrames(); c.put(k);
    for (int i = 0; i < k + 3; ++i) { Out<double> o(c, h); fr->getFrame(o); }
}
static double s_a[3] = {1.0000, -0.5949, 0.2348}, s_b[3] = {0.1600, 0.3200, 0.1600};
static dvec novelty(Ctx &c, int n) { dvec v(n, 0.0); double p = c.r.uni(5, 60); if (c.r.chance(0.8)) v = clicks(n, p, c.r.uni(0, p), c.r.uni(0.1, 50), c.r.uni(0.5, 3)); if (c.r.chance(0.6)) for (auto &x : v) x += c.r.uni(); return v; }
static void dfprocess(Ctx &c) {
    DFProcConfig cfg; int n = c.r.pick({c.r.range(5, 150), c.r.range(1, 5), c.r.range(150, 1500)}); cfg.length = n; cfg.LPOrd = 2; cfg.winPre = c.r.range(0, 9); cfg.winPost = c.r.range(0, 9); cfg.AlphaNormParam = c.r.range(1, 10); cfg.isMedianPositive = c.r.chance(0.5); cfg.delta = c.r.pick({0.f, 0.3f, -0.1f});
    c.say("n=%d window=%d,%d", n, cfg.winPre, cfg.winPost);
    In<double> a(c, dvec(s_a, s_a + 3)), b(c, dvec(s_b, s_b + 3)); cfg.LPACoeffs = a; cfg.LPBCoeffs = b;
    Obj<DFProcess> d(c, MAKE(DFProcess, cfg)); a.done(); b.done();
    for (int k = 0; k < 3; ++k) { In<double> in(c, novelty(c, n)); Out<double> o(c, n); d->process(in, o); }
}
static void peakpicking(Ctx &c) {
    PPickParams p; int n = c.r.pick({c.r.range(4, 200), c.r.range(1, 4), c.r.range(200, 1500)}); p.length = n; p.tau = 0.01; p.alpha = 9; p.cutoff = 0.55; p.LPOrd = 2; p.WinT.pre = c.r.range(1, 9); p.WinT.post = c.r.range(1, 8); p.QuadThresh = QFitThresh(c.r.uni(0, 1), 0, c.r.uni(0, 1)); p.delta = c.r.pick({0.f, 0.2f});
    c.say("n=%d", n);
    In<double> a(c, dvec(s_a, s_a + 3)), b(c, dvec(s_b, s_b + 3)); p.LPACoeffs = a; p.LPBCoeffs = b;
    Obj<PeakPicking> d(c, MAKE(PeakPicking, p)); a.done(); b.done();
    for (int k = 0; k < 3; ++k) { c.call(); Out<double> io(c, novelty(c, n)); ivec on; d->process(io, n, on); c.puts(on); }
}
static void detection(Ctx &c) {
    DFConfig d; d.frameLength = c.r.pick({16, 64, 128, 2 * c.r.range(4, 60), c.r.chance(0.2) ? 2048 : 256}); d.stepSize = std::max(1, d.frameLength / c.r.range(1, 4)); d.DFType = c.r.range(1, 5); d.dbRise = c.r.pick({3.0, 0.0, c.r.uni(1, 6), c.r.uni(-1, 20)}); d.adaptiveWhitening = c.r.chance(0.4); d.whiteningRelaxCoeff = c.r.pick({-1.0, 0.99, 0.0, 1.0, c.r.uni()}); d.whiteningFloor = c.r.pick({-1.0, 0.02, 0.01, c.r.uni()});
    c.say("type=%d frame=%d step=%d%s", d.DFType, d.frameLength, d.stepSize, d.adaptiveWhitening ? " whitened" : "");
    Obj<DetectionFunction> f(c, MAKE(DetectionFunction, d));
    int n = d.frameLength, h = n / 2 + 1;
    for (int k = 0; k < 6; ++k) {
        if (c.r.chance(0.7)) { In<double> in(c, c.audio(n)); c.put(f->processTimeDomain(in)); }
        else { In<double> re(c, c.audio(h)), im(c, c.audio(h)); c.put(f->processFrequencyDomain(re, im)); }
        c.putp(f->getSpectrumMagnitude(), n / 2 + 1);
    }
}
static void phasevocoder(Ctx &c) {
    int n = 2 * c.r.pick({4, 8, 32, c.r.range(1, 60), c.r.chance(0.2) ? 1024 : 100}), hop = c.r.range(1, n); c.say("n=%d hop=%d", n, hop);
    Obj<PhaseVocoder> p(c, MAKE(PhaseVocoder, n, hop)); int h = n / 2 + 1;
    for (int k = 0; k < 6; ++k) {
        if (c.r.chance(0.2)) p->reset();
        Out<double> m(c, h), ph(c, h), un(c, h);
        if (c.r.chance(0.5)) { In<double> in(c, c.audio(n)); p->processTimeDomain(in, m, ph, un); }
        else { In<double> re(c, c.audio(h)), im(c, c.audio(h)); p->processFrequencyDomain(re, im, m, ph, un); }
    }
}
static void constantq(Ctx &c) {
    CQConfig q; q.FS = c.r.pick({8000., 11025., 22050.}); q.min = c.r.uni(200, 600); q.max = q.min * c.r.uni(2, 5); q.max = std::min(q.max, q.FS / 2); q.BPO = c.r.pick({6, 12, 24, c.r.range(3, 30), c.r.chance(0.2) ? 48 : 18}); q.CQThresh = c.r.pick({0.0054, 0.0054, 0.0, 0.05});
    c.say("fs=%g %g-%g bpo=%d", q.FS, q.min, q.max, q.BPO);
    Obj<ConstantQ> cq(c, MAKE(ConstantQ, q)); cq->sparsekernel(); if (c.r.chance(0.1)) cq->sparsekernel();
    int n = cq->getFFTLength(), k = cq->getK(); c.put(n); c.put(k); c.put(cq->getHop()); c.put(cq->getQ());
    for (int i = 0; i < 3; ++i) {
        { In<double> re(c, c.audio(n)), im(c, c.audio(n)); Out<double> qr(c, k), qi(c, k); cq->process(re, im, qr, qi); }
        In<double> il(c, c.audio(2 * n)); c.putp(cq->process(il), 2 * k);
    }
}
static void chromagram(Ctx &c) {
    ChromaConfig q; q.FS = c.r.pick({8000., 11025., 16000.}); q.min = c.r.uni(220, 500); q.max = std::min(q.min * c.r.pick({c.r.uni(2, 4.5), 2.0, c.r.uni(1.9, 2.2)}), q.FS / 2); q.BPO = c.r.pick({12, 24, 36, c.r.range(3, 40)}); q.CQThresh = 0.0054; q.normalise = (MathUtilities::NormaliseType)c.r.range(0, 2);
    c.say("fs=%g %g-%g bpo=%d normalise=%d", q.FS, q.min, q.max, q.BPO, q.normalise);
    Obj<Chromagram> ch(c, MAKE(Chromagram, q));
    int n = ch->getFrameSize(); c.put(n); c.put(ch->getK()); c.put(ch->getHopSize());
    for (int i = 0; i < 3; ++i) {
        if (c.r.chance(0.6)) { In<double> in(c, c.audio(n)); c.putp(ch->process(in), q.BPO); }
        else { In<double> re(c, c.audio(n)), im(c, c.audio(n)); c.putp(ch->process(re, im), q.BPO); }
    }
}
static void keymode(Ctx &c) {
    GetKeyMode::Config k(c.r.pick({8000.0, 11025.0}), 440.f); k.hpcpAverage = c.r.pick({0.0, 10.0, c.r.uni(0.5, 8)}); k.medianAverage = c.r.pick({0.0, 10.0, c.r.uni(0.5, 8)}); if (c.r.chance(0.3)) k.tuningFrequency = (float)c.r.uni(415, 466); k.decimationFactor = c.r.pick({4, 8, 8, 2, 1}); k.frameOverlapFactor = c.r.pick({1, 1, 2});
    c.say("rate=%g decimation=%d overlap=%d averages=%.2g,%.2g", k.sampleRate, k.decimationFactor, k.frameOverlapFactor, k.hpcpAverage, k.medianAverage);
    Obj<GetKeyMode> g(c, MAKE(GetKeyMode, k)); int n = g->getBlockSize(); c.put(n); c.put(g->getHopSize());
    for (int i = 0; i < 4; ++i) { dvec x = c.audio(n); In<double> in(c, x); c.put(g->process(in)); c.putp(g->getKeyStrengths(), 24); }
}
static void mfcc(Ctx &c) {
    MFCCConfig m(c.r.pick({8000, 22050, 44100, 48000})); m.fftsize = c.r.pick({256, 512, 1024, 2048}); m.nceps = c.r.pick({c.r.range(1, 39), 19}); m.logpower = c.r.pick({1.0, 2.0, 0.0, 3.0, 1.0}); m.want_c0 = c.r.chance(0.5); m.window = (WindowType)c.r.range(0, LastWindow);
    c.say("fs=%d fft=%d nceps=%d%s", m.FS, m.fftsize, m.nceps, m.want_c0 ? " c0" : "");
    Obj<MFCC> f(c, MAKE(MFCC, m)); int n = m.fftsize, k = m.nceps + (m.want_c0 ? 1 : 0); c.put(f->getfftlength());
    for (int i = 0; i < 3; ++i) {
        Out<double> o(c, k);
        if (c.r.chance(0.5)) { In<double> in(c, c.audio(n)); c.put(f->process(in, o)); }
        else { In<double> re(c, c.audio(n / 2 + 1)), im(c, c.audio(n / 2 + 1)); c.put(f->process(re, im, o)); }
    }
}
static void beatspectrum(Ctx &c) {
    int n = c.r.range(0, 40), m = c.r.range(1, 12); c.say("%dx%d", n, m);
    dmat d(n); for (auto &v : d) v = noise(c.r, m); const dmat keep = d;
    Obj<BeatSpectrum> b(c, MAKE(BeatSpectrum)); c.puts(b->process(d)); if (differs(d, keep)) c.issue("input-modified", "beat spectrum");
}
static void tempotrack(Ctx &c) {
    TTParams p; p.winLength = 512; p.lagLength = 128; p.alpha = 9; p.LPOrd = 2; p.WinT.pre = 8; p.WinT.post = 7;
    In<double> a(c, dvec(s_a, s_a + 3)), b(c, dvec(s_b, s_b + 3)); p.LPACoeffs = a; p.LPBCoeffs = b;
    Obj<TempoTrack> t(c, MAKE(TempoTrack, p));
    for (int k = 0; k < c.r.range(1, 2); ++k) { int n = c.r.pick({c.r.range(5, 1500), c.r.range(0, 5), 512, 513}); c.say("n=%d", n); c.call(); dvec tempo; ivec beats = t->process(novelty(c, n), c.r.chance(0.8) ? &tempo : 0); c.puts(beats); c.puts(tempo); }
}
static void tempotrack2(Ctx &c) {
    int n = c.r.pick({c.r.range(600, 1600), c.r.range(600, 1600), c.r.range(1, 640)}); c.say("n=%d", n); Obj<TempoTrackV2> t(c, MAKE(TempoTrackV2, 44100.f, 512));
    dvec df = novelty(c, n), keep = df, bp(df.size()), tempi, beats; int cases = c.r.range(0, 2);
    c.call();
    if (cases == 0) t->calculateBeatPeriod(df, bp, tempi); else t->calculateBeatPeriod(df, bp, tempi, c.r.uni(60, 180), cases == 2);
    if (differs(df, keep)) c.issue("input-modified", "detection function (beat period)");
    c.puts(bp); c.puts(tempi); const dvec kb = bp; c.call();
    if (c.r.chance(0.5)) t->calculateBeats(df, bp, beats); else t->calculateBeats(df, bp, beats, c.r.pick({c.r.uni(0.5, 0.95), 0.0, 1.0, c.r.uni()}), c.r.pick({c.r.uni(1, 8), 0.0, 50.0}));
    if (differs(df, keep) || differs(bp, kb)) c.issue("input-modified", "detection function or periods (beats)");
    c.puts(beats);
}
static void downbeat(Ctx &c) {
    float fs = c.r.pick({8000.f, 11025.f, 44100.f}); size_t f = c.r.pick({1, 2, 4, 8, 16, 32, 64}), inc = c.r.pick({64, 128}), block = inc; int blocks = c.r.range(1, 120), bpb = c.r.pick({0, 1, 2, 3, 4});
    c.say("fs=%g factor=%zu inc=%zu blocks=%d bpb=%d", fs, f, inc, blocks, bpb);
    Obj<DownBeat> d(c, MAKE(DownBeat, fs, f, inc)); if (bpb) d->setBeatsPerBar(bpb);
    for (int pass = 0; pass < 2; ++pass) {
        for (int i = 0; i < blocks; ++i) { dvec x = c.r.chance(0.8) ? noise(c.r, block, c.r.uni(0, 1)) : dvec(block, 0.0); In<float> in(c, toFloat(x)); d->pushAudioBlock(in); }
        size_t len = 0; const float *a = d->getBufferedAudio(len); c.put(len); for (size_t i = 0; i < len; ++i) c.put(a[i]);
        dvec beats; double per = c.r.uni(3, 20); for (double t = c.r.uni(0, per); t < blocks; t += per) beats.push_back(t);
        In<float> in(c, fvec(a, a + len)); const dvec kb = beats; ivec down; dvec sd;
        d->findDownBeats(in, len, beats, down); d->getBeatSD(sd); if (differs(beats, kb)) c.issue("input-modified", "beats");
        c.puts(down); c.puts(sd);
        if (c.r.chance(0.7)) d->resetAudioBuffer();
    }
}
static void tonal(Ctx &c) {
    Obj<TonalEstimator> te(c, MAKE(TonalEstimator)); Obj<TCSGram> g(c, MAKE(TCSGram)); int n = c.r.range(0, 40), w = c.r.range(0, 8); c.say("n=%d width=%d", n, w);
    g->setFrameDuration(46); g->setNumBins(12); if (c.r.chance(0.5)) g->reserve(n);
    for (int i = 0; i < n; ++i) { ChromaVector v; for (int j = 0; j < 12; ++j) v[j] = c.r.uni(); if (c.r.chance(0.3)) v.normalizeL1(); const ChromaVector k = v; TCSVector t = te->transform2TCS(v); for (int j = 0; j < 12; ++j) if (v[j] != k[j]) c.issue("input-modified", "chroma vector"); for (int j = 0; j < 6; ++j) c.put(t[j]); c.put(t.magnitude()); g->addTCSVector(t); }
    ChangeDFConfig cfg; cfg.smoothingWidth = w; Obj<ChangeDetectionFunction> cd(c, MAKE(ChangeDetectionFunction, cfg));
    for (int k = 0; k < 2; ++k) { ChangeDistance d = cd->process(*g); c.put(d.size()); for (size_t i = 0; i < d.size(); ++i) c.put(d[i]); }
    for (int i = 0; i < g->getSize(); ++i) { TCSVector t; g->getTCSVector(i, t); for (int j = 0; j < 6; ++j) c.put(t[j]); c.put(g->getTime(i)); }
    if (n) c.put(g->getDuration()); g->clear(); c.put(g->getSize());
}
static void wavelet(Ctx &c) {
    for (int k = 0; k < 5; ++k) { Wavelet::Type t = (Wavelet::Type)c.r.range(0, Wavelet::LastType); dvec l, h; if (c.r.chance(0.5)) { l = noise(c.r, 5); h = noise(c.r, 7); } c.call(); Wavelet::createDecompositionFilters(t, l, h); c.puts(l); c.puts(h); std::string s = Wavelet::getWaveletName(t); for (char x : s) c.put(x); }
}
static void hmm(Ctx &c) {
    int T = c.r.range(10, 60), L = c.r.range(1, 5), N = c.r.pick({c.r.range(1, 5), c.r.range(1, 5), c.r.range(6, 12)}); c.say("T=%d L=%d N=%d", T, L, N);
    dmat x = randomRows(c, T, L); Rows in(c, x, true); Out<int> q(c, (size_t)T);
    model_t *m = hmm_init(in, T, L, N); c.call(); hmm_train(in, T, m); viterbi_decode(in, T, m, q);
    c.putp(m->p0, N); for (int i = 0; i < N; ++i) { c.putp(m->a[i], N); c.putp(m->mu[i], L); } for (int i = 0; i < L; ++i) c.putp(m->cov[i], L);
    hmm_close(m);
}
static dmat spd(Ctx &c, int L) { dmat a(L, dvec(L)), m(L, dvec(L)); for (auto &v : a) for (auto &y : v) y = c.r.gauss(); for (int i = 0; i < L; ++i) for (int j = 0; j <= i; ++j) { double s = i == j ? 0.5 : 0; for (int k = 0; k < L; ++k) s += a[i][k] * a[j][k]; m[i][j] = m[j][i] = s; } return m; }
static void gaussians(Ctx &c) {
    int L = c.r.range(1, 8); c.say("L=%d", L);
    dmat inv; double det = 0;
    { Rows cov(c, spd(c, L), true), ic(c, L, L); invert(cov, L, ic, &det); c.put(det); for (int i = 0; i < L; ++i) inv.push_back(ic.out[i]->vec()); }
    Rows ic(c, inv, true); In<double> x(c, noise(c.r, L)), mu(c, noise(c.r, L)); Guarded<double> y(L), z(L);
    c.put(gauss(x, L, mu, ic, det, y, z)); c.put(loggauss(x, L, mu, ic, det, y, z));
    if (!y.intact() || !z.intact()) c.issue("write-outside-output", "gauss scratch");
}
static void pca(Ctx &c) {
    int n = c.r.range(2, 40), m = c.r.range(1, 8), k = c.r.range(1, m); c.say("%dx%d components=%d", n, m, k);
    Rows io(c, randomRows(c, n, m), false); pca_project(io, n, m, k);
}
static void melt(Ctx &c) {
    int m = c.r.range(2, 8), n = c.r.range(3, 30), k = c.r.range(2, 4), l = c.r.range(0, 5), t = c.r.range(1, 8); c.say("m=%d n=%d k=%d l=%d t=%d", m, n, k, l, t);
    dvec h; for (int i = 0; i < n; ++i) { dvec v(m); double s = 0; for (auto &x : v) { x = c.r.uni(); s += x; } for (auto &x : v) h.push_back(x / s); }
    dvec B(t); B[0] = 100; for (int i = 1; i < t; ++i) B[i] = 0.7 * B[i - 1];
    In<double> hi(c, h), b(c, B); Out<int> q(c, (size_t)n);
    cluster_melt(hi, m, n, b, t, k, l, q);
}
static void segcluster(Ctx &c) {
    int n = c.r.range(17, 60), m = c.r.range(2, 6); c.say("n=%d m=%d", n, m);
    { Rows f(c, randomRows(c, n, m), false); Out<int> q(c, (size_t)n); cluster_segment(q, f, n, m, c.r.range(2, 6), 15, c.r.range(2, 4), c.r.range(2, 10)); }
    { int bins = c.r.range(2, 6), oct = c.r.range(1, 3); dmat d = randomRows(c, n, bins * oct); Rows cq(c, d, true), ch(c, n, bins); cq2chroma(cq, n, bins * oct, bins, ch); }
    { dmat d = randomRows(c, n, 24 + 1); for (auto &v : d) for (auto &y : v) y = std::fabs(y); Rows f(c, d, false); Out<int> q(c, (size_t)n); constq_segment(q, f, n, 8, 24, FEATURE_TYPE_CONSTQ, 4, 15, 3, 5); }
    { ivec s(n); for (auto &y : s) y = c.r.range(0, 3); In<int> x(c, s); Out<double> h(c, (size_t)n * 4); create_histograms(x, n, 4, 5, h); }
}
static void segmenter(Ctx &c) {
    ClusterMeltSegmenterParams p; p.featureType = c.r.pick({FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC}); p.nbins = c.r.pick({8, 12}); p.fmin = 250; p.fmax = c.r.pick({1000, 2000}); p.windowSize = c.r.uni(0.05, 0.2); p.hopSize = p.windowSize * c.r.pick({1.0, 1.0, 0.5, 1.5}); p.nHMMStates = c.r.range(3, 8); p.nclusters = c.r.range(2, 4); p.neighbourhoodLimit = 5;
    int fs = c.r.pick({8000, 11025, 22050, 44100}), n = c.r.range(0, 24); c.say("type=%d fs=%d n=%d", p.featureType, fs, n);
    Obj<ClusterMeltSegmenter> s(c, MAKE(ClusterMeltSegmenter, p)); if (c.r.chance(0.2)) { s->initialise(c.r.pick({8000, 22050, 44100})); dvec z(s->getWindowsize(), 0.25); In<double> in(c, z); s->extractFeatures(in, z.size()); } s->initialise(fs); int w = s->getWindowsize(); c.put(w); c.put(s->getHopsize()); c.put(s->getNSegmentTypes());
    double f1 = c.r.uni(200, 900) / fs, f2 = c.r.uni(200, 900) / fs;
    for (int i = 0; i < n; ++i) { dvec x = sine(w, i * 3 / n % 2 ? f2 : f1, 0.5); for (auto &y : x) y += 0.01 * c.r.gauss(); In<double> in(c, x); s->extractFeatures(in, w); }
    c.call(); if (c.r.chance(0.5)) s->segment(); else s->segment(c.r.range(2, 4));
    const Segmentation &g = s->getSegmentation(); std::ostringstream o; o << g;
    if (n > 15) { c.put(g.nsegtypes); c.put(g.samplerate); } c.put(g.segments.size());
    for (auto &q : g.segments) { c.put(q.start); c.put(q.end); c.put(q.type); }
    s->clear();
}
static void setfeatures(Ctx &c) {
    ClusterMeltSegmenterParams p; p.featureType = FEATURE_TYPE_UNKNOWN; p.nHMMStates = c.r.range(3, 8); p.nclusters = c.r.range(2, 4); p.neighbourhoodLimit = 5; int n = c.r.range(16, 60), m = c.r.range(2, 5); c.say("n=%d m=%d", n, m);
    Obj<ClusterMeltSegmenter> s(c, MAKE(ClusterMeltSegmenter, p)); s->initialise(8000);
    for (int k = 0; k < 2; ++k) { dmat d = randomRows(c, n, m), keep = d; s->setFeatures(d); c.call(); s->segment(c.r.range(2, 4)); if (differs(d, keep)) c.issue("input-modified", "features"); for (auto &q : s->getSegmentation().segments) { c.put(q.start); c.put(q.end); c.put(q.type); } s->clear(); }
}
static void mathutilities(Ctx &c) {
    int n = c.r.chance(0.1) ? c.r.range(60, 5000) : c.r.range(1, 60); c.say("n=%d", n); typedef MathUtilities M;
    In<double> a(c, c.audio(n)); double mn = 0, mx = 0; M::getFrameMinMax(a, n, &mn, &mx); c.put(mn); c.put(mx);
    c.put(M::mean(a, n)); c.put(M::sum(a, n)); c.put(M::median(a, n)); double an = 0; M::getAlphaNorm(a, n, c.r.range(1, 10), &an); c.put(an);
    { double m = 0; c.put(M::getMax(a, n, &m)); c.put(m); c.put(M::getMax(a, n)); }
    dvec v = c.audio(n); const dvec k = v; c.put(M::mean(v, 0, n)); c.put(M::getAlphaNorm(v, 3)); c.put(M::getLpNorm(v, 2)); c.puts(M::normaliseLp(v, 2)); { double m = 0; c.put(M::getMax(v, &m)); c.put(m); } if (differs(v, k)) c.issue("input-modified", "vector statistics");
    { Out<double> io(c, c.audio(n)); M::normalise(io, n, (M::NormaliseType)c.r.range(0, 2)); } { dvec w = c.audio(n); M::normalise(w, (M::NormaliseType)c.r.range(0, 2)); c.puts(w); M::adaptiveThreshold(w); c.puts(w); }
    { Out<double> io(c, c.audio(n)); M::circShift(io, n, c.r.range(-n + 1, n - 1)); }
    double y = c.r.uni(-100, 100); c.put(M::round(y)); c.put(M::princarg(y)); c.put(M::mod(y, c.r.uni(0.1, 9)));
    int i = c.r.range(1, 1 << 20); c.put(M::isPowerOfTwo(i)); c.put(M::nextPowerOfTwo(i)); c.put(M::previousPowerOfTwo(i)); c.put(M::nearestPowerOfTwo(i)); c.put(M::factorial(c.r.range(0, 30))); c.put(M::gcd(i, c.r.range(1, 10000))); int p = 3, q = c.r.range(0, 6); c.put(M::compareInt(&p, &q));
}
static void medianfilter(Ctx &c) {
    int n = c.r.chance(0.1) ? c.r.range(20, 300) : c.r.range(1, 20); c.say("size=%d", n); float pc = c.r.pick({50.f, (float)c.r.uni(0, 100)});
    Obj<MedianFilter<double> > m(c, MAKE(MedianFilter<double>, n, pc)); c.put(m->getSize());
    for (int i = 0; i < 30; ++i) { if (c.r.chance(0.05)) { c.call(); m->reset(); } m->push(c.r.gauss()); c.put(m->get()); c.put(m->getAt((float)c.r.uni(0, 100))); if (c.r.chance(0.1)) m->setPercentile((float)c.r.uni(0, 100)); }
    dvec in = noise(c.r, 40); const dvec k = in; c.puts(MedianFilter<double>::filter(n, in)); if (differs(in, k)) c.issue("input-modified", "median filter input");
    Obj<MedianFilter<float> > mf(c, MAKE(MedianFilter<float>, n)); for (int i = 0; i < 10; ++i) { mf->push((float)c.r.gauss()); c.put(mf->get()); }
}
static void distances(Ctx &c) {
    int n = c.r.range(1, 30); dvec a = noise(c.r, n), b = noise(c.r, n), d1(n), d2(n); for (int i = 0; i < n; ++i) { d1[i] = c.r.uni(0.01, 2); d2[i] = c.r.uni(0.01, 2); } c.say("n=%d", n);
    const dvec ka = a, kb = b, k1 = d1, k2 = d2; Obj<CosineDistance> cd(c, MAKE(CosineDistance)); Obj<KLDivergence> kl(c, MAKE(KLDivergence));
    c.put(cd->distance(a, b)); c.put(cd->distance(a, a)); c.put(kl->distanceGaussian(a, d1, b, d2)); c.put(kl->distanceDistribution(d1, d2, true)); c.put(kl->distanceDistribution(d1, d2, false));
    if (differs(a, ka) || differs(b, kb) || differs(d1, k1) || differs(d2, k2)) c.issue("input-modified", "distance arguments");
    Obj<Correlation> co(c, MAKE(Correlation)); In<double> in(c, c.audio(n)); Out<double> o(c, n); co->doAutoUnBiased(in, o, n);
}
static void polyfit(Ctx &c) {
    int n = c.r.range(2, 30), t = c.r.range(1, 4); if (t > n) t = n; c.say("n=%d terms=%d", n, t); dvec x(n), y(n), co(t); for (int i = 0; i < n; ++i) { x[i] = i * 0.5 + c.r.uni(0, 0.3); y[i] = c.r.gauss(); }
    for (auto &v : co) v = c.env.outFill * 1e4; const dvec kx = x, ky = y; c.call(); c.put(TPolyFit::PolyFit2(x, y, co)); c.puts(co); if (differs(x, kx) || differs(y, ky)) c.issue("input-modified", "points");
}
static void allocator(Ctx &c) {
    int size = c.r.range(1, 64); c.say("size=%d", size); Obj<BlockAllocator> b(c, MAKE(BlockAllocator, size)); std::vector<std::pair<unsigned char *, int> > live;
    for (int i = 0; i < 200; ++i) {
        if (live.empty() || c.r.chance(0.6)) { unsigned char *p = (unsigned char *)b->allocate(); int v = c.r.range(0, 255); memset(p, v, size); live.push_back(std::make_pair(p, v)); }
        else { int k = c.r.range(0, live.size() - 1); long s = 0; for (int j = 0; j < size; ++j) s += live[k].first[j]; c.put(s); b->deallocate(live[k].first); live.erase(live.begin() + k); }
    }
    for (auto &l : live) { long s = 0; for (int j = 0; j < size; ++j) s += l.first[j]; c.put(s); b->deallocate(l.first); }
}
struct W : Thread { int k; double v; W(int k_) : k(k_), v(0) {} void run() { FFTReal f(16); dvec x(16), re(16), im(16); for (int i = 0; i < 16; ++i) x[i] = i * k; f.forward(x.data(), re.data(), im.data()); v = re[1]; } };
struct Task : AsynchronousTask { double in, out; Task() : in(0), out(0) {} void go(double v) { in = v; startTask(); } double get() { awaitTask(); return out; } void performTask() { DCT d(8); dvec x(8, in), y(8); d.forward(x.data(), y.data()); out = y[0]; } };
static void threads(Ctx &c) {
    int n = c.r.range(1, 3); c.say("n=%d", n); std::vector<W *> w; for (int i = 0; i < n; ++i) w.push_back(new W(i + 1)); for (auto x : w) x->start(); for (auto x : w) { x->wait(); c.put(x->v); delete x; }
    Task *t = new Task, *u = new Task; for (int i = 0; i < 3; ++i) { t->go(i); u->go(2 * i); c.put(u->get()); c.put(t->get()); } delete t; delete u;
    Mutex m; { MutexLocker l(&m); } c.put(m.trylock()); m.unlock(); Condition q("q"); q.lock(); q.wait(1000); q.signal(); q.unlock();
}

const Scenario all[] = {
    {"FFT", "dsp/transforms/FFT.cpp", fft, false}, {"FFTReal", "dsp/transforms/FFT.cpp", fftreal, false}, {"DCT", "dsp/transforms/DCT.cpp", dct, false},
    {"Window", "base/Window.h", windows, false}, {"KaiserSinc", "base/KaiserWindow.cpp", kaiserSinc, false}, {"Pitch", "base/Pitch.cpp", pitch, false},
    {"Resampler", "dsp/rateconversion/Resampler.cpp", resampler, false}, {"Decimator", "dsp/rateconversion/Decimator.cpp", decimator, false}, {"DecimatorB", "dsp/rateconversion/DecimatorB.cpp", decimatorB, false},
    {"Filter", "dsp/signalconditioning/Filter.cpp", filter, false}, {"FiltFilt", "dsp/signalconditioning/FiltFilt.cpp", filtfilt, false}, {"Framer", "dsp/signalconditioning/Framer.cpp", framer, false},
    {"DFProcess", "dsp/signalconditioning/DFProcess.cpp", dfprocess, false}, {"PeakPicking", "dsp/onsets/PeakPicking.cpp", peakpicking, false}, {"DetectionFunction", "dsp/onsets/DetectionFunction.cpp", detection, false},
    {"PhaseVocoder", "dsp/phasevocoder/PhaseVocoder.cpp", phasevocoder, false}, {"ConstantQ", "dsp/chromagram/ConstantQ.cpp", constantq, false}, {"Chromagram", "dsp/chromagram/Chromagram.cpp", chromagram, false},
    {"GetKeyMode", "dsp/keydetection/GetKeyMode.cpp", keymode, false}, {"MFCC", "dsp/mfcc/MFCC.cpp", mfcc, false}, {"BeatSpectrum", "dsp/rhythm/BeatSpectrum.cpp", beatspectrum, false},
    {"TempoTrack", "dsp/tempotracking/TempoTrack.cpp", tempotrack, false}, {"TempoTrackV2", "dsp/tempotracking/TempoTrackV2.cpp", tempotrack2, false}, {"DownBeat", "dsp/tempotracking/DownBeat.cpp", downbeat, false},
    {"Tonal", "dsp/tonal", tonal, false}, {"Wavelet", "dsp/wavelet/Wavelet.cpp", wavelet, false}, {"HMM", "hmm/hmm.c", hmm, true}, {"Gaussians", "hmm/hmm.c", gaussians, false}, {"PCA", "maths/pca/pca.c", pca, false},
    {"ClusterMelt", "dsp/segmentation/cluster_melt.c", melt, true}, {"ClusterSegment", "dsp/segmentation/cluster_segmenter.c", segcluster, true}, {"Segmenter", "dsp/segmentation/ClusterMeltSegmenter.cpp", segmenter, true}, {"SegmenterFeatures", "dsp/segmentation/ClusterMeltSegmenter.cpp", setfeatures, true},
    {"MathUtilities", "maths/MathUtilities.cpp", mathutilities, false}, {"MedianFilter", "maths/MedianFilter.h", medianfilter, false}, {"Distances", "maths", distances, false}, {"Polyfit", "maths/Polyfit.h", polyfit, false},
    {"BlockAllocator", "thread/BlockAllocator.h", allocator, false}, {"Threads", "thread/Thread.cpp", threads, false},
};
const int count = sizeof all / sizeof all[0];
void run(const Scenario &s, Ctx &c) {
    c.name = s.name;
    uint64_t keep = t_rand; long kt = t_time;
    t_rand = s.draws ? mix64(c.r.u64()) : c.env.draws; if (!s.draws) { t_time = 1000 + (long)(c.env.draws % 100000); } else { t_time = 1000; }
    s.fn(c);
    t_rand = keep; t_time = kt;
}
}
