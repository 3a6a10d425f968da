// C32: whole analysis chains on synthesised music with known ground truth.
#include "vf.h"
#include "dsp/onsets/DetectionFunction.h"
#include "dsp/onsets/PeakPicking.h"
#include "dsp/tempotracking/TempoTrack.h"
#include "dsp/tempotracking/TempoTrackV2.h"
#include "dsp/tempotracking/DownBeat.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/rateconversion/Resampler.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include "dsp/signalconditioning/Framer.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
#include "dsp/mfcc/MFCC.h"
#include "base/Pitch.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include <memory>
using namespace vf;

static uint64_t g_rand = 1;
extern "C" int rand() { return (int)(mix64(g_rand++) >> 34); }

static double A2[3] = {1.0000, -0.5949, 0.2348}, B2[3] = {0.1600, 0.3200, 0.1600};
static double hz(double midi) { return 440 * std::pow(2.0, (midi - 69) / 12.0); }

// ------------------------------------------------------------ synthesis
static void note(dvec &x, double fs, int from, int len, double midi, double amp, int harmonics = 3) {
    for (int h = 1; h <= harmonics; ++h) {
        double f = hz(midi) * h; if (f > fs / 2.3) break;
        for (int i = 0; i < len && from + i < (int)x.size(); ++i) {
            if (from + i < 0) continue;
            double env = std::min(1.0, std::min(i, len - 1 - i) / (0.004 * fs));
            x[from + i] += env * amp / h * std::sin(2 * M_PI * f / fs * i + midi);
        }
    }
}
static void hit(dvec &x, Rng &r, double fs, double at, double amp) {
    int s = (int)at, len = 0.08 * fs;
    for (int i = 0; i < len && s + i < (int)x.size(); ++i) if (s + i >= 0) x[s + i] += amp * std::exp(-i / (0.012 * fs)) * r.uni(-1, 1);
}
struct Grid { double fs; int step; };
static Grid grid(Rng &r) {
    double fs = r.pick({44100.0, 48000.0, 22050.0}); Grid g; g.fs = fs; g.step = r.pick({512, 512, 1024}); if (fs < 30000) g.step = 256; return g;
}
static dvec detect(const dvec &x, int step, int type, bool whiten, bool viaFramer) {
    DFConfig cf; cf.stepSize = step; cf.frameLength = 2 * step; cf.DFType = type; cf.dbRise = 3; cf.adaptiveWhitening = whiten; cf.whiteningRelaxCoeff = -1; cf.whiteningFloor = -1;
    DetectionFunction df(cf); dvec out;
    if (viaFramer) {
        Framer f; f.configure(2 * step, step); dvec y(x); f.setSource(y.data(), y.size());
        dvec b(2 * step);
        for (int i = 0, n = f.getMaxNoFrames(); i < n; ++i) { f.getFrame(b.data()); out.push_back(df.processTimeDomain(b.data())); }
    } else for (size_t p = 0; p + 2 * step <= x.size(); p += step) out.push_back(df.processTimeDomain(x.data() + p));
    return out;
}
static std::vector<int> pickOnsets(dvec df, double sensitivity) {
    PPickParams pp; pp.length = df.size(); pp.tau = 512. / 44100; pp.alpha = 9; pp.cutoff = 0.55 / 2; pp.LPOrd = 2; pp.LPACoeffs = A2; pp.LPBCoeffs = B2;
    pp.WinT.pre = 8; pp.WinT.post = 7; pp.QuadThresh.a = (100 - sensitivity) / 1000; pp.QuadThresh.b = 0; pp.QuadThresh.c = (100 - sensitivity) / 1500;
    PeakPicking pk(pp); std::vector<int> on; pk.process(df.data(), df.size(), on); return on;
}
// does every event have a detection near it, and every detection an event?
static void match(const dvec &truth, const dvec &got, double lo, double hi, double from, double to, const char *missed, const char *extra, int slack = 0) {
    int m = 0, e = 0, nt = 0, ng = 0; double atM = 0, atE = 0;
    for (double t : truth) if (t >= from && t <= to) { ++nt; bool ok = false; for (double g : got) if (g - t >= lo && g - t <= hi) ok = true; if (!ok) { ++m; atM = t; } }
    for (double g : got) if (g >= from + hi && g <= to + lo) { ++ng; bool ok = false; for (double t : truth) if (g - t >= lo && g - t <= hi) ok = true; if (!ok) { ++e; atE = g; } }
    mon.check(m <= slack, missed, "%d of %d events missed, e.g. at %g", m, nt, atM);
    if (*extra != '-') mon.check(e == 0, extra, "%d of %d detections are at no event, e.g. %g", e, ng, atE);
    mon.count("events", nt); mon.count("detections", ng);
}

int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();

    mon.group("onsets", mon.n(80, 800), [](Case &c) {
        Rng &r = c.rng; Grid g = grid(r); int step = g.step;
        int type = r.pick({DF_HFC, DF_SPECDIFF, DF_COMPLEXSD, DF_BROADBAND}); bool wh = r.chance(0.3) && type != DF_BROADBAND, fr = r.chance(0.5);
        double per = r.uni(0.35, 0.9); int ev = r.range(8, 24); bool jit = r.chance(0.5);
        double amp = r.logUni(0.05, 1.0);
        c.say("fs=%g step=%d type=%d whiten=%d framer=%d events=%d period=%.3g jitter=%d amp=%.2g", g.fs, step, type, wh, fr, ev, per, jit, amp);
        dvec t, x((int)((ev * per + 1.0) * g.fs), 0.0); double at = 0.35;
        for (int i = 0; i < ev; ++i) { double a = (at + (jit ? r.uni(-0.08, 0.08) : 0)) * g.fs; t.push_back(a / step); hit(x, r, g.fs, a, amp * r.uni(0.7, 1)); at += per; }
        if (type != DF_BROADBAND) for (auto &v : x) v += amp * 1e-4 * r.uni(-1, 1);   // counting bins that rise needs quiet between the clicks
        dvec df = detect(x, step, type, wh, fr);
        std::vector<int> on = pickOnsets(df, 50);
        dvec got(on.begin(), on.end());
        if (getenv("E2E_DEBUG")) { for (double a : t) { double best = 99; for (double q : got) if (std::fabs(q - a) < std::fabs(best)) best = q - a; mon.maxim(fmt("late%d", type).c_str(), best); mon.maxim(fmt("early%d", type).c_str(), -best); } }
        match(t, got, -2.5, 2.5, 0, 1e9, "onset-at-every-click", type == DF_BROADBAND ? "-" : "onset-only-at-clicks", type == DF_BROADBAND ? 1 + ev / 8 : 0);
    });
    mon.group("onset-shift", mon.n(60, 600), [](Case &c) {
        Rng &r = c.rng; int step = r.pick({256, 512}), k = r.range(1, 40), type = r.pick({DF_HFC, DF_SPECDIFF, DF_COMPLEXSD, DF_PHASEDEV}); bool wh = false;
        dvec x = signal(r, step * r.range(20, 80)), y(k * step, 0.0); y.insert(y.end(), x.begin(), x.end());
        c.say("step=%d shift=%d type=%d", step, k, type);
        dvec a = detect(x, step, type, wh, false), b = detect(y, step, type, wh, false);
        // from the frame that lies wholly in the audio, with the history wholly in it too
        for (size_t i = 3; i < a.size() && i + k < b.size(); ++i) if (!mon.check(std::fabs(a[i] - b[i + k]) <= 1e-6 * (1 + std::fabs(a[i])) + (type == DF_PHASEDEV ? 0.05 * std::fabs(a[i]) : 0), "detection-function-shift", "value %zu: %g, delayed by %d frames %g", i, a[i], k, b[i + k])) break;
    });
    mon.group("beats", mon.n(60, 600), [](Case &c) {
        Rng &r = c.rng; Grid g = grid(r); if (g.step == 1024) g.step = 512; int step = g.step;
        int type = r.pick({DF_HFC, DF_SPECDIFF, DF_COMPLEXSD}); bool wh = r.chance(0.3), constrain = r.chance(0.5);
        double bpm = r.uni(90, 150), per = 60 / bpm, amp = r.logUni(0.05, 1), ph = r.uni(0.05, 0.5), secs = r.uni(18, 28);
        c.say("fs=%g step=%d type=%d whiten=%d bpm=%.4g constrained=%d phase=%.3g %.3g s", g.fs, step, type, wh, bpm, constrain, ph, secs);
        dvec x((int)(secs * g.fs), 0.0), truth;
        for (double t = ph; t < secs - 0.1; t += per) { hit(x, r, g.fs, t * g.fs, amp * r.uni(0.7, 1)); truth.push_back(t * g.fs / step); }
        for (auto &v : x) v += amp * 1e-3 * r.uni(-1, 1);
        dvec df = detect(x, step, type, wh, true);
        double P = per * g.fs / step;
        TempoTrackV2 tt(g.fs, step); dvec d2(df.begin() + 2, df.end()), bp(d2.size(), 0.0), tempi, beats;
        tt.calculateBeatPeriod(d2, bp, tempi, constrain ? bpm : 120.0, constrain);
        tt.calculateBeats(d2, bp, beats);
        double ratio = 1; // an unconstrained tracker may settle on a related metrical level
        if (!tempi.empty()) { double m = tempi[tempi.size() / 2]; if (!constrain && m / bpm > 1.8) ratio = 2; if (!constrain && m / bpm < 0.6) ratio = 0.5; }
        mon.count(fmt("level_%g", ratio).c_str());
        for (double t : tempi) if (!mon.check(std::fabs(t / ratio - bpm) <= 0.05 * bpm, "tempo-of-clicks", "%g bpm for clicks at %g (level %g)", t, bpm, ratio)) break;
        for (auto &b : beats) b += 2;
        dvec tr = truth; if (ratio == 2) for (size_t i = 0; i + 1 < truth.size(); ++i) tr.push_back((truth[i] + truth[i + 1]) / 2);
        match(ratio == 0.5 ? dvec() : tr, beats, -3, 3, 4 * P, df.size() - 4 * P, "beat-at-every-click", ratio == 0.5 ? "-" : "beat-only-at-clicks");
        if (getenv("E2E_DEBUG")) for (double b : beats) { double best = 99; for (double t : tr) if (std::fabs(b - t) < std::fabs(best)) best = b - t; if (b > 4 * P && b < df.size() - 4 * P) { mon.maxim("beat_late", best); mon.maxim("beat_early", -best); } }
        // the original tracker
        TTParams p; p.winLength = 512; p.lagLength = 128; p.alpha = 9; p.LPOrd = 2; p.LPACoeffs = A2; p.LPBCoeffs = B2; p.WinT.pre = 8; p.WinT.post = 7;
        if (P > 29 && P < 60) {
            TempoTrack o(p); dvec tempo; std::vector<int> ob = o.process(d2, &tempo);
            int off = 0, seen = 0;
            for (int b : ob) if (b > 600 && b < (int)d2.size() - 600) { double best = 99; for (double t : truth) best = std::min(best, std::fabs(b + 2 - t)); ++seen; if (best > 4) ++off; }
            mon.check(off <= 0.15 * seen, "original-tracker-on-clicks", "%d of %d beats away from the clicks", off, seen);
            mon.count("original_beats", seen);
        }
        mon.saw(fmt("%d", (int)P));
    });
    mon.group("bars", mon.n(40, 400), [](Case &c) {
        Rng &r = c.rng; double fs = 44100; int step = 512, bpb = r.pick({3, 4});
        double bpm = r.uni(90, 140), per = 60 / bpm; int first = r.range(0, bpb - 1), nb = r.range(28, 40);
        c.say("bpm=%.4g bpb=%d first=%d beats=%d", bpm, bpb, first, nb);
        dvec x((int)((nb * per + 0.3) * fs), 0.0); std::vector<double> changes; double root = 45; int prog = 0;
        static const int P[] = {0, 5, 10, 3, 8, 2, 7};
        for (int b = 0; b < nb; ++b) {
            double t = 0.2 + b * per;
            if (b % bpb == first) { prog = (prog + 1) % 7; changes.push_back(t); }
            root = 45 + P[prog];
            for (int n : {0, 4, 7}) note(x, fs, t * fs, per * fs, root + n, 0.1, 2);
            hit(x, r, fs, t * fs, 0.5);
        }
        DownBeat db(fs, 16, step); db.setBeatsPerBar(bpb);
        std::vector<float> blk(step);
        for (size_t p = 0; p + step <= x.size(); p += step) { for (int i = 0; i < step; ++i) blk[i] = x[p + i]; db.pushAudioBlock(blk.data()); }
        dvec df = detect(x, step, DF_COMPLEXSD, false, true), d2(df.begin() + 2, df.end()), bp(d2.size(), 0.0), tempi, beats;
        TempoTrackV2 tt(fs, step); tt.calculateBeatPeriod(d2, bp, tempi, bpm, true); tt.calculateBeats(d2, bp, beats);
        for (auto &b : beats) b += 2;
        size_t len; const float *a = db.getBufferedAudio(len); std::vector<int> down;
        db.findDownBeats(a, len, beats, down);
        if (!mon.check(!down.empty(), "bar-lines-at-harmony-changes", "no downbeats among %zu beats", beats.size())) return;
        int on = 0, seen = 0;
        for (int d : down) { double t = beats[d] * step / fs; if (t < changes.front() - per || t > changes.back()) continue; ++seen; for (double q : changes) if (std::fabs(q - t) < per / 2) { ++on; break; } }
        mon.check(on >= seen * 0.7, "bar-lines-at-harmony-changes", "%d of %d downbeats at a change of harmony", on, seen);
        mon.count("downbeats", seen);
    });
    mon.group("tone-chroma", mon.n(120, 1200), [](Case &c) {
        Rng &r = c.rng; double fs = r.pick({44100.0, 22050.0, 16000.0, 11025.0}), tune = r.pick({440.0, 440.0, 432.0, 446.0}); int bpo = r.pick({12, 24, 36}), m = r.range(50, 82);
        ChromaConfig cc; cc.FS = fs; cc.BPO = bpo; cc.CQThresh = 0.0054; cc.normalise = MathUtilities::NormaliseUnitMax;
        cc.min = Pitch::getFrequencyForPitch(36, 0, tune); cc.max = Pitch::getFrequencyForPitch(96, 0, tune); if (cc.max > fs / 2.2) cc.max = Pitch::getFrequencyForPitch(84, 0, tune);
        Chromagram ch(cc); int n = ch.getFrameSize();
        double f = tune * std::pow(2.0, (m - 69) / 12.0);
        dvec x = sine(n, f / fs, r.logUni(1e-3, 1), r.uni(0, 6));
        c.say("fs=%g tuning=%g bpo=%d note=%d", fs, tune, bpo, m);
        double *o = ch.process(x.data()); dvec v(o, o + bpo);
        int pk = std::max_element(v.begin(), v.end()) - v.begin(), want = (m % 12) * bpo / 12;
        mon.check(pk == want, "tone-in-its-chroma-bin", "note %d peaks in bin %d of %d, expected %d", m, pk, bpo, want);
        float cents = -1; int p = Pitch::getPitchForFrequency(f, &cents, tune);
        mon.check(p == m && std::fabs(cents) < 0.01, "tone-pitch", "pitch %d %+g cents", p, cents);
        ChromaVector cv(12); for (int i = 0; i < bpo; ++i) cv[((i + bpo / 24) / (bpo / 12)) % 12] += v[i];
        TonalEstimator te; cv.normalizeL1(); TCSVector t = te.transform2TCS(cv);
        int best = -1; double bd = 1e9;
        for (int k = 0; k < 12; ++k) { ChromaVector q(12); q[k] = 1; TCSVector u = te.transform2TCS(q); double d = 0; for (int i = 0; i < 6; ++i) d += (u[i] - t[i]) * (u[i] - t[i]); if (d < bd) { bd = d; best = k; } }
        mon.check(best == m % 12, "tone-tonal-centroid", "nearest pitch class %d, note %d", best, m % 12);
        mon.saw(fmt("%d %d", m, bpo));
    });
    mon.group("harmonic-change", mon.n(40, 400), [](Case &c) {
        Rng &r = c.rng; double fs = 11025; ChromaConfig cc; cc.FS = fs; cc.BPO = 12; cc.CQThresh = 0.0054; cc.normalise = MathUtilities::NormaliseUnitSum; cc.min = hz(48); cc.max = hz(84);
        Chromagram ch(cc); int n = ch.getFrameSize(), hop = ch.getHopSize() / 4, chords = r.range(3, 6), len = hop * r.range(40, 60);
        dvec x(chords * len + n, 0.0); dvec at; int root = r.range(48, 59);
        for (int k = 0; k < chords; ++k) { if (k) { root = 48 + (root - 48 + r.pick({3, 4, 6, 8, 9, 2, 10})) % 12; at.push_back((double)k * len); } int mi = r.chance(0.4) ? 3 : 4; for (int q : {0, mi, 7}) note(x, fs, k * len, k + 1 == chords ? len + n : len, root + q, 0.2, 2); }
        c.say("chords=%d len=%d frame=%d hop=%d", chords, len, n, hop);
        TonalEstimator te; TCSGram tg; tg.setFrameDuration(1000. * hop / fs);
        for (size_t p = 0; p + n <= x.size(); p += hop) { double *o = ch.process(x.data() + p); ChromaVector cv(12); for (int i = 0; i < 12; ++i) cv[i] = o[i]; cv.normalizeL1(); tg.addTCSVector(te.transform2TCS(cv)); }
        ChangeDFConfig cf; cf.smoothingWidth = 5; ChangeDetectionFunction df(cf); ChangeDistance d = df.process(tg);
        double half = n / 2.0; std::vector<double> near, far;
        for (size_t i = 8; i + 8 < d.size(); ++i) { double t = i * (double)hop + half, b = 1e9; for (double a : at) b = std::min(b, std::fabs(a - t)); if (b < half * 0.5) near.push_back(d[i]); else if (b > half + 12 * hop) far.push_back(d[i]); }
        // each change shows as the largest values around it
        for (double a : at) { double mx = 0; for (size_t i = 8; i + 8 < d.size(); ++i) { double t = i * (double)hop + half; if (std::fabs(a - t) < half * 0.75) mx = std::max(mx, (double)d[i]); }
            double fx = 0; for (double v : far) fx = std::max(fx, v);
            mon.check(mx > 2 * fx, "harmonic-change-shows", "change at sample %g: %g, %g where the harmony is steady", a, mx, fx); }
        mon.count("changes", at.size());
    });
    mon.group("key-any-rate", mon.n(48, 240), [](Case &c) {
        Rng &r = c.rng; int tonic = c.idx % 12; bool minor = (c.idx / 12) & 1; double fs = 44100;
        dvec x((int)(fs * 1.0) * 8, 0.0); int k = 0;
        static const int MA[4][3] = {{0, 4, 7}, {5, 9, 12}, {7, 11, 14}, {0, 4, 7}}, MI[4][3] = {{0, 3, 7}, {5, 8, 12}, {7, 11, 14}, {0, 3, 7}};
        for (int q : {0, 0, 1, 2, 0, 2, 0, 0}) { for (int i = 0; i < 3; ++i) note(x, fs, k * fs, fs, 60 + tonic + (minor ? MI : MA)[q][i], 0.12, 3); note(x, fs, k * fs, fs, 48 + tonic + (minor ? MI : MA)[q][0], 0.12, 3); ++k; }
        c.say("tonic=%d %s", tonic, minor ? "minor" : "major");
        auto key = [&](const dvec &y, double rate, int dec) {
            GetKeyMode::Config cf(rate, 440); cf.decimationFactor = dec; cf.frameOverlapFactor = 4; GetKeyMode g(cf); int N = g.getBlockSize(), hop = g.getHopSize(); std::map<int, int> h; int last = 0;
            for (size_t p = 0; p + N <= y.size(); p += hop) last = g.process(const_cast<double *>(y.data()) + p);
            return last; };
        int want = 1 + tonic + 12 * minor, a = key(x, fs, 8);
        mon.check(a == want, "cadence-key", "key %d, cadence in %d", a, want);
        int to = r.pick({48000, 32000, 22050, 24000}), dec = to > 40000 ? 8 : to > 30000 ? 4 : 4;
        dvec y = Resampler::resample(44100, to, x.data(), x.size());
        int b = key(y, to, dec);
        mon.check(b == want, "resampled-same-key", "resampled to %d: key %d, cadence in %d", to, b, want);
        int f = r.pick({2, 4}), blk = 1024; dvec z; { Decimator d(blk, f); dvec o(blk / f); for (size_t p = 0; p + blk <= x.size(); p += blk) { d.process(x.data() + p, o.data()); z.insert(z.end(), o.begin(), o.end()); } }
        int e = key(z, fs / f, 8 / f);
        mon.check(e == want, "decimated-same-key", "decimated by %d: key %d, cadence in %d", f, e, want);
        dvec w; { DecimatorB d(blk, f); dvec o(blk / f); for (size_t p = 0; p + blk <= x.size(); p += blk) { d.process(x.data() + p, o.data()); w.insert(w.end(), o.begin(), o.end()); } }
        int eb = key(w, fs / f, 8 / f);
        mon.check(eb == want, "decimated-same-key", "DecimatorB by %d: key %d, cadence in %d", f, eb, want);
    });
    mon.group("resampled-chroma", mon.n(40, 400), [](Case &c) {
        Rng &r = c.rng; int from = r.pick({44100, 48000, 32000}), to = r.pick({22050, 44100, 48000, 16000, 32000}); if (from == to) to = 24000;
        std::vector<int> notes; for (int i = 0, n = r.range(1, 3); i < n; ++i) notes.push_back(r.range(52, 80));
        auto cfg = [&](double fs) { ChromaConfig cc; cc.FS = fs; cc.BPO = 12; cc.CQThresh = 0.0054; cc.normalise = MathUtilities::NormaliseUnitMax; cc.min = hz(48); cc.max = hz(84); return cc; };
        Chromagram a(cfg(from)), b(cfg(to)); int na = a.getFrameSize(), nb = b.getFrameSize();
        double secs = 2 * std::max((double)na / from, (double)nb / to) + 0.3;
        dvec x((int)(secs * from), 0.0); for (int n : notes) note(x, from, -2000, x.size() + 4000, n, 0.2, 1);
        c.say("%d to %d, %zu notes", from, to, notes.size());
        dvec y = Resampler::resample(from, to, x.data(), x.size());
        mon.check(std::fabs(y.size() - x.size() * (double)to / from) <= 2, "resampled-length", "%zu", y.size());
        double mid = secs / 2;
        dvec ca, cb; { double *o = a.process(x.data() + (int)(mid * from) - na / 2); ca.assign(o, o + 12); } { double *o = b.process(y.data() + (int)(mid * to) - nb / 2); cb.assign(o, o + 12); }
        double d = 0; for (int i = 0; i < 12; ++i) d = std::max(d, std::fabs(ca[i] - cb[i]));
        mon.maxim("chroma_difference", d);
        CosineDistance cd; double q = cd.distance(ca, cb);
        mon.maxim("chroma_cosine", q);
        mon.check(d < 0.2, "resampled-same-chroma", "chroma differs by %g", d);
    });
    mon.group("sections", mon.n(12, 96), [](Case &c) {
        Rng &r = c.rng; int fs = 11025; uint64_t seed = r.u64();
        ClusterMeltSegmenterParams p; p.featureType = r.pick({FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC}); p.nHMMStates = r.pick({10, 20, 40}); p.nclusters = 2; p.neighbourhoodLimit = r.pick({20, 30}); p.fmax = 5000;
        if (p.featureType == FEATURE_TYPE_CHROMA) p.nbins = 12;
        double L[3]; for (double &l : L) l = r.uni(26, 40);
        double total = L[0] + L[1] + L[2];
        c.say("feature=%d states=%d limit=%d sections %.3g %.3g %.3g", (int)p.featureType, p.nHMMStates, p.neighbourhoodLimit, L[0], L[1], L[2]);
        int win, hop; { ClusterMeltSegmenter s(p); s.initialise(fs); win = s.getWindowsize(); hop = s.getHopsize(); }
        dvec x((int)(total * fs), 0.0); Rng q(seed);
        // A: a low chord sequence; B: a high one over noise
        for (double t = 0; t < total; t += 0.5) {
            bool B = t >= L[0] && t < L[0] + L[1];
            int k = (int)(t * 2) % 4; static const int A_[] = {0, 2, 4, 2}, B_[] = {1, 3, 6, 3};
            if (!B) for (int i : {0, 7}) note(x, fs, t * fs, 0.5 * fs, 48 + A_[k] + i, 0.2, 3);
            else for (int i : {0, 5}) note(x, fs, t * fs, 0.5 * fs, 73 + B_[k] + i, 0.15, 2);
        }
        for (auto &v : x) v += 0.003 * q.uni(-1, 1);
        for (size_t i = L[0] * fs; i < (L[0] + L[1]) * fs; ++i) x[i] += 0.05 * q.uni(-1, 1);
        // the search starts at random and may stop at a poor optimum: most starts must find the form
        int found = 0, starts = 6; std::string why;
        for (int st = 0; st < starts; ++st) {
            ClusterMeltSegmenter s(p); s.initialise(fs); g_rand = seed + 7919 * st; for (size_t i = 0; i + win <= x.size(); i += hop) s.extractFeatures(x.data() + i, win);
            s.segment();
            const Segmentation &g = s.getSegmentation();
            auto label = [&](double t) { for (auto &e : g.segments) if (t * fs >= e.start && t * fs < e.end) return e.type; return -1; };
            auto major = [&](double a, double b) { std::map<int, int> h; for (double t = a; t < b; t += 0.2) ++h[label(t)]; int best = -1, bc = 0; for (auto &e : h) if (e.second > bc) { bc = e.second; best = e.first; } return best; };
            int a1 = major(4, L[0] - 6), b = major(L[0] + 4, L[0] + L[1] - 6), a2 = major(L[0] + L[1] + 4, total - 6);
            bool ok = a1 == a2 && a1 != b && a1 >= 0 && b >= 0; std::string w = fmt("types %d %d %d", a1, b, a2);
            for (double t : {L[0], L[0] + L[1]}) { double best = 1e9; for (size_t i = 1; i < g.segments.size(); ++i) best = std::min(best, std::fabs(g.segments[i].start / (double)fs - t)); if (ok) mon.maxim("boundary_error_s", best); if (best > 5) { ok = false; w += fmt(" no boundary near %.3g s", t); } }
            if (ok) ++found; else why = w;
            mon.count(ok ? "forms_found" : "poor_optima");
        }
        mon.check(found * 3 >= starts, "sections-found", "form found from %d of %d random starts, otherwise e.g. %s", found, starts, why.c_str());
    });
    mon.group("timbre", mon.n(60, 600), [](Case &c) {
        // MFCCs and the distances between them tell instruments apart at any level
        Rng &r = c.rng; int fs = 22050, n = 2048;
        MFCCConfig mc(fs); mc.fftsize = n; mc.nceps = 19; mc.want_c0 = false; MFCC m(mc);
        auto feat = [&](int inst, double midi, double amp) { dvec x(n, 0.0); double f = hz(midi); for (int h = 1; h <= 30 && f * h < fs / 2.3; ++h) { double a = inst == 0 ? std::pow(h, -2.5) : inst == 1 ? std::pow(h, -0.5) : std::exp(-(h - 10) * (h - 10) / 18.); for (int i = 0; i < n; ++i) x[i] += amp * a * std::sin(2 * M_PI * f * h / fs * i + h * h); } dvec o(19); m.process(x.data(), o.data()); return o; };
        int i1 = r.range(0, 2), i2 = (i1 + r.range(1, 2)) % 3; double p = r.uni(45, 57), q = p + r.uni(-0.25, 0.25), g1 = r.logUni(0.01, 1), g2 = r.logUni(0.01, 1);
        c.say("instruments %d %d pitch %.3g %.3g gains %.2g %.2g", i1, i2, p, q, g1, g2);
        dvec a = feat(i1, p, g1), b = feat(i1, q, g2), d = feat(i2, q, g2), a2 = feat(i1, p, g2);
        auto dist = [](const dvec &u, const dvec &v) { double s = 0; for (size_t i = 0; i < u.size(); ++i) s += (u[i] - v[i]) * (u[i] - v[i]); return std::sqrt(s); };
        mon.check(dist(a, a2) < 1e-6 * (1 + maxAbs(a)), "timbre-independent-of-level", "%g", dist(a, a2));
        mon.maxim("timbre_ratio", dist(a, b) / dist(a, d));
        mon.check(dist(a, b) < dist(a, d), "same-instrument-nearer", "same %g other %g", dist(a, b), dist(a, d));
    });
    return mon.finish();
}
