// C15: key detection.
#include "vf.h"
#include "base/Pitch.h"
#include "ref.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/chromagram/Chromagram.h"
#include <memory>
using namespace vf;

static const double MAJ[36] = { 0.0384, 0.0629, 0.0258, 0.0121, 0.0146, 0.0106, 0.0364, 0.0610, 0.0267, 0.0126, 0.0121, 0.0086, 0.0364, 0.0623, 0.0279, 0.0275, 0.0414, 0.0186,
    0.0173, 0.0248, 0.0145, 0.0364, 0.0631, 0.0262, 0.0129, 0.0150, 0.0098, 0.0312, 0.0521, 0.0235, 0.0129, 0.0142, 0.0095, 0.0289, 0.0478, 0.0239 };
static const double MIN_[36] = { 0.0375, 0.0682, 0.0299, 0.0119, 0.0138, 0.0093, 0.0296, 0.0543, 0.0257, 0.0292, 0.0519, 0.0246, 0.0159, 0.0234, 0.0135, 0.0291, 0.0544, 0.0248,
    0.0137, 0.0176, 0.0104, 0.0352, 0.0670, 0.0302, 0.0222, 0.0349, 0.0164, 0.0174, 0.0297, 0.0166, 0.0222, 0.0401, 0.0202, 0.0175, 0.0270, 0.0146 };

struct Model {
    int avg, med;
    std::vector<dvec> frames; std::vector<int> keys;
    double strength[24]; bool ambiguous;
    int raw;
    Model(int a, int m) : avg(std::max(1, a)), med(std::max(1, m)) {}
    static double corr(const dvec &d, const double *p, int shift) {
        double pm = 0; for (int i = 0; i < 36; ++i) pm += p[i]; pm /= 36;
        double n = 0, a = 0, b = 0;
        for (int i = 0; i < 36; ++i) { double q = p[((i - shift) % 36 + 36) % 36] - pm; n += d[i] * q; a += d[i] * d[i]; b += q * q; }
        return a > 0 ? n / std::sqrt(a * b) : 0;
    }
    void push(const dvec &chroma) {
        frames.push_back(chroma);
        if ((int)frames.size() > avg) frames.erase(frames.begin());
        dvec m(36, 0.0);
        for (auto &f : frames) for (int i = 0; i < 36; ++i) m[i] += f[i] / frames.size();
        double mm = 0; for (double x : m) mm += x / 36;
        double mx = maxAbs(m);
        for (double &x : m) x -= mm;
        bool flat = maxAbs(m) <= 1e-12 * mx || mx == 0;
        double best = -9, second = -9; int bk = -1;
        for (int k = 0; k < 72; ++k) {
            double c = flat ? 0 : corr(m, k < 36 ? MAJ : MIN_, k % 36 - 2);
            int key = k / 3;
            if (k % 3 == 0) strength[key] = c; else strength[key] = std::max(strength[key], c);
            if (c > best) { if (key != bk) second = best; best = c; bk = key; } else if (key != bk && c > second) second = c;
        }
        ambiguous = !flat && best - second < 1e-7;
        raw = flat ? 0 : bk + 1;
        keys.push_back(raw);
        if ((int)keys.size() > med) keys.erase(keys.begin());
    }
    int key() { std::vector<int> k = keys; std::sort(k.begin(), k.end()); return k[(k.size() + 1) / 2 - 1]; }
};
// chord as a sum of harmonics
static void chord(dvec &x, double fs, int from, int len, const std::vector<int> &notes, double amp) {
    for (int m : notes) for (int h = 1; h <= 3; ++h) {
        double f = 440 * std::pow(2.0, (m - 69) / 12.0) * h;
        if (f > fs / 2.2) continue;
        for (int i = 0; i < len && from + i < (int)x.size(); ++i) x[from + i] += amp / h / notes.size() * std::sin(2 * M_PI * f / fs * i + m);
    }
}
static dvec cadence(double fs, int tonic, bool minor, int chordLen, int chords) {
    dvec x(chordLen * chords, 0.0);
    int root = 60 + tonic;
    std::vector<std::vector<int> > prog;
    if (minor) prog = { {root, root + 3, root + 7, root - 12}, {root + 5, root + 8, root + 12}, {root + 7, root + 11, root + 14}, {root, root + 3, root + 7, root + 12} };
    else prog = { {root, root + 4, root + 7, root - 12}, {root + 5, root + 9, root + 12}, {root + 7, root + 11, root + 14}, {root, root + 4, root + 7, root + 12} };
    for (int c = 0; c < chords; ++c) chord(x, fs, c * chordLen, chordLen, prog[c % 4], 0.5);
    return x;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("model", mon.n(64, 640), [](Case &c) {
        Rng &r = c.rng;
        int dec = r.pick({1, 2, 4, 8});
        double base = r.pick({5512.5, 6000.0, 5600.0, r.uni(5000, 6500), r.chance(0.3) ? r.pick({11025.0, 22050.0, 44100.0}) / (dec > 2 ? 2 : 1) : 5512.5});
        if (base > 12000) dec = 1;
        GetKeyMode::Config cf(base * dec, r.pick({440.f, 440.f, 432.f, 446.f, (float)r.uni(415, 466), (float)r.uni(415, 466)}));
        cf.decimationFactor = dec; cf.frameOverlapFactor = r.pick({1, 8, 2});
        double fr = 4096 / base;       // seconds per frame
        cf.hpcpAverage = r.pick({0.0, fr * 0.5, fr * 2.5, fr * 4.2, 10.0, fr * r.uni(0, 70)});
        cf.medianAverage = r.pick({0.0, fr * 0.5, fr * 1.5, fr * 2.5, fr * 4.5, 10.0, fr * r.uni(0, 50)});
        GetKeyMode g(cf);
        int N = g.getBlockSize(), hop = g.getHopSize();
        c.say("dec=%d fs=%g tune=%g overlap=%d hpcp=%.3g median=%.3g", dec, cf.sampleRate, cf.tuningFrequency, cf.frameOverlapFactor, cf.hpcpAverage, cf.medianAverage);
        mon.check(hop == N / dec / cf.frameOverlapFactor * dec, "hop-size", "%d of %d", hop, N);
        ChromaConfig cc; cc.FS = cf.sampleRate / dec; cc.BPO = 36; cc.CQThresh = 0.0054; cc.normalise = MathUtilities::NormaliseUnitMax;
        // to the last bit of what the library takes them to be (C31 says whether that is right): kernel lengths are rounded up from these
        cc.min = Pitch::getFrequencyForPitch(48, 0, cf.tuningFrequency); cc.max = Pitch::getFrequencyForPitch(96, 0, cf.tuningFrequency);
        mon.close(cc.min, cf.tuningFrequency * std::pow(2.0, -21 / 12.0), 1e-4, "scale-base", "C3"); mon.close(cc.max, cf.tuningFrequency * std::pow(2.0, 27 / 12.0), 1e-3, "scale-base", "C7");
        Chromagram ch(cc);
        Decimator d(N, dec);
        int n = ch.getFrameSize();
        if (!mon.check(N == n * dec, "block-size", "%d expected %d", N, n * dec)) return;
        Model m((int)std::ceil(cf.hpcpAverage * cc.FS / n), (int)std::ceil(cf.medianAverage * cc.FS / n));
        double *ks0 = g.getKeyStrengths();
        for (int k = 0; k < 24; ++k) mon.check(ks0[k] == 0, "no-strength-before-input", "key %d: %g", k, ks0[k]);
        int frames = r.chance(0.12) ? r.range(20, base > 12000 ? 30 : 90) : r.range(2, 14);
        double gain = r.chance(0.3) ? r.logUni(1e-60, 1e60) : 1;
        dvec x(N);
        for (int f = 0; f < frames; ++f) {
            int st = r.range(0, 6);
            if (st == 6 && f) st = 7; else std::fill(x.begin(), x.end(), 0.0);    // 7: the same block again
            if (st == 5) { x = signal(r, N); level(r, x, 1e-6, 1e6, 0.3); }
            else if (st == 0) x = noise(r, N, 0.3);
            else if (st == 1) { int root = r.range(48, 80); bool mi = r.chance(0.5); chord(x, cf.sampleRate, 0, N, {root, root + (mi ? 3 : 4), root + 7}, 0.5); }
            else if (st == 2) chord(x, cf.sampleRate, 0, N, {r.range(48, 84)}, 0.5);
            else if (st == 3 && r.chance(0.7)) chord(x, cf.sampleRate, 0, N, {r.range(48, 70), r.range(50, 75), r.range(60, 84)}, 0.5);
            if (st != 7 && gain != 1) for (auto &v : x) v *= gain;
            Guarded<double> in(x);
            int key = g.process(in);
            mon.check(in.vec() == x && in.intact(), "inputs-untouched", "frame %d", f);
            dvec y(n); d.process(x.data(), y.data());
            double *cr = ch.process(y.data());
            m.push(dvec(cr, cr + 36));
            mon.check(key >= 0 && key <= 24, "key-range", "%d", key);
            if (m.ambiguous) { mon.count("ambiguous_frames"); return; }
            double *ks = g.getKeyStrengths();
            if (!mon.closeVec(ks, m.strength, 24, 1e-7, "key-strengths", fmt("frame %d", f).c_str())) return;
            if (!mon.check(key == m.key(), "key", "frame %d: key %d expected %d (this frame %d, median of last %d)", f, key, m.key(), m.raw, m.med)) return;
            mon.saw(fmt("%d", key));
        }
    });
    mon.group("silence", mon.n(8, 16), [](Case &c) {
        GetKeyMode::Config cf(44100, 440); GetKeyMode g(cf);
        dvec z(g.getBlockSize(), 0.0);
        for (int f = 0; f < 3; ++f) { int k = g.process(z.data()); mon.check(k == 0, "silence-has-no-key", "key %d for silence", k); }
    });
    mon.group("cadences", mon.n(48, 96), [](Case &c) {
        Rng &r = c.rng;
        int tonic = c.idx % 12; bool minor = (c.idx / 12) & 1;
        double fs = r.pick({44100.0, 48000.0});
        GetKeyMode::Config cf(fs, 440); cf.frameOverlapFactor = r.pick({1, 2});
        GetKeyMode g(cf);
        int N = g.getBlockSize(), hop = g.getHopSize();
        dvec x = cadence(fs, tonic, minor, N, 8);
        double gain = r.logUni(0.01, 2); for (auto &v : x) v *= gain;
        c.say("tonic=%d %s fs=%g overlap=%d gain=%.3g", tonic, minor ? "minor" : "major", fs, cf.frameOverlapFactor, gain);
        int key = -1; double *ks = 0;
        for (size_t p = 0; p + N <= x.size(); p += hop) { key = g.process(x.data() + p); ks = g.getKeyStrengths(); }
        int want = 1 + tonic + (minor ? 12 : 0);
        mon.check(key == want, "cadence-key", "cadence in key %d detected as %d", want, key);
        int b = std::max_element(ks, ks + 24) - ks;
        mon.check(b + 1 == want, "strongest-key", "strongest is %d, cadence in %d", b + 1, want);
        for (int k = 0; k < 24; ++k) mon.check(ks[k] >= -1 - 1e-9 && ks[k] <= 1 + 1e-9, "correlation-range", "%g", ks[k]);
    });
    mon.group("defaults", 1, [](Case &) {
        GetKeyMode::Config k(44100, 440);
        mon.check(k.sampleRate == 44100 && k.tuningFrequency == 440 && k.hpcpAverage == 10 && k.medianAverage == 10 && k.frameOverlapFactor == 1 && k.decimationFactor == 8, "default-parameters", "average %g median %g overlap %d decimation %d", k.hpcpAverage, k.medianAverage, k.frameOverlapFactor, k.decimationFactor);
    });
    return mon.finish();
}
