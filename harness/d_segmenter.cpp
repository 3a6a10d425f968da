// C20: structural segmentation: features, state histograms, clusters, segments.
#include "vf.h"
#include "cmat.h"
#include "melt.h"
#include "ref.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/mfcc/MFCC.h"
extern "C" {
#include "dsp/segmentation/cluster_segmenter.h"
}
#include <sstream>
using namespace vf;
typedef long double LD;
typedef std::vector<LD> lvec;
typedef std::vector<lvec> lmat;
typedef std::vector<int> ivec;

struct Seg : ClusterMeltSegmenter {
    Seg(ClusterMeltSegmenterParams p) : ClusterMeltSegmenter(p) {}
    const std::vector<dvec> &feats() const { return features; }
    // cluster sequence to segments, when the class still has that step on its own
    template <class T> static auto runsOf(T *s, int *q, int n, int) -> decltype(s->T::makeSegmentation(q, n), true) { s->T::makeSegmentation(q, n); return true; }
    template <class T> static bool runsOf(T *, int *, int, long) { return false; }
    bool runs(int *q, int n, int k) { nclusters = k; return runsOf(this, q, n, 0); }
};
static const char *typeName(int t) { static const char *n[] = {"given", "constant-Q", "chroma", "mfcc"}; return n[t]; }
static int decimation(int fs, int internal) { int f = std::max(1, fs / internal), p = 1; while (p < f) p *= 2; return std::min(p, Decimator::getHighestSupportedFactor()); }

// features of one window after another, as the segmenter should find them
struct FeatureRef {
    feature_types type; int fs, win, factor, ncoeff, fft;
    ConstantQ *cq; MFCC *mf; Decimator *dec;
    FeatureRef(const ClusterMeltSegmenterParams &p, int fs_) : type(p.featureType), fs(fs_), cq(0), mf(0), dec(0) {
        win = (int)(p.windowSize * fs + 0.001);
        factor = decimation(fs, type == FEATURE_TYPE_MFCC ? 22050 : 11025);
        if (factor > 1) dec = new Decimator(win, factor);
        if (type == FEATURE_TYPE_MFCC) { MFCCConfig c(fs / factor); c.fftsize = 2048; c.nceps = 19; c.want_c0 = true; mf = new MFCC(c); ncoeff = 20; fft = 2048; }
        else { CQConfig c; c.FS = fs / factor; c.min = p.fmin; c.max = p.fmax; c.BPO = p.nbins; c.CQThresh = 0.0054; cq = new ConstantQ(c); cq->sparsekernel(); ncoeff = cq->getK(); fft = cq->getFFTLength(); }
    }
    ~FeatureRef() { delete cq; delete mf; delete dec; }
    dvec next(const dvec &x) {
        dvec s(x);
        if (dec) { s.assign(win / factor, 0.0); dec->process(x.data(), s.data()); }
        int n = s.size(); lvec acc(ncoeff, 0); int frames = 0;
        for (int o = 0; o == 0 || o + fft < n; o += fft / 2) {
            dvec f(fft, 0.0);
            for (int i = 0; i < fft && o + i < n; ++i) f[i] = s[o + i];
            if (cq) {
                std::vector<cpx> a(fft);
                for (int i = 0; i < fft; ++i) a[i] = f[(i + fft / 2) % fft] * (0.54 - 0.46 * std::cos(2 * M_PI * i / fft));
                if ((fft & (fft - 1)) == 0) ref::fft2(a);
                dvec re(fft), im(fft), qr(ncoeff), qi(ncoeff);
                for (int i = 0; i < fft; ++i) { re[i] = a[i].real(); im[i] = a[i].imag(); }
                cq->process(re.data(), im.data(), qr.data(), qi.data());
                for (int i = 0; i < ncoeff; ++i) acc[i] += sqrtl((LD)qr[i] * qr[i] + (LD)qi[i] * qi[i]);
            } else { dvec out(ncoeff); mf->process(f.data(), out.data()); for (int i = 0; i < ncoeff; ++i) acc[i] += out[i]; }
            ++frames;
        }
        dvec out(ncoeff); for (int i = 0; i < ncoeff; ++i) out[i] = acc[i] / frames;
        return out;
    }
};
static void checkSegments(const Segmentation &s, int n, int hop, int fs, int k) {
    mon.check(s.samplerate == fs, "sample-rate", "%d expected %d", s.samplerate, fs);
    mon.check(s.nsegtypes == k, "segment-types", "%d expected %d", s.nsegtypes, k);
    if (!mon.check(!s.segments.empty(), "covers-piece", "no segments for %d features", n)) return;
    mon.check(s.segments[0].start == 0 && s.segments.back().end == n * hop, "covers-piece", "%d to %d, expected 0 to %d", s.segments[0].start, s.segments.back().end, n * hop);
    std::set<int> types;
    for (size_t i = 0; i < s.segments.size(); ++i) {
        const Segment &g = s.segments[i];
        mon.check(g.start < g.end && g.start % hop == 0, "segment-order", "segment %zu: %d to %d", i, g.start, g.end);
        if (i) {
            mon.check(g.start == s.segments[i - 1].end, "contiguous", "segment %zu starts at %d, previous ends at %d", i, g.start, s.segments[i - 1].end);
            mon.check(g.type != s.segments[i - 1].type, "type-changes-at-boundary", "segment %zu", i);
        }
        mon.check(g.type >= 1 && g.type <= k, "type-range", "segment %zu: type %d of %d", i, g.type, k);
        types.insert(g.type);
    }
    mon.check((int)types.size() <= k, "type-range", "%zu types of %d", types.size(), k);
    std::ostringstream o; o << s; std::string want = "structure_name : begin_time end_time\n";
    for (size_t i = 0; i < s.segments.size(); ++i) want += fmt("%d:\t%.6f\t%.6f\n", s.segments[i].type, s.segments[i].start / (double)fs, s.segments[i].end / (double)fs);
    mon.check(o.str() == want, "printed-form", "%s", o.str().substr(0, 200).c_str());
}
static ivec expand(const Segmentation &s, int hop) { ivec q; for (auto &g : s.segments) for (int i = g.start; i < g.end; i += hop) q.push_back(g.type); return q; }

static dmat structured(Rng &r, int n, int L, std::string *form) {
    int parts = r.range(1, 4); dmat proto(parts, dvec(L)); double sep = r.pick({0.0, 0.5, 2.0, 8.0}), sd = r.pick({0.02, 0.2, 1.0});
    for (auto &v : proto) for (auto &y : v) y = sep * r.gauss();
    int secs = r.range(1, 6); ivec seq(secs); for (auto &q : seq) q = r.range(0, parts - 1);
    dmat x(n, dvec(L));
    for (int i = 0; i < n; ++i) for (int j = 0; j < L; ++j) x[i][j] = proto[seq[i * secs / n]][j] + sd * r.gauss();
    *form = fmt("sections=%d of %d sep=%g sd=%g", secs, parts, sep, sd);
    return x;
}
static lmat histograms(const ivec &q, int m, int hl) {
    int n = q.size(); lmat h(n, lvec(m, 0));
    for (int i = 0; i < n; ++i) {
        int centre = std::min(std::max(i, hl / 2), n - hl / 2 - 1);
        for (int t = centre - hl / 2; t <= centre + hl / 2; ++t) h[i][q[t]] += 1;
        LD s = 0; for (LD v : h[i]) s += v * v;
        for (auto &v : h[i]) v /= s;
    }
    return h;
}
static ivec clusterRef(dmat x, int states, int hl, int k, int limit, uint64_t seed, Rng r) {   // empty if ambiguous
    int n = x.size(), L = x[0].size();
    for (auto &v : x) for (auto &y : v) y *= 10;
    Mat xs(x); ivec q(n);
    g_rand = seed;
    model_t *m = hmm_init(xs, n, L, states); hmm_train(xs, n, m); viterbi_decode(xs, n, m, q.data()); hmm_close(m);
    std::vector<LD> draws(k * states); for (auto &d : draws) d = rand();
    dvec sched(20); sched[0] = 100; for (int i = 1; i < 20; ++i) sched[i] = 0.7 * sched[i - 1];
    return ref::stableMelt(histograms(q, states, hl), sched, k, limit, draws, r);
}

int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    mon.group("features", mon.n(120, 1200), [](Case &c) {
        Rng &r = c.rng; g_rand = r.u64();
        ClusterMeltSegmenterParams p;
        p.featureType = r.pick({FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC, FEATURE_TYPE_CONSTQ});
        int fs = r.pick({8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000, 176400, 192000, r.range(4000, 200000)});
        p.nbins = r.pick({4, 8, 12, r.range(3, 12)}); p.fmin = r.pick({62, 100, 200}); p.fmax = r.pick({1000, 2000, 4000, 5000, 16000});
        p.windowSize = r.pick({0.6, 0.1, r.uni(0.05, 1.0)}); p.hopSize = r.pick({0.2, p.windowSize, r.uni(0.05, 0.5)});
        if (r.chance(0.2)) p = ClusterMeltSegmenterParams();
        else if (r.chance(0.4)) { FeatureRef shape(p, fs); int w = (shape.fft / 2 * r.range(1, 6) + r.pick({0, 0, 0, 1, -1})) * shape.factor + r.pick({0, 0, shape.factor - 1}); if (w < 3 * fs) p.windowSize = (double)w / fs; }   // ends where a frame ends, or next to it
        FeatureRef ref(p, fs);
        int rem = ref.win % ref.factor; (void)rem;
        int n = r.range(1, 4);
        c.say("%s fs=%d bins=%d %d-%dHz window=%.4g n=%d", typeName(p.featureType), fs, p.nbins, p.fmin, p.fmax, p.windowSize, n);
        long h0 = heapBytes();
        {
            Seg s(p); s.initialise(fs);
            mon.check(s.getWindowsize() == ref.win, "window-size", "%d expected %d", s.getWindowsize(), ref.win);
            mon.check(s.getHopsize() == (int)(p.hopSize * fs + 0.001), "hop-size", "%d", s.getHopsize());
            mon.check(s.getNSegmentTypes() == p.nclusters, "segment-types", "%d", s.getNSegmentTypes());
            dvec x, last; double tone = r.uni(60, 3000) / fs; int style = r.range(0, 3);
            for (int i = 0; i < n; ++i) {
                int len = ref.win + (r.chance(0.3) ? r.range(1, 500) : 0);
                x = style == 0 ? noise(r, len) : style == 1 ? sine(len, tone, 0.5) : style == 2 ? dvec(len, 0.0) : signal(r, len);
                level(r, x, 1e-12, 1e12, 0.3);
                if (i && r.chance(0.1)) { x = last; len = x.size(); }
                last = x;
                Guarded<double> g(x);
                if (r.chance(0.2)) { s.extractFeatures(g, ref.win - 1); mon.check((int)s.feats().size() == i, "too-few-samples-ignored", "%zu features", s.feats().size()); }
                s.extractFeatures(g, len);
                mon.check(g.vec() == x && g.intact(), "inputs-untouched", "window %d", i);
                if (!mon.check((int)s.feats().size() == i + 1, "one-feature-per-window", "%zu after %d windows", s.feats().size(), i + 1)) return;
                if (ref.cq && (ref.fft & (ref.fft - 1))) { mon.count("odd_fft"); return; }
                dvec want = ref.next(x);
                mon.closeVec(s.feats()[i], want, 1e-8 * (maxAbs(want) + (ref.cq ? 1e-6 * maxAbs(x) : 1e-6)) + 1e-150, "feature", typeName(p.featureType));
                mon.maxim("coefficients", want.size());
                mon.saw(fmt("%s %d %d", typeName(p.featureType), (int)want.size(), ref.factor));
            }
            s.clear();
            mon.check(s.feats().empty(), "clear", "%zu features", s.feats().size());
        }
    });
    mon.group("normalisation", mon.n(300, 3000), [](Case &c) {
        Rng &r = c.rng;
        int n = r.range(1, 30), m = r.range(1, 60), bins = r.range(1, 24);
        c.say("frames=%d coefficients=%d bins=%d", n, m, bins);
        dmat x(n, dvec(m + 1, -5.0)); double a = r.logUni(1e-6, 1e3);
        for (auto &v : x) for (int j = 0; j < m; ++j) v[j] = r.chance(0.05) ? 0 : a * r.uni();
        Mat d(x); mpeg7_constq(d, n, m); dmat y = d.vec();
        lvec env(n, 0); LD top = 0;
        for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { LD v = 10 * log10l((LD)x[i][j] + 2.2204460492503131e-16L); env[i] += v * v; } env[i] = sqrtl(env[i]); top = std::max(top, env[i]); }
        bool ok = env[0] > 1e-3L; for (auto e : env) ok = ok && e > 1e-3L;
        if (ok) for (int i = 0; i < n; ++i) {
            for (int j = 0; j < m; ++j) mon.close(y[i][j], (double)(10 * log10l((LD)x[i][j] + 2.2204460492503131e-16L) / env[i]), 1e-9, "normalised-decibels", fmt("[%d][%d]", i, j).c_str());
            mon.close(y[i][m], (double)(env[i] / top), 1e-9, "envelope", fmt("frame %d", i).c_str());
        } else mon.count("degenerate");
        if (bins <= m) {
            for (auto &v : x) for (auto &q : v) if (r.chance(0.3)) q = -q;
            Mat cq(x), ch(n, bins, 3.5);
            cq2chroma(cq, n, m, bins, ch);
            mon.check(cq.vec() == x, "inputs-untouched", "chroma");
            dmat z = ch.vec();
            for (int i = 0; i < n; ++i) for (int b = 0; b < bins; ++b) { LD s = 0; for (int o = 0; o < m / bins; ++o) s += fabsl((LD)x[i][o * bins + b]); mon.close(z[i][b], (double)s, 1e-12 * (1 + (double)s), "folded-chroma", fmt("[%d][%d]", i, b).c_str()); }
        }
        int hl = 2 * r.range(0, 9) + 1, len = r.range(hl, hl + 60), st = r.range(1, 40);
        ivec q(len); for (auto &v : q) v = r.range(0, st - 1);
        Guarded<int> gq(q); Guarded<double> h(len * st, -9.0);
        create_histograms(gq, len, st, hl, h);
        mon.check(gq.vec() == q && h.intact(), "inputs-untouched", "histograms");
        lmat want = histograms(q, st, hl); bool good = true;
        for (int i = 0; i < len && good; ++i) for (int j = 0; j < st && good; ++j) good = mon.close(h[i * st + j], (double)want[i][j], 1e-12, "histogram", fmt("hlen=%d nx=%d [%d][%d]", hl, len, i, j).c_str());
    });
    mon.group("segments", mon.n(64, 640), [](Case &c) {
        Rng &r = c.rng; uint64_t seed = r.u64();
        ClusterMeltSegmenterParams p;
        p.featureType = r.pick({FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC});
        p.nHMMStates = r.pick({40, 10, 4, r.range(1, 20)}); p.nclusters = r.range(1, 10); p.histogramLength = 2 * r.range(0, 8) + 1; p.neighbourhoodLimit = r.pick({0, 5, 20, 40});
        p.hopSize = r.pick({0.2, 0.1, 0.5});
        int fs = r.pick({11025, 44100, 48000}), n = r.range(p.histogramLength, p.histogramLength + 120), L = r.range(1, 16), k = p.nclusters;
        std::string form; dmat x = structured(r, n, L, &form);
        bool chooseK = r.chance(0.5); if (chooseK) k = r.range(1, 8);
        c.say("n=%d L=%d states=%d hist=%d clusters=%d limit=%d hop=%g fs=%d %s", n, L, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit, p.hopSize, fs, form.c_str());
        Segmentation res; int hop;
        long h0 = heapBytes();
        {
            Seg s(p); s.initialise(fs); hop = s.getHopsize();
            if (r.chance(0.4)) { Rng o(r.u64()); std::string f; int m = r.range(1, n + 40); s.setFeatures(structured(o, m, L, &f)); mon.count("features_replaced"); }       // a second set takes the place of the first
            s.setFeatures(x);
            mon.check(s.feats() == x, "features-set", "%zu kept of %d given", s.feats().size(), n);
            g_rand = seed;
            if (chooseK) s.segment(k); else s.segment();
            mon.check(s.getNSegmentTypes() == k, "segment-types", "%d expected %d", s.getNSegmentTypes(), k);
            mon.check(s.feats().empty(), "features-cleared", "%zu", s.feats().size());
            long before = heapBytes(); (void)before;
            if (r.chance(0.3)) { s.setFeatures(x); g_rand = seed; s.segment(k); }       // again, same data, same draw
            res = s.getSegmentation();
        }
        std::vector<Segment> copy; copy.swap(res.segments); std::vector<Segment>(copy).swap(res.segments);
        checkSegments(res, n, hop, fs, k);
        ivec got = expand(res, hop);
        { Mat xs(x); ivec q(n, -4); g_rand = seed; cluster_segment(q.data(), xs, n, L, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit);
          mon.check(got == q, "segments-are-cluster-runs", "segments differ from the cluster sequence of the same features and draw"); }
        ivec want = clusterRef(x, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit, seed, Rng(r.u64()));
        if (want.empty()) mon.count("ambiguous");
        else { mon.count("decided"); mon.check(got == want, "clustered-state-histograms", "%zu values, first difference at %d", got.size(), (int)(std::mismatch(want.begin(), want.end(), got.begin()).first - want.begin())); }
        { std::set<int> u(got.begin(), got.end()); mon.saw(fmt("%zu of %d, %zu segments", u.size(), k, res.segments.size())); mon.maxim("types_used", u.size()); if (u.size() > 1) mon.count("several_types"); }
    });
    mon.group("runs", mon.n(2000, 20000), [](Case &c) {
        Rng &r = c.rng; ClusterMeltSegmenterParams p; p.hopSize = r.pick({0.2, 0.1, 0.5, r.uni(0.01, 1)});
        int fs = r.pick({8000, 11025, 44100, 48000}), n = r.pick({1, 2, 3, r.range(1, 20), r.range(1, 300)}), k = r.range(1, 10); double stay = r.pick({0.0, 0.5, 0.9, 0.98, 1.0});
        ivec q(n); for (int i = 0; i < n; ++i) q[i] = i && r.chance(stay) ? q[i - 1] : r.range(1, k);
        if (r.chance(0.3)) q[n - 1] = r.range(1, k);            // a type of one feature at either end
        if (r.chance(0.3)) q[0] = r.range(1, k);
        c.say("n=%d types=%d stay=%g hop=%g fs=%d", n, k, stay, p.hopSize, fs);
        Seg s(p); s.initialise(fs);
        Guarded<int> g(q);
        for (int rep = 0; rep < 2; ++rep) {
            if (!s.runs(g, n, k)) { mon.count("no_such_step"); c.nontrivial = false; return; }
            mon.check(g.vec() == q && g.intact(), "inputs-untouched", "cluster sequence");
            checkSegments(s.getSegmentation(), n, s.getHopsize(), fs, k);
            ivec got = expand(s.getSegmentation(), s.getHopsize());
            mon.check(got == q, "segments-are-cluster-runs", "first difference at %d of %d", (int)(std::mismatch(q.begin(), q.end(), got.begin()).first - q.begin()), n);
        }
        mon.saw(fmt("%zu segments", s.getSegmentation().segments.size()));
    });
    // whole objects: extraction, segmentation and everything released
    mon.group("audio", mon.n(24, 240), [](Case &c) {
        Rng &r = c.rng; uint64_t seed = r.u64();
        ClusterMeltSegmenterParams p;
        p.featureType = r.pick({FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC});
        p.nHMMStates = r.pick({40, 10, 5}); p.nclusters = r.range(2, 6); p.histogramLength = r.pick({3, 5, 15}); p.nbins = r.pick({8, 12, 3}); p.fmax = r.pick({1000, 4000, 16000});
        int fs = r.pick({11025, 22050, 44100}), n = r.chance(0.2) ? r.range(0, p.histogramLength - 1) : r.range(std::max(12, p.histogramLength), 60), k = p.nclusters;
        int style = r.range(0, 3), secs = r.range(1, 4);
        c.say("%s fs=%d n=%d states=%d clusters=%d hist=%d bins=%d fmax=%d style=%d sections=%d", typeName(p.featureType), fs, n, p.nHMMStates, k, p.histogramLength, p.nbins, p.fmax, style, secs);
        auto run = [&](bool chk, ivec *out) {
            Seg s(p); s.initialise(fs);
            int win = s.getWindowsize(), hop = s.getHopsize();
            Rng q(seed);
            for (int i = 0; i < n; ++i) {
                int sec = i * secs / std::max(1, n) % 2; dvec x(win);
                for (int t = 0; t < win; ++t) { double tt = (i * (double)hop + t) / fs; x[t] = style == 3 ? 0 : (sec ? 0.6 : 0.3) * std::sin(2 * M_PI * (sec ? 880 : 220) * tt) + 0.3 * std::sin(2 * M_PI * (sec ? 1320 : 277) * tt) + (style ? 0.05 * style * q.uni(-1, 1) : 0); }
                s.extractFeatures(x.data(), win);
            }
            if (!chk) { g_rand = seed; s.segment(); return; }
            dmat f = s.feats();
            g_rand = seed; s.segment();
            if (n < p.histogramLength) { mon.check(s.getSegmentation().segments.empty(), "too-short-no-segments", "%zu segments", s.getSegmentation().segments.size()); return; }
            checkSegments(s.getSegmentation(), n, hop, fs, k);
            *out = expand(s.getSegmentation(), hop);
            if ((int)out->size() != n) return;
            int nc = f[0].size();
            if (p.featureType == FEATURE_TYPE_MFCC) {
                Mat xs(f); ivec w(n); g_rand = seed; cluster_segment(w.data(), xs, n, nc, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit);
                mon.check(w == *out, "segments-are-cluster-runs", "MFCC");
            } else {
                dmat g(f); for (auto &v : g) v.push_back(0);
                Mat xs(g); ivec w(n); g_rand = seed; constq_segment(w.data(), xs, n, p.nbins, nc, p.featureType, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit);
                mon.check(w == *out, "segments-are-cluster-runs", "%s", typeName(p.featureType));
                // the same through the parts
                g_rand = seed; ivec w2(n);
                if (p.featureType == FEATURE_TYPE_CHROMA) { if (p.nbins <= nc) { Mat a(f), ch(n, p.nbins); cq2chroma(a, n, nc, p.nbins, ch); cluster_segment(w2.data(), ch, n, p.nbins, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit); mon.check(w2 == *out, "chroma-route", "n=%d", n); } }
                else {
                    Mat a(g); mpeg7_constq(a, n, nc); int comp = std::min(20, nc); pca_project(a, n, nc, comp); dmat b = a.vec(), e;
                    for (auto &v : b) { dvec u(v.begin(), v.begin() + comp); u.push_back(v[nc]); e.push_back(u); }
                    Mat em(e); cluster_segment(w2.data(), em, n, comp + 1, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit); mon.check(w2 == *out, "constant-q-route", "n=%d", n);
                }
            }
            std::set<int> u(out->begin(), out->end()); if (u.size() > 1) mon.count("several_types_from_audio");
            mon.sawHash(hashBytes(out->data(), out->size() * sizeof(int)));
        };
        ivec a, b;
        run(false, 0);
        long h0 = heapBytes(); run(false, 0); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "%ld bytes", h1 - h0);
        run(true, &a); run(true, &b);
        mon.check(a == b, "repeatable", "same audio, same random sequence");
    });
    // one object for piece after piece: each as on a fresh object, nothing left behind
    mon.group("reuse", mon.n(24, 200), [](Case &c) {
        Rng &r = c.rng;
        ClusterMeltSegmenterParams p; p.featureType = r.pick({FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC, FEATURE_TYPE_UNKNOWN});
        p.nbins = r.pick({8, 12}); p.fmin = 250; p.fmax = r.pick({1000, 2000}); p.windowSize = p.hopSize = r.uni(0.05, 0.2); p.nHMMStates = r.range(3, 8); p.nclusters = r.range(2, 4); p.neighbourhoodLimit = 5; p.histogramLength = r.range(3, 8);
        struct Piece { int fs, n; bool cut; uint64_t seed; dmat x; };
        std::vector<Piece> ps(r.range(2, 4)); std::string d;
        for (auto &q : ps) {
            q.fs = r.pick({4000, 8000, 11025, 22050, 44100}); q.n = r.chance(0.3) ? r.range(0, p.histogramLength - 1) : r.range(p.histogramLength, 40); q.cut = r.chance(0.3); q.seed = r.u64();
            int m = p.featureType == FEATURE_TYPE_UNKNOWN ? r.range(2, 6) : (int)(p.windowSize * q.fs + 0.001);
            for (int i = 0; i < q.n; ++i) { dvec v = noise(r, m, 0.2); double f = r.pick({0.05, 0.2}); for (int k = 0; k < m; ++k) v[k] += std::sin(f * k) + (m < 7 && i * 2 > q.n ? 3 : 0); q.x.push_back(v); }
            d += fmt(" %d@%d%s", q.n, q.fs, q.cut ? "-" : "");
        }
        c.say("%s bins=%d histogram=%d:%s", typeName(p.featureType), p.nbins, p.histogramLength, d.c_str());
        auto feed = [&](Seg &s, const Piece &q, bool &segmented) {
            s.initialise(q.fs); g_rand = q.seed; segmented = false;
            if (p.featureType == FEATURE_TYPE_UNKNOWN) s.setFeatures(q.x); else for (auto &v : q.x) s.extractFeatures(v.data(), v.size());
            if (q.cut) return std::string("abandoned");       // the piece is given up before it is segmented
            s.segment(); segmented = true;
            std::ostringstream o; for (auto &g : s.getSegmentation().segments) o << g.start << "-" << g.end << ":" << g.type << " ";
            return o.str();
        };
        auto run = [&](bool judge) {
            Seg s(p); bool sg;
            for (size_t k = 0; k < ps.size(); ++k) {
                std::string a = feed(s, ps[k], sg);
                if (!judge || !sg) continue;
                if (ps[k].n < p.histogramLength) mon.check(a.empty(), "nothing-to-segment", "piece %zu of %d features: %s", k, ps[k].n, a.c_str());
                Seg f(p); std::string b = feed(f, ps[k], sg);
                mon.check(a == b, "pieces-independent", "piece %zu: %s on a fresh object: %s", k, a.c_str(), b.c_str());
                mon.saw(a);
            }
        };
        run(true); run(false);
        long h0 = heapBytes(); run(false); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "%ld bytes after %zu pieces on one object", h1 - h0, ps.size());
    });
    mon.group("misuse", mon.n(12, 60), [](Case &c) {
        Rng &r = c.rng;
        ClusterMeltSegmenterParams p; p.featureType = r.pick({FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC, FEATURE_TYPE_UNKNOWN});
        int kind = c.idx % 4; c.say("%s kind=%d", typeName(p.featureType), kind);
        dvec x(40000, 0.1);
        auto run = [&]() {
            Seg s(p);
            if (kind == 0) { s.extractFeatures(x.data(), x.size()); }             // before initialise
            if (kind == 1) s.initialise(44100);                                    // never used
            if (kind == 2) { s.initialise(44100); s.segment(); s.extractFeatures(x.data(), x.size()); }
            if (kind == 3) { s.initialise(44100); s.extractFeatures(x.data(), x.size()); s.clear(); s.segment(4); }
            mon.check(s.getSegmentation().segments.empty(), "nothing-to-segment", "%zu segments", s.getSegmentation().segments.size());
        };
        run(); long h0 = heapBytes(); run(); long h1 = heapBytes();
        mon.check(h0 == h1, "no-leak", "%ld bytes", h1 - h0);
    });
    mon.group("defaults", 1, [](Case &) {
        ClusterMeltSegmenterParams p;
        mon.check(p.featureType == FEATURE_TYPE_CONSTQ && p.hopSize == 0.2 && p.windowSize == 0.6 && p.fmin == 62 && p.fmax == 16000 && p.nbins == 8, "default-parameters", "features: %d hop %g window %g %d-%d Hz, %d bins", (int)p.featureType, p.hopSize, p.windowSize, p.fmin, p.fmax, p.nbins);
        mon.check(p.ncomponents == 20 && p.nHMMStates == 40 && p.nclusters == 10 && p.histogramLength == 15 && p.neighbourhoodLimit == 20, "default-parameters", "clustering: %d components %d states %d clusters histogram %d limit %d", p.ncomponents, p.nHMMStates, p.nclusters, p.histogramLength, p.neighbourhoodLimit);
    });
    return mon.finish();
}
