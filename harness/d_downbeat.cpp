// C19: downbeat estimation.
#include "vf.h"
#include "ref.h"
#include "dsp/tempotracking/DownBeat.h"
using namespace vf;
typedef std::vector<float> fvec;

static dvec thresh(const dvec &v) {
    int n = v.size(); dvec w(n);
    for (int i = 0; i < n; ++i) {
        int a = std::max(0, i - 8), b = std::min(n - 1, i + 7);
        long double s = 0; for (int j = a; j <= b; ++j) s += v[j];
        w[i] = std::max(0.0, (double)(v[i] - s / (b - a + 1)));
    }
    return w;
}
static double jsd(dvec p, dvec q) {
    int n = std::min(512, (int)p.size() / 4);
    double sp = 0, sq = 0, d = 0;
    for (int i = 0; i < n; ++i) { sp += p[i] + 2.2204e-016; sq += q[i] + 2.2204e-016; }
    for (int i = 0; i < n; ++i) {
        double a = (p[i] + 2.2204e-016) / sp, b = (q[i] + 2.2204e-016) / sq, m = (a + b) / 2;
        d += (a * std::log(a) + b * std::log(b)) / 2 - m * std::log(m);
    }
    return d;
}
struct Model {
    dvec sd; std::set<int> firsts; int ts; bool ill = false;
    Model(const fvec &audio, const dvec &beats, int inc, int factor, int frame, int bpb) : ts(bpb ? bpb : 4) {
        dvec prev;
        if (audio.empty()) return;
        for (size_t i = 0; i + 1 < beats.size(); ++i) {
            size_t a = beats[i] * inc / factor, b = beats[i + 1] * inc / factor;
            b = std::min(b, audio.size() - 1); if (b < a) b = a;
            dvec f(frame, 0.0);
            for (size_t j = 0; j < b - a && j < (size_t)frame; ++j) f[j] = audio[a + j] * 0.5 * (1 - std::cos(2 * M_PI * j / (b - a)));
            std::vector<cpx> s = ref::spectrum(f);
            dvec m(frame / 2); for (int k = 0; k < frame / 2; ++k) m[k] = std::abs(s[k]);
            double mx = maxAbs(m), sum = 0;
            m = thresh(m);
            for (int k = 0; k < std::min(512, frame / 8); ++k) sum += m[k];
            if (mx > 0 && sum < 1e-3 * mx) ill = true;       // what is left is rounding noise
            if (i) sd.push_back(jsd(prev, m));
            prev = m;
        }
        dvec cand(ts, 0.0);
        for (int b = 0; b < ts; ++b) { int n = 0; for (int e = b - 1; e < (int)sd.size(); e += ts) if (e >= 0) { cand[b] += sd[e]; ++n; } if (n) cand[b] /= n; }
        double mx = *std::max_element(cand.begin(), cand.end());
        bool any = false;
        for (int b = 0; b < ts; ++b) if (cand[b] >= mx - 1e-7) { firsts.insert(b); any = true; }
        (void)any;
        bool zero = true; for (double s : sd) if (s != 0) zero = false;
        if (zero) { firsts.clear(); firsts.insert(0); }
    }
};
// harmonic note at rate fs
static void note(fvec &x, double fs, int from, int to, double f, double amp) {
    for (int h = 1; h <= 4 && f * h < fs / 2.3; ++h) for (int i = from; i < to && i < (int)x.size(); ++i) x[i] += amp / h * std::sin(2 * M_PI * f * h / fs * i);
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("model", mon.n(250, 2500), [](Case &c) {
        Rng &r = c.rng;
        int factor = r.pick({16, 16, 1, 2, 4, 8, 32, 64}), mult = r.pick({1, 2, 8, 32});
        int inc = factor * mult;
        float rate = r.pick({44100.f, 48000.f, 22050.f, 8000.f, 1000.f, r.chance(0.2) ? (float)r.range(1, 200) : 11025.f}) * (factor == 1 ? 0.1f : 1.f);
        int frame = 1; while (frame < int(rate / factor * 1.3)) frame *= 2; if (frame < 2) frame = 2;
        if (frame > 8192) { c.nontrivial = false; return; }
        int bpb = r.pick({0, 1, 2, 3, 4, 5, 7, r.range(6, 16)});
        DownBeat d(rate, factor, inc);
        if (bpb || r.chance(0.5)) d.setBeatsPerBar(bpb);
        c.say("rate=%g factor=%d inc=%d bpb=%d", rate, factor, inc, bpb);
        for (int k = 0, calls = r.range(1, 2); k < calls; ++k) {
            int n = r.pick({0, 1, 2, 50, r.range(1, 3000), r.range(2000, 30000), r.chance(0.2) ? r.range(30000, 200000) : 700});
            std::string kind; dvec s = signal(r, n, &kind);
            fvec a(s.begin(), s.end());
            if (r.chance(0.3)) for (auto &v : a) v = 0.3f * v;
            if (r.chance(0.25)) { float g = r.pick({32767.0, r.logUni(1e-15, 1e10), r.logUni(1e-4, 1e4)}); for (auto &v : a) v *= g; kind += fmt("*%.2g", g); }
            // beats over the extent of the audio, sometimes past its end
            int nb = r.pick({0, 1, 2, 3, 4, 5, r.range(0, 30), frame <= 512 ? r.range(30, 250) : 30});
            double ext = (double)n * factor / inc * r.pick({1.0, 1.0, 0.5, 1.7}), t = r.uni(0, 3);
            dvec beats;
            for (int i = 0; i < nb; ++i) { beats.push_back(r.chance(0.5) ? std::floor(t) : t); t = beats.back() + r.uni(0.2, 1.8) * std::max(1.0, ext / std::max(1, nb)); }
            c.say("n=%d %s beats=%d", n, kind.c_str(), nb);
            dvec b0 = beats; Guarded<float> in(a); std::vector<int> down;
            d.findDownBeats(in, n, beats, down);
            mon.check(in.vec() == a && in.intact() && beats == b0, "inputs-untouched", "call %d", k);
            dvec sd; d.getBeatSD(sd);
            Model m(a, beats, inc, factor, frame, bpb);
            if (m.ill) { mon.count("ill_conditioned"); mon.check(sd.size() == m.sd.size(), "spectral-difference-count", "%zu expected %zu", sd.size(), m.sd.size()); continue; }
            if (n == 0) { mon.check(down.empty() && sd.empty(), "no-audio-no-downbeats", "%zu %zu", down.size(), sd.size()); continue; }
            if (!mon.closeVec(sd, m.sd, 1e-7, "spectral-difference", "between beats")) return;
            for (double x : sd) mon.check(x >= -1e-9 && x <= std::log(2.0) + 1e-9, "divergence-range", "%g", x);
            if (nb == 0) { mon.check(down.empty(), "no-beats-no-downbeats", "%zu", down.size()); continue; }
            if (down.empty()) { bool ok = false; for (int f : m.firsts) ok = ok || f >= nb; mon.check(ok, "downbeats-present", "none among %d beats", nb); continue; }
            mon.check(m.firsts.count(down[0]), "first-downbeat", "call %d: %d, greatest change at %d", k, down[0], *m.firsts.begin());
            for (size_t i = 1; i < down.size(); ++i) mon.check(down[i] == down[i - 1] + m.ts, "downbeat-interval", "%d after %d", down[i], down[i - 1]);
            mon.check(down.back() < nb && down.back() + m.ts >= nb, "downbeats-cover-beats", "last %d of %d beats", down.back(), nb);
            mon.count("downbeats", down.size()); mon.saw(fmt("%d/%d", down[0], m.ts));
        }
    });
    mon.group("bars", mon.n(48, 400), [](Case &c) {
        Rng &r = c.rng;
        int bpb = r.pick({3, 4, 2, 5}), first = r.range(0, bpb - 1), nb = bpb * r.range(4, 8);
        double fs = r.pick({44100.0, 48000.0}) / 16; int inc = 512;
        double per = r.uni(35, 70); int ds = inc / 16;
        fvec a((int)((nb + 1) * per * ds), 0.f); dvec beats;
        static const double roots[] = {110, 146.8, 164.8, 123.5, 98};
        int last = -1, root = 0;
        for (int i = 0; i < nb; ++i) {
            beats.push_back(std::floor(i * per + 2));
            if (i == 0 || (i - first) % bpb == 0) { do root = r.range(0, 4); while (root == last); last = root; }
            int s = beats[i] * ds, e = (std::floor((i + 1) * per + 2)) * ds;
            note(a, fs, s, e, roots[root], 0.3); note(a, fs, s, e, roots[root] * 1.5, 0.2); note(a, fs, s, e, roots[root] * 1.25, 0.2);
        }
        c.say("bpb=%d first=%d beats=%d period=%.3g", bpb, first, nb, per);
        DownBeat d(fs * 16, 16, inc); d.setBeatsPerBar(bpb);
        std::vector<int> down; d.findDownBeats(a.data(), a.size(), beats, down);
        if (mon.check(!down.empty(), "bars-found", "none"))
            mon.check(down[0] == first, "bars-found", "harmony changes at beat %d of each bar, first downbeat %d", first, down[0]);
    });
    // audio pushed in blocks = decimated stream
    mon.group("buffering", mon.n(200, 2000), [](Case &c) {
        Rng &r = c.rng;
        int factor = r.pick({16, 16, 1, 2, 4, 8, 32, 64}), inc = factor * r.pick({1, 2, 3, 8, 32});
        if (factor > 8 && r.chance(0.5)) inc = 8 * (factor / 8) * r.range(1, 20);
        DownBeat d(44100, factor, inc);
        c.say("factor=%d inc=%d", factor, inc);
        size_t len = 99; const float *p = d.getBufferedAudio(len);
        mon.check(len == 0, "buffer-empty-at-first", "%zu", len);
        for (int k = 0, runs = r.range(1, 3); k < runs; ++k) {
            int blocks = r.pick({0, 1, 15, 16, 17, 33, r.range(0, 200), r.chance(0.15) && inc <= 256 ? r.range(1000, 6000) : 5});
            Decimator *a = 0, *b = 0;
            if (factor > 1) { a = new Decimator(inc, std::min(8, factor)); if (factor > 8) b = new Decimator(inc / 8, factor / 8); }
            fvec want, x; double mx = 0;
            double g = r.chance(0.3) ? r.logUni(1e-20, 1e12) : 1;
            for (int i = 0; i < blocks; ++i) {
                if (x.empty() || r.chance(0.8)) { dvec s = signal(r, inc); x.assign(s.begin(), s.end()); for (auto &v : x) { v *= g; mx = std::max<double>(mx, std::fabs(v)); } }
                Guarded<float> in(x);
                d.pushAudioBlock(in);
                mon.check(in.vec() == x && in.intact(), "inputs-untouched", "block %d", i);
                fvec y = x, z;
                if (a) { y.assign(inc / std::min(8, factor), 0.f); a->process(x.data(), y.data()); }
                if (b) { z.assign(inc / factor, 0.f); b->process(y.data(), z.data()); y = z; }
                want.insert(want.end(), y.begin(), y.end());
            }
            p = d.getBufferedAudio(len);
            if (mon.check(len == want.size(), "buffered-length", "run %d: %zu after %d blocks, expected %zu", k, len, blocks, want.size()))
                for (size_t i = 0; i < len; ++i) if (!mon.check(std::fabs(p[i] - want[i]) <= 1e-6 * mx, "buffered-audio", "run %d sample %zu of %zu: %g expected %g", k, i, len, p[i], want[i])) break;
            mon.count("blocks", blocks);
            delete a; delete b;
            d.resetAudioBuffer();
            d.getBufferedAudio(len);
            mon.check(len == 0, "buffer-empty-after-reset", "%zu", len);
        }
    });
    return mon.finish();
}
