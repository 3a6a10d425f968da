// C18: the original tempo tracker.
#include "vf.h"
#include "ref.h"
#include "dsp/tempotracking/TempoTrack.h"
using namespace vf;

static double A2[3] = {1.0000, -0.5949, 0.2348}, B2[3] = {0.1600, 0.3200, 0.1600};
static TTParams params(int win = 512, int lag = 128) {
    TTParams p; p.winLength = win; p.lagLength = lag; p.alpha = 9; p.LPOrd = 2; p.LPACoeffs = A2; p.LPBCoeffs = B2; p.WinT.pre = 8; p.WinT.post = 7;
    return p;
}
static dvec onsets(Rng &r, int n, std::string *kind) {
    static const char *nm[] = {"clicks", "clicks+noise", "jitter", "accel", "noise", "silence", "constant", "two-tempi", "sparse", "ramp", "gap", "accents", "clicks-then-silence", "silence-then-clicks", "one-click", "negative", "slowing"};
    int k = r.range(0, 16); *kind = nm[k];
    dvec v(n, 0.0);
    double p = r.uni(4, 160), amp = r.logUni(1e-6, 1e4);
    switch (k) {
    case 0: v = clicks(n, p, r.uni(0, p), amp, r.uni(0.3, 2)); break;
    case 1: v = clicks(n, p, r.uni(0, p), amp, r.uni(0.5, 2)); for (auto &x : v) x += 0.2 * amp * r.uni(); break;
    case 2: for (double t = r.uni(0, p); t < n; t += std::max(1.0, p + r.uni(-3, 3))) v[(int)t] += amp; break;
    case 3: { double q = p; for (double t = 0; t < n; t += q) { v[(int)t] += amp; q = std::max(5.0, q * r.uni(0.98, 1.01)); } } break;
    case 4: for (auto &x : v) x = amp * r.uni(); break;
    case 6: for (auto &x : v) x = amp; break;
    case 7: { double q = r.uni(5, 150); double t = 0; while (t < n) { v[(int)t] += amp; t += t < n / 2 ? p : q; } } break;
    case 8: for (auto &x : v) if (r.chance(0.003)) x = amp; break;
    case 9: for (int i = 0; i < n; ++i) v[i] = amp * i / n; break;
    case 10: v = clicks(n, p, 0, amp, 1); for (int i = n / 3; i < n * 2 / 3; ++i) v[i] = 0; break;
    case 11: { int c = 0; for (double t = 0; t < n; t += p) v[(int)t] += amp * (c++ % r.range(3, 4) ? 0.4 : 1); } break;
    case 12: v = clicks(n, p, 0, amp, 1); for (int i = n / 2; i < n; ++i) v[i] = 0; break;
    case 13: v = clicks(n, p, 0, amp, 1); for (int i = 0; i < n / 2; ++i) v[i] = 0; break;
    case 14: if (n) v[r.range(0, n - 1)] = amp; break;
    case 16: { double q = r.uni(25, 60); p = r.uni(80, 127); double t = 0; while (t < n) { v[(int)t] += amp; t += t < n / 3 ? q : p; } } break;
    case 15: for (auto &x : v) x = amp * (r.uni() - 2); break;
    }
    if (r.chance(0.15)) *kind += shape(r, v);
    if (r.chance(0.15)) { double g = r.logUni(1e-14, 1e14); for (auto &x : v) x *= g; *kind += fmt("*%.2g", g); }
    return v;
}
// ---- reference model of the whole tracker, in long double. `nudge` > 0 disturbs every intermediate result a little, so that
// cases that hang on rounding can be told from those that do not.
struct RefTT {
    typedef ref::LD LD;
    typedef std::vector<LD> V;
    int win, lag; Rng rng; LD nudge; int side;
    RefTT(int w, int l, uint64_t seed, LD n) : win(w), lag(l), rng(seed), nudge(n), side(seed % 4 < 2 ? -1 : 1) {}
    LD wob(LD x) { return nudge == 0 ? x : x * (1 + nudge * rng.uni(-1, 1)); }
    V cond(const V &src) {
        int n = src.size(); LD mn = src[0], al = 0, mx = 0;
        for (LD x : src) { mn = std::min(mn, x); mx = std::max(mx, fabsl(x)); }
        for (LD x : src) al += powl(fabsl(x), 9);
        al = powl(al / n, 1.0L / 9);
        if (al == 0) al = 1;
        V y(n); for (int i = 0; i < n; ++i) y[i] = (src[i] - mn) / al;
        y = ref::filtfilt(dvec(A2, A2 + 3), dvec(B2, B2 + 3), y);
        LD sc = 0; for (LD v : y) sc = std::max(sc, fabsl(v));
        V out(n);
        for (int i = 0; i < n; ++i) { V w(y.begin() + std::max(0, i - 8), y.begin() + std::min(n - 1, i + 7) + 1); out[i] = std::max<LD>(0, y[i] - ref::median(w) + sc * nudge * rng.uni(-1, 1)); }
        return out;
    }
    V acf(const V &x) {
        V o(win);
        for (int k = 0; k < win; ++k) { LD s = 0; for (int j = k; j < win; ++j) s += x[j - k] * x[j]; s /= win - k; if (k && nudge > 0) s += 1e-12L * o[0] * rng.uni(-1, 1); o[k] = wob(s > 0 ? s : LD(2.2204e-16)); }
        return o;
    }
    V comb(const V &ac, const V &w, int tsig) {   // output of the comb filter bank for each lag
        V o(lag, 0);
        for (int i = 1; i < lag - 1; ++i) for (int a = 1; a <= (tsig ? tsig : 4); ++a) {
            LD s = 0; for (int k = a * i; k <= a * i + 2 * a - 2; ++k) s += ac[k];      // the a-th multiple, widened
            o[i] += s * w[i] * (tsig ? 1 : 1.0L / (2 * a - 1));
        }
        for (auto &v : o) v = wob(v);
        return o;
    }
    bool vague; LD tempo;   // last accepted, bpm
    LD period(const V &ac, const V &w, int tsig) {
        V c = comb(ac, w, tsig);
        int best = 0;
        if (tsig) { LD m = 0; for (int i = 0; i < lag; ++i) if (c[i] > m) { m = c[i]; best = i; } }
        else {
            // the pair of lags nearest an octave apart that carries the most energy; the stronger of the two
            c = cond(c); LD s = 0; for (LD v : c) s += v;
            if (s == 0) best = 1;
            else {
                for (auto &v : c) v /= s;
                LD m = HUGE_VALL, top = 0; int pi = 1, pj = 1;
                for (int pass = 0; pass < 2; ++pass) for (int i = 1; i < lag; ++i) for (int j = 1; j < lag; ++j) {
                    LD q = fabsl(1 - fabsl(log2l((LD)i / j))) + 0.01L / (c[i] + c[j]);
                    if (pass == 0) { top = std::max(top, q); continue; }
                    if (i != j && q < m && q < top) { m = q; pi = i; pj = j; }
                }
                best = c[pi] > c[pj] ? pi : pj;
            }
        }
        LD bpm = best ? 5168.0L / best : 0;
        if (bpm >= 30 && bpm <= 180) tempo = bpm;
        int nm = tsig == 0 ? 4 : tsig;
        LD sum = best + 1;
        for (int a = 2; a <= nm; ++a) {       // refine on the multiples of the lag
            int from = a * best, at = 0; LD m = 0;
            for (int k = 0; k < 2 * a - 1; ++k) if (ac[from + k] > m) { m = ac[from + k]; at = k; }
            if (m < 1e-9L * ac[0]) vague = true;    // nothing there but rounding
            // position of the peak as the library counts it
            sum += LD(at + from + (a == 2 ? 1 : a == 3 ? 0 : -4)) / a;
        }
        return sum / nm;
    }
    int roundp(LD p) { return (int)floorl(p + side * nudge + 0.5L); }
    bool odd; size_t sure;  // out of the reach of the model; beats decided before anything vague
    std::vector<int> run(const dvec &df, dvec &tempi) {
        std::vector<int> beats; tempi.clear(); odd = vague = false; tempo = 0; sure = 0;
        int n = df.size(), frames = (n + lag - 1) / lag;
        V RW(lag), GW; for (int i = 0; i < lag; ++i) RW[i] = (i + 1) / 1849.0L * expl(-(LD)(i + 1) * (i + 1) / 3698.0L);
        V P; int wait = 0, meter = 0, last = 0;
        for (int f = 0; f < frames; ++f) {
            int fsp = f * lag;
            V raw(win, 0); for (int i = 0; i < win && fsp + i < n; ++i) raw[i] = df[fsp + i];
            V ac = acf(cond(raw));
            P.push_back(period(ac, RW, 0));
            LD g = GW.empty() ? 0 : period(ac, GW, meter), per;
            // a step away from the current tempo is confirmed two frames later
            bool confirmed = false;
            if (!wait && fabsl(g - P[f] + nudge * rng.uni(-1, 1)) > 3.9017L) wait = 3;
            if (wait == 1) { confirmed = fabsl(2 * P[f] - P[f - 1] - P[f - 2]) < 7.8034L; wait = 0; }
            else if (wait) --wait;
            int known = 0;
            if (confirmed) {
                int p = roundp(P[f]);
                if (4 * p + 2 >= win) { odd = true; return beats; }
                LD e3 = 0, e4 = 0;
                for (int k = -2; k <= 2; ++k) { e3 += ac[3 * p + k]; e4 += ac[4 * p + k]; if (win >= 6 * p + 3) { e3 += ac[6 * p + k]; e4 += ac[2 * p + k]; } }
                meter = wob(e3) > wob(e4) ? 3 : 4;
                if (win < 6 * p + 3 && nudge == 0) mon.count("slow_meters", 1);
                LD sg = P[f] / 4; GW.assign(lag, 0);
                for (int i = 0; i < lag; ++i) GW[i] = expl(-0.5L * (i + 1 - P[f]) * (i + 1 - P[f]) / (sg * sg)) / (sqrtl(2 * M_PIl) * sg);
                per = period(ac, GW, meter);
            } else if (!GW.empty()) { per = g; known = last; }
            else per = P[f];
            int p = roundp(per);
            if (p < 1) { odd = true; return beats; }
            V w(p, 1);
            int po = last + p - fsp;
            if (known && po >= 0) {
                auto gs = [&](int i) { return expl(-0.5L * (LD)(i - p) * (i - p) * 64 / ((LD)p * p)); };
                for (int k = 0; k < p; ++k) { int i = p - po + 1 + k; w[k] = i < 2 * p ? (gs(i) - gs(0)) / gs(p) : 0; }
            }
            LD m = 0; int al = 0;
            for (int o = 0; o < p; ++o) {
                LD s = 0; for (int i = o; i < win; i += p + 1) s += raw[i] * (LD)(win - i) * (win - i) / ((LD)win * win);
                s = wob(s * w[o]) ;
                if (s > m) { m = s; al = o; }
            }
            last = fsp + al; beats.push_back(last);
            while (last + p < fsp + lag) { last += p; beats.push_back(last); }
            if (!vague) sure = beats.size();
            tempi.push_back((double)tempo);
        }
        return beats;
    }
};
static void structure(const std::vector<int> &beats, const dvec &tempo, int n, int win, int lag) {
    // one analysis frame per lagLength of data
    int frames = tempo.size();
    int want = (n + lag - 1) / lag;
    mon.check(frames == 0 ? n == 0 : std::abs(frames - want) <= 1, "frame-count", "%d frames for %d values", frames, n);
    for (double t : tempo) mon.check(t == 0 || (t >= 30 && t <= 180), "tempo-range", "%g", t);
    for (int k = 1; k < frames; ++k) mon.check(!(tempo[k - 1] != 0 && tempo[k] == 0), "tempo-kept", "tempo lost in frame %d", k);
    std::vector<std::vector<int> > per(frames);
    for (size_t i = 0; i < beats.size(); ++i) {
        int b = beats[i];
        if (!mon.check(b >= 0 && b < (frames + 1) * lag + 4, "beat-range", "beat %zu at %d of %d", i, b, n)) return;
        if (i && !mon.check(b > beats[i - 1], "beats-ascending", "beat %zu at %d after %d", i, b, beats[i - 1])) return;
        int f = b / lag; if (f < frames) per[f].push_back(b);
    }
    for (int f = 0; f < frames; ++f) {
        if (!mon.check(!per[f].empty() || lag <= 2, "every-frame-has-beats", "frame %d of %d", f, frames)) return;
        for (size_t i = 2; i < per[f].size(); ++i) {
            int d1 = per[f][i] - per[f][i - 1], d0 = per[f][1] - per[f][0];
            if (!mon.check(d1 == d0, "even-within-frame", "frame %d: intervals %d and %d", f, d0, d1)) return;
        }
        if (per[f].size() >= 2) {
            int p = per[f][1] - per[f][0];
            if (!mon.check(per[f][0] - f * lag < p, "first-beat-within-one-period", "frame %d: first beat %d after its start, interval %d", f, per[f][0] - f * lag, p)) return;
            if (!mon.check(per[f].back() + p >= (f + 1) * lag, "frame-filled", "frame %d: last beat %d, interval %d", f, per[f].back(), p)) return;
            mon.saw(fmt("p%d", p));
        }
    }
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    mon.group("track", mon.n(300, 4000), [](Case &c) {
        Rng &r = c.rng;
        TempoTrack t(params());
        for (int k = 0, calls = r.range(1, 3); k < calls; ++k) {
            int n = r.pick({0, 1, 127, 128, 129, 511, 512, 513, r.range(0, 700), r.range(512, 4000), r.chance(0.1) ? r.range(8000, 40000) : 600});
            std::string nm; dvec df = onsets(r, n, &nm);
            c.say("n=%d %s", n, nm.c_str());
            dvec tempo; std::vector<int> beats = t.process(df, &tempo);
            if (calls == 1 || k) { TempoTrack u(params()); dvec t2; std::vector<int> b2 = u.process(df, &t2); mon.check(b2 == beats && t2 == tempo, "calls-independent", "call %d differs from a fresh object", k); }
            std::vector<int> b3 = t.process(df);
            mon.check(b3 == beats, "repeatable", "call %d", k);
            structure(beats, tempo, n, 512, 128);
            mon.count("beats", beats.size()); mon.count("frames", tempo.size());
        }
    });
    // every slow tempo the tracker can settle on, reached by a step it confirms
    mon.group("slow-steps", mon.n(96, 960), [](Case &c) {
        Rng &r = c.rng;
        int n = r.range(2500, 5000), p = 80 + c.idx % 48;
        double q = r.uni(25, 60), amp = r.logUni(1e-3, 1e3), t = 0; dvec df(n, 0.0);
        while (t < n) { df[(int)t] += amp; if (r.chance(0.3) && t + 1 < n) df[(int)t + 1] += amp * r.uni(); t += t < n / 3 ? q : p; }
        for (auto &x : df) x += r.pick({0.0, 0.02, 0.1}) * amp * r.uni();
        c.say("n=%d %g then %d", n, q, p);
        TempoTrack k(params()); dvec tempo; std::vector<int> beats = k.process(df, &tempo);
        structure(beats, tempo, n, 512, 128);
        mon.count("beats", beats.size()); mon.count("frames", tempo.size());
    });
    // against the reference model, where small disturbances of it do not change the outcome
    mon.group("model", mon.n(150, 3000), [](Case &c) {
        Rng &r = c.rng;
        int n = r.pick({1, 127, 128, 129, 511, 512, 513, r.range(0, 700), r.range(512, 3000), r.chance(0.2) ? r.range(4000, 16000) : 640});
        std::string nm; dvec df = onsets(r, n, &nm);
        if (r.chance(0.5)) { double a = maxAbs(df); for (auto &x : df) x += r.pick({0.02, 0.2}) * a * r.uni(); }
        c.say("n=%d %s", n, nm.c_str());
        dvec t0; RefTT m0(512, 128, 1, 0); std::vector<int> b0 = m0.run(df, t0);
        size_t good = m0.odd ? 0 : m0.sure, tg = m0.odd ? 0 : t0.size();
        for (int k = 0; k < 4 && tg; ++k) {
            dvec t1; RefTT m1(512, 128, 2 + k, k % 2 ? 1e-9L : 1e-11L); std::vector<int> b1 = m1.run(df, t1);
            size_t i = 0; while (i < good && i < b1.size() && b1[i] == b0[i]) ++i; good = std::min(good, i);
            i = 0; while (i < tg && i < t1.size() && std::fabs(t1[i] - t0[i]) < 1e-6) ++i; tg = std::min(tg, i);
        }
        // frames decided alike by all runs of the model
        size_t fr = good < b0.size() ? b0[good] / 128 : tg; tg = std::min(tg, fr);
        TempoTrack t(params()); dvec tempo; std::vector<int> beats = t.process(df, &tempo);
        mon.count("model_frames", tg); mon.count("ambiguous_frames", t0.size() - tg);
        if (tempo.size() < tg) { mon.check(false, "model-frames", "%zu tempi, expected %zu", tempo.size(), tg); return; }
        for (size_t f = 0; f < tg; ++f) if (!mon.check(std::fabs(tempo[f] - t0[f]) < 1e-4 * (1 + t0[f]), "model-tempo", "frame %zu: %g expected %g", f, tempo[f], t0[f])) return;
        for (size_t i = 0; i < b0.size() && b0[i] < (int)tg * 128; ++i) if (!mon.check(i < beats.size() && beats[i] == b0[i], "model-beats", "beat %zu at %d expected %d", i, i < beats.size() ? beats[i] : -1, b0[i])) return;
        // the level of the data does not matter
        dvec loud = df; double g = std::ldexp(1.0, r.range(-12, 12)); for (auto &x : loud) x *= g;
        dvec t3; std::vector<int> b3 = t.process(loud, &t3);
        for (size_t i = 0; i < b0.size() && b0[i] < (int)tg * 128; ++i) if (!mon.check(i < b3.size() && b3[i] == beats[i], "level-independent", "gain %g: beat %zu at %d, was %d", g, i, i < b3.size() ? b3[i] : -1, beats[i])) return;
        mon.saw(fmt("m%zu %d", tg, b0.empty() ? 0 : b0.back()));
    });
    mon.group("steady", mon.n(100, 1000), [](Case &c) {
        Rng &r = c.rng;
        int P = r.range(29, 60), n = r.range(1600, 3200), ph = r.range(0, P - 1);
        double amp = r.logUni(0.05, 50), nz = r.pick({0.0, 0.05});
        dvec df(n, 0.0);
        for (int t = ph; t < n; t += P) { df[t] += amp; if (t) df[t - 1] += amp / 2; if (t + 1 < n) df[t + 1] += amp / 2; }
        for (auto &x : df) x += nz * amp * r.uni();
        c.say("P=%d phase=%d n=%d noise=%g", P, ph, n, nz);
        TempoTrack t(params()); dvec tempo; std::vector<int> beats = t.process(df, &tempo);
        int off = 0, inPeriod = 0, seen = 0;
        for (size_t i = 0; i < beats.size(); ++i) if (beats[i] > 600 && beats[i] < n - 600) { int d = ((beats[i] - ph) % P + P) % P; d = std::min(d, P - d); ++seen; if (d > 3) ++off; if (i && std::abs(beats[i] - beats[i - 1] - P) <= 3) ++inPeriod; }
        mon.check(inPeriod >= seen * 0.9, "steady-interval", "%d of %d intervals near %d", inPeriod, seen, P);
        mon.check(off <= seen * 0.1, "steady-on-onsets", "%d of %d beats away from the onsets", off, seen);
        double want = 5168.0 / P;
        if (want > 32 && want < 175) for (size_t k = 6; k + 6 < tempo.size(); ++k) if (!mon.check(std::fabs(tempo[k] - want) <= 0.05 * want + 1, "steady-tempo", "frame %zu: %g expected %g", k, tempo[k], want)) break;
        mon.count("steady_beats", seen);
    });
    return mon.finish();
}
