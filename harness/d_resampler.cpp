// C08: streaming resampler against an explicit polyphase-free model:
//   y[j] = scale * sum_i x[i] * F[h + i*inSp - (j - latency)*outSp]
// whatever the chunking, plus bounds on the number of samples returned.
#include "vf.h"
#include "dsp/rateconversion/Resampler.h"
#include <memory>
using namespace vf;
typedef long double LD;

static double I0(double x) { double s = 1, t = 1; for (int i = 1; i < 200; ++i) { t *= (x / 2) * (x / 2) / ((double)i * i); s += t; if (t < s * 1e-18) break; } return s; }
static int igcd(int a, int b) { return b ? igcd(b, a % b) : a; }

struct Model {
    int S, T, inSp, outSp, flen, h, latency;
    double scale, beta;
    bool capped;
    dvec F;
    Model(int s, int t, double snr, double bw) : S(s), T(t) {
        int g = igcd(s, t), hi = std::max(s, t) / g;
        inSp = t / g; outSp = s / g;
        double pole = hi;
        if (t < s) pole /= (1 - bw / 2);
        double tr = bw * 2 * M_PI / hi;
        flen = 1 + (int)(snr > 21 ? std::ceil((snr - 7.95) / (2.285 * tr)) : std::ceil(5.79 / tr));
        if (flen % 2 == 0) ++flen;
        capped = flen > 200001;
        if (capped) flen = 200001;
        beta = snr > 50 ? 0.1102 * (snr - 8.7) : snr > 21 ? 0.5842 * std::pow(snr - 21, 0.4) + 0.07886 * (snr - 21) : 0;
        h = flen / 2;
        latency = (flen - h + outSp - 1) / outSp;
        scale = inSp / pole;
        F.resize(flen);
        double den = I0(beta);
        for (int i = 0; i <= h; ++i) {
            double k = 2.0 * i / (flen - 1) - 1, x = M_PI * (h - i) / pole;
            F[i] = F[flen - 1 - i] = (i == h ? 1.0 : std::sin(x) / x) * I0(beta * std::sqrt(std::max(0.0, 1 - k * k))) / den;
        }
    }
    double at(const dvec &x, int64_t j) const {
        // i*inSp - (j-lat)*outSp + h in [0, flen)
        int64_t base = (j - latency) * (int64_t)outSp - h;
        int64_t i0 = base <= 0 ? -((-base) / inSp) : (base + inSp - 1) / inSp;
        if (i0 < 0) i0 = 0;
        int64_t i1 = (base + flen - 1);
        if (i1 < 0) return 0;
        i1 /= inSp;
        if (i1 >= (int64_t)x.size()) i1 = (int64_t)x.size() - 1;
        double s = 0;
        for (int64_t i = i0; i <= i1; ++i) s += x[i] * F[i * inSp - base];
        return s * scale;
    }
};
static std::map<std::string, std::shared_ptr<Model> > cache;
static Model &model(int S, int T, double snr, double bw) {
    std::string k = fmt("%d %d %.17g %.17g", S, T, snr, bw);
    if (!cache.count(k)) { if (cache.size() > 30) cache.clear(); cache[k].reset(new Model(S, T, snr, bw)); }
    return *cache[k];
}
static void pickRates(Rng &r, int &S, int &T) {
    switch (r.range(0, 6)) {
    case 0: S = r.range(1, 12); T = r.range(1, 12); break;
    case 1: S = r.pick({8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000}); T = r.pick({8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000}); if (r.chance(0.15)) S = r.pick({88200, 176400, 192000}); if (r.chance(0.15)) T = r.pick({88200, 176400, 192000}); break;
    case 2: { int f = r.range(1, 16), b = r.range(1, 3000); if (r.chance(0.5)) { S = b; T = b * f; } else { S = b * f; T = b; } break; }
    case 3: S = r.range(1, 300); T = r.range(1, 300); break;
    case 4: { int b = r.range(100, 900); S = b; T = b + r.pick({-1, 1, -2, 2, 0}); break; }
    case 5: { int g = r.range(1, 500); S = g * r.range(1, 25); T = g * r.range(1, 25); break; }
    default: S = 44100; T = r.pick({2756, 5512, 11025, 22050, 88200, 48000}); break;
    }
}
static std::vector<int> chunks(Rng &r, int n, std::string &how) {
    std::vector<int> c;
    int k = r.range(0, 6);
    static const char *nm[] = {"whole", "ones", "fixed", "random", "random+empty", "powers", "tiny-then-rest"};
    how = nm[k];
    int fixed = r.range(2, 300), left = n;
    if (k == 1 && n > 4000) k = 2;
    while (left > 0) {
        int s = left;
        switch (k) {
        case 1: s = 1; break;
        case 2: s = fixed; break;
        case 3: s = r.range(1, 400); break;
        case 4: s = r.chance(0.3) ? 0 : r.range(1, 50); break;
        case 5: s = 1 << r.range(0, 10); break;
        case 6: s = c.size() < 6 ? r.range(1, 3) : left; break;
        }
        s = std::min(s, left);
        c.push_back(s); left -= s;
    }
    return c;
}

int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("stream", mon.n(520, 6000), [](Case &c) {
        Rng &r = c.rng;
        int S, T; pickRates(r, S, T);
        bool custom = r.chance(0.4);
        double snr = custom ? r.pick({20.0, 40.0, 60.0, 80.0, 100.0, r.uni(15, 110), r.uni(100, 220)}) : 100, bw = custom ? r.pick({0.02, 0.05, 0.1, 0.2, r.uni(0.02, 0.4)}) : 0.02;
        Model &m = model(S, T, snr, bw);
        int want = r.range(200, 2500);                 // output samples beyond the latency
        double nn = (m.latency + want) * (double)S / T + 2;
        int n = (int)std::min(nn, 60000.0);
        std::string kind, how;
        dvec x = signal(r, n, &kind); level(r, x, 1e-200, 1e200);
        std::vector<int> ch = chunks(r, n, how);
        bool vec = r.chance(0.4);
        c.say("%d->%d snr=%g bw=%g n=%d %s %s%s latency=%d", S, T, snr, bw, n, kind.c_str(), how.c_str(), vec ? " by-value" : "", m.latency);
        std::unique_ptr<Resampler> rs(custom ? new Resampler(S, T, snr, bw) : new Resampler(S, T));
        mon.check(rs->getLatency() == m.latency, "latency", "declared %d, filter geometry gives %d", rs->getLatency(), m.latency);
        dvec out;
        int64_t fed = 0; size_t pos = 0; double scratchCheck = 0; (void)scratchCheck;
        for (size_t i = 0; i < ch.size(); ++i) {
            int64_t cap = ((int64_t)ch[i] * T + S - 1) / S;
            dvec part(x.begin() + pos, x.begin() + pos + ch[i]);
            pos += ch[i];
            int got;
            Guarded<double> in(part);
            if (vec) {
                dvec o = rs->process(in, ch[i]);
                got = o.size();
                out.insert(out.end(), o.begin(), o.end());
            } else {
                Guarded<double> o(cap, -12345.0);
                got = rs->process(in, o, ch[i]);
                mon.check(o.intact(), "extent", "wrote beyond ceil(n*T/S)");
                if (got >= 0 && got <= cap) out.insert(out.end(), o.p(), o.p() + got);
            }
            mon.check(in.vec() == part, "input-unmodified", "chunk %zu", i);
            fed += ch[i];
            if (!mon.check(got >= 0 && got <= cap, "count-upper-bound-per-call", "chunk of %d returned %d samples, limit %lld", ch[i], got, (long long)cap)) return;
            // never falls behind, never runs ahead of the data
            int64_t low = (fed * T) / S, high = fed * T / S + 4;
            if (!mon.check((int64_t)out.size() >= low && (int64_t)out.size() <= high, "count-tracks-rate", "after %lld inputs (%d->%d, %s) %zu outputs, expected within [%lld,%lld]", (long long)fed, S, T, how.c_str(), out.size(), (long long)low, (long long)high)) return;
        }
        double tol = 2e-8 * (maxAbs(x) + 1e-300) * std::max(1.0, m.scale);
        for (size_t j = 0; j < out.size(); ++j) {
            double w = m.at(x, j);
            if (!mon.close(out[j], w, tol, "filter-model", fmt("output %zu of %zu", j, out.size()).c_str())) break;
        }
        mon.count("output_samples", out.size());
        mon.saw(fmt("%d %d %s", m.inSp, m.outSp, how.c_str()));
        if (ch.size() > 1) mon.count("multi_chunk_streams");
    });
    mon.group("one-shot", mon.n(240, 3000), [](Case &c) {
        Rng &r = c.rng;
        int S, T; pickRates(r, S, T);
        int n = r.pick({0, 1, 2, r.range(1, 20), r.range(1, 3000), (int)std::min(4000.0, 1000.0 * S / T), r.chance(0.15) ? (int)std::min(30000.0, 20000.0 * S / T) : 11});
        std::string kind;
        dvec x = signal(r, n, &kind); level(r, x, 1e-200, 1e200);
        c.say("%d->%d n=%d %s", S, T, n, kind.c_str());
        Model &m = model(S, T, 100, 0.02);
        if ((double)n * T / S > 40000) { c.nontrivial = false; return; }
        Guarded<double> in(x);
        dvec out = Resampler::resample(S, T, in, n);
        int64_t want = ((int64_t)n * T + S - 1) / S;
        mon.check((int64_t)out.size() == want, "one-shot-length", "%d samples %d->%d gave %zu, expected %lld", n, S, T, out.size(), (long long)want);
        double tol = 2e-8 * (maxAbs(x) + 1e-300) * std::max(1.0, m.scale);
        for (size_t j = 0; j < out.size(); ++j)
            if (!mon.close(out[j], m.at(x, j + m.latency), tol, "one-shot-aligned", fmt("output %zu of %zu", j, out.size()).c_str())) break;
        mon.check(in.vec() == x, "input-unmodified", "one-shot");
    });
    // blocks far longer than the filter, where products of length and rate leave the range of int
    mon.group("long-block", mon.n(16, 80), [](Case &c) {
        Rng &r = c.rng;
        int S, T; bool big = r.chance(0.5);
        do pickRates(r, S, T); while (std::max(S, T) / igcd(S, T) > 900 || (double)T / S > 4 || (double)S / T > 12 || (big && S < 8000));
        int n = r.range(60000, 400000), cut = r.pick({0, 1, n / 2, r.range(1, n - 1)});
        Model &m = model(S, T, 100, 0.02);
        if ((double)n * T / S * m.flen / m.inSp > 6e8) n = 60000, cut = std::min(cut, n);
        dvec x = noise(r, n); c.say("%d->%d n=%d cut=%d", S, T, n, cut);
        Resampler rs(S, T); dvec out = rs.process(x.data(), cut), o2 = rs.process(x.data() + cut, n - cut);
        out.insert(out.end(), o2.begin(), o2.end());
        int64_t low = ((int64_t)n * T) / S;
        if (!mon.check((int64_t)out.size() >= low && (int64_t)out.size() <= low + 4, "count-tracks-rate", "after %d inputs in two blocks %zu outputs, expected about %lld", n, out.size(), (long long)low)) return;
        double tol = 2e-8 * std::max(1.0, m.scale);
        for (int k = 0; k < 3000; ++k) { size_t j = k < 200 ? out.size() - 1 - k : r.u64() % out.size(); if (!mon.close(out[j], m.at(x, j), tol, "filter-model", fmt("output %zu of %zu", j, out.size()).c_str())) break; }
        mon.count("output_samples", out.size());
        if (r.chance(0.3)) { dvec one = Resampler::resample(S, T, x.data(), n); int64_t want = ((int64_t)n * T + S - 1) / S; if (mon.check((int64_t)one.size() == want, "one-shot-length", "%d samples %d->%d gave %zu, expected %lld", n, S, T, one.size(), (long long)want)) for (int k = 0; k < 500; ++k) { size_t j = k < 50 ? one.size() - 1 - k : r.u64() % one.size(); if (!mon.close(one[j], m.at(x, j + m.latency), tol, "one-shot-aligned", fmt("output %zu of %zu", j, one.size()).c_str())) break; } }
    });
    // independent of the model: band-limited signals survive, out-of-band ones vanish
    mon.group("band", mon.n(120, 1500), [](Case &c) {
        Rng &r = c.rng;
        int S, T;
        do pickRates(r, S, T); while (std::max(S, T) / igcd(S, T) > 450 || (double)T / S > 20 || (double)S / T > 20);
        int lo = std::min(S, T);
        bool in = T >= S || r.chance(0.6);
        double f = in ? r.uni(0.01, 0.46) * lo : r.uni(0.52 * lo, 0.5 * S);
        if (!in && f < 0.52 * lo) { c.nontrivial = false; return; }
        double ph = r.uni(0, 6.28);
        Resampler rs(S, T);
        int lat = rs.getLatency();
        int n = (int)((lat * 2.2 + 600) * (double)S / T) + 600;
        c.say("%d->%d f/lower-rate=%.4g %s", S, T, f / lo, in ? "passband" : "stopband");
        dvec x(n); for (int i = 0; i < n; ++i) x[i] = std::sin(2 * M_PI * f * i / S + ph);
        dvec out = rs.process(x.data(), n);
        double worst = 0; int cnt = 0;
        for (size_t j = 2 * lat + 2; j < out.size(); ++j, ++cnt) {
            double w = in ? std::sin(2 * M_PI * f * (double)((int64_t)j - lat) / T + ph) : 0;
            worst = std::max(worst, std::fabs(out[j] - w));
        }
        mon.check(cnt > 100, "steady-state-seen", "only %d steady-state samples", cnt);
        mon.check(worst < 2e-4, in ? "passband-preserved" : "stopband-rejected", "worst deviation %g over %d samples", worst, cnt);
        mon.maxim(in ? "passband_error" : "stopband_level", worst);
    });
    return mon.finish();
}
