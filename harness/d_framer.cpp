// C11: framing.
#include "vf.h"
#include "dsp/signalconditioning/Framer.h"
#include <climits>
#include <sys/mman.h>
using namespace vf;

static void walk(Case &c, Framer &f, dvec &x, int len, int hop, int take, bool fresh) {
    int n = x.size();
    dvec copy(x);
    int64_t want = ((int64_t)n + hop - 1) / hop;
    mon.check(f.getMaxNoFrames() == want, "frame-count", "n=%d hop=%d: %d, expected %lld", n, hop, f.getMaxNoFrames(), (long long)want);
    for (int k = 0; k < std::min<int64_t>(take, want); ++k) {
        Guarded<double> out(len, NAN);
        f.getFrame(out);
        bool ok = out.intact();
        for (int i = 0; i < len && ok; ++i) {
            int64_t s = (int64_t)k * hop + i;
            double w = s < n ? x[s] : 0.0;
            ok = sameBits(out[i], w) || out[i] == w;
            if (!ok) mon.check(false, "frame-content", "n=%d frame=%d hop=%d: frame %d sample %d is %.17g expected %.17g", n, len, hop, k, i, out[i], w);
        }
        if (!ok) return;
        mon.passed("frame-content", len);
        mon.count("frames");
    }
    // asked for more than there are, it has nothing to give but silence
    if (take >= want && n % 3) for (int k = 0; k < 4; ++k) {
        Guarded<double> out(len, NAN); f.getFrame(out); bool zero = true; for (int i = 0; i < len; ++i) zero = zero && out[i] == 0;
        if (!mon.check(out.intact() && zero, "silent-beyond-the-end", "n=%d frame=%d hop=%d: frame %lld of %lld", n, len, hop, (long long)want + k, (long long)want)) return;
    }
    mon.check(copy == x, "source-unmodified", "n=%d", n);
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("frames", mon.n(900, 10000), [](Case &c) {
        Rng &r = c.rng;
        Framer f;
        bool configured = false;
        int len = 0, hop = 0;
        std::vector<dvec> keep;
        int rounds = r.range(1, 4);
        for (int k = 0; k < rounds; ++k) {
            bool conf = !configured || r.chance(0.5);
            if (conf) {
                len = r.pick({1, 2, 16, r.range(1, 64), r.range(1, 300)});
                hop = r.pick({len, std::max(1, len / 2), 1, r.range(1, len), len + r.range(1, 20), r.range(1, 100)});
                f.configure(len, hop);
                configured = true;
            }
            int n = r.pick({0, 1, len, len - 1, len + 1, len * r.range(1, 6), hop * r.range(1, 8), hop * r.range(1, 8) + r.range(0, hop), r.range(0, 2000)});
            dvec x = noise(r, n); for (auto &v : x) v += 10;
            keep.push_back(x);
            c.say("[len=%d hop=%d n=%d%s]", len, hop, n, conf ? "" : " reused");
            // exactly-sized source so that any over-read is caught
            Guarded<double> src(x);
            if (r.chance(0.3)) {     // a source set before the frames start again: nothing to say about what is delivered, only where it is written
                f.setSource(src, n); mon.count("sources_changed_midway");
                for (int q = 0; q < 3; ++q) { Guarded<double> out(len, NAN); f.getFrame(out); mon.check(out.intact(), "frame-in-bounds", "n=%d frame=%d hop=%d", n, len, hop); }
                f.resetCounters();
            }
            if (!conf) f.resetCounters();
            f.setSource(src, n);
            int take = r.chance(0.3) ? r.range(0, 5) : INT_MAX;
            walk(c, f, x, len, hop, take, conf);
            if (r.chance(0.5)) { f.resetCounters(); walk(c, f, x, len, hop, r.chance(0.5) ? 3 : INT_MAX, false); mon.count("rewinds"); }
            mon.check(src.vec() == x, "source-unmodified", "n=%d", n);
            mon.saw(fmt("%d %d %d", len, hop, n));
        }
    });
    // very many frames from one source
    mon.group("many-frames", mon.n(8, 60), [](Case &c) {
        Rng &r = c.rng; int len = r.range(1, 6), hop = r.pick({1, 1, 2, 3, 7}), n = r.range(66000, 200000) * hop;
        c.say("len=%d hop=%d n=%d", len, hop, n);
        dvec x(n); for (int i = 0; i < n; ++i) x[i] = i + 1;
        Framer f; f.configure(len, hop); Guarded<double> src(x); f.setSource(src, n); dvec o(len);
        mon.check(f.getMaxNoFrames() == (n + hop - 1) / hop, "frame-count", "%d", f.getMaxNoFrames());
        for (int k = 0, m = f.getMaxNoFrames(); k < m; ++k) {
            f.getFrame(o.data());
            for (int i = 0; i < len; ++i) { int64_t s = (int64_t)k * hop + i; double w = s < n ? x[s] : 0; if (o[i] != w) { mon.check(false, "frame-content", "frame %d sample %d is %.17g expected %.17g", k, i, o[i], w); return; } }
        }
        mon.passed("frame-content", f.getMaxNoFrames()); mon.count("frames", f.getMaxNoFrames());
    });
    // sources longer than 2^31 samples: positions must not wrap
    mon.group("long-source", mon.n(8, 40), [](Case &c) {
        Rng &r = c.rng;
        int64_t n = (int64_t(1) << 31) + r.range(1, 3000000);
        size_t bytes = n * sizeof(double);
        void *m = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { c.nontrivial = false; mon.count("long_source_unavailable"); return; }
        double *p = (double *)m;
        int hop = r.pick({1 << 24, (1 << 24) + 12345, 1 << 26, 99999999}), len = r.range(100, 2000);
        c.say("n=%lld hop=%d len=%d", (long long)n, hop, len);
        Framer f; f.configure(len, hop); f.setSource(p, n);
        int64_t want = (n + hop - 1) / hop;
        mon.check(f.getMaxNoFrames() == want, "frame-count", "long source: %d expected %lld", f.getMaxNoFrames(), (long long)want);
        for (int64_t k = 0; k < want; ++k) for (int i = 0; i < len; ++i) if (k * hop + i < n) p[k * hop + i] = (double)(k * hop + i);
        for (int64_t k = 0; k < want; ++k) {
            Guarded<double> out(len, NAN);
            f.getFrame(out);
            for (int i = 0; i < len; ++i) {
                double w = k * hop + i < n ? (double)(k * hop + i) : 0.0;
                if (!mon.check(out[i] == w, "frame-content", "long source: frame %lld sample %d is %.17g expected %.17g", (long long)k, i, out[i], w)) { munmap(m, bytes); return; }
            }
        }
        munmap(m, bytes);
    });
    mon.group("frame-count", mon.n(300, 3000), [](Case &c) {
        Rng &r = c.rng;
        int hop = r.pick({1, 2, r.range(1, 5000)});
        int64_t n = (int64_t)r.logUni(1, 1e12);
        c.say("n=%lld hop=%d", (long long)n, hop);
        static double dummy[1];
        Framer f; f.configure(1, hop); f.setSource(dummy, n);
        int64_t want = std::min<int64_t>((n + hop - 1) / hop, INT_MAX);
        mon.check(f.getMaxNoFrames() == want, "frame-count", "n=%lld hop=%d: %d expected %lld", (long long)n, hop, f.getMaxNoFrames(), (long long)want);
    });
    return mon.finish();
}
