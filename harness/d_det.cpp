// C03: the same workload under different memory contents, random streams, times
// and neighbouring activity must return the same bits.
#include "scen.h"
using namespace vf;
extern "C" int vf_fill;
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
// A process kept as it was before anything of the library ran.  For each request it
// forks a copy, which runs the case there, possibly after other objects of the same kind.
struct Pristine {
    int to, from; pid_t pid; bool killed = false;
    struct Req { int k, hostile, before; uint64_t seed; };
    static bool rd(int f, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t r = ::read(f, c, n); if (r <= 0) return false; c += r; n -= r; } return true; }
    static void wr(int f, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t r = ::write(f, c, n); if (r <= 0) _exit(0); c += r; n -= r; } }
    void start() {
        int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
        fflush(0); pid = fork();
        if (pid) { close(a[0]); close(b[1]); to = a[1]; from = b[0]; return; }
        close(a[1]); close(b[0]); Req q;
        while (rd(a[0], &q, sizeof q)) {
            pid_t g = fork();
            if (g == 0) {
                const scen::Scenario &s = scen::all[q.k];
                { scen::Env e; for (int i = 0; i < q.before; ++i) { scen::Ctx y(mix64(q.seed + 1000 + i), e); scen::run(s, y); } }
                scen::Env e; e.objFill = 0; e.draws = 11; e.hostile = q.hostile; vf_fill = 0;
                scen::Ctx x(q.seed, e); scen::run(s, x); vf_fill = -1;
                uint64_t n = x.log.size(); wr(b[1], &n, sizeof n); wr(b[1], x.log.data(), n * sizeof(double)); _exit(0);
            }
            int st = 0; waitpid(g, &st, 0);
            if (st) { uint64_t n = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? ~1ull : ~0ull; wr(b[1], &n, sizeof n); }     // (the case itself fails the same way in the parent)
        }
        _exit(0);
    }
    bool run(int k, bool hostile, int before, uint64_t seed, dvec &log) {
        Req q; memset(&q, 0, sizeof q); q.k = k; q.hostile = hostile; q.before = before; q.seed = seed; wr(to, &q, sizeof q);
        uint64_t n; if (!rd(from, &n, sizeof n) || n >= ~1ull) { killed = n == ~1ull; return false; }
        log.resize(n); return rd(from, log.data(), n * sizeof(double));
    }
    void stop() { close(to); close(from); waitpid(pid, 0, 0); }
};
extern "C" int vf_fill;
static uint64_t hashLog(const dvec &v) { uint64_t h = 1; for (double x : v) h = mix64(h ^ hashBytes(&x, sizeof x)); return h; }
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    Pristine pristine; pristine.start();
    static const struct { int fill; unsigned char obj, out; double stack; uint64_t draws; const char *name; } envs[] = {
        {0x00, 0x00, 0x5A, 0.0, 11, "zeros"}, {0xFF, 0xFF, 0x5A, NAN, 99991, "ones"}, {0x41, 0x41, 0x5A, -3e9, 5555, "0x41"}, {300, 0x3F, 0x5A, 0.75, 31337, "fractions"}, {0xC1, 0x80, 0x5A, 1e300, 7, "negative"} };
    for (int k = 0; k < scen::count; ++k) {
        const scen::Scenario &s = scen::all[k];
        mon.group(s.name, mon.n(32, 320), [&](Case &c) {
            uint64_t seed = c.rng.u64(); dvec ref; std::string what;
            for (int e = 0; e < 7; ++e) {
                scen::Env env; Rng nr(mix64(seed + e)); int depth = 0;
                int q = e < 5 ? e : nr.range(0, 4);
                vf_fill = envs[q].fill; env.objFill = envs[q].obj; env.outFill = envs[q].out; env.stack = envs[q].stack; env.draws = envs[q].draws; env.hostile = c.idx % 8 == 7;
                uint64_t nb = 0;
                scen::Env quiet; quiet.objFill = 0x77;
                // other objects used between this one's calls
                if (e >= 5) env.between = [&] { if (depth || !nr.chance(0.25)) return; depth = 1; const scen::Scenario &o = nr.chance(0.4) ? s : scen::all[nr.range(0, scen::count - 1)]; scen::Ctx y(nr.u64(), quiet); if (o.draws && !nr.chance(0.1)) { depth = 0; return; } scen::run(o, y); ++nb; depth = 0; };
                scen::Ctx x(seed, env); scen::run(s, x);
                vf_fill = -1;
                mon.count("runs"); mon.count("neighbour_runs", nb);
                if (e == 0) { ref = x.log; what = x.what; c.desc = fmt("%s seed=%llu%s", what.c_str(), (unsigned long long)seed, env.hostile ? " hostile" : ""); mon.sawHash(hashLog(ref)); mon.count("values_compared", ref.size()); }
                else mon.sameVec(x.log, ref, e < 5 ? "same-whatever-memory-holds" : "same-whatever-else-runs", fmt("%s with %s memory%s", s.name, envs[q].name, e >= 5 ? " and other objects in use" : "").c_str());
            }
            // and once more exactly as the first time
            scen::Env env; env.objFill = 0; env.draws = 11; env.hostile = c.idx % 8 == 7; vf_fill = 0; scen::Ctx x(seed, env); scen::run(s, x); vf_fill = -1;
            mon.sameVec(x.log, ref, "repeatable", s.name);
            for (int before = 0; before < 8; before += 5) {
                dvec log; if (!pristine.run(k, env.hostile, before, seed, log)) { if (pristine.killed) continue;    // out of memory: no answer
                mon.check(false, "no-answer-alone", "%s in a process of its own", s.name); continue; }
                mon.sameVec(log, ref, before ? "same-whatever-ran-before" : "same-in-a-new-process", s.name); mon.count(before ? "runs_after_a_history" : "runs_in_a_new_process");
            }
        });
    }
    pristine.stop();
    return mon.finish();
}
