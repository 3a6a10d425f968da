// C01: every component's workload under the sanitizers, with heap balance.
#include "scen.h"
using namespace vf;
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    bool vg = mon.arg == "valgrind";
    for (int k = 0; k < scen::count; ++k) {
        const scen::Scenario &s = scen::all[k];
        mon.group(s.name, mon.n(vg ? 1 : 40, vg ? 8 : 400), [&](Case &c) {
            scen::Env e; e.hostile = c.idx % 4 == 3; e.objFill = c.rng.pick({0xA5, 0xFF, 0}); uint64_t seed = c.rng.u64();
            long bal = 0; int tries = 0;
            do {
                long h0 = heapBytes();
                { scen::Ctx x(seed, e); scen::run(s, x); if (!tries) { c.desc = fmt("%s seed=%llu%s", x.what.c_str(), (unsigned long long)seed, e.hostile ? " hostile" : ""); for (auto &i : x.issues) mon.check(false, i.first.c_str(), "%s", i.second.c_str()); mon.count("calls", x.calls); mon.count("values_logged", x.log.size()); uint64_t h = 1; for (double v : x.log) h = mix64(h ^ hashBytes(&v, sizeof v)); mon.sawHash(h); } }
                bal = heapBytes() - h0;
            } while (!vg && bal != 0 && ++tries < 3);
            mon.check(bal == 0, "no-leak", "%s: %ld bytes more on the heap after each run", s.name, bal);
        });
    }
    return mon.finish();
}
