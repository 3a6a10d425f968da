// C04: inputs unchanged, outputs written completely and within bounds, no use
// of the caller's buffers after the call.
#include "scen.h"
using namespace vf;
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    bool ro = mon.arg == "readonly";
    for (int k = 0; k < scen::count; ++k) {
        const scen::Scenario &s = scen::all[k];
        mon.group(s.name, mon.n(60, 600), [&](Case &c) {
            uint64_t seed = c.rng.u64(); dvec ref;
            static const unsigned char fills[] = {0x5A, 0xFF, 0x00};
            for (int e = 0; e < 3; ++e) {
                scen::Env env; env.outFill = fills[e]; env.readOnly = ro; env.hostile = c.idx % 8 == 7; env.odd = ro && c.idx % 4 == 2;
                scen::Ctx x(seed, env); scen::run(s, x);
                if (!e) { ref = x.log; c.desc = fmt("%s seed=%llu", x.what.c_str(), (unsigned long long)seed); mon.count("inputs_watched", x.inputs); mon.count("outputs_watched", x.outputs); }
                else mon.sameVec(x.log, ref, "output-completely-written", fmt("%s, outputs filled with %02x", s.name, fills[e]).c_str());
                std::map<std::string, std::string> m; for (auto &i : x.issues) m[i.first] = i.second;
                for (const char *rule : {"input-modified", "write-outside-output", "write-outside-input"}) { bool ok = !m.count(rule); mon.check(ok, rule, "%s", ok ? "" : m[rule].c_str()); m.erase(rule); }
                for (auto &i : m) mon.check(false, i.first.c_str(), "%s", i.second.c_str());
            }
        });
    }
    return mon.finish();
}
