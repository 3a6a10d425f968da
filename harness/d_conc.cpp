// C02: independent objects in several threads at once: no race, same results.
#include "scen.h"
#include <atomic>
#include <pthread.h>
using namespace vf;
struct Job { const scen::Scenario *s; uint64_t seed; dvec log; };
struct Th { std::vector<Job> jobs; std::atomic<int> *ready; int want; uint64_t delaySeed; };
static void *go(void *p) {
    Th *t = (Th *)p; Rng dr(t->delaySeed);
    t->ready->fetch_add(1, std::memory_order_relaxed);
    while (t->ready->load(std::memory_order_relaxed) < t->want) {}
    for (auto &j : t->jobs) {
        scen::Env e; e.between = [&] { double u = dr.uni(); if (u < 0.05) sched_yield(); else if (u < 0.08) usleep(dr.range(1, 60)); };
        scen::Ctx c(j.seed, e); scen::run(*j.s, c); j.log = c.log;
    }
    return 0;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    auto together = [&](Case &c, std::vector<std::vector<Job> > plan) {
        int T = plan.size(); std::atomic<int> ready(0); std::vector<Th *> th; std::vector<pthread_t> id(T);
        for (int i = 0; i < T; ++i) { Th *t = new Th; t->jobs = plan[i]; t->ready = &ready; t->want = T; t->delaySeed = c.rng.u64(); th.push_back(t); }
        for (int i = 0; i < T; ++i) pthread_create(&id[i], 0, go, th[i]);
        for (int i = 0; i < T; ++i) pthread_join(id[i], 0);
        for (auto t : th) { for (auto &j : t->jobs) { scen::Env e; scen::Ctx x(j.seed, e); scen::run(*j.s, x); mon.sameVec(j.log, x.log, "same-as-alone", j.s->name); mon.count("concurrent_runs"); uint64_t h = 1; for (double v : x.log) h = mix64(h ^ hashBytes(&v, sizeof v)); mon.sawHash(h); } delete t; }
    };
    // the same component in every thread
    for (int k = 0; k < scen::count; ++k) {
        const scen::Scenario &s = scen::all[k];
        mon.group(s.name, mon.n(16, 100), [&](Case &c) {
            int T = c.rng.range(2, 4), J = c.rng.range(1, 3); bool alike = c.rng.chance(0.3); uint64_t seed = c.rng.u64(); c.say("threads=%d runs=%d%s seed=%llu", T, J, alike ? " alike" : "", (unsigned long long)seed);
            std::vector<std::vector<Job> > plan(T); for (int t = 0; t < T; ++t) for (int j = 0; j < J; ++j) plan[t].push_back(Job{&s, alike ? seed + j : seed + 1000 * t + j, dvec()});
            together(c, plan);
        });
    }
    mon.group("mixed", mon.n(200, 2000), [&](Case &c) {
        int T = c.rng.range(2, 6), J = c.rng.range(1, 5); std::vector<std::vector<Job> > plan(T);
        for (int t = 0; t < T; ++t) for (int j = 0; j < J; ++j) { const scen::Scenario &s = scen::all[c.rng.range(0, scen::count - 1)]; plan[t].push_back(Job{&s, c.rng.u64(), dvec()}); c.desc += std::string(j ? " " : " | ") + s.name; }
        together(c, plan);
    });
    return mon.finish();
}
