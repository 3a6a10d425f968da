// C28: Thread, Mutex, MutexLocker, Condition, AsynchronousTask under injected
// delays and spurious wakeups.  Every thread writes an event log (relaxed
// atomics only, so that the race detector sees no ordering but the library's
// own); the log is checked after each case.  A watchdog reports a case in
// which every thread sleeps and nothing happens any more.
#include "vf.h"
#include "thread/Thread.h"
#include "thread/AsynchronousTask.h"
#include <atomic>
#include <dirent.h>
#include <iostream>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
using namespace vf;
#define RLX std::memory_order_relaxed

// ------------------------------------------------------------- injection
static std::atomic<int> g_delay(0), g_spurious(0);       // per mille
static std::atomic<unsigned> g_threadSeed(1), g_injected(0), g_delays(0);
static std::atomic<long> g_clockShift(-1);                // microseconds wanted modulo 1e6, or -1
static Rng &trng() { static thread_local Rng t(mix64(g_threadSeed.fetch_add(1, RLX))); return t; }
static void delay() {
    int d = g_delay.load(RLX);
    if (!d || !trng().chance(d / 1000.0)) return;
    g_delays.fetch_add(1, RLX);
    double u = trng().uni();
    if (u < 0.5) sched_yield(); else if (u < 0.9) usleep(trng().range(0, 200)); else usleep(trng().range(200, 2000));
}
static std::atomic<int> g_catch(0);      // note the next deadline instead of waiting for it
static struct timespec g_deadline;
extern "C" {
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_gettimeofday(struct timeval *, void *);
// who holds each mutex, as seen from outside the library; an entry is only touched by a thread inside the real mutex (or one that is wrong)
static const size_t SLOTS = 1 << 16;
static std::atomic<uintptr_t> g_key[SLOTS];
static std::atomic<long> g_holder[SLOTS];
static std::atomic<long> g_misuse[4];      // unlock, wait, while not holding; relock by the holder; checks made
static std::atomic<long> *holder(pthread_mutex_t *m) {
    uintptr_t k = (uintptr_t)m; size_t i = mix64(k) % SLOTS;
    for (size_t n = 0; n < 64; ++n, i = (i + 1) % SLOTS) {
        uintptr_t e = g_key[i].load(RLX);
        if (!e && g_key[i].compare_exchange_strong(e, k, RLX)) return &g_holder[i];
        if (e == k) return &g_holder[i];
    }
    return 0;
}
static thread_local long t_id = 0; static std::atomic<long> g_ids(0);
static long me() { if (!t_id) t_id = g_ids.fetch_add(1, RLX) + 1; return t_id; }
static void took(pthread_mutex_t *m) { if (std::atomic<long> *h = holder(m)) h->store(me(), RLX); }
static void leaves(pthread_mutex_t *m, int what) {
    g_misuse[3].fetch_add(1, RLX);
    if (std::atomic<long> *h = holder(m)) { if (h->load(RLX) != me()) g_misuse[what].fetch_add(1, RLX); h->store(0, RLX); }
}
static bool spurious(pthread_mutex_t *m) {
    int s = g_spurious.load(RLX);
    if (!s || !trng().chance(s / 1000.0)) return false;
    g_injected.fetch_add(1, RLX);
    __real_pthread_mutex_unlock(m); delay(); sched_yield(); __real_pthread_mutex_lock(m);
    return true;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { delay(); leaves(m, 1); if (spurious(m)) { took(m); return 0; } int r = __real_pthread_cond_wait(c, m); took(m); delay(); return r; }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if (g_catch.load(RLX)) { leaves(m, 1); took(m); g_deadline = *t; g_catch.store(0, RLX); return ETIMEDOUT; }
    delay(); leaves(m, 1); if (spurious(m)) { took(m); return 0; } int r = __real_pthread_cond_timedwait(c, m, t); took(m); delay(); return r; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { delay(); int r = __real_pthread_cond_signal(c); delay(); return r; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    delay();
    if (std::atomic<long> *h = holder(m)) if (h->load(RLX) == me()) g_misuse[2].fetch_add(1, RLX);
    int r = __real_pthread_mutex_lock(m); if (r == 0) took(m); delay(); return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { int r = __real_pthread_mutex_trylock(m); if (r == 0) took(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { delay(); leaves(m, 0); int r = __real_pthread_mutex_unlock(m); delay(); return r; }
int __wrap_gettimeofday(struct timeval *tv, void *z) {
    int r = __real_gettimeofday(tv, z);
    long want = g_clockShift.load(RLX);
    if (want >= 0) { if (tv->tv_usec > want) ++tv->tv_sec; tv->tv_usec = want; }      // a later time at which the microseconds are as wanted
    return r;
}
}

// -------------------------------------------------------------- event log
enum Ev { ENTER, LEAVE, SENT, GOT, RUN, RAN, START, AWAITED, BEGIN, END, WAKE };
struct Event { int what, who; long a; };
static Event *g_log = new Event[1 << 20];
static std::atomic<unsigned> g_n(0);
static void ev(int what, int who, long a = 0) { unsigned i = g_n.fetch_add(1, RLX); if (i < (1u << 20)) { g_log[i].what = what; g_log[i].who = who; g_log[i].a = a; } }
static uint64_t logHash() { uint64_t h = 7; unsigned n = std::min(g_n.load(RLX), 1u << 20); for (unsigned i = 0; i < n; ++i) h = mix64(h * 31 + g_log[i].what * 64 + g_log[i].who); return h; }
static std::atomic<bool> g_active(false);
static std::atomic<unsigned> g_case(0);
static void startCase(int delays, int spurs) { g_n = 0; for (int i = 0; i < 3; ++i) g_misuse[i] = 0; g_case.fetch_add(1, RLX); g_delay = delays; g_spurious = spurs; g_active = true; }
static void endCase() {
    static const char *nm[3] = {"released", "waited on", "locked again"};
    for (int i = 0; i < 3; ++i) { long k = g_misuse[i].load(); mon.check(k == 0, "mutex-used-by-its-holder", "%ld times a mutex was %s by a thread %s", k, nm[i], i == 2 ? "holding it" : "not holding it"); }
    mon.count("mutex_releases", g_misuse[3].exchange(0)); g_delay = 0; g_spurious = 0; g_active = false; mon.count("events", g_n.load()); mon.sawHash(logHash()); }

static double wallUs() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e6 + t.tv_nsec / 1e3; }
static int tasks(bool *allAsleep, int self) {
    int n = 0; *allAsleep = true;
    DIR *d = opendir("/proc/self/task"); if (!d) { *allAsleep = false; return 0; }
    while (struct dirent *e = readdir(d)) {
        int tid = atoi(e->d_name); if (tid <= 0) continue;
        ++n; if (tid == self) continue;
        char p[64], b[512]; snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
        int f = open(p, O_RDONLY); if (f < 0) continue;
        ssize_t k = read(f, b, sizeof b - 1); close(f); if (k <= 0) continue; b[k] = 0;
        char *q = strrchr(b, ')'); if (q && q[2] != 'S') *allAsleep = false;
    }
    closedir(d); return n;
}
static void *watchdog(void *) {
    int self = (int)syscall(SYS_gettid), still = 0; unsigned last = 0, lastCase = 0;
    while (1) {
        usleep(200000);
        bool asleep; unsigned n = g_n.load(RLX), k = g_case.load(RLX);
        tasks(&asleep, self);
        if (!g_active.load(RLX) || n != last || k != lastCase || !asleep) { still = 0; last = n; lastCase = k; continue; }
        if (++still < 50) continue;
        mon.check(false, "no-deadlock", "every thread has slept for 10 seconds after %u events and nothing can wake them", n);
        _exit(mon.finish());
    }
    return 0;
}
static int threadCount() { bool b; return tasks(&b, 0); }

// raw threads for the workloads
template <class F> struct Par {
    std::vector<pthread_t> t; std::vector<std::pair<F *, int> *> a; F f;
    static void *go(void *p) { std::pair<F *, int> *q = (std::pair<F *, int> *)p; (*q->first)(q->second); return 0; }
    Par(int n, F f_) : f(f_) { t.resize(n); for (int i = 0; i < n; ++i) { a.push_back(new std::pair<F *, int>(&f, i)); pthread_create(&t[i], 0, go, a[i]); } }
    void join() { for (auto x : t) pthread_join(x, 0); t.clear(); for (auto p : a) delete p; a.clear(); }
    ~Par() { join(); }
};
template <class F> static void par(int n, F f) { Par<F> p(n, f); p.join(); }

struct Worker : Thread {
    int k, work; std::atomic<int> runs, done; long result; pthread_t self;
    Worker(int k_, int w) : k(k_), work(w), runs(0), done(0), result(0) {}
    void run() { ev(RUN, k); runs.fetch_add(1, RLX); self = pthread_self(); if (work) usleep(work); result = k * 3 + 1; ev(RAN, k); done.fetch_add(1, std::memory_order_release); }
};
struct Task : AsynchronousTask {
    int k, slow; long in, out; int performed; std::atomic<int> inside;
    Task(int k_, int s) : k(k_), slow(s), in(0), out(0), performed(0), inside(0) {}
    ~Task() {}
    void request(long v) { in = v; ev(START, k, v); startTask(); }
    long answer() { awaitTask(); ev(AWAITED, k, out); return out; }
    void performTask() { ev(BEGIN, k, in); int n = inside.fetch_add(1, RLX); if (slow) usleep(trng().range(0, slow)); out = in * 2 + 1 + (n ? 1000000 : 0); ++performed; inside.fetch_sub(1, RLX); ev(END, k, in); }
};

int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    { pthread_t w; sigset_t s, o; sigfillset(&s); pthread_sigmask(SIG_BLOCK, &s, &o); pthread_create(&w, 0, watchdog, 0); pthread_detach(w); pthread_sigmask(SIG_SETMASK, &o, 0); }
    g_threadSeed = (unsigned)(mon.seed * 7919 + mon.part * 104729 + 1);
    mon.group("mutex", mon.n(64, 640), [](Case &c) {
        Rng &r = c.rng; int T = r.range(2, 8), K = r.range(20, 150), M = r.range(1, 3), d = r.pick({0, 5, 50, 200}), pause = r.pick({0, 0, 20});
        c.say("threads=%d rounds=%d mutexes=%d delays=%d pause=%d", T, K, M, d, pause);
        std::vector<Mutex *> m; std::vector<long> count(M, 0), wanted(M, 0); std::vector<std::atomic<int> *> in; for (int i = 0; i < M; ++i) { m.push_back(new Mutex); in.push_back(new std::atomic<int>(0)); }
        std::atomic<int> overlap(0), failedTry(0), okTry(0); std::vector<std::atomic<long> *> took; for (int i = 0; i < M; ++i) took.push_back(new std::atomic<long>(0));
        startCase(d, 0);
        par(T, [&](int me) {
            for (int q = 0; q < K; ++q) {
                int i = trng().range(0, M - 1), how = trng().range(0, 2);
                auto body = [&] { if (in[i]->fetch_add(1, RLX) != 0) overlap.fetch_add(1, RLX); ev(ENTER, me, i); ++count[i]; took[i]->fetch_add(1, RLX); if (pause && trng().chance(0.1)) usleep(pause); ev(LEAVE, me, i); in[i]->fetch_sub(1, RLX); };
                if (how == 0) { m[i]->lock(); body(); m[i]->unlock(); }
                else if (how == 1) { MutexLocker l(m[i]); body(); }
                else if (m[i]->trylock()) { okTry.fetch_add(1, RLX); body(); m[i]->unlock(); } else failedTry.fetch_add(1, RLX);
                if (trng().chance(0.02)) MutexLocker none(0);
            }
        });
        endCase();
        std::vector<int> holder(M, -1);
        unsigned n = g_n.load();
        for (unsigned i = 0; i < n; ++i) {
            Event &e = g_log[i];
            if (e.what == ENTER) { if (!mon.check(holder[e.a] < 0, "mutual-exclusion", "thread %d entered while thread %d was inside", e.who, holder[e.a])) return; holder[e.a] = e.who; }
            else { if (!mon.check(holder[e.a] == e.who, "mutual-exclusion", "thread %d left, thread %d inside", e.who, holder[e.a])) return; holder[e.a] = -1; }
        }
        mon.check(overlap == 0, "mutual-exclusion", "%d overlaps", overlap.load());
        for (int i = 0; i < M; ++i) { mon.check(count[i] == took[i]->load(), "no-lost-update", "mutex %d: counter %ld after %ld increments", i, count[i], took[i]->load()); mon.check(m[i]->trylock(), "free-after-use", "mutex %d", i); m[i]->unlock(); delete m[i]; delete in[i]; delete took[i]; }
        mon.count("trylock_refused", failedTry); mon.count("trylock_granted", okTry);
    });
    mon.group("ownership", mon.n(24, 100), [](Case &c) {
        Rng &r = c.rng; int kind = c.idx % 4; c.say("kind=%d delay=%d", kind, r.range(0, 1)); (void)r;
        Mutex m; startCase(20, 0);
        bool other = true;
        auto probe = [&] { bool got = false; par(1, [&](int) { got = m.trylock(); if (got) m.unlock(); }); return got; };
        if (kind == 0) { m.lock(); other = probe(); mon.check(!other, "held-mutex-refuses-trylock", "granted to a second thread"); m.unlock(); mon.check(probe(), "free-after-use", "refused after unlock"); }
        if (kind == 1) { mon.check(m.trylock(), "free-mutex-grants-trylock", "refused"); mon.check(!probe(), "held-mutex-refuses-trylock", "granted to a second thread"); m.unlock(); mon.check(probe(), "free-after-use", "refused after unlock"); }
        if (kind == 2) { m.lock(); par(1, [&](int) { m.unlock(); }); mon.check(!probe(), "only-holder-unlocks", "another thread released the mutex"); m.unlock(); mon.check(probe(), "free-after-use", "refused"); }
        if (kind == 3) { m.unlock(); { MutexLocker l(&m); mon.check(!probe(), "held-mutex-refuses-trylock", "granted inside a MutexLocker"); } mon.check(probe(), "free-after-use", "refused after MutexLocker"); }
        endCase();
    });
    // tokens passed through a condition by the documented protocol
    mon.group("queue", mon.n(64, 640), [](Case &c) {
        Rng &r = c.rng; int P = r.range(1, 4), C = r.range(1, 4), K = r.range(10, 120), d = r.pick({0, 20, 100, 300}), s = r.pick({0, 100, 500}), timed = r.chance(0.4), slow = r.pick({0, 0, 100});
        c.say("producers=%d consumers=%d items=%d delays=%d spurious=%d%s slow=%d", P, C, K, d, s, timed ? " timed" : "", slow);
        Condition q("queue"); std::vector<long> items; int left = P, closed = 0, empties = 0; std::atomic<int> in(0), overlap(0), woken(0);
        auto enter = [&] { if (in.fetch_add(1, RLX) != 0) overlap.fetch_add(1, RLX); };
        auto leave = [&] { in.fetch_sub(1, RLX); };
        startCase(d, s);
        par(P + C, [&](int me) {
            if (me < P) {
                for (int i = 0; i < K; ++i) { q.lock(); enter(); items.push_back(me * 1000 + i); ev(SENT, me, me * 1000 + i); leave(); q.signal(); q.unlock(); if (slow) usleep(trng().range(0, slow)); }
                q.lock(); enter(); if (--left == 0) closed = 1; leave(); for (int i = 0; i < C; ++i) q.signal(); q.unlock();
            } else while (1) {
                q.lock(); enter();
                while (items.empty() && !closed) { ++empties; leave(); q.wait(timed ? trng().range(100, 3000) : 0); enter(); woken.fetch_add(1, RLX); }
                if (items.empty()) { leave(); q.signal(); q.unlock(); break; }
                long v = items.front(); items.erase(items.begin()); ev(GOT, me, v); leave(); q.unlock();
            }
        });
        endCase();
        mon.check(overlap == 0, "lock-held-after-wait", "%d overlaps", overlap.load());
        std::map<long, int> sent, got; std::map<int, long> lastSent; std::vector<long> so, go;
        unsigned n = g_n.load();
        for (unsigned i = 0; i < n; ++i) { if (g_log[i].what == SENT) { sent[g_log[i].a]++; so.push_back(g_log[i].a); } else { got[g_log[i].a]++; go.push_back(g_log[i].a); mon.check(sent[g_log[i].a] == 1, "received-after-sent", "item %ld", g_log[i].a); } }
        mon.check(so == go, "each-item-once-in-order", "%zu sent, %zu received", so.size(), go.size());
        mon.check(items.empty() && (int)so.size() == P * K, "each-item-once-in-order", "%zu sent of %d, %zu left", so.size(), P * K, items.size());
        mon.count("waits", empties); mon.count("wakeups", woken.load());
    });
    // each signal wakes a waiter
    mon.group("wake", mon.n(40, 400), [](Case &c) {
        Rng &r = c.rng; int W = r.range(1, 6), d = r.pick({0, 50, 200}); bool lockSignal = true;
        c.say("waiters=%d delays=%d", W, d);
        Condition q("wake"); int waiting = 0, tokens = 0; std::atomic<int> out(0);
        startCase(d, 0);
        { auto f = [&](int me) { q.lock(); ++waiting; while (!tokens) q.wait(); --tokens; ev(WAKE, me); q.unlock(); out.fetch_add(1, RLX); };
          Par<decltype(f)> p(W, f);
          while (1) { q.lock(); bool all = waiting == W; q.unlock(); if (all) break; usleep(100); }
          for (int i = 0; i < W; ++i) { q.lock(); ++tokens; q.signal(); q.unlock(); if (r.chance(0.5)) usleep(r.range(0, 300)); }
          p.join(); }
        endCase();
        mon.check(out == W && tokens == 0, "signal-wakes-one", "%d of %d woken, %d tokens left", out.load(), W, tokens);
        { Condition held("destroyed while held"); held.lock(); }
        (void)lockSignal;
    });
    mon.group("timeout", mon.n(40, 200), [](Case &c) {
        Rng &r = c.rng; int kind = c.idx % 5, us = kind == 3 ? r.range(1000000, 1300000) : r.range(200, 60000);
        c.say("kind=%d us=%d", kind, us);
        Condition q("timeout"); startCase(kind == 0 ? 50 : 0, 0);
        if (kind == 2) { // signalled long before the timeout
            int flag = 0; double el = 0; auto f = [&](int) { q.lock(); double t0 = wallUs(); while (!flag && wallUs() - t0 < 40e6) q.wait(60000000); el = wallUs() - t0; ev(WAKE, 0); q.unlock(); };
            { Par<decltype(f)> p(1, f); usleep(r.range(0, 3000)); q.lock(); flag = 1; q.signal(); q.unlock(); p.join(); }
            endCase(); mon.check(el < 30e6, "signal-ends-timed-wait", "%.0f us of 60 s", el); return;
        }
        // microseconds at which the absolute time reaches exactly a whole second, or is one off
        if (kind == 1 || kind == 4) g_clockShift = ((1000000 - us % 1000000) + (kind == 4 ? r.range(-1, 1) : 0)) % 1000000;
        q.lock(); double t0 = wallUs(); q.wait(us); double el = wallUs() - t0; ev(WAKE, 0);
        g_clockShift = -1;
        bool held = true; par(1, [&](int) { g_delay = 0; });
        q.unlock(); endCase();
        mon.check(held && el >= us * 0.98 - 500, "waits-for-its-timeout", "returned after %.0f us of %d", el, us);
        mon.maxim("timeout_overshoot_us", el - us);
    });
    // the deadline asked of the system, for timeouts up to the longest that can be given, without waiting for them
    mon.group("deadline", mon.n(300, 3000), [](Case &c) {
        Rng &r = c.rng;
        static int caught = -1;
        Condition q("deadline"); startCase(0, 0);
        if (caught < 0) { g_catch = 1; q.lock(); q.wait(1000); q.unlock(); caught = g_catch.exchange(0) == 0; }
        if (!caught) { endCase(); mon.count("deadline_not_visible"); return; }
        int us = r.pick({1, 999999, 1000000, 1000001, 2000000, 2147483647, r.range(1, 1000), r.range(1, 1000000), r.range(1, 4000000), r.range(1, 2147483647)});
        long at = r.pick({-1L, 0L, 1L, 999999L, (long)r.range(0, 999999), (1000000L - us % 1000000) % 1000000});
        c.say("us=%d at=%ld", us, at);
        struct timespec t0, t1, m0, m1;
        g_clockShift = at; g_catch = 1;
        q.lock(); clock_gettime(CLOCK_REALTIME, &t0); clock_gettime(CLOCK_MONOTONIC, &m0); q.wait(us); clock_gettime(CLOCK_REALTIME, &t1); clock_gettime(CLOCK_MONOTONIC, &m1); q.unlock();
        g_clockShift = -1; bool seen = g_catch.exchange(0) == 0;
        endCase();
        if (!seen) { mon.check(us < 1000, "timed-wait-waits", "%d us: did not wait", us); return; }
        auto S = [](const struct timespec &t) { return t.tv_sec + t.tv_nsec * 1e-9; };
        if (!mon.check(g_deadline.tv_nsec >= 0 && g_deadline.tv_nsec < 1000000000, "deadline-valid", "%d us at .%06ld: %ld ns", us, at, (long)g_deadline.tv_nsec)) return;
        double a = S(g_deadline) - S(t0), b = S(g_deadline) - S(m0), el = S(t1) - S(t0), w = std::fabs(a) < std::fabs(b) ? a : b;
        // the clock given to the library may have been moved on by up to a second
        mon.check(w >= us * 1e-6 - 1e-5 && w <= us * 1e-6 + el + 1 + 0.01, "deadline-after-timeout", "%d us at .%06ld: deadline %.6f s ahead", us, at, w);
        mon.saw(fmt("dl%d", us)); mon.count("deadlines");
    });
    mon.group("threads", mon.n(48, 480), [](Case &c) {
        Rng &r = c.rng; int N = r.range(1, 8), twice = r.chance(0.3), work = r.pick({0, 0, 500, 3000}), joinByDtor = r.chance(0.3), d = r.pick({0, 100});
        c.say("threads=%d work=%d%s%s delays=%d", N, work, twice ? " restarted" : "", joinByDtor ? " joined by destructor" : "", d);
        mon.check(Thread::threadingAvailable(), "threading-available", "no");
        int t0 = threadCount();
        startCase(d, 0);
        std::vector<Worker *> w; for (int i = 0; i < N; ++i) w.push_back(new Worker(i, work));
        for (auto p : w) p->start();
        if (joinByDtor) { for (auto p : w) while (!p->done.load()) usleep(50); }
        else for (auto p : w) { p->wait(); mon.check(p->done == 1 && p->runs == 1 && p->result == p->k * 3 + 1, "wait-returns-after-run", "thread %d: %d runs, %d done", p->k, p->runs.load(), p->done.load()); mon.check(pthread_equal(p->self, p->id()), "thread-id", "thread %d", p->k); p->wait(); }
        if (twice && !joinByDtor) for (auto p : w) { p->start(); p->wait(); mon.check(p->done == 2 && p->runs == 2, "wait-returns-after-run", "thread %d restarted: %d runs", p->k, p->runs.load()); }
        int want = twice && !joinByDtor ? 2 : 1;
        for (auto p : w) { int k = p->k; mon.check(p->runs == want, "runs-exactly-once-per-start", "thread %d: %d runs", k, p->runs.load()); delete p; }
        endCase();
        int t1 = threadCount(); for (int i = 0; i < 200 && t1 > t0; ++i) { usleep(1000); t1 = threadCount(); }
        mon.check(t1 <= t0, "no-thread-left", "%d threads before, %d after", t0, t1);
    });
    mon.group("tasks", mon.n(64, 640), [](Case &c) {
        Rng &r = c.rng; int N = r.range(1, 6), K = r.pick({0, 1, r.range(2, 40)}), d = r.pick({0, 30, 200}), s = r.pick({0, 200, 600}), slow = r.pick({0, 0, 300}), settle = r.chance(0.5);
        c.say("tasks=%d rounds=%d delays=%d spurious=%d slow=%d", N, K, d, s, slow);
        int t0 = threadCount(); unsigned sp0 = g_injected.load();
        startCase(d, s);
        std::vector<Task *> t; for (int i = 0; i < N; ++i) { t.push_back(new Task(i, slow)); }
        if (settle) usleep(500);
        bool ok = true; std::vector<int> wanted(N, 0);
        for (int q = 0; q < K && ok; ++q) {
            std::vector<int> use; for (int i = 0; i < N; ++i) if (r.chance(0.8)) use.push_back(i);
            std::vector<long> v(N); for (int i : use) { v[i] = r.range(1, 100000); ++wanted[i]; t[i]->request(v[i]); }
            if (r.chance(0.3)) usleep(r.range(0, 400));
            if (r.chance(0.5)) std::reverse(use.begin(), use.end());
            for (int i : use) { long got = t[i]->answer(); ok = ok && mon.check(got == v[i] * 2 + 1 && t[i]->performed == wanted[i], "await-returns-after-the-task", "task %d round %d: result %ld expected %ld, performed %d of %d", i, q, got, v[i] * 2 + 1, t[i]->performed, wanted[i]); }
            if (r.chance(0.2)) usleep(r.range(0, 300));
        }
        for (auto p : t) delete p;
        endCase();
        std::vector<long> pending(N, -1), running(N, -1); std::vector<int> begun(N, 0); unsigned n = g_n.load();
        for (unsigned i = 0; i < n && ok; ++i) {
            Event &e = g_log[i];
            if (e.what == START) pending[e.who] = e.a;
            if (e.what == BEGIN) { ok = mon.check(pending[e.who] == e.a && running[e.who] < 0, "once-per-start", "task %d began %ld, pending %ld", e.who, e.a, pending[e.who]); running[e.who] = e.a; pending[e.who] = -1; ++begun[e.who]; }
            if (e.what == END) running[e.who] = -1;
            if (e.what == AWAITED) ok = mon.check(pending[e.who] < 0 && running[e.who] < 0, "await-returns-after-the-task", "task %d: awaited before its end", e.who);
        }
        for (int i = 0; i < N && ok; ++i) mon.check(begun[i] == wanted[i], "once-per-start", "task %d performed %d times, started %d times", i, begun[i], wanted[i]);
        int t1 = threadCount(); for (int i = 0; i < 200 && t1 > t0; ++i) { usleep(1000); t1 = threadCount(); }
        mon.check(t1 <= t0, "no-thread-left", "%d threads before, %d after", t0, t1);
        mon.count("spurious_wakeups_injected", g_injected.load() - sp0);
    });
    mon.count("delays_injected", g_delays.load());
    g_active = false;
    return mon.finish();
}
