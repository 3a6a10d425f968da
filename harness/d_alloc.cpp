// C29: fixed-size block allocator against a shadow heap.
#include "thread/BlockAllocator.h"   // first: it has to stand on its own
#include "vf.h"
using namespace vf;
typedef unsigned char uc;

struct Shadow {
    struct Blk { uc *p; uint64_t tag; };
    BlockAllocator *a; int sz; std::vector<Blk> live; std::map<uc *, size_t> at; uint64_t next; uint64_t ops, reused; std::set<uc *> freed;
    Shadow(BlockAllocator *a_, int s, uint64_t t) : a(a_), sz(s), next(t), ops(0), reused(0) {}
    static uc byte(uint64_t tag, int i) { return (uc)mix64(tag + i * 7919); }
    void fill(const Blk &b) { if (sz > 64) { memset(b.p, (int)(b.tag & 255), sz); for (int i = 0; i < 16; ++i) { b.p[i] = byte(b.tag, i); b.p[sz - 1 - i] = byte(b.tag, sz - 1 - i); } } else for (int i = 0; i < sz; ++i) b.p[i] = byte(b.tag, i); }
    bool intact(const Blk &b) { if (sz > 64) { for (int i = 0; i < 16; ++i) if (b.p[i] != byte(b.tag, i) || b.p[sz - 1 - i] != byte(b.tag, sz - 1 - i)) return false; for (int i = 16; i < sz - 16; ++i) if (b.p[i] != (uc)(b.tag & 255)) return false; return true; }
        for (int i = 0; i < sz; ++i) if (b.p[i] != byte(b.tag, i)) return false; return true; }
    bool alloc() {
        ++ops; uc *p = (uc *)a->allocate();
        if (!mon.check(p != 0, "returns-a-block", "null")) return false;
        if (!mon.check((uintptr_t)p % sizeof(size_t) == 0, "aligned", "%p", (void *)p)) return false;
        auto i = at.lower_bound(p);
        if (i != at.end() && !mon.check(p + sz <= i->first, "disjoint", "block %p of %d bytes overlaps live block %p", (void *)p, sz, (void *)i->first)) return false;
        if (i != at.begin()) { --i; if (!mon.check(i->first + sz <= p, "disjoint", "block %p overlaps live block %p of %d bytes", (void *)p, (void *)i->first, sz)) return false; }
        if (freed.erase(p)) ++reused;
        Blk b = {p, next++}; at[p] = live.size(); live.push_back(b); fill(b);
        return true;
    }
    bool release(size_t k) {
        ++ops; Blk b = live[k];
        if (!mon.check(intact(b), "contents-kept", "block %p changed while allocated (%zu live)", (void *)b.p, live.size())) return false;
        at.erase(b.p); live[k] = live.back(); live.pop_back(); if (k < live.size()) at[live[k].p] = k;
        freed.insert(b.p);
        a->deallocate(b.p);
        return true;
    }
    bool verify() { for (auto &b : live) if (!mon.check(intact(b), "contents-kept", "block %p changed while allocated (%zu live)", (void *)b.p, live.size())) return false; return true; }
};
static size_t victim(Rng &r, size_t n, int order) { return order == 0 ? n - 1 : order == 1 ? 0 : r.u64() % n; }

int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("histories", mon.n(240, 2400), [](Case &c) {
        Rng &r = c.rng;
        int sz = r.pick({1, 2, 7, 8, 9, 16, 24, r.range(1, 300), r.chance(0.5) ? r.range(300, 9000) : 12}), target = r.pick({3, 100, 511, 512, 513, 1024, 1025, r.range(1, 5000)}), order = r.range(0, 2), rounds = r.range(1, 6);
        int use = r.range(1, 3);
        c.say("size=%d live=%d order=%d rounds=%d allocators=%d", sz, target, order, rounds, use);
        long h0, h1; uint64_t ops = 0, reused = 0; size_t top = 0;
        for (const char *rule : {"returns-a-block", "aligned", "disjoint", "contents-kept"}) mon.passed(rule, 0);
        { BlockAllocator warm(sz); warm.deallocate(0); }
        h0 = heapBytes();
        {
            std::vector<BlockAllocator *> as; std::vector<Shadow> sh;
            for (int i = 0; i < use; ++i) { as.push_back(new BlockAllocator(i ? r.range(1, 64) : sz)); sh.push_back(Shadow(as[i], sz, r.u64())); }
            for (int i = 1; i < use; ++i) { delete as[i]; int s = r.range(1, 64); as[i] = new BlockAllocator(s); sh[i].a = as[i]; sh[i].sz = s; }
            bool ok = true;
            for (int q = 0; q < rounds && ok; ++q) {
                while (ok && (int)sh[0].live.size() < target) { ok = sh[0].alloc(); if (use > 1 && r.chance(0.2)) ok = ok && sh[r.range(1, use - 1)].alloc(); if (ok && !sh[0].live.empty() && r.chance(0.1)) ok = sh[0].release(victim(r, sh[0].live.size(), order)); }
                for (auto &s : sh) ok = ok && s.verify();
                size_t keep = r.chance(0.4) ? 0 : r.range(0, target);
                while (ok && sh[0].live.size() > keep) { ok = sh[0].release(victim(r, sh[0].live.size(), order)); if (r.chance(0.02)) as[0]->deallocate(0); if (r.chance(0.1)) ok = ok && sh[0].alloc(); if (use > 1 && r.chance(0.1)) { Shadow &o = sh[r.range(1, use - 1)]; if (!o.live.empty()) ok = ok && o.release(victim(r, o.live.size(), 2)); } }
            }
            for (auto &s : sh) { ops += s.ops; reused += s.reused; top = std::max(top, s.live.size()); }
            if (r.chance(0.5)) for (auto &s : sh) while (ok && !s.live.empty()) ok = s.release(s.live.size() - 1);
            for (auto a : as) delete a;
            if (!ok) return;
        }
        h1 = heapBytes();
        mon.count("operations", ops); mon.count("blocks_reused", reused); mon.maxim("live", top); mon.saw(fmt("%d %d", sz, (int)(ops / 64)));
        mon.check(h0 == h1, "all-released", "%ld bytes left after the allocator was destroyed", h1 - h0);
    });
    // steady use does not grow the heap: freed blocks are reused
    mon.group("steady", mon.n(60, 400), [](Case &c) {
        Rng &r = c.rng; int sz = r.range(1, 100), n = r.range(1, 3000), order = r.range(0, 2), rounds = 12;
        c.say("size=%d live=%d order=%d", sz, n, order);
        BlockAllocator a(sz); Shadow s(&a, sz, r.u64());
        std::vector<long> held; s.live.reserve(n + 1);
        for (int i = 0; i < n; ++i) if (!s.alloc()) return;
        std::set<uc *> first; for (auto &b : s.live) first.insert(b.p);
        size_t top = first.size();
        for (int q = 0; q < rounds; ++q) {
            int k = r.range(1, n);
            for (int i = 0; i < k; ++i) if (!s.release(victim(r, s.live.size(), order))) return;
            for (int i = 0; i < k; ++i) if (!s.alloc()) return;
            s.freed.clear();
            std::vector<std::pair<uc *, size_t> > nodes(s.at.begin(), s.at.end());
            held.push_back(heapBytes() - (long)(nodes.capacity() * sizeof nodes[0]));
        }
        if (!s.verify()) return;
        // at most one chunk (512 blocks) of slack
        long lim = held[0] + 512L * ((sz + 7) / 8 + 1) * 8 + 4096;
        for (size_t i = 0; i < held.size(); ++i) if (!mon.check(held[i] <= lim, "freed-blocks-reused", "round %zu: heap grew from %ld to %ld bytes with the same number of live blocks", i, held[0], held[i])) return;
    });
    // more chunks than were ever reserved for
    mon.group("many-chunks", mon.n(8, 16), [](Case &c) {
        Rng &r = c.rng; int sz = r.pick({1, 8, 16}), n = r.range(525000, 560000);
        if (c.idx % 2) n = 1024 * 512 + r.range(-1, 3);
        c.say("size=%d live=%d", sz, n);
        BlockAllocator a(sz);
        std::vector<uint64_t *> p(n);
        for (int i = 0; i < n; ++i) { p[i] = (uint64_t *)a.allocate(); *(uc *)p[i] = (uc)(i * 31); }
        bool ok = true;
        for (int i = 0; i < n && ok; ++i) ok = mon.check(*(uc *)p[i] == (uc)(i * 31), "contents-kept", "block %d of %d", i, n);
        std::vector<uint64_t *> q(p); std::sort(q.begin(), q.end());
        for (int i = 1; i < n && ok; ++i) ok = mon.check((uc *)q[i] - (uc *)q[i - 1] >= sz, "disjoint", "blocks %p and %p", (void *)q[i - 1], (void *)q[i]);
        for (int i = 0; i < n; i += 2) a.deallocate(p[i]);
        for (int i = 0; i < n; i += 2) { p[i] = (uint64_t *)a.allocate(); *(uc *)p[i] = (uc)(i * 17); }
        for (int i = 0; i < n && ok; ++i) ok = mon.check(*(uc *)p[i] == (uc)(i % 2 ? i * 31 : i * 17), "contents-kept", "block %d of %d after reuse", i, n);
        for (int i = 0; i < n; ++i) a.deallocate(p[i]);
        mon.count("operations", 3 * (uint64_t)n);
    });
    return mon.finish();
}
