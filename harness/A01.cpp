// vx: * jobs=4 time=800 time_t=840 symmem=0
// bounds: all histories of 4 allocations and frees (thorough 6) with arbitrary sizes up to the capacity plus one, arbitrary capacities up to 24 units, alignments 1, 2 and 3, over 3 size classes; separately all histories of 3 operations over every 64-bit capacity, size and alignment; freeing everything in every order afterwards; every pair of concurrent callers is in A01_threads
// outside: longer histories; freeing a range twice or a range of another allocator
#include "model.h"
#include <rpp/range_allocator.h>
using namespace rpp;
template<u64 Buckets, u64 Bias>
struct World {
    using RA = Range_Allocator<Mdefault, Buckets, Bias>;
    using Range = typename RA::Range;
    static constexpr u64 Max = 6;
    u64 cap;
    RA ra;
    Range live[Max];
    u64 from[Max], to[Max]; // the span each live range occupies
    u64 n = 0, allocs = 0, frees = 0, alloc_size = 0, free_size = 0, used = 0, high = 0;
    explicit World(u64 c) : cap(c), ra(c) {
    }
    // the first address of the free gap that starts at s, and its end
    u64 gap_end(u64 s) {
        u64 e = cap;
        for(u64 i = 0; i < n; i++) e = (from[i] >= s) & (from[i] < e) ? from[i] : e;
        return e;
    }
    bool is_free(u64 s) {
        bool f = s < cap;
        for(u64 i = 0; i < n; i++) f = f & !((from[i] <= s) & (s < to[i]));
        return f;
    }
    bool fits(u64 size, u64 al) {
        bool r = false;
        for(u64 g = 0; g <= n; g++) {
            u64 s = g == n ? 0 : to[g];
            u64 e = gap_end(s);
            u64 pad = (al - s % al) % al;
            u64 room = e - s;
            r = r | (is_free(s) & (room >= pad) & (room - pad >= size));
        }
        return r;
    }
    void allocate(u64 size, u64 al) {
        bool can = fits(size, al);
        auto r = ra.allocate(size, al);
        CHECKM(r.ok() == can, "a request is refused exactly when no free range can hold it");
        if(!r.ok()) {
            vx_reach("refused");
            return;
        }
        Range b = *r;
        u64 o = b->offset, len = b->length(), p = b->padding();
        bool apart = true;
        for(u64 i = 0; i < n; i++) apart = apart & ((o + len <= from[i]) | (to[i] <= o - p));
        CHECKM((o % al == 0) & (len >= size), "the range is aligned and as large as requested");
        CHECKM((p <= o) & (o <= cap) & (len <= cap - o) & apart, "the range lies inside and apart from live ranges");
        live[n] = b, from[n] = o - p, to[n] = o + len, n++;
        allocs++, alloc_size += p + len, used += p + len;
        high = used > high ? used : high;
        vx_reach("allocated");
    }
    void release(u64 i) {
        u64 s = to[i] - from[i];
        ra.free(live[i]);
        frees++, free_size += s, used -= s;
        for(n--; i < n; i++) live[i] = live[i + 1], from[i] = from[i + 1], to[i] = to[i + 1];
        bool still = true;
        for(u64 k = 0; k < n; k++)
            still = still & (live[k]->offset + live[k]->length() == to[k]) & (live[k]->offset - live[k]->padding() == from[k]);
        CHECKM(still, "other ranges stay where they are");
    }
    void stats() {
        auto s = ra.statistics();
        u64 gaps = 0, buckets = 0;
        for(u64 g = 0; g <= n; g++) gaps += is_free(g == n ? 0 : to[g]);
        if(n) { // a gap at zero is counted once: the start of a range may be zero
            bool dup = false;
            for(u64 i = 0; i < n; i++) dup = dup | (to[i] == 0);
            gaps -= dup;
        }
        for(u64 i = 0; i < Buckets; i++) buckets += s.bucket_sizes[i];
        CHECKM((s.allocated_blocks == n) & (s.total_allocs == allocs) & (s.total_frees == frees), "counts");
        CHECKM((s.total_capacity == cap) & (s.allocated_size == used) & (s.free_size == cap - used) &
                   (s.total_alloc_size == alloc_size) & (s.total_free_size == free_size) & (s.high_water == high),
               "sizes in use and free");
        CHECKM((s.free_blocks == gaps) & (buckets == gaps), "free ranges are coalesced and counted");
    }
    void finish() {
        while(n) release(n == 1 ? 0 : (u64)vx_choose("free", (int)n));
        stats();
        ra.statistics().assert_clear();
        auto r = ra.allocate(cap, 1); // the whole capacity is available again
        CHECKM(r.ok() && (*r)->offset == 0 && (*r)->length() == cap, "the whole capacity is available again");
        ra.free(*r);
    }
};
static void history(u64 steps, int bits) {
    Leak leak;
    {
        static const u64 caps[] = {16, 11, 24};
        u64 cap = bits < 4 ? 8 : caps[vx_choose("capacity", QT(2, 3))];
        u64 pattern = bits < 4 ? 0 : (u64)vx_choose("alignments", 3);
        World<3, 1> w(cap);
        w.stats();
        for(u64 k = 0; k < steps; k++) {
            if(w.n && vx_choose("op", 2)) {
                w.release(w.n == 1 ? 0 : (u64)vx_choose("which", (int)w.n));
                vx_reach("freed");
            } else {
                u64 size = vx_bits("size", bits) + 1;
                vx_assume((size > 0) & (size <= cap + 1));
                w.allocate(size, pattern == 0 ? 1 : (k + pattern) % 2 ? 1 : 1 + pattern);
            }
            w.stats();
        }
        w.finish();
    }
    leak.done();
}
HARNESS(histories) {
    history(QT(3, 4), 5);
}
HARNESS(histories_small) {
    history(QT(5, 6), 2);
}
HARNESS(wide) {
    u64 cap = vx_bits("capacity", 64);
    vx_assume(cap > 0);
    World<3, 32> w(cap);
    static const u64 als[4][3] = {{1, 1, 1}, {1, 4096, 1}, {1, u64(1) << 63, 4096}, {2, 16, 2}};
    auto& al = als[vx_choose("alignments", 4)];
    for(u64 k = 0; k < QT(2, 3); k++) {
        if(w.n && vx_choose("op", 2)) w.release(w.n == 1 ? 0 : (u64)vx_choose("which", (int)w.n));
        else {
            u64 size = vx_bits("size", 64);
            vx_assume(size > 0);
            w.allocate(size, al[k]);
        }
    }
    if(QT(0, 1)) w.stats();
}
HARNESS(bad_requests) {
    Range_Allocator<Mdefault, 3, 1> ra(16);
    switch(vx_choose("what", 3)) {
    case 0: MUST_DIE((void)ra.allocate(0, 1)); break;
    case 1: MUST_DIE((void)ra.allocate(1, 0)); break;
    case 2: MUST_DIE((Range_Allocator<Mdefault, 3, 1>(0))); break;
    }
}
HARNESS(moving) {
    Leak leak;
    {
        Range_Allocator<Mdefault, 3, 1> a(16);
        auto x = a.allocate(vx_choose("size", 2) ? 3 : 16, 1);
        auto before = a.statistics();
        Range_Allocator<Mdefault, 3, 1> b(vx_choose("target", 2) ? 5 : 9);
        bool assign = vx_choose("assign", 2);
        if(assign) b = rpp::move(a);
        Range_Allocator<Mdefault, 3, 1> c(rpp::move(assign ? b : a));
        auto s = c.statistics();
        CHECKM(s.allocated_size == before.allocated_size && s.free_size == before.free_size && s.total_capacity == 16, "moving keeps the state");
        CHECKM(!(assign ? b : a).allocate(1, 1).ok(), "a moved-from allocator has nothing to give");
        CHECKM((assign ? b : a).statistics().allocated_blocks == 0, "a moved-from allocator is empty");
        c.free(*x);
        auto y = c.allocate(16, 1);
        CHECKM(y.ok() && (*y)->offset == 0, "everything is available again");
        c.free(*y);
        c.statistics().assert_clear();
    }
    leak.done();
}
