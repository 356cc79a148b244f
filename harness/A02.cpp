// vx: * jobs=6 time=300 time_t=820
// vx: shapes symmem=0
// vx: threads symmem=0 preempt=2 preempt_t=3 spurious=0
// bounds: up to 4 (thorough 5) allocations of arbitrary symbolic sizes below 4096 over up to 3 nested regions in every order of entering, allocating and leaving; up to 6 (thorough 8) steps with sizes around the chunk boundaries and up to 4 nested regions; two threads with their own regions, all interleavings within 2 (thorough 3) preemptions; 127 nested regions
// outside: allocation sizes near 2^64; more than 3 symbolic regions; coroutines that change threads inside a region
#include "model.h"
#include <rpp/simd.h>
#include <rpp/thread.h>
using namespace rpp;
using RA = Region_Allocator;

struct Block {
    u8* p;
    u64 n;
    u8 tag;
    u32 level;
};
struct Live {
    Block b[10];
    u32 n = 0;
    u32 level = 0;
    u64 id = 0;

    // everything that is live is intact and apart from the new block
    void add(void* mem, u64 size) {
        u8* p = (u8*)mem;
        CHECKM(((u64)p & 15) == 0, "region memory is not aligned for every type");
        for(u32 i = 0; i < n; i++) CHECKM((size == 0) | (b[i].n == 0) | (p + size <= b[i].p) | (b[i].p + b[i].n <= p), "memory is handed out that is still in use");
        u8 tag = (u8)(17 + 31 * ++id);
        if(size) {
            p[0] = tag;
            p[size - 1] = tag;
        }
        b[n++] = {p, size, tag, level};
    }
    void intact() {
        for(u32 i = 0; i < n; i++)
            if(b[i].n) CHECKM((b[i].p[0] == b[i].tag) & (b[i].p[b[i].n - 1] == b[i].tag), "live region memory has changed");
    }
    void leave() {
        while(n && b[n - 1].level == level) n--;
        level--;
    }
};
static Live g_live;

// boundary sizes, longer histories
static u64 pick() {
    static const u64 s[] = {0, 1, 16, 960, 992, 993, 3000, 40000};
    return s[vx_choose("size", 8)];
}
template<u64 R>
static void shape(u32& steps) {
    Live& L = g_live;
    L.level++;
    u64 depth = RA::depth(), size = RA::size();
    {
        RA::Scope<R> scope;
        while(steps) {
            int op = vx_choose("op", R < 14 ? 3 : 2);
            if(op == 0) break;
            steps--;
            if(op == 1) {
                u64 n = pick();
                L.add(RA::alloc(R, n), n);
            } else if constexpr(R < 14) {
                shape<R + 1>(steps);
            }
        }
        L.intact();
    }
    L.leave();
    CHECK(RA::depth() == depth && RA::size() == size);
}
HARNESS(shapes) {
    Leak leak;
    g_live = {};
    u32 steps = QT(5, 6);
    shape<11>(steps);
    CHECK(RA::size() == 0 && RA::depth() == 0);
    leak.done();
}

// entering and leaving does not consume memory, however often
HARNESS(reuse) {
    Leak leak;
    u64 n = vx_choose("size", 2) ? 600 : 5000, m = vx_choose("inner", 2) ? 400 : 9000;
    RA::Scope<1> outer;
    u8* keep = (u8*)RA::alloc(1, 100);
    keep[99] = 5;
    i64 most = 0, first = 0;
    for(int i = 0; i < 12; i++) {
        RA::Scope<2> scope;
        u8* p = (u8*)RA::alloc(2, n);
        {
            RA::Scope<3> in;
            u8* q = (u8*)RA::alloc(3, m);
            q[0] = q[m - 1] = 1;
        }
        p[0] = p[n - 1] = 2;
        i64 live = vx_live_allocs();
        if(i == 0) first = live;
        most = live > most ? live : most;
    }
    CHECKM(most == first, "memory of a region that ended is not reused");
    CHECK(keep[99] == 5);
}

// containers in regions
HARNESS(containers) {
    Leak leak;
    u64 n = (u64)vx_choose("n", 40), m = (u64)vx_choose("m", 30);
    Region(R) {
        Vec<u64, Mregion<R>> a;
        for(u64 i = 0; i < n; i++) a.push(i * 3);
        Region(Q) {
            Vec<u8, Mregion<Q>> b;
            Vec<SIMD::F32x4, Mregion<Q>> v(1);
            CHECKM(((u64)v.data() & (alignof(SIMD::F32x4) - 1)) == 0, "region memory is not aligned for every type");
            for(u64 i = 0; i < m * 40; i++) b.push((u8)i);
            for(u64 i = 0; i < m * 40; i++) CHECK(b[i] == (u8)i);
        }
        for(u64 i = 0; i < n; i++) CHECK(a[i] == i * 3);
        for(u64 i = 0; i < n; i++) a.push(i);
        for(u64 i = 0; i < n; i++) CHECK(a[i] == i * 3 && a[n + i] == i);
    }
    leak.done();
}

// using a region out of order stops the program
HARNESS(alloc_outer) {
    RA::Scope<1> a;
    RA::Scope<2> b;
    MUST_DIE(RA::alloc(1, vx_bits("size", 12)));
}
HARNESS(alloc_ended) {
    { RA::Scope<1> a; }
    MUST_DIE(RA::alloc(1, vx_bits("size", 12)));
}
HARNESS(alloc_inner) {
    RA::Scope<1> a;
    { RA::Scope<2> b; }
    MUST_DIE(RA::alloc(2, vx_bits("size", 12)));
}
HARNESS(free_outer) {
    RA::Scope<1> a;
    void* p = RA::alloc(1, 20);
    RA::Scope<2> b;
    MUST_DIE(RA::free(1, p));
}
HARNESS(end_outer) {
    alignas(16) static u8 s[2][16];
    auto* a = new(s[0]) RA::Scope<1>;
    (void)new(s[1]) RA::Scope<2>;
    MUST_DIE(a->~Scope());
}
HARNESS(end_twice) {
    alignas(16) static u8 s[16];
    auto* a = new(s) RA::Scope<1>;
    a->~Scope();
    MUST_DIE(a->~Scope());
}
template<u64 R>
static void deep() {
    RA::Scope<R> s;
    u8* p = (u8*)RA::alloc(R, 40);
    p[39] = (u8)R;
    if constexpr(R < 100) deep<R + 1>();
    CHECK(p[39] == (u8)R);
}
HARNESS(deep) {
    Leak leak;
    deep<1>();
    CHECK(RA::size() == 0);
    leak.done();
}
template<u64 R>
static void too_deep() {
    RA::Scope<R> s;
    if constexpr(R < 200) too_deep<R + 1>();
}
HARNESS(too_deep) {
    MUST_DIE(too_deep<1>());
}

// every thread has its own regions
HARNESS(threads) {
    Thread::Alloc::free(Thread::Alloc::alloc(1));
    Leak leak;
    {
        RA::Scope<1> a;
        u8* p = (u8*)RA::alloc(1, 50);
        p[0] = p[49] = 7;
        u64 big = vx_choose("big", 2) ? 3000 : 50;
        Thread::Thread t([big, p] {
            CHECKM(RA::depth() == 0 && RA::size() == 0, "a thread starts inside another thread's region");
            RA::Scope<1> b;
            u8* q = (u8*)RA::alloc(1, big);
            CHECKM(q + big <= p || p + 50 <= q, "two threads are given the same memory");
            q[0] = q[big - 1] = 9;
            CHECK(RA::depth() == 1);
            {
                RA::Scope<2> c;
                u8* r = (u8*)RA::alloc(2, 60);
                r[0] = r[59] = 1;
            }
            CHECK(q[0] == 9 && q[big - 1] == 9);
        });
        {
            RA::Scope<5> c;
            u8* r = (u8*)RA::alloc(5, big);
            r[0] = r[big - 1] = 8;
            CHECK(RA::depth() == 2);
            CHECK(r[0] == 8 && r[big - 1] == 8);
        }
        t.join();
        CHECK(RA::depth() == 1 && p[0] == 7 && p[49] == 7);
    }
    CHECK(RA::size() == 0);
    leak.done();
}
