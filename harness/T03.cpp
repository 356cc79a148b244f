// vx: * jobs=4 time=300 time_t=800 symmem=0 preempt=4 preempt_t=6
// bounds: two to three threads, every interleaving of their atomic operations with at most 4 (thorough 6) preemptive context switches; all 64-bit initial values and operands; for shared pointers every interleaving of duplicate, use, move and drop by two to three owners
// outside: more threads, operations or preemptions; weak-memory effects (the operations are sequentially consistent; ordinary accesses that race are reported)
#include "model.h"
#include <rpp/thread.h>
#include <rpp/rc.h>

using namespace rpp;
using Thr = Thread::Thread<Mdefault>;
static u64 s64(const char* n) {
    return vx_bits(n, 64);
}

HARNESS(sequential) {
    i64 v = (i64)s64("v"), w = (i64)s64("w"), c = (i64)s64("c");
    vx_assume((v != (i64)0x8000000000000000ull) & (v != 0x7fffffffffffffffll));
    Thread::Atomic a(v);
    CHECKM(a.load() == v, "load");
    switch(vx_choose("op", 5)) {
    case 0: CHECKM((a.incr() == v + 1) & (a.load() == v + 1), "incr returns the new value"); break;
    case 1: CHECKM((a.decr() == v - 1) & (a.load() == v - 1), "decr returns the new value"); break;
    case 2: CHECKM((a.exchange(w) == v) & (a.load() == w), "exchange returns the old value"); break;
    case 3: {
        i64 old = a.compare_and_swap(c, w);
        CHECKM(old == v, "compare_and_swap returns the old value");
        CHECKM(a.load() == (v == c ? w : v), "compare_and_swap stores only on a match");
        CHECKM(a.load<i32>() == (i32)(v == c ? w : v), "a converted load");
    } break;
    case 4: {
        Thread::Atomic b;
        CHECKM(b.load() == 0, "an atomic starts at zero");
        Thread::Atomic d(a);
        CHECKM((d.load() == v) & (a.load() == v), "a copy has the value");
    } break;
    }
}

// Every update is one indivisible step: with the commutative updates below the final value and the
// set of returned values are those of some order.
HARNESS(counting) {
    i64 v = (i64)(i32)vx_bits("v", 32);
    Thread::Atomic a(v);
    i64 r[4] = {};
    {
        Thr t([&] { r[0] = a.incr(); r[1] = a.incr(); });
        Thr u([&] { r[2] = a.incr(); });
        r[3] = a.incr();
        t.join();
        u.join();
    }
    CHECKM(a.load() == v + 4, "a concurrent increment was lost");
    u32 seen = 0;
    for(i64 x : r) {
        i64 d = x - v - 1;
        CHECKM((d >= 0) & (d < 4), "an increment returned a value no order produces");
        seen |= 1u << (u32)d;
    }
    CHECKM(seen == 15, "two increments returned the same value");
    CHECKM(r[0] < r[1], "program order");
}
HARNESS(mixed) {
    i64 v = (i64)(i32)vx_bits("v", 32);
    Thread::Atomic a(v);
    i64 x = 0, y = 0;
    {
        Thr t([&] { x = a.decr(); });
        Thr u([&] { y = a.incr(); });
        i64 z = a.load();
        CHECKM((z == v) | (z == v + 1) | (z == v - 1), "a load sees a value no order produces");
        t.join();
        u.join();
    }
    CHECKM(a.load() == v, "an update was lost");
    CHECKM(((x == v - 1) & (y == v)) | ((x == v) & (y == v + 1)), "returned values of no order");
}
HARNESS(exchange_chain) {
    i64 v = (i64)s64("v"), p = (i64)s64("p"), q = (i64)s64("q");
    vx_assume((v != p) & (v != q) & (p != q));
    Thread::Atomic a(v);
    i64 x = 0, y = 0;
    {
        Thr t([&] { x = a.exchange(p); });
        y = a.exchange(q);
        t.join();
    }
    i64 e = a.load();
    CHECKM(((x == v) & (y == p) & (e == q)) | ((y == v) & (x == q) & (e == p)), "exchanged values form no order");
}
HARNESS(cas_race) {
    i64 v = (i64)s64("v"), p = (i64)s64("p"), q = (i64)s64("q");
    vx_assume((v != p) & (v != q) & (p != q));
    Thread::Atomic a(v);
    i64 x = 0, y = 0;
    {
        Thr t([&] { x = a.compare_and_swap(v, p); });
        y = a.compare_and_swap(v, q);
        t.join();
    }
    i64 e = a.load();
    CHECKM((x == v) != (y == v), "exactly one of two competing swaps succeeds");
    CHECKM(((x == v) & (e == p) & (y == p)) | ((y == v) & (e == q) & (x == q)), "the loser sees the winner's value");
}
// A retry loop around compare_and_swap loses no update.
HARNESS(cas_loop) {
    i64 v = (i64)(i32)vx_bits("v", 32);
    Thread::Atomic a(v);
    auto add = [&](i64 d) {
        for(;;) {
            i64 o = a.load();
            if(a.compare_and_swap(o, o + d) == o) return;
        }
    };
    {
        Thr t([&] { add(3); });
        add(5);
        t.join();
    }
    CHECKM(a.load() == v + 8, "an update made by compare_and_swap was lost");
}

// Shared objects: alive while owned, destroyed once, after all other owners' accesses.
struct Obj {
    static inline u32 alive = 0;
    u32 a;
    u32 use[3] = {};
    Obj(u32 a) noexcept : a(a) {
        alive++;
    }
    ~Obj() noexcept {
        CHECKM(alive == 1, "a shared object is destroyed twice");
        alive--;
        a = 0xdead;
        use[0] = use[1] = use[2] = 1; // must not race with the accesses of other owners
    }
    Obj(Obj&&) = delete;
};
using P = Arc<Obj>;
HARNESS(arc_two_drops) {
    Leak leak;
    Obj::alive = 0;
    u32 v = vx_bits("v", 32);
    {
        P p = P::make(v);
        Thr t([q = p.dup()]() mutable {
            q->use[0] = 1;
            q.clear();
        });
        p->use[1] = 1;
        CHECKM(p->a == v, "a shared object changed");
        if(vx_choose("order", 2)) {
            p.clear();
            CHECKM(p.references() == 0 && !p.ok(), "a cleared pointer owns nothing");
        }
        t.join();
    }
    CHECKM(Obj::alive == 0, "a shared object is never destroyed");
    leak.done();
    vx_reach("done");
}
HARNESS(arc_three) {
    Leak leak;
    Obj::alive = 0;
    {
        P p = P::make(5u);
        Thr t([q = p.dup()]() mutable { // duplicates again, then drops both
            P r = q.dup();
            q.clear();
            r->use[0] = 1;
        });
        Thr u([q = p.dup()]() mutable {
            q->use[1] = 1;
            P r(rpp::move(q));
            CHECKM(r->a == 5, "a shared object changed");
        });
        p->use[2] = 1;
        p.clear();
        t.join();
        u.join();
    }
    CHECKM(Obj::alive == 0, "a shared object is never destroyed");
    leak.done();
    vx_reach("done");
}
HARNESS(arc_assign) {
    Leak leak;
    Obj::alive = 0;
    {
        P p = P::make(1u);
        Thread::Flag stop;
        Thr t([q = p.dup()]() mutable {
            q->use[0]++;
            q = P(); // assignment drops
        });
        {
            P q = p.dup();
            q = p.dup(); // assignment over another owner of the same object
            CHECKM(q->a == 1 && q.references() >= 2, "the count covers every owner");
            p = rpp::move(q);
        }
        p->use[1]++;
        t.join();
        CHECKM(p.references() == 1, "the count is exact once other owners are gone");
    }
    CHECKM(Obj::alive == 0, "a shared object is never destroyed");
    leak.done();
    vx_reach("done");
}
