// vx: * jobs=6 time=300 time_t=820 symmem=0
// vx: threads,threads_report preempt=2 preempt_t=3 spurious=0
// bounds: all histories of up to 5 (thorough 6) allocations and frees through two named allocators with sizes 0, 1, 64 and 100000; all histories of up to 5 (thorough 7) makes and destroys over a free list and over pools of three object sizes, with arbitrary content; two threads sharing a pool and a named allocator, all interleavings within 2 (thorough 3) preemptions
// outside: allocations made outside a named allocator; objects aligned to more than 16; pools of more sizes
#include "model.h"
#include "libc.h"
#include <rpp/log_callback.h>
#include <rpp/thread.h>
using namespace rpp;

// ---- the final report, as a subscriber to the log sees it
struct Stats {
    bool seen, unbalanced_seen;
    i64 allocs, frees, high, alloc_size, free_size, unbalanced;
};
static Stats g_rep[2];
static int g_current = -1; // allocator whose numbers are being reported
static i64 g_net;          // 0: not reported; -1: none leaked
static bool g_done;

static bool starts(String_View m, const char* p, u64& at) {
    at = 0;
    for(; p[at]; at++)
        if(at >= m.length() || m[at] != (u8)p[at]) return false;
    return true;
}
static i64 number(String_View m, u64 at) {
    i64 v = 0;
    bool neg = at < m.length() && m[at] == '-';
    if(neg) at++;
    for(; at < m.length() && m[at] >= '0' && m[at] <= '9'; at++) v = v * 10 + (m[at] - '0');
    return neg ? -v : v;
}
static void listen(String_View m) {
    u64 at;
    if(starts(m, "Allocation stats for [", at)) {
        g_current = -1;
        if(m.length() > at && m[at] == 'X' && m[at + 1] == ']') g_current = 0;
        if(m.length() > at && m[at] == 'Y' && m[at + 1] == ']') g_current = 1;
        if(g_current >= 0) {
            CHECKM(!g_rep[g_current].seen, "an allocator is reported twice");
            g_rep[g_current].seen = true;
        }
        return;
    }
    if(starts(m, "Unbalanced allocations: ", at)) g_net = number(m, at);
    if(starts(m, "No memory leaked.", at)) g_net = -1;
    if(g_current < 0) return;
    Stats& s = g_rep[g_current];
    if(starts(m, "\tAllocs: ", at)) s.allocs = number(m, at);
    if(starts(m, "\tFrees: ", at)) s.frees = number(m, at);
    if(starts(m, "\tHigh water: ", at)) s.high = number(m, at);
    if(starts(m, "\tAlloc size: ", at)) s.alloc_size = number(m, at);
    if(starts(m, "\tFree size: ", at)) s.free_size = number(m, at);
    if(starts(m, "\tUnbalanced size: ", at)) {
        s.unbalanced = number(m, at);
        s.unbalanced_seen = true;
    }
}
static Stats g_true[2];
static i64 g_live, g_either;
static i64 g_base; // the subscription itself holds memory
static void judge() {
    for(int i = 0; i < 2; i++) {
        Stats &r = g_rep[i], &t = g_true[i];
        CHECKM(r.seen == (t.allocs > 0), "an allocator is missing from the report");
        CHECKM(r.allocs == t.allocs, "the report counts another number of allocations");
        CHECKM(r.frees == t.frees, "the report counts another number of frees");
        CHECKM(r.high == t.high || (g_either && r.high == g_either), "the report gives another high water mark");
        CHECKM(r.alloc_size == t.alloc_size, "the report gives another size allocated");
        CHECKM(r.free_size == t.free_size, "the report gives another size freed");
        CHECKM(r.unbalanced_seen == (t.alloc_size != t.free_size) && r.unbalanced == t.alloc_size - t.free_size, "the report does not flag exactly what is still allocated");
    }
    CHECKM(g_net == (g_live + g_base ? g_live + g_base : -1), "the report counts another number of leaked allocations");
}
extern "C" [[noreturn]] void vxe_exit(int code) {
    CHECKM(g_live + g_base != 0 && code != 0, "the program is stopped although nothing leaked");
    judge();
    if(g_live) vx_reach("leak reported");
    else vx_reach("nothing leaked");
    vx_assume(false);
    for(;;) {
    }
}

static void subscribe() {
    vx_option("real_log", 1);
    c_concrete = true;
    (void)(warn("warm up the log and its region"));
    i64 before = sys_net_allocs();
    (void)Log::subscribe([](Log::Level, Thread::Id, Log::Time, Log::Location, String_View m) { listen(m); });
    g_base = sys_net_allocs() - before;
}
using X = Mallocator<"X">;
using Y = Mallocator<"Y">;
HARNESS(report) {
    static const u64 sizes[] = {0, 1, 64, 100000};
    subscribe();
    void* p[6];
    u64 size[6];
    int who[6], n = 0;
    for(int k = 0, len = vx_choose("length", QT(5, 6)); k < len; k++) {
        int op = vx_choose("op", n ? 2 : 1);
        if(op == 0) {
            int w = who[n] = vx_choose("allocator", 2);
            u64 s = size[n] = sizes[vx_choose("size", 4)];
            p[n] = w ? Y::alloc(s) : X::alloc(s);
            CHECKM((p[n] == null) == (s == 0), "an allocation of nothing is nothing");
            if(s) {
                ((u8*)p[n])[0] = ((u8*)p[n])[s - 1] = 1;
                Stats& t = g_true[w];
                t.allocs++;
                t.alloc_size += (i64)s;
                i64 now = t.alloc_size - t.free_size;
                t.high = now > t.high ? now : t.high;
                g_live++;
            }
            n++;
        } else {
            int i = vx_choose("which", n);
            if(who[i]) Y::free(p[i]);
            else X::free(p[i]);
            if(size[i]) {
                g_true[who[i]].frees++;
                g_true[who[i]].free_size += (i64)size[i];
                g_live--;
            }
            n--;
            p[i] = p[n];
            size[i] = size[n];
            who[i] = who[n];
        }
    }
    Profile::finalize();
    CHECKM(g_live + g_base == 0, "a leak does not stop the program");
    judge();
}
HARNESS(no_leak) { // nothing is left: the program goes on
    g_live = -1;
    int n = vx_choose("n", 3);
    for(int i = 0; i < n; i++) X::free(X::alloc(10));
    {
        Vec<u32> v;
        v.push(3u);
    }
    Mpool::destroy(Mpool::make<u64>(3ul));
    Profile::finalize();
    CHECK(sys_net_allocs() == 0);
    vx_reach("returned");
}
HARNESS(net) { // the number of live allocations is exact
    i64 before = sys_net_allocs();
    void* p[4];
    int n = 0;
    for(int k = 0; k < QT(4, 6); k++) {
        if(n < 4 && (n == 0 || vx_choose("op", 2))) p[n++] = sys_alloc(1 + vx_choose("size", 2) * 5000);
        else sys_free(p[--n]);
        CHECK(sys_net_allocs() == before + n);
    }
    sys_free(null);
    CHECK(sys_net_allocs() == before + n);
    while(n) sys_free(p[--n]);
}

// ---- recycling storage
static Thread::Atomic g_born, g_died;
template<u64 N>
struct Thing {
    u8 b[N];
    explicit Thing(u8 v) {
        for(u64 i = 0; i < N; i++) b[i] = (u8)(v + i);
        (void)g_born.incr();
    }
    ~Thing() {
        (void)g_died.incr();
    }
    bool is(u8 v) const {
        bool ok = true;
        for(u64 i = 0; i < N; i++) ok &= b[i] == (u8)(v + i);
        return ok;
    }
};
template<typename T>
struct In_Use {
    T* p[8];
    u8 v[8];
    u32 n = 0;
    void add(T* q, u8 w) {
        for(u32 i = 0; i < n; i++) {
            CHECKM(q != p[i], "storage of a live object is handed out again");
            CHECKM((u8*)q + sizeof(T) <= (u8*)p[i] || (u8*)p[i] + sizeof(T) <= (u8*)q, "two live objects overlap");
        }
        p[n] = q;
        v[n++] = w;
        check();
    }
    T* take(u32 i) {
        T* q = p[i];
        n--;
        p[i] = p[n];
        v[i] = v[n];
        return q;
    }
    void check() {
        for(u32 i = 0; i < n; i++) CHECKM(p[i]->is(v[i]), "a live object has changed");
    }
};
template<typename T, typename Make, typename Destroy>
static void recycle(u32 steps, Make make, Destroy destroy) {
    In_Use<T> use;
    i64 born = g_born.load(), died = g_died.load();
    for(u32 k = 0; k < steps; k++) {
        if(!use.n || vx_choose("op", 2)) {
            u8 v = (u8)vx_bits("value", 8);
            use.add(make(v), v);
        } else {
            destroy(use.take((u32)vx_choose("which", (int)use.n)));
            use.check();
        }
        CHECKM((g_born.load() - born) - (g_died.load() - died) == (i64)use.n, "an object is not constructed or destroyed exactly once");
    }
    while(use.n) destroy(use.take(use.n - 1));
    CHECK(g_born.load() - born == g_died.load() - died);
}
HARNESS(free_list) {
    Leak leak;
    {
        using L = Free_List<Thing<5>, Mdefault>;
        L list;
        u32 steps = QT(5, 7);
        recycle<Thing<5>>(steps, [&](u8 v) { return list.make(v); }, [&](Thing<5>* t) { list.destroy(t); });
        if(vx_choose("move", 2)) {
            L other{rpp::move(list)};
            i64 before = vx_live_allocs();
            Thing<5>* t = other.make((u8)3);
            if(steps) CHECKM(vx_live_allocs() == before, "freed storage is not reused");
            other.destroy(t);
            list = rpp::move(other);
        } else if(vx_choose("clear", 2)) {
            list.clear();
            Thing<5>* t = list.make((u8)9);
            CHECK(t->is(9));
            list.destroy(t);
        }
    }
    leak.done();
}
HARNESS(free_list_small) { // objects smaller than a pointer
    Leak leak;
    {
        Free_List<Thing<1>, Mdefault> list;
        recycle<Thing<1>>(QT(5, 7), [&](u8 v) { return list.make(v); }, [&](Thing<1>* t) { list.destroy(t); });
    }
    leak.done();
}
template<u64 N>
static void pool() {
    recycle<Thing<N>>(QT(5, 7), [&](u8 v) { return Mpool::make<Thing<N>>(v); }, [&](Thing<N>* t) { Mpool::destroy(t); });
    // what was freed is reused before more is taken
    i64 before = vx_live_allocs();
    auto* t = Mpool::make<Thing<N>>((u8)1);
    CHECKM(vx_live_allocs() == before, "freed storage is not reused");
    CHECK(t->is(1));
    CHECKM(N < 16 || ((u64)t & 15) == 0, "pooled storage is not aligned");
    Mpool::destroy(t);
}
HARNESS(pools) {
    switch(vx_choose("size", 3)) {
    case 0: pool<1>(); break;
    case 1: pool<8>(); break;
    case 2: pool<32>(); break;
    }
}
HARNESS(pool_mixed) { // types of one size share a pool, types of different sizes do not
    struct A {
        u32 v;
    };
    struct B {
        u64 v;
    };
    struct C {
        u32 v;
    };
    u32 x = (u32)vx_bits("x", 32);
    A* a = Mpool::make<A>(x);
    B* b = Mpool::make<B>(~u64(x));
    C* c = Mpool::make<C>(x + 1);
    CHECK((void*)a != (void*)c && (void*)a != (void*)b);
    if(vx_choose("first", 2)) {
        Mpool::destroy(a);
        B* d = Mpool::make<B>(7ul);
        CHECK(b->v == ~u64(x) && c->v == x + 1 && d->v == 7);
        Mpool::destroy(d);
    } else {
        Mpool::destroy(c);
        c = Mpool::make<C>(x + 2);
        CHECK(a->v == x && b->v == ~u64(x) && c->v == x + 2);
        Mpool::destroy(a);
    }
    Mpool::destroy(b);
    Mpool::destroy(c);
}
HARNESS(finalized) { // finalizing the profile returns what the pools hold
    Leak leak;
    auto* a = Mpool::make<Thing<24>>((u8)1);
    auto* b = Mpool::make<Thing<24>>((u8)2);
    Mpool::destroy(a);
    Mpool::destroy(b);
    i64 held = sys_net_allocs();
    CHECK(held >= 1);
    Profile::finalize();
    CHECK(sys_net_allocs() == 0);
}

// two threads share a pool and a named allocator
static Stats g_shared;
static void worker(u8 v) {
    auto* a = Mpool::make<Thing<2>>(v);
    auto* b = Mpool::make<Thing<2>>((u8)(v + 1));
    CHECKM(a != b, "storage of a live object is handed out again");
    CHECKM(a->is(v), "a live object has changed");
    Mpool::destroy(a);
    CHECKM(b->is((u8)(v + 1)), "a live object has changed");
    Mpool::destroy(b);
}
HARNESS(threads) {
    auto* w = Mpool::make<Thing<2>>((u8)1);
    Mpool::destroy(w);
    Thread::Thread t([] { worker(100); });
    worker(50);
    t.join();
}
static void work_x(u64 n) {
    void* p = X::alloc(n);
    *(u8*)p = 1;
    X::free(p);
}
HARNESS(threads_report) {
    subscribe();
    work_x(5);
    {
        Thread::Thread t([] { work_x(10); });
        work_x(20);
        t.join();
    }
    g_true[0] = {false, false, 3, 3, 30, 35, 35, 0};
    g_either = 20; // both orders are possible
    Profile::finalize();
    judge();
}
