// vx: * jobs=4 time=300 time_t=800 symmem=0 preempt=3 preempt_t=5 spurious=1
// vx: spawned_void preempt_t=4
// bounds: two to three threads running real rpp::Thread code; every interleaving of their synchronisation operations (atomics, futex calls, mutexes, thread start/exit/join) with at most 3 (thorough 5) preemptive context switches, and one futex wait that returns early, with 0 or with EINTR; data races, use after free and leaks detected on every path; all 32-bit payload values
// outside: more threads or preemptions; weak-memory effects of racing accesses (a race itself is reported); failure of thread creation
// assume: futex, pthread_create/join/detach behave as documented (modelled)
#include "model.h"
#include <rpp/thread.h>
#include <rpp/box.h>
#include <rpp/vec.h>

using namespace rpp;
using Thr = Thread::Thread<Mdefault>;

HARNESS(flag) {
    Thread::Flag f;
    u32 data = 0;
    u32 v = vx_bits("v", 32);
    bool twice = vx_choose("twice", 2);
    CHECKM(!f.ready(), "a new flag is not signalled");
    {
        Thr t([&] {
            data = v;
            f.signal();
            if(twice) f.signal();
        });
        if(f.ready()) {
            CHECKM(data == v, "ready() came before the writes made before signal()");
            vx_reach("early");
        }
        f.block();
        CHECKM(data == v, "block() returned before the writes made before signal()");
        CHECKM(f.ready(), "a signalled flag stays signalled");
        f.block();
        t.join();
    }
    f.block();
    vx_reach("done");
}

HARNESS(flag_two_waiters) {
    Thread::Flag f;
    u32 data = 0, seen[2] = {};
    {
        Thr t([&] { f.block(); seen[0] = data; });
        Thr u([&] { f.block(); seen[1] = data; });
        data = 5;
        f.signal();
        t.join();
        u.join();
    }
    CHECKM(seen[0] == 5 && seen[1] == 5, "every waiter returns and sees what was published");
    vx_reach("done");
}

HARNESS(promise) {
    Leak leak;
    u32 v = vx_bits("v", 32);
    {
        Thread::Promise<Box<u32>> p;
        Thr t([&] { p.fill(Box<u32>{v}); });
        if(p.ready()) vx_reach("ready early");
        Box<u32> r = p.block();
        CHECKM(r.ok() && *r == v, "block returns the value that was filled in");
        t.join();
    }
    leak.done();
}

HARNESS(promise_void) {
    u32 data = 0;
    Thread::Promise<void> p;
    {
        Thr t([&] { data = 9; p.fill(); });
        p.block();
        CHECK(data == 9);
        t.join();
    }
    CHECK(p.ready());
    vx_reach("done");
}

static u32 g_runs;
static void warm() {
    Thread::Alloc::free(Thread::Alloc::alloc(1)); // the allocation profiler creates its tables on first use
}

// A spawned task: the future may be awaited, polled or dropped at any point.
HARNESS(spawned) {
    warm();
    Leak leak;
    u32 a = vx_bits("a", 32), b = vx_bits("b", 32);
    g_runs = 0;
    Thread::Flag ended;
    {
        auto f = Thread::spawn([&](u32 x, Box<u32> y) { g_runs++; u32 r = x - *y; return Box<u32>{r}; }, u32{a}, Box<u32>{b});
        switch(vx_choose("use", 3)) {
        case 0: {
            auto r = f->block();
            CHECKM(r.ok() && *r == a - b, "the future yields the result of the task on its own arguments");
            CHECKM(g_runs == 1, "the task ran exactly once");
            vx_reach("awaited");
        } break;
        case 1: {
            auto g = f.dup();
            if(g->ready()) {
                vx_reach("ready early");
                f.clear();
                auto r = g->block();
                CHECK(r.ok() && *r == a - b);
            } else
                f->block();
        } break;
        case 2: vx_reach("dropped"); break;
        }
    }
    vx_quiesce();
    CHECKM(g_runs == 1, "the task ran exactly once");
    leak.done();
}

HARNESS(spawned_void) {
    warm();
    Leak leak;
    Thread::Atomic runs;
    {
        auto f = Thread::spawn([&] { runs.incr(); });
        auto g = Thread::spawn([&] { runs.incr(); });
        f->block();
        CHECK(runs.load() >= 1);
        g->block();
        CHECK(runs.load() == 2);
        vx_reach("both");
    }
    vx_quiesce();
    leak.done();
}

// A thread's callable: run once, destroyed once, on every way of ending the handle.
HARNESS(handles) {
    Leak leak;
    g_runs = 0;
    u32 v = vx_bits("v", 32);
    {
        auto body = [](u32* out, u32 v) {
            return Thr([tok = Tok{v}, out]() {
                g_runs++;
                *out = val(tok);
            });
        };
        static u32 out;
        out = 0;
        switch(vx_choose("end", 4)) {
        case 0: {
            Thr t = body(&out, v);
            t.join();
            CHECKM(out == v, "join returns after the thread has run");
        } break;
        case 1: {
            Thr t = body(&out, v);
        }
            CHECKM(out == v, "destroying the handle waits for the thread");
            break;
        case 2: {
            Thr t = body(&out, v);
            Thr u;
            u = rpp::move(t);
            u = Thr{};
            CHECKM(out == v, "assigning over a handle waits for its thread");
        } break;
        case 3: {
            Thr t = body(&out, v);
            t.detach();
            vx_reach("detached");
        } break;
        }
    }
    vx_quiesce();
    CHECKM(g_runs == 1, "the callable ran exactly once");
    CHECKM(Tok::count == 0, "the callable was not destroyed exactly once");
    leak.done();
}
