// vx: * jobs=4 time=300 time_t=800 symmem=0 preempt=3 preempt_t=5 spurious=1
// bounds: two to three threads (one of them the spawning thread) running real rpp::Thread threads; every interleaving of their synchronisation operations with at most 3 (thorough 5) preemptive context switches, every choice of the thread woken by a signal, one spurious wakeup per run; data race detection on every access; all 32-bit payload values
// bounds: lock ownership: scopes left early, moved-constructed and move-assigned locks, try_lock from the holder's and another thread
// outside: more threads or preemptions; weak-memory effects of racing accesses (a race itself is reported); recursive locking; thread priorities and affinity
// assume: pthread mutexes, condition variables and threads behave as POSIX says (modelled: mutual exclusion, atomic release-and-wait, spurious wakeups, arbitrary wake order)
#include "model.h"
#include <rpp/thread.h>
#include <rpp/function.h>

using namespace rpp;
using Thr = Thread::Thread<Mdefault>;

struct Shared {
    Thread::Mutex m;
    Thread::Cond c;
    u32 inside = 0;
    u32 data = 0;
    u32 ready = 0;
    u32 taken = 0;
    void enter() {
        inside++;
        CHECKM(inside == 1, "two threads are inside the same critical section");
    }
    void leave() {
        inside--;
    }
};

static void bump(Shared& s, u32 by, bool early) {
    Thread::Lock lock(s.m);
    s.enter();
    s.data += by;
    s.leave();
    if(early) return;
    s.ready++;
}

HARNESS(exclusion) {
    Shared s;
    u32 a = vx_bits("a", 32), b = vx_bits("b", 32);
    bool early = vx_choose("early", 2);
    {
        Thr t([&s, a, early] { bump(s, a, early); bump(s, a, false); });
        Thr u([&s, b] { bump(s, b, false); });
        bump(s, 7, true);
        t.join();
        u.join();
    }
    CHECKM(s.data == 2 * a + b + 7, "an update made in a critical section was lost");
    CHECKM(s.ready == (early ? 2u : 3u), "an update made in a critical section was lost");
    vx_reach("done");
}

HARNESS(try_lock) {
    Shared s;
    u32 got = 0, tried = 0;
    {
        Thr t([&] {
            if(s.m.try_lock()) {
                s.enter();
                s.data++;
                got++;
                s.leave();
                s.m.unlock();
                vx_reach("try succeeded");
            } else {
                vx_reach("try failed");
            }
            tried++;
        });
        {
            Thread::Lock lock(s.m);
            s.enter();
            s.data++;
            s.leave();
        }
        t.join();
    }
    CHECK(tried == 1);
    CHECKM(s.data == 1 + got, "try_lock gave access without exclusion");
    CHECKM(s.m.try_lock(), "the mutex is free once every holder left");
    CHECKM(!s.m.try_lock(), "a held mutex cannot be acquired");
    s.m.unlock();
    CHECKM(s.m.try_lock(), "an unlocked mutex can be acquired");
    s.m.unlock();
}

HARNESS(wait_signal) {
    Shared s;
    u32 v = vx_bits("v", 32);
    bool broadcast = vx_choose("broadcast", 2);
    {
        Thr t([&s, v, broadcast] {
            Thread::Lock lock(s.m);
            s.enter();
            s.data = v;
            s.ready = 1;
            s.leave();
            if(broadcast)
                s.c.broadcast();
            else
                s.c.signal();
        });
        {
            Thread::Lock lock(s.m);
            while(!s.ready) {
                vx_reach("waited");
                s.c.wait(s.m);
                s.enter(); // resumes only with the mutex held
                s.leave();
                CHECKM(!s.m.try_lock(), "a woken waiter does not hold the mutex");
            }
            CHECKM(s.data == v, "the waiter does not see what was written before the signal");
        }
        t.join();
    }
    CHECKM(s.m.try_lock(), "the mutex is free at the end");
    s.m.unlock();
}

// Two consumers, one producer that signals once per item (or broadcasts once): nobody is left behind.
HARNESS(two_waiters) {
    Shared s;
    bool broadcast = vx_choose("broadcast", 2);
    auto consume = [&s] {
        Thread::Lock lock(s.m);
        while(!s.ready) {
            s.c.wait(s.m);
            s.enter();
            s.leave();
        }
        s.ready--;
        s.taken++;
    };
    {
        Thr t([&] { consume(); });
        Thr u([&] { consume(); });
        if(broadcast) {
            Thread::Lock lock(s.m);
            s.ready = 2;
            s.c.broadcast();
        } else {
            for(u32 i = 0; i < 2; i++) {
                Thread::Lock lock(s.m);
                s.ready++;
                s.c.signal();
            }
        }
        t.join();
        u.join();
    }
    CHECKM(s.taken == 2 && s.ready == 0, "an item was consumed twice or never");
    vx_reach("done");
}

// Handing turns back and forth through one condition variable.
HARNESS(ping_pong) {
    Shared s;
    {
        Thr t([&s] {
            for(u32 i = 0; i < 2; i++) {
                Thread::Lock lock(s.m);
                while(s.data % 2 == 0) s.c.wait(s.m);
                s.data++;
                s.c.signal();
            }
        });
        for(u32 i = 0; i < 2; i++) {
            Thread::Lock lock(s.m);
            while(s.data % 2 == 1) s.c.wait(s.m);
            CHECK(s.data == 2 * i);
            s.data++;
            s.c.signal();
        }
        t.join();
    }
    CHECK(s.data == 4);
    vx_reach("done");
}

// A lock releases exactly what it holds, however it is moved.
HARNESS(lock_ownership) {
    Thread::Mutex m, n;
    auto is_free = [](Thread::Mutex& x) {
        bool r = x.try_lock();
        if(r) x.unlock();
        return r;
    };
    {
        Thread::Lock a(m);
        CHECK(!is_free(m));
        switch(vx_choose("move", 3)) {
        case 0: {
            Thread::Lock b(rpp::move(a));
            CHECK(!is_free(m));
            vx_reach("moved out");
        }
            CHECKM(is_free(m), "a moved-to lock releases the mutex at the end of its scope");
            break;
        case 1: {
            {
                Thread::Lock b(n);
                a = rpp::move(b);
                CHECKM(is_free(m), "a lock that is assigned over releases what it held");
                CHECKM(!is_free(n), "the assigned lock is still held");
            }
            CHECKM(!is_free(n), "the assigned lock is still held");
            vx_reach("assigned");
        } break;
        case 2: {
            Thread::Lock& same = a;
            a = rpp::move(same);
            CHECKM(!is_free(m), "assigning a lock to itself keeps it");
            vx_reach("kept");
        } break;
        }
    }
    CHECKM(is_free(m) && is_free(n), "every lock is released at the end of its scope");
}
