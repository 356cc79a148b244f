// vx: * jobs=5 time=300 time_t=820 symmem=0 preempt=1 preempt_t=2
// vx: read,write preempt=0 preempt_t=1
// vx: wait_any,timer_value,event_moves preempt=0 preempt_t=0
// bounds: file contents of 0 to 1 (thorough 3) arbitrary bytes, every split of a transfer, one interruption, failure of any single step; waits of 0, 1 and 1500 ms on a pool with one worker, two waits at a time in every order, an event and a wait together, one interruption of the event wait; every interleaving with at most 1 (thorough 2) preemptions; every number of milliseconds below 2^48 given to the system; event histories of up to 5 (thorough 6) signals, resets and waits over 3 events
// outside: failure of thread, timer or event creation (the code stops the program); more files, waits or events at a time; waits still pending when the pool is destroyed (the code documents that they leak)
// assume: files, eventfd, timerfd and epoll are modelled as documented by the operating system
#include "model.h"
using namespace rpp;
#include "evk.h"
#include "fsk.h"
#include <rpp/asyncio.h>

using Async::Event;
using Async::Task;
using Workers = Async::Pool<>;

extern "C" {
long vxe_sysconf(int) {
    return 2;
}
int vxe_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) {
    return 0;
}
int vxe_close(int fd) {
    return fd == FD ? file_close(fd) : ev_close(fd);
}
ssize_t vxe_read(int fd, void* b, size_t n) {
    return fd == FD ? file_read(fd, b, n) : ev_read(fd, b, n);
}
ssize_t vxe_write(int fd, const void* b, size_t n) {
    return fd == FD ? file_write(fd, b, n) : ev_write(fd, b, n);
}
}
struct World {
    Leak leak;
    char buf[4] = {'a', 'b', '?', '?'};
    String_View path{(const u8*)buf, 2};
    World() {
        (void)(warn("warm up the log and its region"));
        Region(R) {
            (void)String<Mregion<R>>{16};
        }
        g_name = "ab";
        g_fault = -1;
        Files::Alloc::free(Files::Alloc::alloc(1));
        Async::Alloc::free(Async::Alloc::alloc(1));
        leak = Leak{};
    }
    void done() {
        CHECKM(!g_open && g_opens == g_closes, "the file is not closed");
        for(int i = 0; i < g_nev; i++) CHECKM(!g_ev[i].open, "an event or timer is never closed");
        for(int i = 0; i < g_nep; i++) CHECKM(!g_ep[i].open, "a wait is never closed");
        leak.done();
    }
};

HARNESS(read) {
    World w;
    g_intr = 1;
    g_exists = vx_choose("exists", 2);
    g_size = g_exists ? (u64)vx_choose("size", QT(1, 3) + 1) : 0;
    for(u64 i = 0; i < g_size; i++) g_disk[i] = (u8)vx_bits("content", 8);
    g_fault = vx_choose("fault", 8) - 1;
    u64 size = g_size;
    {
        Workers pool;
        auto task = Async::read(pool, w.path);
        auto got = task.block();
        bool only_close = g_failed && g_opens == g_closes && g_opens && g_call == g_fault + 1;
        if(!g_failed) {
            CHECKM(got.ok(), "a successful read is reported as failure");
            vx_reach("read");
        } else if(!only_close) {
            CHECKM(!got.ok(), "a failed read is reported as success");
            vx_reach("failed");
        }
        if(got.ok()) {
            CHECKM(got->length() == size, "the wrong number of bytes");
            for(u64 i = 0; i < size; i++) CHECKM((*got)[i] == g_disk[i], "wrong content");
        }
    }
    w.done();
}
HARNESS(write) {
    World w;
    g_intr = 1;
    g_exists = vx_choose("old", 2);
    g_size = g_exists ? CAP : 0;
    g_fault = vx_choose("fault", 8) - 1;
    u8 data[8];
    u64 n = (u64)vx_choose("length", QT(1, 3) + 1);
    for(u64 i = 0; i < n; i++) data[i] = (u8)vx_bits("content", 8);
    {
        Workers pool;
        auto task = Async::write(pool, w.path, Slice<u8>{data, n});
        bool ok = task.block();
        CHECKM(ok == !g_failed, "the outcome reported is not what happened");
        if(ok) {
            CHECKM(g_exists && g_size == n, "the file does not have the length of what was written");
            for(u64 i = 0; i < n; i++) CHECKM(g_disk[i] == data[i], "wrong content");
            vx_reach("written");
        } else {
            vx_reach("failed");
        }
    }
    w.done();
}

// ---- timed waits
static u64 millis() {
    switch(vx_choose("ms", 3)) {
    case 0: return 0;
    case 1: return 1;
    default: return 1500;
    }
}
static u32 g_done;
static Task<u32> sleeper(Workers& pool, u64 ms, u32 id) {
    u64 start = now();
    co_await Async::wait(pool, ms);
    CHECKM(now() >= start + ms, "a wait ends before its time");
    __atomic_fetch_add(&g_done, 1u, __ATOMIC_SEQ_CST);
    co_return id;
}
HARNESS(wait) {
    World w;
    g_eintr = 1;
    g_now = 77;
    {
        Workers pool;
        auto t = sleeper(pool, millis(), 5);
        CHECK(t.block() == 5);
        CHECK(g_done == 1);
    }
    w.done();
}
HARNESS(wait_direct) {
    World w;
    {
        Workers pool;
        u64 ms = millis();
        Async::wait(pool, ms).block();
        CHECKM(now() >= ms, "a wait ends before its time");
    }
    w.done();
}
HARNESS(two_waits) {
    World w;
    {
        Workers pool;
        int order = vx_choose("order", 2);
        auto t = sleeper(pool, order ? 1500 : 1, 5);
        auto u = sleeper(pool, 20, 6);
        if(vx_choose("first", 2)) CHECK(t.block() == 5);
        CHECK(u.block() == 6);
        CHECK(t.block() == 5);
        CHECK(g_done == 2);
    }
    w.done();
}
static u32 g_signalled;
static Task<u32> on_event(Workers& pool, int fd) {
    co_await pool.event(Event::of_sys(fd, EPOLLIN));
    CHECKM(__atomic_load_n(&g_signalled, __ATOMIC_SEQ_CST), "an event continuation resumes before its event");
    co_return 9;
}
HARNESS(wait_and_event) {
    World w;
    {
        Workers pool;
        int fd = vxe_eventfd(0, 0);
        auto e = on_event(pool, fd);
        auto t = sleeper(pool, 10, 5);
        __atomic_store_n(&g_signalled, 1u, __ATOMIC_SEQ_CST);
        u64 one = 1;
        vxe_write(fd, &one, 8);
        CHECK(e.block() == 9);
        CHECK(t.block() == 5);
    }
    w.done();
}
// the time given to the system is the time asked for, for every number of milliseconds
static u64 g_ms;
static int g_set;
HARNESS(timer_value) {
    World w;
    g_ms = vx_bits("ms", 48);
    {
        Workers pool;
        auto t = Async::wait(pool, g_ms);
        g_set = 0;
        pthread_mutex_lock(&g_k);
        for(int i = 0; i < g_nev; i++) {
            if(!g_ev[i].timer) continue;
            g_set++;
            CHECKM(g_ev[i].armed, "the timer never fires");
            Ev& e = g_ev[i];
            u64 rest = g_ms - e.sec * 1000;
            CHECKM((e.nsec == rest * 1000000) | ((rest == 0) & (e.nsec < 1000000)), "the timer is set to another time");
            e.due = 0; // let it end now
        }
        CHECK(g_set == 1);
        pthread_cond_broadcast(&g_kc);
        pthread_mutex_unlock(&g_k);
        t.block();
    }
    w.done();
}

// ---- events
HARNESS(wait_any) {
    World w;
    {
        Vec<Event> ev;
        for(int i = 0; i < 3; i++) ev.push(Event{});
        CHECK(g_nev == 3);
        bool on[3] = {};
        g_eintr = QT(1, 2);
        for(int k = 0, n = vx_choose("length", QT(5, 7)); k < n; k++) {
            int op = vx_choose("op", 4), i = op < 3 ? vx_choose("event", 3) : 0;
            if(op == 0) {
                ev[i].signal();
                on[i] = true;
            } else if(op == 1) {
                ev[i].reset();
                on[i] = false;
            } else if(op == 2) {
                bool r = ev[i].try_wait();
                CHECKM(!r || on[i], "an event that is not signalled is reported");
            } else {
                vx_assume(on[0] | on[1] | on[2]);
                u64 got = Event::wait_any(ev.slice());
                CHECKM(got < 3 && on[got], "waiting reports an event that is not signalled");
            }
            for(int m = 0; m < 3; m++) CHECKM((g_ev[m].count > 0) == on[m], "an event is lost or invented");
        }
    }
    w.done();
}
HARNESS(event_moves) {
    World w;
    {
        Opt<Event> s[3];
        int own[3] = {EV, EV + 1, -2};
        s[0].emplace();
        s[1].emplace();
        for(int k = 0, n = vx_choose("length", QT(4, 5)); k < n; k++) {
            int op = vx_choose("op", 5), i = vx_choose("i", 3), j = op < 2 ? vx_choose("j", 3) : 0;
            if(op == 0) {
                vx_assume(s[i].ok() & s[j].ok() & (i != j));
                *s[i] = rpp::move(*s[j]);
                own[i] = own[j];
                own[j] = -1;
            } else if(op == 1) {
                vx_assume(!s[i].ok() & s[j].ok());
                s[i].emplace(rpp::move(*s[j]));
                own[i] = own[j];
                own[j] = -1;
            } else if(op == 2) {
                s[i].clear();
                own[i] = -2;
            } else if(op == 3) {
                vx_assume(!s[i].ok());
                own[i] = EV + g_nev;
                s[i].emplace();
            } else {
                vx_assume(own[i] >= 0);
                s[i]->signal();
                CHECKM(g_ev[own[i] - EV].count == 1, "another event is signalled");
                u64 got = Event::wait_any(Slice<Event>{&*s[i], 1});
                CHECK(got == 0);
                s[i]->reset();
                CHECK(g_ev[own[i] - EV].count == 0);
            }
            int live = 0, open = 0;
            for(int m = 0; m < 3; m++) live += own[m] >= 0;
            for(int m = 0; m < g_nev; m++) open += g_ev[m].open;
            for(int m = 0; m < 3; m++)
                if(own[m] >= 0) CHECKM(g_ev[own[m] - EV].open, "an event in use is closed");
            CHECKM(live == open, "an event nobody holds stays open");
        }
    }
    w.done();
}
