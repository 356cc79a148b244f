// vx: * jobs=4 time=400 time_t=820 symmem=0 preempt=2 preempt_t=3 spurious=0
// vx: idle preempt=1 preempt_t=1
// vx: two_workers preempt=1 preempt_t=2
// bounds: a pool on a machine with 1 to 3 hardware threads (1 to 2 workers plus the event thread) and a submitting main thread; 1 to 2 jobs that reschedule themselves, await other pool jobs or wait for 1 to 2 events; every interleaving of synchronisation operations with at most 2 (thorough 3; with two workers 1 and 2) preemptive switches (and any number of switches where a thread blocks); destroying the pool at every point of its jobs' lives
// outside: more jobs, workers or preemptions; continuations still waiting for an event when the pool is destroyed (the code documents that they leak); tasks that outlive their pool; failure of thread or event creation
// assume: eventfd and epoll are modelled: a counter per event, level-triggered, any ready event may be reported first
#include "model.h"
#include <rpp/pool.h>
#include <errno.h>
#include <sys/epoll.h>

using namespace rpp;
using Async::Task;
using Workers = Async::Pool<>;

// ---- the operating system: processors, events
static long g_cpus = 2;
static u64 g_affine;
struct Ev {
    bool open;
    u64 count;
};
static Ev g_ev[12];
static int g_nev;
struct Ep {
    bool open;
    u32 n;
    int fd[6];
};
static Ep g_ep[24];
static int g_nep;
static pthread_mutex_t g_k = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_kc = PTHREAD_COND_INITIALIZER;
static constexpr int EV = 100, EP = 200;
extern "C" {
long vxe_sysconf(int) {
    return g_cpus;
}
int vxe_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t* s) {
    pthread_mutex_lock(&g_k);
    u32 n = 0;
    for(u32 i = 0; i < 8; i++)
        if(CPU_ISSET(i, s)) {
            n++;
            CHECKM(i < (u32)g_cpus, "a worker is pinned to a processor that does not exist");
            CHECKM(!(g_affine >> i & 1), "two workers are pinned to one processor");
            g_affine |= 1ul << i;
        }
    CHECK(n == 1);
    pthread_mutex_unlock(&g_k);
    return 0;
}
int vxe_eventfd(unsigned v, int) {
    pthread_mutex_lock(&g_k);
    CHECKM(g_nev < 12, "harness: too many events");
    g_ev[g_nev] = {true, v};
    int r = EV + g_nev++;
    pthread_mutex_unlock(&g_k);
    return r;
}
int vxe_epoll_create1(int) {
    pthread_mutex_lock(&g_k);
    CHECKM(g_nep < 24, "harness: too many waits");
    g_ep[g_nep] = {true, 0, {}};
    int r = EP + g_nep++;
    pthread_mutex_unlock(&g_k);
    return r;
}
int vxe_epoll_ctl(int e, int op, int fd, epoll_event* ev) {
    pthread_mutex_lock(&g_k);
    Ep& p = g_ep[e - EP];
    CHECK(p.open && op == EPOLL_CTL_ADD && ev->data.fd == fd && ev->events == EPOLLIN);
    CHECKM(fd >= EV && fd < EV + g_nev && g_ev[fd - EV].open, "waiting on an event that is closed");
    for(u32 i = 0; i < p.n; i++) CHECKM(p.fd[i] != fd, "an event is waited for twice");
    CHECKM(p.n < 6, "harness: too many events");
    p.fd[p.n++] = fd;
    pthread_mutex_unlock(&g_k);
    return 0;
}
int vxe_epoll_wait(int e, epoll_event* out, int max, int timeout) {
    CHECK(max >= 1 && timeout == -1);
    pthread_mutex_lock(&g_k);
    Ep& p = g_ep[e - EP];
    CHECK(p.open);
    int ready[6], n = 0;
    for(;;) {
        for(u32 i = 0; i < p.n; i++)
            if(g_ev[p.fd[i] - EV].open && g_ev[p.fd[i] - EV].count) ready[n++] = p.fd[i];
        if(n) break;
        pthread_cond_wait(&g_kc, &g_k);
    }
    out->data.fd = ready[n > 1 ? vx_choose("ready", n) : 0];
    out->events = EPOLLIN;
    pthread_mutex_unlock(&g_k);
    return 1;
}
ssize_t vxe_write(int fd, const void* b, size_t n) {
    pthread_mutex_lock(&g_k);
    CHECKM(n == 8 && fd >= EV && fd < EV + g_nev && g_ev[fd - EV].open, "signalling an event that is closed");
    u64 v;
    __builtin_memcpy(&v, b, 8);
    g_ev[fd - EV].count += v;
    pthread_cond_broadcast(&g_kc);
    pthread_mutex_unlock(&g_k);
    return 8;
}
ssize_t vxe_read(int fd, void* b, size_t n) {
    pthread_mutex_lock(&g_k);
    CHECKM(n == 8 && fd >= EV && fd < EV + g_nev && g_ev[fd - EV].open, "reading an event that is closed");
    u64 v = g_ev[fd - EV].count;
    g_ev[fd - EV].count = 0;
    pthread_mutex_unlock(&g_k);
    if(!v) {
        errno = EAGAIN;
        return -1;
    }
    __builtin_memcpy(b, &v, 8);
    return 8;
}
int vxe_close(int fd) {
    pthread_mutex_lock(&g_k);
    bool* o = fd >= EP && fd < EP + g_nep ? &g_ep[fd - EP].open : fd >= EV && fd < EV + g_nev ? &g_ev[fd - EV].open : null;
    CHECKM(o && *o, "a descriptor is closed twice or was never opened");
    *o = false;
    pthread_mutex_unlock(&g_k);
    return 0;
}
}
static void start() {
    Async::Alloc::free(Async::Alloc::alloc(1));
    g_affine = 0;
    g_nev = g_nep = 0;
}
static void finish() {
    for(int i = 0; i < g_nev; i++) CHECKM(!g_ev[i].open, "an event is never closed");
    for(int i = 0; i < g_nep; i++) CHECKM(!g_ep[i].open, "a wait is never closed");
}

static Thread::Id g_main;
struct Count { // updated by jobs: one job only touches its own
    u32 started = 0, hops = 0, ended = 0;
};
static Count g_c[3];
static Task<u32> job(Workers& pool, u32 id, u32 hops, u32 v) {
    g_c[id].started++;
    for(u32 i = 0; i < hops; i++) {
        co_await pool.suspend();
        CHECKM(Thread::this_id() != g_main, "a scheduled job continues on a pool thread");
        g_c[id].hops++;
    }
    g_c[id].ended++;
    co_return v;
}
static void reset_jobs() {
    g_main = Thread::this_id();
    for(Count& c : g_c) c = Count{};
}
static void ran(u32 id, u32 hops) {
    CHECKM(g_c[id].started == 1 && g_c[id].hops == hops && g_c[id].ended == 1, "a submitted job runs exactly once");
}

HARNESS(idle) { // creating and destroying a pool on machines of every size
    start();
    Leak leak;
    g_cpus = 1 + vx_choose("cpus", 4);
    {
        Workers pool;
        CHECKM(pool.n_threads() >= 1, "a pool has a worker");
    }
    finish();
    leak.done();
    vx_reach("done");
}
HARNESS(one_job) {
    start();
    Leak leak;
    reset_jobs();
    g_cpus = 1 + vx_choose("cpus", 2);
    u32 v = vx_bits("v", 32);
    {
        Workers pool;
        Task<u32> t = job(pool, 0, 2, v);
        CHECKM(t.block() == v, "the waiter receives the job's result");
        ran(0, 2);
    }
    finish();
    leak.done();
    vx_reach("done");
}
HARNESS(two_jobs) {
    start();
    Leak leak;
    reset_jobs();
    g_cpus = 2;
    {
        Workers pool;
        Task<u32> t = job(pool, 0, 1, 10), u = job(pool, 1, 1, 20);
        if(vx_choose("order", 2)) CHECK(u.block() == 20);
        CHECK(t.block() == 10);
        CHECK(u.block() == 20);
        ran(0, 1);
        ran(1, 1);
    }
    finish();
    leak.done();
    vx_reach("done");
}
HARNESS(two_workers) {
    start();
    Leak leak;
    reset_jobs();
    g_cpus = 3;
    {
        Workers pool;
        CHECK(pool.n_threads() == 2);
        Task<u32> t = job(pool, 0, 1, 10), u = job(pool, 1, 1, 20);
        CHECK(t.block() == 10);
        CHECK(u.block() == 20);
        ran(0, 1);
        ran(1, 1);
    }
    finish();
    leak.done();
    vx_reach("done");
}
static Task<u32> outer(Workers& pool, u32 id, u32 hops) {
    co_await pool.suspend();
    u32 a = co_await job(pool, id, hops, 5);
    Task<u32> second = job(pool, id + 1, 1, 6);
    u32 b = co_await second;
    co_return a * 10 + b;
}
HARNESS(nested) {
    start();
    Leak leak;
    reset_jobs();
    g_cpus = 2;
    {
        Workers pool;
        Task<u32> t = outer(pool, 0, vx_choose("hops", 2));
        CHECKM(t.block() == 56, "a job that awaits other jobs receives their results");
        CHECK(g_c[0].ended == 1 && g_c[1].ended == 1);
    }
    finish();
    leak.done();
    vx_reach("done");
}
HARNESS(shutdown) { // tasks dropped, pool destroyed at once: no job runs twice, nothing is leaked or touched afterwards
    start();
    Leak leak;
    reset_jobs();
    g_cpus = 2;
    u32 n = 1 + vx_choose("jobs", 2);
    {
        Workers pool;
        for(u32 i = 0; i < n; i++) Task<u32> t = job(pool, i, 1, 1);
    }
    for(u32 i = 0; i < n; i++) {
        CHECKM(g_c[i].started == 1 && g_c[i].hops <= 1 && g_c[i].ended == g_c[i].hops, "a job runs at most once around shutdown");
        if(g_c[i].ended) vx_reach("ran before shutdown");
        else vx_reach("cancelled by shutdown");
    }
    finish();
    leak.done();
}

static u32 g_signalled;
static Task<u32> on_event(Workers& pool, int fd, u32 id) {
    co_await pool.event(Async::Event::of_sys(fd, EPOLLIN));
    CHECKM(__atomic_load_n(&g_signalled, __ATOMIC_SEQ_CST) >> id & 1, "an event continuation resumes before its event");
    CHECKM(Thread::this_id() != g_main, "an event continuation resumes on a pool thread");
    g_c[id].ended++;
    co_return 40 + id;
}
static void fire(int fd, u32 id) {
    __atomic_fetch_or(&g_signalled, 1u << id, __ATOMIC_SEQ_CST);
    u64 one = 1;
    vxe_write(fd, &one, 8);
}
HARNESS(event) {
    start();
    Leak leak;
    reset_jobs();
    g_cpus = 2;
    g_signalled = 0;
    {
        Workers pool;
        int fd = vxe_eventfd(0, 0);
        bool early = vx_choose("early", 2);
        if(early) fire(fd, 0);
        Task<u32> t = on_event(pool, fd, 0);
        if(!early) fire(fd, 0);
        CHECK(t.block() == 40);
        CHECKM(g_c[0].ended == 1, "an event continuation runs exactly once");
    }
    finish();
    leak.done();
    vx_reach("done");
}
HARNESS(two_events) {
    start();
    Leak leak;
    reset_jobs();
    g_cpus = 2;
    g_signalled = 0;
    {
        Workers pool;
        int f = vxe_eventfd(0, 0), g = vxe_eventfd(0, 0);
        Task<u32> t = on_event(pool, f, 0), u = on_event(pool, g, 1);
        if(vx_choose("first", 2)) {
            fire(g, 1);
            CHECK(u.block() == 41);
            fire(f, 0);
            CHECK(t.block() == 40);
        } else {
            fire(f, 0);
            fire(g, 1);
            CHECK(u.block() == 41);
            CHECK(t.block() == 40);
        }
        CHECKM(g_c[0].ended == 1 && g_c[1].ended == 1, "an event continuation runs exactly once");
    }
    finish();
    leak.done();
    vx_reach("done");
}
