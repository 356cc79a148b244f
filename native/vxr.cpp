// Replays a recorded thread schedule natively. Exactly one thread runs at a time; it gives up the
// baton when the recorded schedule names another thread at its next visible operation. Compiled
// without sanitizers, so the hand-over adds no happens-before edges that would hide a data race.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
typedef unsigned long long u64;
extern std::vector<unsigned char> vxr_sched;
extern std::string vxr_kind;
extern "C" [[noreturn]] void vxn_bad(const char*);
extern "C" void vxn_die(const char*);
enum Kind { RUN, MUTEX, COND, FUTEX, JOIN, DONE };
struct T { Kind k = RUN; void* a = nullptr; void* m = nullptr; int join = 0; bool joined = false, detached = false; pthread_t h; };
static T g_t[16];
static int g_n = 1;
static bool g_multi;
static size_t g_idx;
static int g_owner = 0;
// created on first use: mutexes are used before this file's static constructors run
static std::map<void*, int>& lazy(std::map<void*, int>*& p) { if(!p) p = new std::map<void*, int>; return *p; }
static std::map<void*, int>*g_mowner_, *g_wakes_;
#define g_mowner lazy(g_mowner_)
#define g_wakes lazy(g_wakes_)
static __thread int g_me = 0;

static void waitBaton() {
    while(__atomic_load_n(&g_owner, __ATOMIC_ACQUIRE) != g_me) syscall(SYS_sched_yield);
}
static bool enabled(int t) {
    T& x = g_t[t];
    auto fr = [](void* m) { auto it = g_mowner.find(m); return it == g_mowner.end() || it->second == -1; };
    switch(x.k) {
    case RUN: return true;
    case MUTEX: return fr(x.a);
    case COND: return g_wakes[x.a] > 0 && fr(x.m);
    case FUTEX: return g_wakes[x.a] > 0;
    case JOIN:
        if(x.join < 0) {
            for(int i = 0; i < g_n; i++) if(i != t && g_t[i].k != DONE) return false;
            return true;
        }
        return g_t[x.join].k == DONE;
    default: return false;
    }
}
static bool g_eintr; // the schedule ends this futex wait with EINTR
static int nextThread() { // after the recorded schedule: current thread if possible, else any
    if(g_idx < vxr_sched.size()) return vxr_sched[g_idx] & 0x7f;
    if(enabled(g_me)) return g_me;
    for(int i = 0; i < g_n; i++)
        if(enabled(i)) return i;
    vxn_bad("deadlock: no thread can make progress");
}
// wait for this thread's turn to perform a visible operation
static void turn() {
    int n = nextThread();
    if(n != g_me) {
        __atomic_store_n(&g_owner, n, __ATOMIC_RELEASE);
        waitBaton();
        // whoever handed over found our name next
    }
    g_eintr = g_idx < vxr_sched.size() && (vxr_sched[g_idx] & 0x80);
    g_idx++;
    g_t[g_me].k = RUN;
}
struct Start { void* (*f)(void*); void* a; int id; };
struct Dtor { void (*f)(void*); void* a; };
static __thread Dtor g_dtors[16];
static __thread int g_ndtors;
static void* tramp(void* p) {
    Start s = *(Start*)p;
    delete (Start*)p;
    g_me = s.id;
    waitBaton();
    void* r = s.f(s.a);
    while(g_ndtors) {
        Dtor d = g_dtors[--g_ndtors];
        d.f(d.a);
    }
    g_t[g_me].k = DONE;
    int n = nextThread();
    __atomic_store_n(&g_owner, n, __ATOMIC_RELEASE);
    return r;
}
extern "C" {
int vxr_thread_atexit(void (*f)(void*), void* a, void*) {
    if(g_me != 0 && g_ndtors < 16) g_dtors[g_ndtors++] = {f, a};
    return 0;
}
void vxr_point() { if(g_multi) turn(); }
extern int vxn_real_log;
int vxr_log(unsigned char l) {
    if(vxn_real_log) return 1;
    if(l == 2) vxn_die("stopped by a fatal error (die/assert)");
    return 0;
}
int vxr_create(pthread_t* h, const pthread_attr_t*, void* (*f)(void*), void* a) {
    g_multi = true;
    turn();
    int id = g_n++;
    int r = pthread_create(&g_t[id].h, nullptr, tramp, new Start{f, a, id});
    *h = g_t[id].h;
    return r;
}
static int idOf(pthread_t h) {
    for(int i = 1; i < g_n; i++) if(pthread_equal(g_t[i].h, h)) return i;
    vxn_bad("join or detach of an invalid thread");
}
int vxr_join(pthread_t h, void** r) {
    int id = idOf(h);
    if(g_t[id].joined || g_t[id].detached) vxn_bad("join of a joined or detached thread");
    g_t[g_me].k = JOIN;
    g_t[g_me].join = id;
    turn();
    g_t[id].joined = true;
    return pthread_join(h, r);
}
int vxr_detach(pthread_t h) {
    int id = idOf(h);
    if(g_t[id].joined || g_t[id].detached) vxn_bad("detach of a joined or detached thread");
    vxr_point();
    g_t[id].detached = true;
    return pthread_detach(h);
}
int vxr_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { g_mowner[m] = -1; return pthread_mutex_init(m, a); }
int vxr_mutex_destroy(pthread_mutex_t* m) {
    if(g_mowner.count(m) && g_mowner[m] != -1) vxn_bad("destroying a locked mutex");
    g_mowner.erase(m);
    return pthread_mutex_destroy(m);
}
static void own(void* m, int v) { g_mowner[m] = v; }
int vxr_mutex_lock(pthread_mutex_t* m) {
    if(g_multi) { g_t[g_me].k = MUTEX; g_t[g_me].a = m; turn(); }
    else if(g_mowner.count(m) && g_mowner[m] != -1) vxn_bad("deadlock: no thread can make progress");
    int r = pthread_mutex_lock(m);
    own(m, g_me);
    return r;
}
int vxr_mutex_trylock(pthread_mutex_t* m) {
    vxr_point();
    int r = pthread_mutex_trylock(m);
    if(!r) own(m, g_me);
    return r;
}
int vxr_mutex_unlock(pthread_mutex_t* m) {
    vxr_point();
    if(!g_mowner.count(m) || g_mowner[m] != g_me) vxn_bad("unlocking a mutex not held by this thread");
    own(m, -1);
    return pthread_mutex_unlock(m);
}
int vxr_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { return pthread_cond_init(c, a); }
int vxr_cond_destroy(pthread_cond_t* c) {
    for(int i = 0; i < g_n; i++) if(g_t[i].k == COND && g_t[i].a == c && g_wakes[c] <= 0) vxn_bad("destroying a condition variable with waiters");
    return 0;
}
int vxr_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if(!g_multi) vxn_bad("deadlock: no thread can make progress");
    turn();
    if(g_mowner[m] != g_me) vxn_bad("condition wait without holding the mutex");
    own(m, -1);
    pthread_mutex_unlock(m);
    g_t[g_me].k = COND;
    g_t[g_me].a = c;
    g_t[g_me].m = m;
    turn();
    if(g_wakes[c] > 0) g_wakes[c]--;
    pthread_mutex_lock(m);
    own(m, g_me);
    return 0;
}
static int waiting(void* a, Kind k) {
    int n = 0;
    for(int i = 0; i < g_n; i++) if(g_t[i].k == k && g_t[i].a == a) n++;
    return n;
}
int vxr_cond_signal(pthread_cond_t* c) {
    vxr_point();
    if(waiting(c, COND) > g_wakes[c]) g_wakes[c]++;
    return 0;
}
int vxr_cond_broadcast(pthread_cond_t* c) {
    vxr_point();
    g_wakes[c] = waiting(c, COND);
    return 0;
}
long vxr_syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    int* p = va_arg(ap, int*);
    int op = va_arg(ap, int) & 127, val = va_arg(ap, int);
    va_end(ap);
    if(nr != SYS_futex) vxn_bad("unexpected system call");
    vxr_point();
    if(op == FUTEX_WAIT) {
        if(__atomic_load_n(p, __ATOMIC_RELAXED) != val) { errno = EAGAIN; return -1; }
        if(!g_multi) vxn_bad("deadlock: no thread can make progress");
        g_t[g_me].k = FUTEX;
        g_t[g_me].a = p;
        turn();
        if(g_eintr) { errno = EINTR; return -1; }
        if(g_wakes[p] > 0) g_wakes[p]--;
        return 0;
    }
    int w = waiting(p, FUTEX);
    int n = 0;
    while(g_wakes[p] < w && n < val) g_wakes[p]++, n++;
    return n;
}
int vxr_usleep(unsigned) { vxr_point(); return 0; }
void vxr_quiesce() {
    if(!g_multi) return;
    g_t[g_me].k = JOIN;
    g_t[g_me].join = -1;
    turn();
}
void vxr_yield() { vxr_point(); }
}
