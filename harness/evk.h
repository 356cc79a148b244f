// Stand-ins for the operating system's eventfd, timerfd and epoll, usable by any number of threads.
// The including harness binds vxe_read/vxe_write/vxe_close to ev_*. Time passes only when everything waits for it.
#pragma once
#include <errno.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
struct Ev {
    bool open;
    u64 count;
    bool timer, armed;
    u64 due; // milliseconds
    u64 sec, nsec;
};
static u64 g_now;
static int g_eintr; // interruptions of epoll_wait still allowed
static Ev g_ev[12];
static int g_nev;
struct Ep {
    bool open;
    u32 n;
    int fd[6];
};
static Ep g_ep[24];
static int g_nep;
static pthread_mutex_t g_k = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_kc = PTHREAD_COND_INITIALIZER;
static constexpr int EV = 100, EP = 200;
extern "C" {
int vxe_eventfd(unsigned v, int) {
    pthread_mutex_lock(&g_k);
    CHECKM(g_nev < 12, "harness: too many events");
    g_ev[g_nev] = {true, v, false, false, 0, 0, 0};
    int r = EV + g_nev++;
    pthread_mutex_unlock(&g_k);
    return r;
}
int vxe_timerfd_create(int clock, int) {
    CHECKM(clock == CLOCK_MONOTONIC, "waiting by a clock that can be set");
    int r = vxe_eventfd(0, 0);
    g_ev[r - EV].timer = true;
    return r;
}
int vxe_timerfd_settime(int fd, int flags, const itimerspec* s, itimerspec*) {
    pthread_mutex_lock(&g_k);
    CHECKM(fd >= EV && fd < EV + g_nev && g_ev[fd - EV].open && g_ev[fd - EV].timer, "not an open timer");
    CHECK(flags == 0 && s->it_interval.tv_sec == 0 && s->it_interval.tv_nsec == 0);
    CHECKM((s->it_value.tv_nsec >= 0) & (s->it_value.tv_nsec < 1000000000) & (s->it_value.tv_sec >= 0), "the system refuses this time");
    Ev& e = g_ev[fd - EV];
    e.armed = (s->it_value.tv_sec != 0) | (s->it_value.tv_nsec != 0);
    e.sec = (u64)s->it_value.tv_sec;
    e.nsec = (u64)s->it_value.tv_nsec;
    e.due = g_now + (u64)s->it_value.tv_sec * 1000 + (u64)s->it_value.tv_nsec / 1000000;
    pthread_mutex_unlock(&g_k);
    return 0;
}
int vxe_epoll_create1(int) {
    pthread_mutex_lock(&g_k);
    CHECKM(g_nep < 24, "harness: too many waits");
    g_ep[g_nep] = {true, 0, {}};
    int r = EP + g_nep++;
    pthread_mutex_unlock(&g_k);
    return r;
}
int vxe_epoll_ctl(int e, int op, int fd, epoll_event* ev) {
    pthread_mutex_lock(&g_k);
    Ep& p = g_ep[e - EP];
    CHECK(p.open && op == EPOLL_CTL_ADD && ev->data.fd == fd && ev->events == EPOLLIN);
    CHECKM(fd >= EV && fd < EV + g_nev && g_ev[fd - EV].open, "waiting on an event that is closed");
    for(u32 i = 0; i < p.n; i++) CHECKM(p.fd[i] != fd, "an event is waited for twice");
    CHECKM(p.n < 6, "harness: too many events");
    p.fd[p.n++] = fd;
    pthread_mutex_unlock(&g_k);
    return 0;
}
int vxe_epoll_wait(int e, epoll_event* out, int max, int timeout) {
    CHECK(max >= 1 && timeout == -1);
    pthread_mutex_lock(&g_k);
    Ep& p = g_ep[e - EP];
    CHECK(p.open);
    int ready[6], n = 0;
    if(g_eintr && vx_choose("interrupt", 2)) {
        g_eintr--;
        pthread_mutex_unlock(&g_k);
        errno = EINTR;
        return -1;
    }
    for(;;) {
        bool timer = false;
        u64 first = 0;
        for(u32 i = 0; i < p.n; i++) {
            Ev& v = g_ev[p.fd[i] - EV];
            if(!v.open) continue;
            if(v.timer ? v.armed && v.due <= g_now : v.count > 0) ready[n++] = p.fd[i];
            if(v.timer && v.armed && (!timer || v.due < first)) {
                timer = true;
                first = v.due;
            }
        }
        if(n) break;
        if(timer) g_now = first;
        else pthread_cond_wait(&g_kc, &g_k);
    }
    out->data.fd = ready[n > 1 ? vx_choose("ready", n) : 0];
    out->events = EPOLLIN;
    pthread_mutex_unlock(&g_k);
    return 1;
}
ssize_t ev_write(int fd, const void* b, size_t n) {
    pthread_mutex_lock(&g_k);
    CHECKM(n == 8 && fd >= EV && fd < EV + g_nev && g_ev[fd - EV].open, "signalling an event that is closed");
    u64 v;
    __builtin_memcpy(&v, b, 8);
    g_ev[fd - EV].count += v;
    pthread_cond_broadcast(&g_kc);
    pthread_mutex_unlock(&g_k);
    return 8;
}
ssize_t ev_read(int fd, void* b, size_t n) {
    pthread_mutex_lock(&g_k);
    CHECKM(n == 8 && fd >= EV && fd < EV + g_nev && g_ev[fd - EV].open, "reading an event that is closed");
    u64 v = g_ev[fd - EV].count;
    g_ev[fd - EV].count = 0;
    pthread_mutex_unlock(&g_k);
    if(!v) {
        errno = EAGAIN;
        return -1;
    }
    __builtin_memcpy(b, &v, 8);
    return 8;
}
int ev_close(int fd) {
    pthread_mutex_lock(&g_k);
    bool* o = fd >= EP && fd < EP + g_nep ? &g_ep[fd - EP].open : fd >= EV && fd < EV + g_nev ? &g_ev[fd - EV].open : null;
    CHECKM(o && *o, "a descriptor is closed twice or was never opened");
    *o = false;
    pthread_mutex_unlock(&g_k);
    return 0;
}
}
static u64 now() {
    pthread_mutex_lock(&g_k);
    u64 t = g_now;
    pthread_mutex_unlock(&g_k);
    return t;
}
