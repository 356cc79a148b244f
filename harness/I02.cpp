// vx: * jobs=6 time=300 time_t=800 symmem=0
// bounds: all 65536 ports, all 2^32 source and destination addresses, every dotted address text (each number 0 to 255) inside a longer text and every malformed text of up to 4 characters over a small alphabet; datagrams of every length 0 to 2^31 received, of every length 0 to 1472 sent with arbitrary first and last bytes; every error number; histories of up to 4 (thorough 6) moves, assignments, sends and receives over up to 3 sockets
// outside: stream sockets (the library has none), concurrent use of one socket, failure of close
// assume: the socket calls are modelled: a table of open descriptors, any result their interface allows; inet_pton accepts exactly dotted-decimal text
#include "model.h"
#include <arpa/inet.h>
#include <errno.h>
#include <rpp/net.h>
#include <sys/socket.h>

using namespace rpp;
using Net::Udp;

static_assert(sizeof(Net::Address) == sizeof(sockaddr_in));
static sockaddr_in raw(const Net::Address& a) {
    sockaddr_in s;
    __builtin_memcpy(&s, &a, sizeof s);
    return s;
}

// ---- the operating system
static constexpr int FD0 = 20, NFD = 10;
static bool g_open[NFD];
static int g_next, g_live;
static bool g_socket_fails, g_bind_fails;
static u8* g_buf;          // the packet the library may touch
static int g_sends, g_recvs, g_binds;
static int g_last_fd;
static sockaddr_in g_addr;  // last address given to the system
static u64 g_len;           // last length given to the system
static i64 g_result;        // what the next send or receive returns
static int g_errno;
static sockaddr_in g_from;  // source of the next datagram
static u8 g_first, g_last;  // its first and last byte, if it has any
extern "C" {
int vxe_socket(int domain, int type, int proto) {
    CHECK(domain == AF_INET && (type & 0xf) == SOCK_DGRAM && (proto == 0 || proto == IPPROTO_UDP));
    if(g_socket_fails) {
        errno = EMFILE;
        return -1;
    }
    CHECKM(g_next < NFD, "harness: too many sockets");
    g_open[g_next] = true;
    g_live++;
    return FD0 + g_next++;
}
int vxe_close(int fd) {
    CHECKM(fd >= FD0 && fd < FD0 + g_next && g_open[fd - FD0], "closing a descriptor that is not open");
    g_open[fd - FD0] = false;
    g_live--;
    return 0;
}
static void use(int fd, const sockaddr* a, socklen_t n) {
    CHECKM(fd >= FD0 && fd < FD0 + g_next && g_open[fd - FD0], "using a descriptor that is not open");
    CHECKM(n == sizeof(sockaddr_in), "wrong address length");
    __builtin_memcpy(&g_addr, a, sizeof g_addr);
    g_last_fd = fd;
}
int vxe_bind(int fd, const sockaddr* a, socklen_t n) {
    use(fd, a, n);
    g_binds++;
    if(g_bind_fails) {
        errno = EADDRINUSE;
        return -1;
    }
    return 0;
}
ssize_t vxe_sendto(int fd, const void* b, size_t n, int, const sockaddr* a, socklen_t an) {
    use(fd, a, an);
    CHECKM((const u8*)b == g_buf && n <= 1472, "the system is told to read outside the packet");
    g_len = n;
    g_sends++;
    if(g_result == -1) errno = g_errno;
    return g_result;
}
ssize_t vxe_recvfrom(int fd, void* b, size_t n, int flags, sockaddr* a, socklen_t* an) {
    CHECKM(fd >= FD0 && fd < FD0 + g_next && g_open[fd - FD0], "using a descriptor that is not open");
    CHECKM((u8*)b == g_buf && n <= 1472, "the system is told to write outside the packet");
    CHECKM(flags & MSG_DONTWAIT, "receiving must not block");
    CHECKM(n == 1472, "a datagram the packet can hold would be cut");
    g_last_fd = fd;
    g_recvs++;
    if(g_result == -1) {
        errno = g_errno;
        return -1;
    }
    if(a) {
        CHECKM(*an >= sizeof(sockaddr_in), "no room for the source address");
        __builtin_memcpy(a, &g_from, sizeof g_from);
        *an = sizeof(sockaddr_in);
    }
    u64 len = (u64)g_result;
    bool cut = len > n;
    u64 put = cut ? n : len;
    if(len) {
        ((u8*)b)[0] = g_first;
        if(!cut) ((u8*)b)[put - 1] = g_last;
    }
    return (ssize_t)((flags & MSG_TRUNC) ? len : put);
}
int vxe_inet_pton(int af, const char* s, void* out) {
    CHECK(af == AF_INET);
    u8 r[4];
    for(int i = 0; i < 4; i++) {
        u32 v = 0, d = 0;
        while(*s >= '0' && *s <= '9') {
            if(d && v == 0) return 0;
            v = v * 10 + (u32)(*s++ - '0');
            if(++d > 3 || v > 255) return 0;
        }
        if(!d) return 0;
        r[i] = (u8)v;
        if(i < 3 && *s++ != '.') return 0;
    }
    if(*s) return 0;
    __builtin_memcpy(out, r, 4);
    return 1;
}
}

static void warm() {
    (void)(warn("warm up the log and its region"));
    Region(R) {
        (void)String<Mregion<R>>{16};
    }
}
static sockaddr_in any_source() {
    sockaddr_in s = {};
    s.sin_family = AF_INET;
    s.sin_port = (u16)vx_bits("sport", 16);
    s.sin_addr.s_addr = (u32)vx_bits("saddr", 32);
    return s;
}
static void closed() {
    CHECKM(g_live == 0, "a socket is never closed");
}

// an address holds exactly the given host and port, in network order
HARNESS(address_port) {
    u16 port = (u16)vx_bits("port", 16);
    sockaddr_in s = raw(Net::Address{port});
    CHECK(s.sin_family == AF_INET);
    CHECK(s.sin_port == (u16)((port << 8) | (port >> 8)));
    CHECK(s.sin_addr.s_addr == 0);
}
HARNESS(address_text) {
    warm();
    u16 port = (u16)vx_bits("port", 16);
    u8 oct[4];
    u8 text[20];
    u64 n = 0;
    for(int i = 0; i < 4; i++) {
        u32 v;
        int digits = 1 + vx_choose("digits", 3);
        u32 a = (u32)vx_bits("d", 4), b = (u32)vx_bits("d", 4), c = (u32)vx_bits("d", 4);
        vx_assume((a <= 9) & (b <= 9) & (c <= 9));
        v = digits == 1 ? c : digits == 2 ? b * 10 + c : a * 100 + b * 10 + c;
        vx_assume(digits == 1 ? true : digits == 2 ? b > 0 : (a > 0) & (v <= 255));
        if(digits > 2) text[n++] = (u8)('0' + a);
        if(digits > 1) text[n++] = (u8)('0' + b);
        text[n++] = (u8)('0' + c);
        if(i < 3) text[n++] = '.';
        oct[i] = (u8)v;
    }
    // the view is part of a longer text
    text[n] = '7';
    Leak leak;
    sockaddr_in s = raw(Net::Address{String_View{text, n}, port});
    CHECK(s.sin_family == AF_INET);
    CHECK(s.sin_port == (u16)((port << 8) | (port >> 8)));
    u8 got[4];
    __builtin_memcpy(got, &s.sin_addr.s_addr, 4);
    for(int i = 0; i < 4; i++) CHECKM(got[i] == oct[i], "the address holds another host");
    leak.done();
}
HARNESS(address_malformed) {
    u8 text[8];
    u64 n = (u64)vx_choose("length", 5);
    for(u64 i = 0; i < n; i++) text[i] = "1.9a"[vx_choose("char", 4)];
    text[n] = 0;
    MUST_DIE(Net::Address(String_View{text, n}, 80));
}

// sending passes exactly the packet's filled bytes to the given address
HARNESS(send) {
    Leak leak;
    {
        Udp a, b;
        Net::Packet p;
        g_buf = p.data();
        u64 n = vx_bits("length", 11);
        vx_assume(n <= 1472);
        u16 port = (u16)vx_bits("port", 16);
        g_result = (i64)vx_bits("sent", 31);
        u64 got = b.send(Net::Address{port}, p, n);
        CHECK(got == (u64)g_result);
        CHECKM(g_len == n, "other bytes than the filled ones are sent");
        CHECK(g_sends == 1 && g_last_fd == FD0 + 1);
        CHECK(g_addr.sin_port == (u16)((port << 8) | (port >> 8)) && g_addr.sin_addr.s_addr == 0 && g_addr.sin_family == AF_INET);
    }
    closed();
    leak.done();
}
HARNESS(send_too_much) {
    Udp a;
    Net::Packet p;
    g_buf = p.data();
    u64 n = vx_bits("length", 64);
    vx_assume(n > 1472);
    g_result = (i64)vx_bits("sent", 31);
    MUST_DIE(a.send(Net::Address{1}, p, n));
}
HARNESS(send_fails) {
    Udp a;
    Net::Packet p;
    g_buf = p.data();
    g_errno = (int)vx_bits("errno", 7);
    g_result = -1;
    MUST_DIE(a.send(Net::Address{1}, p, 5));
}

// receiving stores at most the packet's capacity and reports what arrived, from whom
HARNESS(recv) {
    warm();
    Leak leak;
    {
        Udp a, b;
        Net::Packet p;
        g_buf = p.data();
        g_from = any_source();
        g_first = (u8)vx_bits("first", 8);
        g_last = (u8)vx_bits("last", 8);
        int kind = vx_choose("outcome", 4);
        if(kind == 0) {
            g_result = -1;
            g_errno = (int)vx_bits("errno", 7);
        } else if(kind == 1) {
            g_result = vx_choose("short", 3);
            if(g_result == 1) vx_assume(g_first == g_last);
        } else if(kind == 2) {
            g_result = 1472 - vx_choose("long", 2);
        } else {
            g_result = (i64)vx_bits("oversized", 31);
            vx_assume(g_result > 1472);
        }
        auto d = b.recv(p);
        CHECK(g_recvs == 1 && g_last_fd == FD0 + 1);
        if(kind == 0) {
            CHECKM(!d.ok(), "an error is reported as data");
            vx_reach("error");
        } else if(kind == 3) {
            if(d.ok()) CHECKM(d->length <= p.capacity, "more is reported than the packet can hold");
            CHECKM(!d.ok(), "a datagram that was cut is reported as data");
            vx_reach("oversized");
        } else {
            CHECKM(d.ok(), "a datagram is lost");
            CHECKM(d->length == (u64)g_result, "the length is not what arrived");
            sockaddr_in s = raw(d->from);
            CHECKM((s.sin_port == g_from.sin_port) & (s.sin_addr.s_addr == g_from.sin_addr.s_addr) & (s.sin_family == AF_INET), "the source is another");
            if(d->length) {
                CHECK(p[0] == g_first);
                CHECK(p[d->length - 1] == g_last);
            }
            vx_reach("data");
        }
    }
    closed();
    leak.done();
}

// every descriptor is closed exactly once, whatever moves
HARNESS(ownership) {
    {
        Net::Packet p;
        g_buf = p.data();
        Opt<Udp> s[3];
        int own[3]; // descriptor held, -1: moved from
        for(int i = 0; i < 2; i++) {
            s[i] = Opt<Udp>{Udp{}};
            own[i] = FD0 + i;
        }
        own[2] = -2;
        for(int k = 0, n = vx_choose("length", QT(5, 7)); k < n; k++) {
            int op = vx_choose("op", 5), i = vx_choose("i", 3), j = vx_choose("j", 3);
            if(op == 0) { // move-assign
                if(!s[i].ok() || !s[j].ok()) { vx_assume(false); }
                *s[i] = rpp::move(*s[j]);
                if(i != j) {
                    own[i] = own[j];
                    own[j] = -1;
                }
            } else if(op == 1) { // move-construct
                if(!s[j].ok() || s[i].ok()) { vx_assume(false); }
                s[i].emplace(rpp::move(*s[j]));
                own[i] = own[j];
                own[j] = -1;
            } else if(op == 2) {
                if(j) { vx_assume(false); }
                s[i].clear();
                own[i] = -2;
            } else if(op == 3) {
                if(j || g_next >= 6) { vx_assume(false); }
                int fd = FD0 + g_next;
                if(s[i].ok()) *s[i] = Udp{};
                else s[i].emplace();
                own[i] = fd;
            } else {
                if(j || own[i] < 0) { vx_assume(false); }
                g_result = 3;
                (void)s[i]->send(Net::Address{7}, p, 3);
                CHECKM(g_last_fd == own[i], "another socket is used");
                s[i]->bind(Net::Address{8});
                CHECKM(g_last_fd == own[i], "another socket is used");
            }
            int live = 0;
            for(int m = 0; m < 3; m++) {
                if(own[m] < 0) continue;
                live++;
                CHECKM(g_open[own[m] - FD0], "a socket in use is closed");
            }
            CHECKM(live == g_live, "a socket nobody holds stays open");
        }
    }
    closed();
}
HARNESS(bind) {
    Udp a;
    u16 port = (u16)vx_bits("port", 16);
    a.bind(Net::Address{port});
    CHECK(g_binds == 1 && g_last_fd == FD0);
    CHECK(g_addr.sin_port == (u16)((port << 8) | (port >> 8)) && g_addr.sin_addr.s_addr == 0 && g_addr.sin_family == AF_INET);
    g_bind_fails = true;
    MUST_DIE(a.bind(Net::Address{port}));
}
HARNESS(no_socket) {
    g_socket_fails = true;
    MUST_DIE(Udp{});
}
