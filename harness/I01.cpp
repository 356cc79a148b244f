// vx: * jobs=6 time=300 time_t=800 symmem=0
// bounds: file contents of 0 to 5 (thorough 7) arbitrary bytes; every split of a transfer into parts; up to 2 (thorough 3) interruptions by signals; failure of any single step (open, either seek, any read or write, close) with an arbitrary error; files of any length below 4 GB whose first read fails; a file that shrinks between sizing and reading; paths of up to 3 characters; all 64-bit modification times, up to 3 (thorough 4) polls
// outside: concurrent writers, files growing while they are read, files of 4 GB and more (the code stops the program), several failures in one call
// assume: the operating system's file calls are modelled: one file, a descriptor table that tracks what is open, any transfer count the interface allows
#include "model.h"
using namespace rpp;
#include "fsk.h"
#include <rpp/files.h>
extern "C" {
int vxe_close(int fd) {
    return file_close(fd);
}
ssize_t vxe_read(int fd, void* buf, size_t n) {
    return file_read(fd, buf, n);
}
ssize_t vxe_write(int fd, const void* buf, size_t n) {
    return file_write(fd, buf, n);
}
}

struct World {
    Leak leak;
    char buf[6];
    String_View path;
    World() {
        (void)(warn("warm up the log and its region"));
        Region(R) {
            (void)String<Mregion<R>>{16};
        }
        // the view is a piece of a longer text: it is not terminated by itself
        u64 len = 1 + (u64)vx_choose("path", 3);
        static char name[6];
        for(u64 i = 0; i < len; i++) buf[i] = name[i] = (char)('a' + i);
        buf[len] = '?';
        name[len] = 0;
        path = String_View{(const u8*)buf, len};
        g_name = name;
        g_fault = -1;
        Files::Alloc::free(Files::Alloc::alloc(1));
        leak = Leak{};
    }
    void done() {
        CHECKM(!g_open && g_opens == g_closes, "the descriptor is not closed");
        leak.done();
    }
};
static constexpr int STEPS = 12;

static void disk() {
    g_exists = true;
    g_size = (u64)vx_choose("size", QT(5, 7) + 1);
    for(u64 i = 0; i < g_size; i++) g_disk[i] = (u8)vx_bits("content", 8);
}

HARNESS(read) {
    World w;
    g_intr = QT(2, 3);
    disk();
    g_fault = vx_choose("fault", STEPS + 1) - 1;
    u64 size = g_size;
    {
        auto got = Files::read(w.path);
        if(g_failed && g_opens == g_closes && g_call == g_fault + 1 && !g_open && got.ok()) {
            // only the last step, closing a file that was read completely, may fail unreported
            vx_reach("close failed");
        } else if(g_failed) {
            CHECKM(!got.ok(), "a failed read is reported as success");
            vx_reach("failed");
        } else {
            CHECKM(got.ok(), "a successful read is reported as failure");
            vx_reach("read");
        }
        if(got.ok()) {
            CHECKM(got->length() == size, "the wrong number of bytes");
            for(u64 i = 0; i < size; i++) CHECKM((*got)[i] == g_disk[i], "wrong content");
        }
    }
    w.done();
}
HARNESS(read_missing) {
    World w;
    {
        auto got = Files::read(w.path);
        CHECK(!got.ok());
    }
    w.done();
}
// a file of any length, of which nothing can be read
HARNESS(read_large) {
    World w;
    g_exists = g_big = true;
    g_size = vx_choose("size", 3) == 0 ? 5000 : 70000;
    g_fault = 3;
    {
        auto got = Files::read(w.path);
        CHECK(!got.ok());
    }
    w.done();
}
// the file loses its tail between sizing and reading
HARNESS(read_shrunk) {
    World w;
    disk();
    g_shrink = (u64)vx_choose("left", QT(5, 7) + 1);
    vx_assume(g_shrink <= g_size);
    g_shrinks = true;
    {
        auto got = Files::read(w.path);
        if(got.ok()) {
            CHECKM(got->length() == g_size, "bytes are invented for a file that has become shorter");
            for(u64 i = 0; i < g_size; i++) CHECK((*got)[i] == g_disk[i]);
        }
    }
    w.done();
}

HARNESS(write) {
    World w;
    g_intr = QT(2, 3);
    int old = vx_choose("old", 3); // none, shorter, longer
    g_exists = old != 0;
    g_size = old == 0 ? 0 : old == 1 ? 1 : CAP;
    g_fault = vx_choose("fault", STEPS + 1) - 1;
    u8 data[8];
    u64 n = (u64)vx_choose("length", QT(5, 7) + 1);
    for(u64 i = 0; i < n; i++) data[i] = (u8)vx_bits("content", 8);
    bool ok = Files::write(w.path, Slice<const u8>{data, n});
    if(g_failed) {
        CHECKM(!ok, "a failed write is reported as success");
        vx_reach("failed");
    } else {
        CHECKM(ok, "a successful write is reported as failure");
        vx_reach("written");
    }
    if(ok) {
        CHECKM(g_exists && g_size == n, "the file does not have the length of what was written");
        for(u64 i = 0; i < n; i++) CHECKM(g_disk[i] == data[i], "wrong content");
    }
    w.done();
}
HARNESS(round_trip) {
    World w;
    g_intr = 1;
    g_exists = vx_choose("old", 2);
    g_size = g_exists ? 7 : 0;
    u8 data[8];
    u64 n = (u64)vx_choose("length", QT(3, 5) + 1);
    for(u64 i = 0; i < n; i++) data[i] = (u8)vx_bits("content", 8);
    CHECK(Files::write(w.path, Slice<const u8>{data, n}));
    {
        auto got = Files::read(w.path);
        CHECK(got.ok() && got->length() == n);
        for(u64 i = 0; i < n; i++) CHECK((*got)[i] == data[i]);
    }
    w.done();
}

HARNESS(times) {
    World w;
    g_mtime = (i64)vx_bits("mtime", 64);
    g_stat_fails = vx_choose("missing", 2);
    auto t = Files::last_write_time(w.path);
    CHECK(t.ok() == !g_stat_fails);
    if(t.ok()) CHECK(*t == (u64)g_mtime);
    u64 a = vx_bits("a", 64), b = vx_bits("b", 64);
    CHECK(Files::before(a, b) == (a < b));
    w.done();
}
HARNESS(watcher) {
    World w;
    u64 last = 0;
    bool empty = vx_choose("no path", 2);
    if(empty) w.path = String_View{};
    g_mtime = (i64)vx_bits("mtime", 63);
    g_stat_fails = vx_choose("missing", 2);
    if(!g_stat_fails && !empty) last = (u64)g_mtime;
    Files::Write_Watcher ww{w.path};
    CHECK(ww.path().length() == w.path.length() && ww.path().data() == w.path.data());
    for(int i = 0, n = QT(3, 4); i < n; i++) {
        g_mtime = (i64)vx_bits("mtime", 63);
        g_stat_fails = vx_choose("missing", 2);
        bool changed = ww.poll();
        if(empty || g_stat_fails) {
            CHECKM(!changed, "a change is reported of a file that cannot be examined");
        } else {
            CHECKM(changed == (last < (u64)g_mtime), "poll does not tell whether the file was written since");
            last = (u64)g_mtime;
        }
    }
    g_exists = true;
    g_size = 1;
    g_disk[0] = (u8)vx_bits("content", 8);
    if(!empty) {
        auto got = ww.read();
        CHECK(got.ok() && got->length() == 1 && (*got)[0] == g_disk[0]);
    }
    w.done();
}
