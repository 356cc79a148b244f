// Stand-ins for the operating system's file calls: one file, one descriptor, any split of a transfer,
// any single failing step. The including harness binds vxe_read/vxe_write/vxe_close to file_*.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <unistd.h>


// ---- the operating system: one file
static constexpr u64 CAP = 8;
static constexpr int FD = 37;
static const char* g_name;   // the path the harness used
static bool g_exists;
static u8 g_disk[CAP];
static u64 g_size;
static bool g_open, g_w;
static int g_opens, g_closes;
static u64 g_pos;
static int g_fault;          // which system call fails (counted from 0); -1: none
static int g_call;
static int g_intr;           // interruptions still allowed
static bool g_failed;
static bool g_big;           // content is not modelled: a file of g_size bytes that cannot be read
static u64 g_shrink;         // the file's length from the first read on
static bool g_shrinks;
static bool fault() {
    if(g_call++ == g_fault) {
        int e = vx_choose("errno", 3);
        errno = e == 0 ? EIO : e == 1 ? ENOSPC : EACCES;
        g_failed = true;
        return true;
    }
    return false;
}
static void path_ok(const char* p) {
    u64 i = 0;
    for(; g_name[i]; i++) CHECKM(p[i] == g_name[i], "the system is asked about another path");
    CHECKM(p[i] == 0, "the path given to the system is not terminated");
}
extern "C" {
int vxe_open(const char* path, int flags, ...) {
    path_ok(path);
    CHECKM(!g_open, "opened twice");
    int acc = flags & O_ACCMODE;
    g_w = acc == O_WRONLY || acc == O_RDWR;
    if(fault()) return -1;
    if(!g_exists) {
        if(!(flags & O_CREAT)) {
            errno = ENOENT;
            g_failed = true;
            return -1;
        }
        va_list ap;
        va_start(ap, flags);
        int mode = va_arg(ap, int);
        va_end(ap);
        CHECKM((mode & 0600) == 0600 && !(mode & ~0777), "a created file its owner cannot read and write");
        g_exists = true;
        g_size = 0;
    } else if(g_w && (flags & O_TRUNC)) {
        g_size = 0;
    }
    g_open = true;
    g_pos = 0;
    g_opens++;
    return FD;
}
int file_close(int fd) {
    CHECKM(fd == FD && g_open, "closing a descriptor that is not open");
    g_open = false;
    g_closes++;
    return fault() ? -1 : 0;
}
off_t vxe_lseek(int fd, off_t off, int whence) {
    CHECKM(fd == FD && g_open, "seeking on a descriptor that is not open");
    if(fault()) return -1;
    g_pos = (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? g_pos : g_size) + (u64)off;
    return (off_t)g_pos;
}
int vxe_fstat(int fd, struct stat* s) {
    CHECKM(fd == FD && g_open, "a descriptor that is not open");
    if(fault()) return -1;
    *s = {};
    s->st_mode = S_IFREG | 0644;
    s->st_size = (off_t)g_size;
    return 0;
}
static bool interrupted() {
    if(g_intr > 0 && vx_choose("interrupt", 2)) {
        g_intr--;
        errno = EINTR;
        return true;
    }
    return false;
}
ssize_t file_read(int fd, void* buf, size_t n) {
    CHECKM(fd == FD && g_open && !g_w, "reading a descriptor that is not open for reading");
    if(g_shrinks) {
        g_size = g_shrink;
        g_shrinks = false;
    }
    if(n && interrupted()) return -1;
    if(fault()) return -1;
    CHECK(!g_big);
    u64 left = g_pos < g_size ? g_size - g_pos : 0;
    u64 m = n < left ? n : left;
    if(m > 1) m = 1 + (u64)vx_choose("part", (int)m);
    for(u64 i = 0; i < m; i++) ((u8*)buf)[i] = g_disk[g_pos + i];
    g_pos += m;
    return (ssize_t)m;
}
ssize_t file_write(int fd, const void* buf, size_t n) {
    CHECKM(fd == FD && g_open, "writing a descriptor that is not open");
    if(!g_w) {
        errno = EBADF;
        g_failed = true;
        return -1;
    }
    if(n && interrupted()) return -1;
    if(fault()) return -1;
    u64 m = n;
    if(m > 1) m = 1 + (u64)vx_choose("part", (int)m);
    CHECKM(g_pos + m <= CAP, "more is written than was given");
    for(u64 i = 0; i < m; i++) g_disk[g_pos + i] = ((const u8*)buf)[i];
    g_pos += m;
    if(g_pos > g_size) g_size = g_pos;
    return (ssize_t)m;
}
static bool g_stat_fails;
static i64 g_mtime;
int vxe_stat(const char* path, struct stat* s) {
    path_ok(path);
    if(g_stat_fails) {
        errno = ENOENT;
        return -1;
    }
    __builtin_memset(s, 0x55, sizeof *s);
    s->st_mtime = g_mtime;
    return 0;
}
}

