// Native side of the harness interface: replays one counterexample against the compiled code.
// exit 10: the reported violation happened; 0: the run completed without one; 11: diverged.
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <string>
#include <unistd.h>
#include <vector>
typedef unsigned long long u64;
struct In { std::string name; int width; u64 v; };
static std::vector<In> g_in;
static size_t g_pos;
std::vector<unsigned char> vxr_sched;
std::string vxr_kind;
static bool g_die;
static u64 g_nproc = 2;
static std::atomic<long long> g_live;
static bool g_verbose;

extern "C" [[noreturn]] void vxn_bad(const char* m) {
    printf("VX-REPLAY: %s\n", m);
    fflush(stdout);
    _exit(10);
}
static u64 take(const char* n, int bits) {
    if(g_pos >= g_in.size() || g_in[g_pos].name != n) {
        printf("VX-REPLAY: diverged at input %s (recorded %s)\n", n, g_pos < g_in.size() ? g_in[g_pos].name.c_str() : "none");
        fflush(stdout);
        _exit(11);
    }
    u64 v = g_in[g_pos++].v;
    if(g_verbose) printf("input %s = %llu\n", n, v);
    return bits < 64 ? v & (((u64)1 << bits) - 1) : v;
}
static long long sx(u64 v, int bits) { return bits >= 64 ? (long long)v : (long long)(v << (64 - bits)) >> (64 - bits); }
extern "C" {
u64 vx_bits(const char* n, int b) { return take(n, b); }
long long vx_sbits(const char* n, int b) { return sx(take(n, b), b); }
float vx_f32i(const char* n, int b) { return (float)sx(take(n, b), b); }
int vx_choose(const char* n, int k) {
    int bits = 1;
    while(((u64)1 << bits) < (u64)k) bits++;
    return (int)take(n, bits);
}
int vx_same(u64, u64) { return (int)take("same", 1); }
void vx_assume(bool b) {
    if(!b) { printf("VX-REPLAY: assumption does not hold\n"); fflush(stdout); _exit(11); }
}
void vx_check(bool b, const char* m) { if(!b) vxn_bad((std::string("check failed: ") + m).c_str()); }
[[noreturn]] void vx_fail(const char* m) { vxn_bad((std::string("check failed: ") + m).c_str()); }
void vx_reach(const char*) {}
void vx_expect_die(int e) { g_die = e; }
long long vx_live_allocs() { return g_live.load(); }
u64 vx_concrete(u64 v) { return v; }
int vx_symbolic() { return 0; }
int vxn_real_log = 0;
void vx_option(const char* n, u64 v) {
    if(!strcmp(n, "real_log")) vxn_real_log = (int)v;
    if(!strcmp(n, "nproc")) g_nproc = v;
}
void vx_dump(const char* n, u64 v) { printf("[dump] %s = %llx\n", n, v); }
void vx_yield() {}
void vx_quiesce() {}
long vxn_sysconf(int) { return (long)g_nproc; }
void vxn_align(void* p, u64 a) { if((u64)p & (a - 1)) vxn_bad("misaligned memory access"); }
void vxn_die(const char* why) {
    if(g_die) { printf("VX-REPLAY: stopped as required\n"); fflush(stdout); _exit(0); }
    vxn_bad(why);
}
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
}
static void onsig(int s) {
    if(s == SIGTRAP) vxn_die("stopped by a fatal error (die/assert)");
    if(s == SIGALRM) vxn_bad("does not terminate");
    vxn_bad(s == SIGILL ? "undefined behaviour trap" : "signal");
}
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r");
    if(!f) return 3;
    static char line[1 << 16];
    std::string h;
    while(fgets(line, sizeof line, f)) {
        char a[256], b[256];
        if(sscanf(line, "harness %255s", a) == 1) h = a;
        else if(sscanf(line, "kind %255s", a) == 1) vxr_kind = a;
        else if(sscanf(line, "input %255s %255s", a, b) == 2) {
            char* c = strchr(b, ':');
            g_in.push_back({a, atoi(b), strtoull(c + 1, nullptr, 16)});
        } else if(!strncmp(line, "sched", 5)) {
            for(char* t = strtok(line + 5, " \n"); t; t = strtok(nullptr, " \n")) vxr_sched.push_back((unsigned char)atoi(t));
        }
    }
    fclose(f);
    g_verbose = argc > 2;
    for(int s : {SIGTRAP, SIGILL, SIGABRT, SIGALRM, SIGFPE}) signal(s, onsig);
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, h.c_str());
    if(!fn) { printf("no harness %s\n", h.c_str()); return 3; }
    alarm(getenv("VX_ALARM") ? atoi(getenv("VX_ALARM")) : 20);
    if(__sanitizer_install_malloc_and_free_hooks)
        __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t) { g_live++; }, [](const volatile void* p) { if(p) g_live--; });
    fn();
    printf("VX-REPLAY: completed without violation\n");
    fflush(stdout);
    _exit(0);
}
