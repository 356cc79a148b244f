// Harness interface: these functions are interpreted by the symbolic executor (engine/) and, for
// replay of a counterexample against the real build, implemented natively by native/vxn.cpp.
#pragma once
extern "C" {
unsigned long long vx_bits(const char* name, int bits);  // arbitrary value of that many bits
long long vx_sbits(const char* name, int bits);          // same, sign extended
float vx_f32i(const char* name, int bits);               // arbitrary integer-valued float
int vx_choose(const char* name, int n);                  // arbitrary value in [0,n), one path each
void vx_assume(bool);
void vx_check(bool, const char* msg);
[[noreturn]] void vx_fail(const char* msg);
void vx_reach(const char* label);
void vx_expect_die(int);
long long vx_live_allocs();
unsigned long long vx_concrete(unsigned long long);
int vx_symbolic();
int vx_same(unsigned long long, unsigned long long);     // the same expression? (a cache, not a test)
void vx_option(const char* name, unsigned long long);
void vx_dump(const char* name, unsigned long long);
void vx_yield();
void vx_quiesce(); // returns once every other thread has ended
}
#define VX_STR2(x) #x
#define VX_STR(x) VX_STR2(x)
#define CHECK(c) vx_check(!!(c), #c " [line " VX_STR(__LINE__) "]")
#define CHECKM(c, m) vx_check(!!(c), m " [line " VX_STR(__LINE__) "]")
#define HARNESS(n) extern "C" void vxh_##n()
// the operation must stop the program through the library's fatal-error path
#define MUST_DIE(expr)                                                                             \
    do {                                                                                           \
        vx_expect_die(1);                                                                          \
        (void)(expr);                                                                              \
        vx_expect_die(0);                                                                          \
        vx_fail("returned instead of stopping: " #expr " [line " VX_STR(__LINE__) "]");            \
    } while(0)
