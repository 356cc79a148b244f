// vx: * jobs=6 time=300 time_t=820
#include "model.h"
using namespace rpp;
using RA = Region_Allocator;

// ---- the system's memory: blocks of symbolic sizes
static constexpr u64 SLOT = 65536;
alignas(16) static u8 g_arena[6][SLOT];
static u64 g_size[6];
static bool g_used[6];
static bool g_on;
extern "C" {
void* vxe_malloc(size_t n) {
    CHECKM(n <= SLOT, "harness: block too large");
    for(u32 i = 0; i < 6; i++)
        if(!g_used[i]) {
            g_used[i] = true;
            g_size[i] = n;
            return g_arena[i];
        }
    vx_fail("harness: too many blocks");
}
void vxe_free(void* p) {
    for(u32 i = 0; i < 6; i++)
        if(p == g_arena[i]) {
            CHECKM(g_used[i], "memory is returned twice");
            g_used[i] = false;
            return;
        }
    vx_fail("memory is returned that was never given");
}
}
struct Block {
    u64 p, n;
    int slot; // -1: not from the system
};
static Block g_b[8];
static u32 g_n;
static u64 g_first; // where a thread's own first memory lies

static void add(void* mem, u64 n) {
    u64 p = (u64)mem;
    CHECKM((p & 15) == 0, "region memory is not aligned for every type");
    for(u32 i = 0; i < g_n; i++)
        CHECKM((n == 0) | (g_b[i].n == 0) | (p + n <= g_b[i].p) | (g_b[i].p + g_b[i].n <= p), "memory is handed out that is still in use");
    int slot = -1;
    for(u32 i = 0; i < 6; i++) {
        u64 base = (u64)g_arena[i];
        if((p >= base) & (p < base + SLOT)) slot = (int)i;
    }
    if(slot >= 0) {
        u64 base = (u64)g_arena[slot];
        CHECKM(g_used[slot], "memory is handed out that was returned to the system");
        CHECKM(p + n <= base + g_size[slot], "region memory extends past its chunk");
    } else {
        CHECKM((p >= g_first) & (p + n <= g_first + (1 << 24)), "region memory lies outside every chunk");
    }
    g_b[g_n++] = {p, n, slot};
}
template<u64 R>
static void symbolic(u32& allocs) {
    u32 mine = g_n;
    u64 depth = RA::depth(), size = RA::size();
    {
        RA::Scope<R> scope;
        CHECK(RA::depth() == depth + 1);
        CHECK(RA::size() == size);
        for(;;) {
            int op = vx_choose("op", R < 13 ? 3 : 2);
            if(op == 0) break;
            if(op == 1) {
                vx_assume(allocs > 0);
                allocs--;
                u64 n = vx_bits("size", 12), before = RA::size();
                add(RA::alloc(R, n), n);
                CHECKM(RA::size() >= before + n, "the memory in use is undercounted");
            } else if constexpr(R < 13) {
                vx_assume(allocs > 0);
                allocs--;
                symbolic<R + 1>(allocs);
            }
        }
        for(u32 i = 0; i < g_n; i++)
            if(g_b[i].slot >= 0) CHECKM(g_used[g_b[i].slot], "memory in use was returned to the system");
    }
    g_n = mine;
    CHECKM(RA::depth() == depth, "leaving a region leaves another depth");
    CHECKM(RA::size() == size, "leaving a region does not release exactly its own memory");
}
HARNESS(sizes) {
    {
        RA::Scope<9> s;
        g_first = (u64)RA::alloc(9, 0);
    }
    u32 allocs = QT(4, 5);
    symbolic<11>(allocs);
    CHECK(RA::size() == 0 && RA::depth() == 0);
    for(bool u : g_used) CHECKM(!u, "memory is never returned to the system");
}

