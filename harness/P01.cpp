// vx: * jobs=5 time=300 time_t=820 symmem=0
// vx: concurrent,thread_ends preempt=2 preempt_t=3
// bounds: all nested histories of up to 7 (thorough 9) zone entries and exits over two zones, with an arbitrary monotonic clock (8-bit steps); up to 3 (thorough 4) frames in a row, zones entered and left outside frames; a profiled thread and a reader, all interleavings within 2 (thorough 3) preemptions; a thread that ends during and outside a frame
// outside: the float conversion of durations beyond 2^24 ns; builds with profiling switched off
// assume: the clock is the system's monotonic clock
#include "model.h"
#include <rpp/thread.h>
#include <time.h>
using namespace rpp;
using Node = Profile::Timing_Node;

static u64 g_clock = 1000;
extern "C" int vxe_clock_gettime(int, struct timespec* t) {
    t->tv_sec = 0;
    t->tv_nsec = (long)g_clock;
    return 0;
}
static bool g_plain; // distinct fixed steps in place of arbitrary ones
static u64 g_step = 1;
static void tick() {
    if(g_plain) g_clock += (g_step = g_step * 3 % 251);
    else g_clock += vx_bits("tick", 8);
}

// ---- the true tree
struct True_Node {
    int zone, parent;
    u64 calls, total, since;
    u64 self; // the time during which this was the innermost
};
struct Tree {
    True_Node n[10];
    int count, cur;
    u64 begin, end, last;
    void pass() {
        n[cur].self += g_clock - last;
        last = g_clock;
    }
    void start() {
        last = g_clock;
        count = 1;
        cur = 0;
        n[0] = {-1, 0, 1, 0, 0, 0};
        begin = g_clock;
    }
    void enter(int z) {
        pass();
        int c = 1;
        while(c < count && !(n[c].parent == cur && n[c].zone == z)) c++;
        if(c == count) n[count++] = {z, cur, 0, 0, 0, 0};
        n[c].calls++;
        n[c].since = g_clock;
        cur = c;
    }
    void exit() {
        pass();
        n[cur].total += g_clock - n[cur].since;
        cur = n[cur].parent;
    }
    void stop() {
        pass();
        end = g_clock;
        n[0].total = end - begin;
    }
    void judge(u32 max_nodes = 10);
};
static const Node* g_seen[12];
static int g_nseen;
static bool is_zone(const Node& n, int z) {
    String_View want = z == 0 ? "zone a"_v : z == 1 ? "zone b"_v : "Frame"_v;
    return n.loc.function == (z < 0 ? "Frame"_v : want);
}
void Tree::judge(u32) {
    g_nseen = 0;
    Profile::iterate_timings([](Thread::Id id, const Node& node) {
        CHECKM(id == Thread::this_id(), "a zone is attributed to another thread");
        CHECKM(g_nseen < 12, "more zones are recorded than were entered");
        g_seen[g_nseen++] = &node;
    });
    CHECKM(g_nseen == count, "the number of recorded zones is not that of distinct call paths");
    bool timed = true, own = true;
    int map[12]; // recorded -> true
    map[0] = 0;
    bool used[12] = {true};
    CHECKM(is_zone(*g_seen[0], -1) && g_seen[0]->parent == 0, "the first node is not the frame");
    for(int i = 1; i < g_nseen; i++) {
        const Node& s = *g_seen[i];
        CHECKM(s.parent < (u64)i, "a zone is recorded before its parent");
        int m = -1;
        for(int k = 1; k < count; k++)
            if(n[k].parent == map[s.parent] && is_zone(s, n[k].zone)) m = k;
        CHECKM(m > 0, "a zone is recorded that was not entered there");
        CHECKM(!used[m], "one call path is recorded twice");
        used[m] = true;
        map[i] = m;
        CHECKM(s.calls == n[m].calls, "a zone counts another number of entries");
        timed &= s.heir_time == n[m].total;
        bool listed = false;
        for(u64 c : g_seen[s.parent]->children) listed |= c == (u64)i;
        CHECKM(listed, "a zone is missing from its parent's children");
    }
    timed &= g_seen[0]->heir_time == n[0].total;
    timed &= (g_seen[0]->begin == begin) & (g_seen[0]->end == end);
    u64 listed = 0;
    for(int i = 0; i < g_nseen; i++) {
        for(u64 c : g_seen[i]->children) {
            CHECKM(c < (u64)g_nseen && g_seen[c]->parent == (u64)i, "a child is listed under another parent");
            listed++;
        }
        own &= g_seen[i]->self_time == n[map[i]].self;
    }
    CHECKM(listed == (u64)g_nseen - 1, "a zone is listed twice");
    CHECKM(timed, "the time of a zone or frame is not the time spent in it");
    CHECKM(own, "a zone's own time is not what its children leave");
}
static void enter(int z) {
    Profile::enter(z ? "zone b"_v : "zone a"_v);
}
static Tree g_tree;
static void history(int steps) {
    Tree& t = g_tree;
    int depth = 0;
    (void)Profile::begin_frame();
    t.start();
    for(int k = 0; k < steps; k++) {
        tick();
        int op = vx_choose("op", depth ? 4 : 3);
        if(op == 0) break;
        if(op < 3) {
            enter(op - 1);
            t.enter(op - 1);
            depth++;
        } else {
            Profile::exit();
            t.exit();
            depth--;
        }
    }
    while(depth--) {
        tick();
        Profile::exit();
        t.exit();
    }
    tick();
    Profile::end_frame();
    t.stop();
    tick();
}
HARNESS(nesting) {
    Leak leak;
    history(QT(7, 9));
    g_tree.judge();
    Profile::finalize();
    CHECK(sys_net_allocs() == 0);
}
// scopes and locations: the same function at two lines is two zones
static void traced(int& n) {
    Trace("zone a") {
        n++;
        Trace("zone b") n++;
    }
}
HARNESS(scopes) {
    int n = 0;
    (void)Profile::begin_frame();
    g_tree.start();
    for(int i = 0, m = vx_choose("times", 4); i < m; i++) {
        traced(n);
        g_tree.enter(0);
        g_tree.enter(1);
        g_tree.exit();
        g_tree.exit();
    }
    Profile::end_frame();
    g_tree.stop();
    g_tree.judge();
}
HARNESS(locations) {
    Log::Location a{"zone a"_v, "f.cpp"_v, 3}, b{"zone a"_v, "f.cpp"_v, 4}, c{"zone a"_v, "g.cpp"_v, 3};
    (void)Profile::begin_frame();
    Profile::enter(a);
    Profile::exit();
    Profile::enter(vx_choose("other", 2) ? b : c);
    Profile::exit();
    Profile::enter(a);
    Profile::exit();
    Profile::end_frame();
    int seen = 0;
    u64 calls = 0;
    Profile::iterate_timings([&](Thread::Id, const Node& n) {
        seen++;
        calls = calls * 10 + n.calls;
    });
    CHECKM(seen == 3 && calls == 121, "zones at different places are recorded as one");
}

// frames: what is iterated is the last complete frame; outside frames nothing is recorded
HARNESS(frames) {
    Leak leak;
    g_plain = true;
    int n = 1 + vx_choose("frames", QT(3, 4));
    for(int i = 0; i < n; i++) {
        if(vx_choose("outside", 2)) {
            enter(0);
            Profile::exit();
        }
        bool last = i == n - 1;
        if(last && i > 0 && vx_choose("during", 2)) { // during a frame, the previous one is shown
            float s = Profile::begin_frame();
            CHECK(s >= 0);
            enter(1);
            g_tree.judge();
            Profile::exit();
            Profile::end_frame();
            Profile::finalize();
            CHECK(sys_net_allocs() == 0);
            vx_reach("during");
            return;
        }
        history(last ? 2 : QT(1, 2));
        if(!last && vx_choose("look", 2)) g_tree.judge();
    }
    g_tree.judge();
    Profile::finalize();
    CHECK(sys_net_allocs() == 0);
}
HARNESS(frame_time) {
    float first = Profile::begin_frame();
    CHECK(first == 0.0f);
    u64 d = (u64)vx_choose("delta", 3);
    d = d == 0 ? 0 : d == 1 ? 500000000 : 2000000000;
    g_clock += d / 2;
    Profile::end_frame();
    g_clock += d - d / 2;
    float s = Profile::begin_frame();
    CHECKM(s == (d == 0 ? 0.0f : d == 500000000 ? 0.5f : 2.0f), "the time since the last frame began");
    Profile::end_frame();
    CHECK(Profile::ms(2500000) == 2.5f);
    CHECK(Profile::s(1500000000) == 1.5f);
    CHECK(Profile::timestamp() == g_clock);
}
HARNESS(many_frames) { // memory for frames is bounded
    i64 most = 0;
    for(int i = 0; i < 24; i++) {
        (void)Profile::begin_frame();
        Profile::end_frame();
        if(i == 11) most = vx_live_allocs();
    }
    CHECKM(vx_live_allocs() <= most, "frames accumulate without bound");
}

// misuse stops the program
HARNESS(end_without_begin) {
    if(vx_choose("after", 2)) {
        (void)Profile::begin_frame();
        Profile::end_frame();
    }
    MUST_DIE(Profile::end_frame());
}
HARNESS(begin_twice) {
    (void)Profile::begin_frame();
    MUST_DIE((void)Profile::begin_frame());
}
HARNESS(end_inside_zone) {
    (void)Profile::begin_frame();
    enter(0);
    if(vx_choose("two", 2)) enter(1);
    MUST_DIE(Profile::end_frame());
}

// a finished program may be inside a frame
HARNESS(finalize_in_frame) {
    (void)Profile::begin_frame();
    enter(0);
    Profile::exit();
    Profile::finalize();
    CHECK(sys_net_allocs() == 0);
    vx_reach("finalized");
}
HARNESS(thread_ends) {
    int kind = vx_choose("kind", 3);
    {
        Thread::Thread t([kind] {
            if(kind == 0) return;
            (void)Profile::begin_frame();
            enter(0);
            Profile::exit();
            if(kind == 1) Profile::end_frame();
        });
        t.join();
    }
    Profile::iterate_timings([&](Thread::Id, const Node&) { vx_fail("a thread that has ended is still shown"); });
    Profile::finalize();
    CHECK(sys_net_allocs() == 0);
    vx_reach("done");
}
// a reader sees only complete frames, each thread under its own id
static Thread::Id g_worker, g_main;
HARNESS(concurrent) {
    g_main = Thread::this_id();
    {
        Thread::Thread t([] {
            (void)Profile::begin_frame();
            enter(0);
            Profile::exit();
            enter(0);
            Profile::exit();
            Profile::end_frame();
        });
        (void)Profile::begin_frame();
        enter(1);
        Profile::exit();
        Profile::end_frame();
        int mine = 0, theirs = 0;
        u64 calls = 0;
        Profile::iterate_timings([&](Thread::Id id, const Node& n) {
            if(id == g_main) {
                CHECK(is_zone(n, mine ? 1 : -1));
                mine++;
            } else {
                CHECK(is_zone(n, theirs ? 0 : -1));
                theirs++;
                calls += n.calls;
            }
        });
        CHECKM(mine == 2, "a complete frame is not shown");
        CHECKM(theirs == 0 || (theirs == 2 && calls == 3), "an incomplete frame is shown");
        if(theirs) vx_reach("both");
        else vx_reach("one");
        t.join();
    }
    Profile::finalize();
    CHECK(sys_net_allocs() == 0);
}
