// vx: * jobs=4 time=300 time_t=800 symmem=0 preempt=3 preempt_t=5
// bounds: coroutines with 0 to 2 suspension points, results of 32-bit values, move-only owning results and no result, owning arguments; await chains up to depth 3; every way of consuming a task (block, await by another task, then, poll, drop) at every point of its life, on one thread and with the resuming thread running concurrently (every interleaving with at most 3, thorough 5, preemptive switches)
// outside: two awaiters of one task; resuming a coroutine that is not suspended; a task that outlives what its coroutine refers to; exceptions
// assume: coroutine frames are laid out and split by the compiler's own coroutine passes (LLVM 18, the passes the build uses)
#include "model.h"
#include <rpp/async.h>

using namespace rpp;
using Thr = Thread::Thread<Mdefault>;
using Async::Task;

static void warm() {
    Async::Alloc::free(Async::Alloc::alloc(1));
}
static u32 g_runs, g_steps;
static std::coroutine_handle<> g_parked[4];
static u32 g_nparked;
struct Park { // suspends and hands the coroutine to whoever resumes it next
    u32 slot;
    bool await_ready() noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) noexcept {
        CHECKM(!g_parked[slot].address(), "harness: slot is free");
        g_parked[slot] = h;
    }
    void await_resume() noexcept {}
};
static void unpark(u32 slot) {
    auto h = g_parked[slot];
    CHECKM(h.address() != nullptr, "a suspended coroutine was not handed over");
    g_parked[slot] = nullptr;
    h.resume();
}
static void reset() {
    g_runs = g_steps = 0;
    for(auto& p : g_parked) p = nullptr;
}
static void end() {
    CHECKM(Tok::count == 0, "an argument, local or result of a coroutine is never destroyed");
}

// bodies: start, park `n` times in slot `slot`, return
static Task<u32> number(u32 v, u32 n, u32 slot) {
    g_runs++;
    for(u32 i = 0; i < n; i++) co_await Park{slot};
    g_steps++;
    co_return v;
}
static Task<Tok> owner(Tok arg, u32 n, u32 slot) {
    g_runs++;
    Tok local(val(arg));
    for(u32 i = 0; i < n; i++) co_await Park{slot};
    g_steps++;
    co_return rpp::move(local);
}
static Task<void> nothing(Tok arg, u32 n, u32 slot) {
    g_runs++;
    for(u32 i = 0; i < n; i++) co_await Park{slot};
    g_steps += val(arg) == 3;
}

// One task, one thread: resumed k of n times, then consumed or dropped.
HARNESS(single) {
    warm();
    Leak leak;
    reset();
    u32 v = vx_bits("v", 32);
    u32 n = (u32)vx_choose("suspensions", 3), k = (u32)vx_choose("resumed", 3);
    bool moved = vx_choose("moved", 2);
    vx_assume(k <= n);
    switch(vx_choose("result", 3)) {
    case 0: {
        Task<u32> t = number(v, n, 0);
        if(moved) { Task<u32> u(rpp::move(t)); CHECK(!t.ok() && u.ok()); t = rpp::move(u); }
        for(u32 i = 0; i < k; i++) { CHECKM(!t.done(), "done before its end"); unpark(0); }
        CHECKM(t.done() == (k == n), "done() is true exactly when the body has returned");
        CHECKM(g_steps == (k == n), "the body runs once");
        if(k == n) CHECKM(t.block() == v, "block yields the returned value");
    } break;
    case 1: {
        Task<Tok> t = owner(Tok(v), n, 0);
        if(moved) { Task<Tok> u(rpp::move(t)); t = rpp::move(u); }
        for(u32 i = 0; i < k; i++) unpark(0);
        CHECKM(t.done() == (k == n), "done() is true exactly when the body has returned");
        if(k == n && vx_choose("take", 2)) {
            Tok r = t.block();
            CHECKM(val(r) == v, "block yields the returned value");
        }
    } break;
    case 2: {
        Task<void> t = nothing(Tok(3u), n, 0);
        if(moved) { Task<void> u(rpp::move(t)); t = rpp::move(u); }
        for(u32 i = 0; i < k; i++) unpark(0);
        CHECKM(t.done() == (k == n), "done() is true exactly when the body has returned");
        CHECKM(g_steps == (k == n), "the body runs once");
        if(k == n) t.block();
    } break;
    }
    // a task dropped early is still run to its end by whoever resumes it, and then cleans up
    for(u32 i = k; i < n; i++) unpark(0);
    CHECKM(g_runs == 1 && g_steps == 1, "the body runs once");
    CHECKM(!g_parked[0].address(), "nothing is left suspended");
    end();
    leak.done();
}

// chains of awaiting tasks; level 0 parks in slot 0, level i parks m_i times before and after awaiting
static Task<Tok> chain(u32 depth, Tok v, u32 n, u32 outer) {
    g_runs++;
    if(depth == 0) {
        for(u32 i = 0; i < n; i++) co_await Park{0};
        g_steps++;
        co_return rpp::move(v);
    }
    Task<Tok> inner = chain(depth - 1, rpp::move(v), n, outer);
    if(outer) co_await Park{depth};
    Tok r = co_await inner;
    g_steps++;
    co_return Tok(val(r) + 1);
}
HARNESS(chained) {
    warm();
    Leak leak;
    reset();
    u32 v = vx_bits("v", 32);
    u32 depth = 1 + (u32)vx_choose("depth", 3), n = (u32)vx_choose("suspensions", 3);
    bool outer = vx_choose("outer", 2), drop = vx_choose("drop", 2);
    {
        Task<Tok> t = chain(depth, Tok(v), n, outer);
        CHECKM(g_runs == depth + 1, "every task starts once");
        // resume what is suspended, in any order, until the whole chain is done
        if(drop) { t = Task<Tok>(); vx_reach("dropped"); }
        for(u32 i = 0; i < n + (outer ? depth : 0); i++) {
            u32 s = (u32)vx_choose("slot", 4);
            vx_assume(g_parked[s].address() != nullptr);
            if(!drop) CHECKM(!t.done(), "done before its end");
            unpark(s);
        }
        CHECKM(g_steps == depth + 1, "every awaiter is resumed once its task is done");
        if(!drop) {
            CHECKM(t.done(), "the outermost task is done");
            Tok r = t.block();
            CHECKM(val(r) == v + depth, "the value is passed along the chain");
            vx_reach("completed");
        }
    }
    end();
    leak.done();
}
HARNESS(then_chain) {
    warm();
    Leak leak;
    reset();
    u32 v = vx_bits("v", 32);
    u32 n = (u32)vx_choose("suspensions", 3);
    {
        auto next = [](u32 x) -> Task<u32> {
            g_steps += 10;
            co_await Park{1};
            co_return x * 3;
        };
        Task<u32> t = number(v, n, 0);
        Task<u32> u = t.then(next);
        for(u32 i = 0; i < n; i++) { CHECK(g_steps == 0); unpark(0); }
        CHECKM(g_steps == 11, "the continuation runs once, after the task");
        CHECK(!u.done());
        unpark(1);
        CHECKM(u.done() && u.block() == v * 3, "then yields the continuation's result");
        // the callable may be a temporary with state of its own
        Task<u32> a = number(v, n, 0);
        Task<u32> b = a.then([tok = Tok{7u}](u32 x) -> Task<u32> {
            co_await Park{2};
            co_return x + val(tok);
        });
        for(u32 i = 0; i < n; i++) unpark(0);
        unpark(2);
        CHECKM(b.done() && b.block() == v + 7, "then keeps a temporary callable alive while it is needed");
    }
    end();
    leak.done();
}
HARNESS(misuse) {
    reset();
    warm();
    Task<u32> e;
    switch(vx_choose("use", 5)) {
    case 0: MUST_DIE(e.block()); break;
    case 1: MUST_DIE(e.done()); break;
    case 2: MUST_DIE(e.resume()); break;
    case 3: MUST_DIE(e.await_ready()); break;
    case 4: {
        Task<u32> t = number(1, 1, 0);
        auto w = [&]() -> Task<u32> { co_return co_await t; }();
        MUST_DIE(t = Task<u32>()); // a task that somebody awaits must not be dropped
        static_cast<void>(w.ok());
    } break;
    }
}

// The coroutine is resumed on another thread while this one consumes the task.
template<typename R>
static void concurrently(bool with_await) {
    warm();
    Leak leak;
    reset();
    u32 v = vx_bits("v", 32);
    {
        Task<R> t = [&] {
            if constexpr(Same<R, u32>) return number(v, 1, 0);
            else if constexpr(Same<R, Tok>) return owner(Tok(v), 1, 0);
            else return nothing(Tok(3u), 1, 0);
        }();
        Thr other([] { unpark(0); });
        if(with_await) {
            auto awaiter = [](Task<R>& t, u32* out) -> Task<void> {
                if constexpr(Same<R, void>) co_await t, *out = 1;
                else *out = val(co_await t);
                CHECKM(g_steps == 1, "an awaiter is resumed before its task is done");
            };
            u32 out = 0;
            {
                Task<void> w = awaiter(t, &out);
                w.block();
                CHECKM(out == (Same<R, void> ? 1 : v), "the awaiter receives the result");
                // the frames end when their coroutine has finished suspending, wherever it runs
                other.join();
            }
            vx_reach("awaited");
        } else {
            switch(vx_choose("use", 3)) {
            case 0:
                if constexpr(Same<R, void>) t.block();
                else CHECKM(val(t.block()) == v, "block yields the result");
                CHECKM(g_steps == 1, "block returned before the task was done");
                vx_reach("blocked");
                break;
            case 1:
                if(t.done()) {
                    CHECKM(g_steps == 1, "done() before the task was done");
                    if constexpr(Same<R, void>) t.block();
                    else CHECKM(val(t.block()) == v, "block yields the result");
                    vx_reach("polled");
                }
                break;
            case 2: vx_reach("dropped"); break;
            }
            {
                Task<R> gone(rpp::move(t)); // dropped here, perhaps while the coroutine is still running
            }
            other.join();
        }
    }
    vx_quiesce();
    CHECKM(g_runs == 1 && g_steps == 1, "the body runs once");
    end();
    leak.done();
}
HARNESS(cross_thread_value) { concurrently<u32>(vx_choose("await", 2)); }
HARNESS(cross_thread_owner) { concurrently<Tok>(vx_choose("await", 2)); }
HARNESS(cross_thread_void) { concurrently<void>(vx_choose("await", 2)); }
