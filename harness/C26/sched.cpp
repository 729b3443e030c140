// A promise decided in one thread while other threads wait on its future: every interleaving of the synchronisation operations.
//VP name=take tier=both flags="-DVM=1" opts="--sched-refcnt" desc="take against fulfilment, failure, abandonment or destruction, any value, one spurious wake-up, every schedule"
//VP name=takevoid tier=both flags="-DVM=1 -DVT=1" opts="--sched-refcnt" desc="as take, a future of nothing"
//VP name=waiters tier=both flags="-DVM=2" opts="--sched-refcnt" desc="two threads waiting on one future, then taken, every kind of decision, every schedule"
//VP name=three tier=thorough flags="-DVM=2 -DVW=3 -DVS=1" opts="--sched-refcnt" desc="three threads waiting on one future, one spurious wake-up"
//VP name=timed tier=both flags="-DVM=3" opts="--sched-refcnt" desc="timed waits (for and until) with any short time, then a take, every schedule"
//VP name=poll tier=both flags="-DVM=4" opts="--sched-refcnt" desc="a reader that polls isReady before it takes, every schedule"
//VP name=move tier=both flags="-DVM=5" opts="--sched-refcnt" desc="the promise is moved over while the future is waited on, every schedule"
//VP name=drop tier=both flags="-DVM=6" opts="--sched-refcnt" desc="the future is dropped while the promise is decided, every schedule"
#include <vp.h>
#include <chrono>
#include <exception>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/Future.h>
#ifndef VT
#define VT 0
#endif
#ifndef VS
#define VS (VM == 2 ? 0 : 1)
#endif
#ifndef VW
#define VW 2
#endif
struct Bang { int v; };
struct Val { // plain bytes, so that a read that is not ordered after the construction is a race
    int a, b; static int live;
    Val(int x) : a(x), b(~x) {} Val(Val && o) : a(o.a), b(o.b) {} Val(Val const &) = delete;
};
#if VT
using T = void;
#else
using T = Val;
#endif
using P = sharemind::Promise<T>; using F = sharemind::Future<T>;
static void decide(std::unique_ptr<P> & p, int how, int x) {
    switch (how) {
#if VT
    case 0: p->setReady(); break;
#else
    case 0: p->emplaceValue(x); break;
#endif
    case 1: p->setException(std::make_exception_ptr(Bang{x})); break;
    case 2: p->abandon(); break;
    default: p.reset();
    }
}
static void take(F & f, int how, int x) {
    try {
#if VT
        f.takeValue(); vp_check(how == 0, "a value exactly when one was set");
#else
        Val const v(f.takeValue()); vp_check(how == 0 && v.a == x && v.b == ~x, "the value that was set, fully constructed");
#endif
    } catch (Bang const & b) { vp_check(how == 1 && b.v == x, "the exception that was set"); }
    catch (sharemind::BrokenPromiseException const &) { vp_check(how >= 2, "broken exactly when undecided"); }
}
int main() {
    vp_leak_mark();
    {
        int const how = vp_choose(4, "decision"), x = vp_any<int>("value");
        auto p = std::make_unique<P>(); F f(p->takeFuture());
        if (VS) vp_spurious(VS);
#if VM == 1
        std::thread t([&] { decide(p, how, x); });
        int const w = vp_choose(2, "wait first"); if (w) { f.wait(); vp_check(f.isReady(), "a wait ends with the decision"); }
        take(f, how, x); vp_check(!f.isValid(), "taken"); t.join();
#elif VM == 2
        std::unique_ptr<std::thread> t[VW];
        for (auto & i : t) i = std::make_unique<std::thread>([&f] { F const & g = f; g.wait(); vp_check(g.isReady(), "a wait ends with the decision"); });
        decide(p, how, x);
        for (auto & i : t) i->join();
        take(f, how, x);
#elif VM == 3
        bool done = false;
        std::thread t([&] { decide(p, how, x); });
        int64_t const before = vp_now(); bool const until = vp_choose(2, "until");
        int const ms = vp_choose(2, "milliseconds") * 10;
        bool const r = until ? f.waitUntil(std::chrono::steady_clock::now() + std::chrono::milliseconds(ms)) : f.waitFor(std::chrono::milliseconds(ms));
        if (r) vp_check(f.isReady(), "success means ready"); else vp_check(vp_now() >= before + int64_t(ms) * 1000000, "failure means the time is over");
        if (r || vp_choose(2, "join first") == 0) take(f, how, x);
        else { t.join(); done = true; vp_check(f.waitFor(std::chrono::seconds(0)) && f.isReady(), "ready after the decision"); take(f, how, x); }
        if (!done) t.join();
#elif VM == 4
        std::thread t([&] { decide(p, how, x); });
        if (f.isReady()) { vp_check(f.waitFor(std::chrono::seconds(0)), "ready stays ready"); take(f, how, x); t.join(); }
        else { t.join(); vp_check(f.isReady(), "ready after the decision"); take(f, how, x); }
#elif VM == 5
        std::thread t([&] { if (how == 0) *p = P(); else if (how == 1) { P q(std::move(*p)); } else decide(p, how, x); });
        take(f, how < 2 ? 2 : how, x); t.join();
#else
        std::thread t([&] { decide(p, how, x); });
        { F g(std::move(f)); if (vp_choose(2, "look")) (void) g.isReady(); } t.join();
#endif
        p.reset();
    }
    vp_leak_check();
}
