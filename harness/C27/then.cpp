// Continuations: every order and interleaving of attaching and deciding, every kind of outcome and of continuation.
//VP name=val tier=both flags="-DVT=0 -DVM=0" desc="a future of a move-only value: decided before or after attaching, four outcomes, nine kinds of continuation, a second continuation on the result, any values"
//VP name=void tier=both flags="-DVT=1 -DVM=0" desc="as val, a future of nothing"
//VP name=sval tier=both flags="-DVT=0 -DVM=1" opts="--sched-refcnt" desc="as val, decided in another thread while attaching, every schedule"
//VP name=svoid tier=both flags="-DVT=1 -DVM=1" opts="--sched-refcnt" desc="as void, decided in another thread while attaching, every schedule"
#include <vp.h>
#include <atomic>
#include <chrono>
#include <exception>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/Future.h>
static std::atomic<int> live(0); // relaxed: must not order anything by itself
struct Bang { int v; };
struct Val {
    int v; explicit Val(int x) : v(x) { live.fetch_add(1, std::memory_order_relaxed); } Val(Val && o) noexcept : v(o.v) { o.v = -1; live.fetch_add(1, std::memory_order_relaxed); } Val(Val const &) = delete; ~Val() { live.fetch_sub(1, std::memory_order_relaxed); }
};
#if VT
using T = void;
#else
using T = Val;
#endif
template <class X> using Fut = sharemind::Future<X>;
using P = sharemind::Promise<T>; using F = Fut<T>;
static int runs = 0, how, x, y;
static void decide(P & p) {
    switch (how) {
#if VT
    case 0: p.setReady(); break;
#else
    case 0: p.setValue(Val(x)); break;
#endif
    case 1: p.setException(Bang{x}); break;
    case 2: p.abandon(); break;
    default: { P q(std::move(p)); }
    }
}
static void arrived(F && f) { // what the continuation receives
    ++runs; vp_check(runs == 1, "the continuation runs once"); vp_check(f.isValid() && f.isReady(), "the continuation receives the ready future");
    try {
#if VT
        f.takeValue(); vp_check(how == 0, "a value exactly when one was set");
#else
        Val const v(f.takeValue()); vp_check(how == 0 && v.v == x, "the value that was set");
#endif
    } catch (Bang const & b) { vp_check(how == 1 && b.v == x, "the exception that was set"); }
    catch (sharemind::BrokenPromiseException const &) { vp_check(how >= 2, "broken exactly when undecided"); }
}
enum Out { OVal, OBang, OBroken };
static void expect(Out out, Fut<int> & r) {
    try { int const v = r.takeValue(); vp_check(out == OVal && v == y, "the result of the continuation"); }
    catch (Bang const & b) { vp_check(out == OBang && b.v == y, "the exception of the continuation"); }
    catch (sharemind::BrokenPromiseException const &) { vp_check(out == OBroken, "a broken promise"); }
}
static void expect(Out out, Fut<void> & r) {
    try { r.takeValue(); vp_check(out == OVal, "completed"); }
    catch (Bang const & b) { vp_check(out == OBang && b.v == y, "the exception of the continuation"); }
    catch (sharemind::BrokenPromiseException const &) { vp_check(out == OBroken, "a broken promise"); }
}
template <class X> static void expect(Out out, std::unique_ptr<X> & r) { expect(out, *r); }
static int second = 0;
template <class X, class A> static void go(Out out, A attach) {
    P p; F f(p.takeFuture());
    std::unique_ptr<Fut<X>> r;
#if VM == 0
    bool const before = vp_choose(2, "attach first");
    if (!before) decide(p);
    r = std::make_unique<Fut<X>>(attach(f)); vp_check(!f.isValid(), "the future is consumed"); vp_check(r->isValid(), "then returns a future");
    if (before) { vp_check(runs == 0 && !r->isReady(), "not before the decision"); }
    int const tail = vp_choose(3, "what happens to the result");
    if (tail == 0) { // taken after the decision
        if (before) decide(p);
        vp_check(runs == 1 && r->isReady(), "run at the decision"); expect(out, r);
    } else if (tail == 1) r.reset(); // dropped
    else { // chained
        auto q(r->then([&](Fut<X> g) { ++second; expect(out, g); return 5; }));
        if (before) decide(p);
        vp_check(q.isReady() && q.takeValue() == 5 && second == 1, "the second continuation runs once");
    }
    if (before && tail == 1) decide(p);
    vp_check(runs == 1, "run exactly once");
#else
    std::thread t([&] { decide(p); });
    r = std::make_unique<Fut<X>>(attach(f));
    int const tail = vp_choose(2, "wait");
    if (tail) { expect(out, r); vp_check(runs == 1, "run before its result is there"); t.join(); }
    else { t.join(); vp_check(runs == 1 && r->isReady(), "run at the decision"); }
#endif
}
struct MoveOnly { std::unique_ptr<int> k; int operator()(F f) { arrived(std::move(f)); return *k; } };
int main() {
    vp_leak_mark();
    {
        how = vp_choose(4, "decision"); x = vp_any<int>("value"); y = vp_any<int>("result"); vp_assume(x >= 0);
        switch (vp_choose(11, "continuation")) {
        case 0: go<int>(OVal, [](F & f) { return f.then([](F g) { arrived(std::move(g)); return y; }); }); break;
        case 1: go<void>(OVal, [](F & f) { return f.then([](F && g) { arrived(std::move(g)); }); }); break;
        case 2: go<int>(OBang, [](F & f) { return f.then([](F g) -> int { arrived(std::move(g)); throw Bang{y}; }); }); break;
        case 3: go<void>(OBang, [](F & f) { return f.then([](F && g) { arrived(std::move(g)); throw Bang{y}; }); }); break;
        case 4: go<int>(OVal, [](F & f) { return f.then([](F g) { arrived(std::move(g)); return sharemind::makeReadyFuture(y); }); }); break;
        case 5: go<int>(OBang, [](F & f) { return f.then([](F g) { arrived(std::move(g)); return sharemind::makeExceptionalFuture<int>(Bang{y}); }); }); break;
        case 6: go<int>(OBroken, [](F & f) { return f.then([](F g) { arrived(std::move(g)); return vp_choose(2, "invalid") ? Fut<int>() : sharemind::makeBrokenFuture<int>(); }); }); break;
        case 7: { int const k = vp_choose(4, "inner future"); go<void>(k == 0 ? OVal : k == 1 ? OBang : OBroken, [k](F & f) { return f.then([k](F g) { arrived(std::move(g)); return k == 0 ? sharemind::makeReadyFuture() : k == 1 ? sharemind::makeExceptionalFuture<void>(std::make_exception_ptr(Bang{y})) : k == 2 ? Fut<void>() : sharemind::makeBrokenFuture<void>(); }); }); break; }
        case 8: go<int>(OVal, [](F & f) { return f.then(MoveOnly{std::make_unique<int>(y)}); }); break;
        case 9: { auto c = [](F g) { arrived(std::move(g)); return y; }; go<int>(OVal, [&c](F & f) { return f.then(c); }); break; } // an lvalue continuation
        default: { // the inner future is decided by yet another continuation
            auto q = std::make_shared<sharemind::Promise<int>>();
            go<int>(OVal, [q](F & f) { return f.then([q](F g) { arrived(std::move(g)); auto r(q->takeFuture().then([](Fut<int> h) { return h.takeValue(); })); q->setValue(y); return r; }); });
        }
        }
        vp_check(live == 0, "every value is destroyed");
    }
    vp_leak_check();
}
