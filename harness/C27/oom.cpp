// An attachment which fails (no memory, or a callable which throws when it is copied) leaves the future, or the task, as it was.
//VP name=oom tier=both desc="futures of a move-only value and of nothing, undecided or decided in any way, any one allocation of then() failing or the callable throwing when copied; packaged tasks made, reset and ready futures made with any one allocation failing; then used on"
#include <vp.h>
#include <exception>
#include <functional>
#include <memory>
#include <new>
#include <utility>
#include <sharemind/Future.h>
struct Bang { int v; };
static int runs = 0, live = 0, x, how; static bool copyThrows = false;
struct Val { int v; explicit Val(int a) : v(a) { ++live; } Val(Val && o) noexcept : v(o.v) { o.v = -1; ++live; } ~Val() { --live; } Val & operator=(Val &&) = delete; };
template <class T> static int get(sharemind::Future<T> & f) { return f.takeValue().v; }
static int get(sharemind::Future<void> & f) { f.takeValue(); return x; }
template <class T> static int outcome(sharemind::Future<T> & f) { // 0 the value, 1 the exception, 2 broken, 3 another
    try { return get(f) == x ? 0 : 3; } catch (Bang const & b) { return b.v == x ? 1 : 3; } catch (sharemind::BrokenPromiseException const &) { return 2; }
}
template <class T> struct Fun {
    int key; explicit Fun(int k) : key(k) {} Fun(Fun && o) noexcept : key(o.key) {} Fun(Fun const & o) : key(o.key) { if (copyThrows) throw Bang{-7}; }
    int operator()(sharemind::Future<T> f) { ++runs; vp_check(f.isValid() && f.isReady() && outcome(f) == how, "the continuation gets the ready future"); return key; }
};
static void set(sharemind::Promise<Val> & p) { p.setValue(Val(x)); }
static void set(sharemind::Promise<void> & p) { p.setReady(); }
template <class T> static void attach() {
    sharemind::Promise<T> p; auto f(p.takeFuture()); how = vp_choose(3, "outcome"); int const key = vp_any<int>("key");
    bool const early = vp_choose(2, "decided before"); auto const decide = [&] { if (how == 0) set(p); else if (how == 1) p.setException(Bang{x}); else p.abandon(); };
    if (early) decide();
    Fun<T> fun(key); sharemind::Future<int> r; bool failed = false; copyThrows = vp_choose(2, "throwing copy"); bool const copy = vp_choose(2, "copied");
    vp_alloc_may_fail(1);
    try { r = copy ? f.then(fun) : f.then(std::move(fun)); }
    catch (std::bad_alloc const &) { failed = true; vp_witness("attaching out of memory"); }
    catch (Bang const & b) { failed = true; vp_check(copy && copyThrows && b.v == -7, "the exception of the copy"); vp_witness("the copy throws"); }
    vp_alloc_may_fail(0); copyThrows = false;
    vp_check(failed ? f.isValid() && !r.isValid() && !runs : !f.isValid() && r.isValid(), "the future is taken exactly when attached");
    if (failed) {
        vp_check(f.isReady() == early, "ready as before");
        if (vp_choose(2, "attach again")) r = f.then(fun);
        else { if (!early) decide(); vp_check(f.isReady() && outcome(f) == how, "the outcome reaches the future"); return; }
    }
    vp_check(runs == early && r.isReady() == early, "run once decided"); if (!early) decide();
    vp_check(runs == 1 && r.isReady() && r.takeValue() == key, "the result of the continuation");
}
static void task() {
    using PT = sharemind::PackagedTask<int(int)>;
    auto const data = std::make_shared<int>(x); auto fun = [data, a = 1, b = 2](int y) { ++runs; return *data ^ y ^ a ^ b; }; // too big for the small buffer
    PT t; bool made = false; int const y = vp_any<int>("argument");
    vp_alloc_may_fail(1); try { t = PT(fun); made = true; } catch (std::bad_alloc const &) { vp_witness("task out of memory"); } vp_alloc_may_fail(0);
    vp_check(t.isValid() == made && data.use_count() == (made ? 3 : 2), "the task holds its callable exactly when made");
    if (!made) t = PT(fun);
    auto f(t.takeFuture()); bool const called = vp_choose(2, "called"); if (called) { t(y); vp_check(f.isReady() && !t.isValid(), "called"); }
    bool reset = false; vp_alloc_may_fail(1); try { t.reset(); reset = true; } catch (std::bad_alloc const &) { vp_witness("reset out of memory"); } vp_alloc_may_fail(0);
    if (!reset) { vp_check(t.isValid() == !called, "as before"); if (!called) t(y); }
    if (called || !reset) vp_check(f.takeValue() == (x ^ y ^ 3), "the result"); else { bool broken = false; try { f.takeValue(); } catch (sharemind::BrokenPromiseException const &) { broken = true; } vp_check(broken, "the promise of the former task is broken"); }
    if (!reset) t.reset();
    auto g(t.takeFuture()); t(x); vp_check(g.takeValue() == 3, "usable again"); vp_check(runs == 1 + (called || !reset), "run exactly as often as called");
}
static void ready() {
    try { vp_alloc_may_fail(1); auto f(sharemind::makeReadyFuture(Val(x))); vp_alloc_may_fail(0); vp_check(f.isReady() && f.takeValue().v == x, "ready"); } catch (std::bad_alloc const &) { vp_witness("ready future out of memory"); }
    vp_alloc_may_fail(0);
}
int main() {
    x = vp_any<int>("value"); vp_leak_mark();
    switch (vp_choose(4, "what")) { case 0: attach<Val>(); break; case 1: attach<void>(); break; case 2: task(); break; default: ready(); }
    vp_check(live == 0, "values destroyed as often as constructed"); vp_leak_check();
}
