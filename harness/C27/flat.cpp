// A continuation which returns a future that is not decided yet: the result follows the outcome of that one, whenever it comes.
//VP name=val tier=both flags="-DVT=0" opts="--sched-refcnt" desc="inner future of a value, any outcome, decided by another thread before, while or after the continuation runs, every schedule"
//VP name=void tier=both flags="-DVT=1" opts="--sched-refcnt" desc="the same with an inner future of nothing"
#include <vp.h>
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <sharemind/Future.h>
#if VT == 0
using T = std::unique_ptr<int>;
#else
using T = void;
#endif
struct Bang { int v; };
static std::atomic<bool> decided(false);
int main() {
    vp_leak_mark();
    {
        int const x = vp_any<int>("value"); std::size_t const how = vp_choose(3, "outcome"); bool const late = vp_choose(2, "attached late");
        sharemind::Promise<void> outer; sharemind::Promise<T> inner; auto innerFuture(inner.takeFuture());
        std::thread t([&] {
            decided.store(true, std::memory_order_relaxed);
            if (how == 0) {
                #if VT == 0
                inner.setValue(std::make_unique<int>(x));
                #else
                inner.setReady();
                #endif
            } else if (how == 1) inner.setException(Bang{x}); else inner.abandon();
        });
        int runs = 0; auto f(outer.takeFuture()); if (late) outer.setReady();
        auto r(f.then([&](sharemind::Future<void> g) { ++runs; vp_check(g.isReady(), "the continuation gets a ready future"); return std::move(innerFuture); }));
        if (!late) { vp_check(runs == 0 && !r.isReady(), "not before the future is ready"); outer.setReady(); }
        bool good = false;
        try {
            #if VT == 0
            good = *r.takeValue() == x && how == 0;
            #else
            r.takeValue(); good = how == 0;
            #endif
        } catch (Bang const & b) { good = how == 1 && b.v == x; } catch (sharemind::BrokenPromiseException const &) { good = how == 2; }
        vp_check(good, "the outcome of the inner future"); vp_check(decided.load(std::memory_order_relaxed), "not before the inner future was decided"); vp_check(runs == 1, "run once");
        t.join();
    }
    vp_leak_check();
}
