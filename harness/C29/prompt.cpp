// Promptness: with the time never reaching the later task, the earlier one is run and stopping returns, however the thread waits at the moment.
//VP name=near tier=both flags="-DVM=1" desc="one task that is never due and one that is, in both orders, waited for, every schedule"
//VP name=near3 tier=both flags="-DVM=2" desc="two tasks that are never due (any order) and one that is, every schedule"
//VP name=stop tier=both flags="-DVM=3" desc="one or two tasks that are never due, then stopped or destroyed, every schedule"
//VP name=from tier=both flags="-DVM=4" desc="a task that is never due, and one that is, which adds another one that is due, every schedule"
//VP name=past tier=both flags="-DVM=5" desc="a task with a delay that has passed, of any length down to the shortest, next to one that is never due, every schedule"
#include <vp.h>
#include <chrono>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/TimeoutsThread.h>
#include <sharemind/SimpleWait.h>
using TT = sharemind::TimeoutsThread; using C = TT::Clock; using TP = C::time_point;
static sharemind::SimpleWait done; static TT * tt;
int main() {
    vp_leak_mark();
    {
        auto t = std::make_unique<TT>(); tt = t.get(); TP const zero(C::now());
        TP const far(zero + std::chrono::hours(1)), further(zero + std::chrono::hours(2)), soon(zero + std::chrono::milliseconds(5));
        vp_horizon(std::chrono::duration_cast<std::chrono::nanoseconds>((zero + std::chrono::minutes(30)).time_since_epoch()).count()); // nothing takes that long
        auto const never = [] { return TT::createOneShotTask([]() noexcept { vp_fail("not before its time"); }); };
        auto const now = [] { return TT::createOneShotTask([]() noexcept { done.notifyReady(); }); };
#if VM == 1
        TP const at = vp_choose(2, "now or soon") ? soon : zero;
        if (vp_choose(2, "order")) { t->addTask(far, never()); t->addTask(at, now()); } else { t->addTask(at, now()); t->addTask(far, never()); }
        done.wait();
#elif VM == 2
        bool const o = vp_choose(2, "order");
        t->addTask(o ? further : far, never()); t->addTask(o ? far : further, never()); t->addTask(soon, now()); done.wait();
#elif VM == 5
        t->addTask(far, never());
        t->addTimeoutTask(vp_choose(2, "long ago") ? C::duration::min() + std::chrono::hours(1) : C::duration(vp_range<std::int64_t>("delay", -1000000000, 0)), now()); done.wait();
#elif VM == 3
        t->addTask(far, never()); if (vp_choose(2, "second")) t->addTask(vp_choose(2, "before") ? far - std::chrono::minutes(1) : further, never());
        if (vp_choose(2, "stop")) t->stop();
#else
        t->addTask(far, never());
        t->addTask(soon, TT::createOneShotTask([soon]() noexcept { tt->addTask(soon, TT::createOneShotTask([]() noexcept { done.notifyReady(); })); }));
        done.wait();
#endif
        t.reset();
    }
    vp_leak_check();
}
