// A timeouts thread: every interleaving of adding, expiring and stopping; waits may time out at any moment, which moves the clock.
//VP name=run tier=both flags="-DVM=1 -DVN=2" desc="two tasks, delays out of {-5, 5, 10} ms each, waited for, every schedule and expiry"
//VP name=run3 tier=thorough flags="-DVM=1 -DVN=3" opts="--preempt 2" desc="three tasks, delays out of {-5, 5} ms each, waited for, up to two preemptions"
//VP name=stop tier=both flags="-DVM=2 -DVN=2" desc="two tasks, delays out of {-5, 5} ms each, then stopped or destroyed at once, one more added after the stop, every schedule and expiry"
//VP name=again tier=both flags="-DVM=3" desc="a task that adds itself again, at several time points (the least included), until stopped, every schedule"
//VP name=pair tier=both flags="-DVM=4" desc="two threads adding a task each, then destroyed or waited for, every schedule"
//VP name=far tier=both flags="-DVM=5" desc="delays and time points at the limits of the clock, every schedule"
//VP name=spurious tier=both flags="-DVM=1 -DVN=1 -DVS=1" desc="one task, one spurious wake-up, every schedule"
#include <vp.h>
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/TimeoutsThread.h>
#include <sharemind/SimpleWait.h>
using TT = sharemind::TimeoutsThread; using C = TT::Clock; using TP = C::time_point; using D = C::duration;
static bool gone = false; static std::atomic<bool> stopped(false);
struct Tok { // counts the destruction of the task it belongs to
    int * n; explicit Tok(int * p) noexcept : n(p) {} Tok(Tok && o) noexcept : n(o.n) { o.n = nullptr; } Tok(Tok const &) = delete; ~Tok() { if (n) ++*n; }
};
struct Rec { TP tp; int ran = 0, dead = 0; sharemind::SimpleWait done; };
static Rec rec[4];
static std::unique_ptr<TT::Task> make(int i) {
    Tok t(&rec[i].dead); 
    return TT::createOneShotTask([i, t = std::move(t)]() noexcept {
        vp_check(!gone, "no task runs after the end"); vp_check(C::now() >= rec[i].tp, "not before its time"); vp_check(rec[i].ran++ == 0, "run at most once");
        rec[i].done.notifyReady();
    });
}
int main() {
    vp_leak_mark();
    {
        auto t = std::make_unique<TT>(); TP const zero(C::now());
#if VM == 1 || VM == 2
# ifdef VS
        vp_spurious(VS);
# endif
        static int const delay[3] = { -5, 5, 10 };
        for (int i = 0; i < VN; ++i) {
            D const d = std::chrono::milliseconds(delay[vp_choose(VN == 2 && VM == 1 ? 3 : 2, "delay")]); bool const rel = i % 2;
            rec[i].tp = zero + d; // now only grows, so a relative time point is this one or later
            auto task = make(i); if (rel) t->addTimeoutTask(d, std::move(task)); else t->addTask(zero + d, std::move(task));
        }
# if VM == 1
        for (int i = 0; i < VN; ++i) rec[i].done.wait();   // a task that is due is eventually run
        if (vp_choose(2, "stop")) t->stop();
        t.reset(); gone = true;
        for (int i = 0; i < VN; ++i) vp_check(rec[i].ran == 1 && rec[i].dead == 1, "run once and destroyed once");
# else
        bool const s = vp_choose(2, "stop first");
        if (s) { t->stop(); rec[3].tp = zero; t->addTask(zero, make(3)); if (vp_choose(2, "twice")) t->stop(); }
        t.reset(); gone = true;
        for (int i = 0; i < VN; ++i) vp_check(rec[i].ran <= 1 && rec[i].dead == 1, "run at most once and destroyed once");
        if (s) vp_check(rec[3].ran == 0 && rec[3].dead == 1, "added after the stop: not run, destroyed once");
# endif
#elif VM == 3
        static int n = 0, after = 0; static TT * tt; tt = t.get(); static TP again; int const k = vp_choose(3, "time point"); again = k == 0 ? TP::min() : k == 1 ? TP() : zero;
        Tok tok(&rec[0].dead);
        t->addTask(again, TT::createReusableTask([tok = std::move(tok)](std::unique_ptr<TT::Task> && self) noexcept {
            vp_check(!gone, "no task runs after the end");
            if (stopped) vp_check(after++ == 0, "at most the task at hand runs after a stop");
            vp_assume(n++ < 3); tt->addTask(again, std::move(self));
        }));
        if (vp_choose(2, "pause")) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        t->stop(); stopped = true; t.reset(); gone = true; vp_check(rec[0].dead == 1, "destroyed once");
#elif VM == 4
        rec[0].tp = zero + std::chrono::milliseconds(vp_choose(2, "delay") * 5); rec[1].tp = zero + std::chrono::milliseconds(vp_choose(2, "delay") * 5);
        std::thread u([&] { t->addTask(rec[0].tp, make(0)); });
        t->addTask(rec[1].tp, make(1)); bool const w = vp_choose(2, "wait");
        if (w) { rec[1].done.wait(); rec[0].done.wait(); }
        u.join(); t.reset(); gone = true;
        for (int i = 0; i < 2; ++i) vp_check((w ? rec[i].ran == 1 : rec[i].ran <= 1) && rec[i].dead == 1, "run and destroyed");
#else
        int const k = vp_choose(5, "far"); rec[0].tp = TP::max(); rec[1].tp = zero;
        switch (k) {
        case 0: t->addTimeoutTask(D::max(), make(0)); break;
        case 1: t->addTask(TP::max(), make(0)); break;
        case 2: rec[0].tp = zero + std::chrono::hours(24 * 365 * 200); t->addTimeoutTask(std::chrono::hours(24 * 365 * 200), make(0)); break;
        case 3: rec[0].tp = TP::min(); t->addTask(TP::min(), make(0)); break;
        default: rec[0].tp = TP::min(); t->addTimeoutTask(D::min() + std::chrono::hours(1), make(0));
        }
        t->addTask(zero, make(1)); rec[1].done.wait();
        if (k >= 3) rec[0].done.wait(); t.reset(); gone = true; vp_check(rec[0].dead == 1 && rec[1].dead == 1 && rec[1].ran == 1, "run and destroyed");
#endif
    }
    vp_leak_check();
}
