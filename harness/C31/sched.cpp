// A running event loop, its users and its end, every interleaving.
//VP name=spin tier=both flags="-DVM=1" desc="a loop in one thread, one user spinning on it and stopping it, every schedule, one empty wait"
//VP name=event tier=both flags="-DVM=2" desc="a loop in one thread, a descriptor registered and made ready by another, then stopped, every schedule"
//VP name=idle tier=both flags="-DVM=3" desc="two users spinning on a loop that is not running, every schedule"
//VP name=stop tier=both flags="-DVM=4" opts="--preempt 3" desc="a loop in one thread, spun on by a second while a third stops it, up to three preemptions"
//VP name=single tier=both flags="-DVM=5" desc="a loop with a thread of its own, with and without a failing wait, every schedule"
//VP name=two tier=thorough flags="-DVM=6" opts="--preempt 3" desc="a loop in one thread, two users spinning on it, then stopped, up to three preemptions"
//VP name=stops tier=both flags="-DVM=7" desc="two threads stopping the same running loop, every schedule"
//VP name=removal tier=both flags="-DVM=8" desc="a handler removed and, after the end of the iteration was awaited, destroyed, while the loop runs and the handler may stop it, every schedule"
//VP name=removal2 tier=thorough flags="-DVM=8 -DVT=1" opts="--preempt 4" desc="the same with one empty wait and two handlers, up to four preemptions"
//VP name=ends tier=both flags="-DVM=9" desc="a handler is running when the loop is stopped or destroyed by another thread, which then destroys the handler, every schedule"
#include "epoll.h"
#include <sharemind/EventLoop.h>
#include <sharemind/SimpleWait.h>
#include <sharemind/SingleThreadEventLoop.h>
using sharemind::EventLoop;
struct H final: EventLoop::EventHandler { int n = 0; bool stop = false; EventLoop * l = nullptr; void handleEvents(EventLoop::EventSet ev) noexcept override { vp_check(ev == EPOLLIN, "the reported event"); ++n; if (stop) l->stopAsync(); } };
static int iterations() { std::lock_guard<std::mutex> g(sys.m); return sys.waits; }
static void spin(EventLoop & l, bool y) { if (y) l.yieldUntilLoopIterationEnd(); else l.spinUntilLoopIterationEnd(); }
int main() {
    vp_leak_mark(); sys.block = true; (void) &iterations;
    {
        H h;
#if VM == 5
        int fails = 0; sys.waitFails = vp_choose(2, "failing"); bool const may = sys.waitFails > 0;
        { auto handler = [&fails]() noexcept { ++fails; }; if (vp_choose(2, "handler")) { sharemind::SingleThreadEventLoop l{handler}; } else { sharemind::SingleThreadEventLoop l; } }
        vp_check(fails <= int(may), "a failure is handled once at most");
#elif VM == 9
        struct G final: EventLoop::EventHandler { sharemind::SimpleWait & w; int n = 0; G(sharemind::SimpleWait & w_) : w(w_) {} void handleEvents(EventLoop::EventSet) noexcept override { w.notifyReady(); ++n; } };
        (void) h; sharemind::SimpleWait w; auto g = std::make_unique<G>(w); auto l = std::make_unique<EventLoop>(); sys.open(Sys::U0); sys.ready[Sys::U0] = EPOLLIN; l->insert(Sys::U0, EPOLLIN, *g); EventLoop * const p = l.get();
        std::thread t([p] { p->run(); }); w.wait();
        if (vp_choose(2, "stop")) { l->stop(); vp_check(g->n == 1, "the handler returned before stop() did"); g.reset(); l.reset(); } else { l.reset(); vp_check(g->n == 1, "the handler returned before the loop was destroyed"); g.reset(); }
        t.join();
#else
        EventLoop l;
# if VM == 1
        sys.timeouts = 1; bool const y = vp_choose(2, "yield"); std::thread t([&] { l.run(); }); spin(l, y); if (vp_choose(2, "again")) spin(l, y); if (vp_choose(2, "stop")) l.stop(); else l.stopAsync(); t.join(); spin(l, y);
# elif VM == 2
        sys.open(Sys::U0); h.l = &l; h.stop = true; bool const first = vp_choose(2, "registered first"); if (first) l.insert(Sys::U0, EPOLLIN, h);
        { std::lock_guard<std::mutex> g(sys.m); sys.ready[Sys::U0] = EPOLLIN; }
        std::thread t([&] { l.run(); }); if (!first) l.insert(Sys::U0, EPOLLIN, h); t.join(); vp_check(h.n == 1, "dispatched once"); 
# elif VM == 3
        std::thread t([&] { spin(l, true); }); spin(l, true); t.join();
# elif VM == 4
        std::thread t([&] { l.run(); }), u([&] { spin(l, true); }); l.stop(); u.join(); t.join();
# elif VM == 6
        std::thread t([&] { l.run(); }), u([&] { spin(l, true); }); spin(l, true); u.join(); l.stop(); t.join();
# elif VM == 8
        sys.open(Sys::U0); sys.ready[Sys::U0] = EPOLLIN; h.l = &l; h.stop = vp_choose(2, "handler stops"); l.insert(Sys::U0, EPOLLIN, h); bool const y = vp_choose(2, "yield");
#  ifdef VT
        H h2; sys.timeouts = 1; sys.open(Sys::U0 + 1); sys.ready[Sys::U0 + 1] = EPOLLIN; l.insert(Sys::U0 + 1, EPOLLIN, h2);
#  endif
        std::thread t([&] { l.run(); }); l.remove(Sys::U0); spin(l, y); h.n += 100; l.stop(); t.join(); vp_check(h.n == 100 || h.n == 101, "dispatched once at most");
# else
        std::thread t([&] { l.run(); }), u([&] { if (vp_choose(2, "wait")) l.stop(); else l.stopAsync(); }); l.stop(); u.join(); t.join();
# endif
#endif
    }
    sys.checkClosed();
    vp_leak_check();
}
