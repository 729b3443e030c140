// What run() dispatches, over every batch the system may report.
//VP name=one tier=both flags="-DVH=2 -DVR=1" desc="two handlers, one round of any readiness and any order, the wake-up pipe signalled with up to 5000 bytes or not, stopped before or by a handler, one interruption"
//VP name=two tier=both flags="-DVH=2 -DVR=2" desc="two handlers, two rounds of any readiness and any order, the wake-up pipe signalled with up to 5000 bytes or not, stopped by a handler, one interruption"
//VP name=three tier=thorough flags="-DVH=3 -DVR=2" desc="three handlers, two rounds of any readiness and any order, the wake-up pipe signalled with up to 5000 bytes or not, stopped by a handler, one interruption"
#include "epoll.h"
#include <sharemind/EventLoop.h>
using sharemind::EventLoop;
static EventLoop * loop; static int nSeen = 0, rounds = 0;
static bool stopNow = false;
struct H final: EventLoop::EventHandler { int i = 0; void handleEvents(EventLoop::EventSet const ev) noexcept override; };
static H h[VH];
static void newRound() {
    ++rounds; vp_assert(rounds <= VR + 1);
    if (rounds > VR) { loop->stopAsync(); stopNow = true; return; }
    bool any = false, h0 = false;
    for (int i = 0; i < VH; ++i) {
        bool const r = vp_choose(2, "ready"); if (!r) continue; any = h0 = true;
        std::uint32_t const ev = vp_any<std::uint32_t>("events"); sys.ready[Sys::U0 + i] = ev; vp_assume((ev & (EventLoop::ALL_EVENTS)) != 0);
        loop->modify(Sys::U0 + i, EventLoop::ALL_EVENTS, h[i]);
    }
    if (vp_choose(2, "signalled")) { std::size_t const b = vp_any<std::size_t>("bytes"); vp_assume(b >= 1 && b <= 5000); sys.bytes += b; any = true; }
    if (any && !h0) { sys.ready[Sys::U0] = EPOLLIN; loop->modify(Sys::U0, EventLoop::ALL_EVENTS, h[0]); } // a handler to go on with
    if (!any) { loop->stopAsync(); stopNow = true; }
    else if (rounds == VR && vp_choose(2, "stop meanwhile")) { loop->stopAsync(); stopNow = true; }
}
void H::handleEvents(EventLoop::EventSet const ev) noexcept {
    vp_check(nSeen < sys.nGot, "nothing is dispatched that was not reported");
    vp_check(sys.got[nSeen] == static_cast<EventLoop::EventHandler *>(this), "to its handler, in order"); vp_check(sys.gotEv[nSeen] == ev, "the reported events"); ++nSeen;
    bool done = nSeen == sys.nGot; for (int f = Sys::U0; f < Sys::U0 + VH; ++f) if (sys.due(f)) done = false;
    if (done && !stopNow) newRound();
}
int main() {
    for (int i = 0; i < VH; ++i) { sys.open(Sys::U0 + i); h[i].i = i; }
    vp_leak_mark();
    {
        EventLoop l; loop = &l; vp_check(sys.flags == 3, "opened close-on-exec and non-blocking");
        for (int i = 0; i < VH; ++i) l.insertDisabled(Sys::U0 + i);
        sys.waitFails = 0; sys.ioFails = 1; sys.timeouts = VR == 1; sys.less = VR == 1;
        if (vp_choose(2, "stopped before")) { l.stopAsync(); stopNow = true; }
        else { newRound(); }
        l.run();
        vp_check(nSeen == sys.nGot, "every reported event is dispatched before run() returns");
        vp_check(stopNow, "run() returns once stopped");
    }
    sys.checkClosed();
    vp_leak_check();
}
