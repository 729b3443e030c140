// Registration and construction, over every way the system calls may fail.
//VP name=seq tier=both flags="-DVM=1 -DVK=3" desc="any three registration calls on two descriptors, up to one interruption or failure"
//VP name=seq4 tier=thorough flags="-DVM=1 -DVK=4" desc="any four registration calls on two descriptors, up to one interruption or failure"
//VP name=retry tier=both flags="-DVM=1 -DVK=1 -DVF=4" desc="any registration call on an open or a closed descriptor, up to four interruptions or failures"
//VP name=make tier=both flags="-DVM=2" desc="construction with every failing call"
//VP name=wait tier=both flags="-DVM=3" desc="run() with every failure of the wait"
#include "epoll.h"
#include <sharemind/EventLoop.h>
using sharemind::EventLoop;
struct H final: EventLoop::EventHandler { EventLoop * l = nullptr; int n = 0; void handleEvents(EventLoop::EventSet) noexcept override { ++n; if (l) l->stopAsync(); } };
static H h[2];
template <typename E> static bool nestedErrno(E const & e, int & err) { try { std::rethrow_if_nested(e); } catch (sharemind::ErrnoException const & x) { err = x.errorNumber(); return true; } catch (...) {} return false; }
int main() {
    vp_leak_mark();
#if VM == 1
    {
        sys.open(Sys::U0); sys.open(Sys::U0 + 1); EventLoop l; struct M { bool in = false, off = false; std::uint32_t ev = 0; int h = 0; } m[3];
# ifdef VF
        sys.ctlFails = VF; for (int f = 0; f < 2; ++f) if (vp_choose(2, "already in")) { int const k = sys.ctlFails; sys.ctlFails = 0; l.insert(Sys::U0 + f, EPOLLIN, h[0]); m[f].in = true; m[f].ev = EPOLLIN; sys.ctlFails = k; }
# else
        sys.ctlFails = 1;
# endif
        for (int k = 0; k < VK; ++k) {
            int const f = VK == 1 ? vp_choose(3, "descriptor") : k ? vp_choose(2, "descriptor") : 0, fd = Sys::U0 + f, op = vp_choose(7, "call"), hi = k % 2; std::uint32_t const ev = vp_any<std::uint32_t>("events");
            M const before = m[f]; bool res = false, thrown = false, nested = false; int err = 0; sys.lastError = 0; int const failsBefore = sys.ctlFails, intBefore = sys.interrupted;
            try {
                switch (op) {
                case 0: l.insertDisabled(fd); res = true; break; case 1: l.modify(fd, ev, h[hi]); res = true; break; case 2: l.disable(fd); res = true; break;
                case 3: res = l.insert(fd, ev, h[hi]); break; case 4: res = l.insertOrModify(fd, ev, h[hi]); break; case 5: res = l.insertDisabledOrDisable(fd); break;
                default: res = l.remove(fd);
                }
            } catch (EventLoop::EpollCtlException const & e) { thrown = true; nested = nestedErrno(e, err); }
            bool const hard = failsBefore - sys.ctlFails > sys.interrupted - intBefore, open = f < 2; // a failure other than an interruption
            bool const add = op == 0 || op == 3 || op == 4 || op == 5, mod = op == 1 || op == 2, off = op == 0 || op == 2 || op == 5;
            bool expectThrow = hard || !open || (op == 0 && before.in) || (mod && !before.in);
            vp_check(thrown == expectThrow, "fails with an exception exactly when the call failed for good");
            if (thrown) { vp_check(nested && err == sys.lastError, "the error number arrives"); }
            else {
                bool const present = before.in;
                vp_check(res == (op == 6 ? present : op == 3 || op == 4 || op == 5 ? !present : true), "the result tells whether the descriptor was there");
                if (op == 6) m[f] = M(); else if (!(op == 3 && present)) { m[f].in = true; m[f].off = off; m[f].ev = off ? 0 : ev; m[f].h = hi; (void) add; }
            }
            for (int i = 0; i < 3; ++i) {
                auto const & r = sys.reg[Sys::U0 + i]; vp_check(r.in == m[i].in, "the registered descriptors");
                if (r.in) { vp_check(r.ev == (m[i].ev | EPOLLONESHOT), "the registered events, one shot"); vp_check(r.data != nullptr && (m[i].off || r.data == static_cast<EventLoop::EventHandler *>(&h[m[i].h])), "the registered handler"); }
            }
            vp_check(sys.reg[Sys::RD].in && sys.reg[Sys::RD].data == nullptr, "the pipe stays registered");
        }
    }
#elif VM == 2
    { 
        sys.failEpoll = sys.failPipe = true; sys.ctlFails = 2; int st = 0, err = 0; bool nested = false;
        try { EventLoop l; st = 1; vp_check(sys.d[Sys::EP].open && sys.d[Sys::RD].open && sys.d[Sys::WR].open && sys.reg[Sys::RD].in, "all set up"); if (vp_choose(2, "stopAsync")) l.stopAsync(); if (vp_choose(2, "stop")) l.stop(); if (vp_choose(2, "again")) l.stopAsync(); }
        catch (EventLoop::EpollCreateException const & e) { st = 2; nested = nestedErrno(e, err); } catch (EventLoop::PipeCreateException const & e) { st = 3; nested = nestedErrno(e, err); } catch (EventLoop::EpollCtlException const & e) { st = 4; nested = nestedErrno(e, err); }
        if (st > 1) vp_check(nested && err == sys.lastError, "the error number arrives");
        vp_check(st == 1 || err == (st == 2 ? EMFILE : st == 3 ? ENFILE : ENOMEM), "interruptions are retried");
    }
#else
    {
        sys.open(Sys::U0); EventLoop l; h[0].l = &l; sys.ready[Sys::U0] = EPOLLIN; l.insert(Sys::U0, EPOLLIN, h[0]);
        sys.waitFails = 3; int st = 0, err = 0; bool nested = false;
        try { l.run(); st = 1; } catch (EventLoop::EpollWaitException const & e) { st = 2; nested = nestedErrno(e, err); }
        vp_check(st == 1 ? h[0].n == 1 : nested && err == EINVAL, "interruptions are retried, other failures arrive as exceptions");
        vp_check(st == 1 || sys.waits == sys.interrupted + 1 + h[0].n, "at once");
        if (st == 2) { sys.waitFails = 0; l.run(); vp_check(h[0].n == 1, "can be run again"); }
    }
#endif
    sys.checkClosed();
    vp_leak_check();
}
