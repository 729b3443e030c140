// Simple waits and stop flags, every interleaving.
//VP name=wait tier=both flags="-DVM=1 -DVS=1" desc="two threads wait for one notification, one spurious wake-up, every schedule"
//VP name=orstop tier=both flags="-DVM=2 -DVS=1" desc="a wait with a stop test that gives up after the 1st..3rd test, against a notification, one spurious wake-up, every schedule"
//VP name=stop tier=both flags="-DVM=3" desc="a stop request against a wait whose stop test is the stop flag, every schedule"
//VP name=flag tier=both flags="-DVM=4" desc="a stop flag under every sequence of six operations"
#include <vp.h>
#include <chrono>
#include <thread>
#include <sharemind/SimpleWait.h>
#include <sharemind/Stoppable.h>
struct Stop { int v = 0; };
int main() {
    vp_leak_mark();
    {
#if VM == 1
        sharemind::SimpleWait w; int data = 0; vp_spurious(VS);
        std::thread t([&] { w.wait(); vp_check(data == 7, "after the notification, and what preceded it is visible"); }), u([&] { data = 7; w.notifyReady(); });
        w.wait(); vp_check(data == 7, "after the notification"); t.join(); u.join(); w.wait();
#elif VM == 2
        sharemind::SimpleWait w; int data = 0; vp_spurious(VS); int const limit = 1 + vp_choose(3, "tests"); int tests = 0; bool const dflt = vp_choose(2, "default duration"); bool thrown = false;
        std::thread u([&] { data = 7; w.notifyReady(); });
        auto test = [&] { if (++tests == limit) throw Stop{tests}; };
        try { if (dflt) w.waitOrStop(test); else w.waitOrStop(test, std::chrono::milliseconds(3)); vp_check(data == 7, "after the notification"); }
        catch (Stop const & s) { thrown = true; vp_check(s.v == limit, "what the stop test throws"); }
        vp_check(thrown == (tests == limit), "the exception is not lost");
        u.join(); w.wait(); vp_check(data == 7, "still notified"); w.waitOrStop(test);
#elif VM == 3
        sharemind::SimpleWait w; sharemind::Stoppable s;
        std::thread u([&] { s.stop(); });
        int n = 0; bool thrown = false;
        try { w.waitOrStop([&] { vp_assume(++n < 3); s.throwIfStopRequested<Stop>(); }, std::chrono::milliseconds(3)); vp_fail("nothing was notified"); } catch (Stop const &) { thrown = true; vp_check(s.stopRequested(), "stays requested"); }
        vp_check(thrown, "stopped"); u.join(); vp_check(s.stopRequested(), "observed by later checks");
#else
        sharemind::Stoppable s; bool on = false; sharemind::Stoppable::TestActor<Stop> const test(s);
        for (int k = 0; k < 6; ++k) {
            if (vp_choose(2, "operation")) { s.stop(); on = true; } else { s.reset(); on = false; }
            vp_check(s.stopRequested() == on, "a requested stop is observed until reset");
            bool a = false, b = false, c = false; Stop e; e.v = 3;
            try { s.throwIfStopRequested<Stop>(); } catch (Stop const & x) { a = x.v == 0; }
            try { s.throwIfStopRequested(e); } catch (Stop const & x) { b = x.v == 3; }
            try { test(); } catch (Stop const & x) { c = x.v == 0; }
            vp_check(a == on && b == on && c == on, "thrown exactly when requested");
        }
#endif
    }
    vp_leak_check();
}
