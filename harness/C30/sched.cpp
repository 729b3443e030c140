// A deferred thread and its owner, every interleaving.
//VP name=one tier=both flags="-DVM=1" opts="--sched-refcnt" desc="every order of setting the function, starting, stopping, joining and destroying, every schedule, one spurious wake-up"
//VP name=two tier=both flags="-DVM=2" opts="--sched-refcnt" desc="started by one thread, joined by the owner, every schedule"
#include <vp.h>
#include <thread>
#include <utility>
#include <sharemind/NoStartThread.h>
static int ran[4], data = 0; static bool over = false;
struct Fun { int i; void operator()() const noexcept { vp_check(!over, "not after the end"); ++ran[i]; vp_check(data == 5, "what preceded the start is visible"); data = 6; } };
int main() {
    vp_leak_mark();
    {
        vp_spurious(1); int last = -1; bool started = false;
#if VM == 1
        bool const ctor = vp_choose(2, "function in the constructor");
        {
            std::unique_ptr<sharemind::NoStartThread> t(ctor ? new sharemind::NoStartThread(Fun{0}) : new sharemind::NoStartThread); if (ctor) last = 0;
            vp_check(t->joinable(), "joinable at first");
            for (int n = vp_choose(3, "functions set"); n > 0; --n) { Fun const f{n}; t->setFunction(f); last = n; }
            data = 5;
            switch (vp_choose(5, "end")) {
            case 0: t->start(); started = true; break;
            case 1: t->stop(); vp_check(!t->joinable(), "stopped"); break;
            case 2: t->start(); started = true; t->join(); vp_check(!t->joinable(), "joined"); if (last >= 0) vp_check(ran[last] == 1 && data == 6, "done when joined"); break;
            case 3: t->start(); started = true; t->stop(); vp_check(!t->joinable(), "stopped"); if (last >= 0) vp_check(ran[last] == 1, "done when stopped"); if (vp_choose(2, "again")) t->stop(); break;
            default: break;
            }
        }
#else
        {
            sharemind::NoStartThread t(Fun{0}); last = 0; started = true; data = 5;
            std::thread u([&] { t.start(); });
            t.join(); vp_check(ran[0] == 1 && data == 6, "join waits for the start and the end of the function"); u.join();
        }
#endif
        over = true;
        for (int i = 0; i < 4; ++i) vp_check(ran[i] == (started && i == last), "the function set last runs exactly once, if and only if started");
    }
    vp_leak_check();
}
