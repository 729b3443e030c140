// Threads requesting and dropping the resource of one key while another handle is being dropped.
//VP name=revive tier=both flags="-DVM=1" opts="--sched-refcnt" desc="a handle dropped in one thread while another requests, drops and waits for empty, every schedule"
//VP name=two tier=both flags="-DVM=2" opts="--sched-refcnt" desc="two threads, one get-drop-get, one get, every schedule"
//VP name=three tier=thorough flags="-DVM=3" opts="--sched-refcnt" desc="three threads, get and drop, every schedule"
//VP name=each tier=both flags="-DVM=4" opts="--sched-refcnt" desc="forEach while the only handle is dropped, every schedule"
//VP name=gone tier=both flags="-DVM=5" opts="--sched-refcnt" desc="the map destroyed while a handle is dropped, every schedule"
//VP name=keep tier=both flags="-DVM=6" opts="--sched-refcnt" desc="drop and re-request against a drop, every schedule"
//VP name=waiters tier=both flags="-DVM=7" desc="two threads waiting for empty while the last handle is dropped, every schedule"
//VP name=second tier=both flags="-DVM=8" desc="a thread waiting for empty while the resource of another key is created, one spurious wake-up, every schedule"
//VP name=keys tier=both flags="-DVM=9" opts="--sched-refcnt" desc="a handle dropped in one thread while another requests and drops another key, every schedule"
#include <vp.h>
#include <atomic>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/SharedResourceMap.h>
static std::atomic<int> live(0);
struct Obj { int alive = 1; Obj() { live.fetch_add(1, std::memory_order_relaxed); } ~Obj() { vp_check(alive == 1, "destroyed once"); alive = 0; live.fetch_sub(1, std::memory_order_relaxed); } };
using M = sharemind::SharedResourceMap<int, Obj>; using H = std::shared_ptr<Obj>;
int main() {
    vp_leak_mark();
    {
#if VM == 1
        M m; H h(m.getResource(1)); std::thread t([&] { h.reset(); });
        { H g(m.getResource(1)); vp_check(g && g->alive == 1, "alive"); }
        m.waitForEmpty(); vp_check(live == 0, "an empty map has no live object"); vp_check(m.empty() && m.size() == 0, "empty");
        t.join();
#elif VM == 2
        M m; H a, b;
        std::thread t([&] { { H x(m.getResource(1)); vp_check(x->alive == 1, "alive"); } a = m.getResource(1); vp_check(a->alive == 1, "alive"); });
        b = m.getResource(1); vp_check(b->alive == 1, "alive");
        t.join(); vp_check(a && a == b, "live handles refer to the same object"); vp_check(m.size() == 1 && live == 1, "one object");
        a.reset(); vp_check(b->alive == 1 && m.size() == 1, "alive until the last handle"); b.reset(); vp_check(m.empty() && live == 0, "gone");
#elif VM == 3
        M m; H keep[2];
        std::thread t([&] { { H x(m.getResource(1)); vp_check(x->alive == 1, "alive"); } });
        std::thread u([&] { keep[0] = m.getResource(1); });
        keep[1] = m.getResource(1);
        t.join(); u.join(); vp_check(keep[0] && keep[0] == keep[1] && keep[0]->alive == 1, "same object"); vp_check(m.size() == 1 && live == 1, "one object");
        keep[0].reset(); keep[1].reset(); vp_check(m.empty() && live == 0, "gone");
#elif VM == 4
        M m; H h(m.getResource(1)); std::thread t([&] { h.reset(); });
        int n = 0; H kept; bool const keep = vp_choose(2, "keep"); m.forEach([&](int k, H p) { vp_check(k == 1 && p && p->alive == 1, "alive"); ++n; if (keep) kept = std::move(p); }); vp_check(n <= 1, "once");
        t.join(); if (kept) { vp_check(kept->alive == 1 && live == 1 && m.size() == 1, "the object given to forEach is held"); H x(m.getResource(1)); vp_check(x == kept && live == 1, "and stays the object of its key"); } kept.reset(); vp_check(m.empty() && live == 0, "gone");
#elif VM == 5
        H g; { std::unique_ptr<M> m(new M); H h(m->getResource(1)); if (vp_choose(2, "second handle")) g = h; std::thread t([&] { h.reset(); }); m.reset(); t.join(); }
        vp_check(live == (g ? 1 : 0) && (!g || g->alive == 1), "objects live exactly while held"); g.reset(); vp_check(live == 0, "gone");
#elif VM == 9
        M m; H h(m.getResource(1)); std::thread t([&] { h.reset(); });
        { H g(m.getResource(2 * int(vp_choose(2, "key")))); vp_check(g && g->alive == 1, "alive"); } t.join(); vp_check(m.empty() && live == 0, "gone");
#elif VM == 8
        vp_spurious(1); M m; H h(m.getResource(1)), g; std::atomic<bool> dropping(false);
        std::thread t([&] { m.waitForEmpty(); vp_check(dropping, "does not wait for less than empty"); });
        g = m.getResource(2); vp_check(g != h && live == 2 && m.size() == 2, "two objects"); h.reset(); vp_check(live == 1 && m.size() == 1, "one object");
        dropping = true; g.reset(); t.join(); vp_check(m.empty() && live == 0, "gone");
#elif VM == 7
        M m; H h(m.getResource(1)); std::thread t([&] { m.waitForEmpty(); vp_check(live == 0, "an empty map has no live object"); }), u([&] { m.waitForEmpty(); });
        h.reset(); m.waitForEmpty(); t.join(); u.join(); vp_check(m.empty() && live == 0, "gone");
#else
        M m; H h(m.getResource(1)), g; std::thread t([&] { h.reset(); });
        { H x(m.getResource(1)); vp_check(x->alive == 1, "alive"); } g = m.getResource(1); vp_check(g->alive == 1, "alive");
        t.join(); vp_check(m.size() == 1 && g->alive == 1, "alive"); H f(m.getResource(1)); vp_check(f == g, "same object"); f.reset(); g.reset(); vp_check(m.empty() && live == 0, "gone");
#endif
    }
    vp_leak_check();
}
