// Requests which run out of memory at any allocation leave the map as it was.
//VP name=one tier=both flags="-DVK=1" desc="a request for a held, a dropped or a new key, any one of its allocations failing; then used on"
//VP name=each tier=both flags="-DVK=2" opts="--sched-refcnt" desc="one or two objects, visited while another thread drops its handles, any one allocation of the visit failing: every schedule"
#include <vp.h>
#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <thread>
#include <utility>
#include <vector>
#include <sharemind/SharedResourceMap.h>
static std::atomic<int> live{0};
struct R { int v; explicit R(int x = 0) : v(x) { live.fetch_add(1, std::memory_order_relaxed); } ~R() { live.fetch_sub(1, std::memory_order_relaxed); } R(R const &) = delete; };
using M = sharemind::SharedResourceMap<int, R>;
int main() {
    vp_leak_mark();
    {
#if VK == 2
        M m; auto const make = [](int const k) { return std::make_shared<R>(k + 10); }; int const n = 1 + int(vp_choose(2, "objects")); int seen = 0;
        std::shared_ptr<R> a(m.getResource(1, make)), b; if (n > 1) b = m.getResource(2, make);
        std::thread t([&a, &b] { a.reset(); b.reset(); });
        vp_alloc_may_fail(1);
        try { m.forEach([&](int const k, std::shared_ptr<R> p) { ++seen; vp_check(p && p->v == k + 10, "the object of the key"); }); vp_check(seen <= n, "each at most once"); } catch (std::bad_alloc const &) { vp_witness("visit out of memory"); }
        vp_alloc_may_fail(0);
        t.join(); m.waitForEmpty(); vp_check(m.empty() && live == 0, "all gone");
        a = m.getResource(1, make); vp_check(a->v == 11 && m.size() == 1, "usable again");
#else
        M m; auto const make = [](int const k) { return std::make_shared<R>(k + 10); };
        std::shared_ptr<R> a, b; bool const held = vp_choose(2, "held"); if (held) a = m.getResource(1, make);
        int const k = 1 + vp_choose(2, "key"); bool failed = false;
        vp_alloc_may_fail(1);
        try { b = m.getResource(k, make); } catch (std::bad_alloc const &) { failed = true; vp_witness("out of memory"); }
        vp_alloc_may_fail(0);
        std::size_t const want = (held ? 1u : 0u) + (!failed && !(held && k == 1) ? 1u : 0u);
        vp_check(m.size() == want && m.empty() == !want, "the keys held");
        vp_check(live.load() == static_cast<int>(want), "the objects alive"); if (failed) vp_check(!b, "nothing is given");
        else vp_check(b && b->v == k + 10 && (k != 1 || !held || a == b), "the object of the key");
        if (want == 0) m.waitForEmpty();
        auto c = m.getResource(k, make); vp_check(c && c->v == k + 10 && (failed || c == b) && (!held || k != 1 || c == a), "a later request");
        a.reset(); b.reset(); c.reset(); m.waitForEmpty(); vp_check(m.empty() && live == 0, "all gone");
#endif
    }
    vp_leak_check();
}
