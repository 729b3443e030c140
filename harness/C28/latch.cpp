// A latch counted down and waited for by several threads, every interleaving.
//VP name=seq tier=both flags="-DVM=0 -DVC=uint8_t" desc="one thread, counts 1..255 of an 8-bit latch, every number of count-downs"
//VP name=wait tier=both flags="-DVM=1 -DVN=2 -DVS=1" desc="two threads count down, two wait (one of them the main thread), one spurious wake-up, every schedule"
//VP name=all tier=both flags="-DVM=2 -DVN=3 -DVS=1" desc="three threads count down and wait for each other (barrier), one spurious wake-up, every schedule"
//VP name=mix tier=both flags="-DVM=3 -DVN=3 -DVS=0" desc="count-downs with and without waiting, polling and waiting, every schedule"
//VP name=mix1 tier=thorough flags="-DVM=3 -DVN=4 -DVS=1" desc="as mix, four parties, one spurious wake-up"
#include <vp.h>
#include <atomic>
#include <cstdint>
#include <memory>
#include <thread>
#include <vector>
#include <sharemind/Latch.h>
int main() {
    vp_leak_mark();
    {
#if VM == 0
        unsigned const n = 1 + vp_choose(255, "count"), k = vp_choose(3, "short") ? n - vp_choose(n < 3 ? n : 3, "missing") : vp_choose(n < 4 ? n : 4, "count-downs");
        sharemind::Latch<VC> l(static_cast<VC>(n)); vp_check(!l.isReady(), "closed at first");
        for (unsigned i = 0; i < k; ++i) { bool const last = l.countDown(); vp_check(last == (i + 1 == n), "exactly the last count-down is reported"); vp_check(l.isReady() == (i + 1 == n), "open exactly when counted down"); }
        if (k == n) { l.wait(); l.wait(); } else if (k + 1 == n) { l.countDownAndWait(); vp_check(l.isReady(), "open"); l.wait(); }
#else
        sharemind::Latch<> l(VN); std::atomic<int> down(0), last(0); int plain[VN] = {};   // what precedes a count-down is visible after the wait
        auto const before = [&](int i) { plain[i] = i + 1; down.fetch_add(1, std::memory_order_relaxed); };
        auto const after = [&] { vp_check(down.load(std::memory_order_relaxed) == VN, "no waiter returns before the last count-down"); for (int i = 0; i < VN; ++i) vp_check(plain[i] == i + 1, "what preceded the count-downs is visible"); vp_check(l.isReady(), "open"); };
        vp_spurious(VS);
        std::vector<std::unique_ptr<std::thread>> t;
# if VM == 1
        for (int i = 0; i < VN; ++i) t.emplace_back(new std::thread([&, i] { before(i); if (l.countDown()) last.fetch_add(1, std::memory_order_relaxed); }));
        t.emplace_back(new std::thread([&] { sharemind::Latch<> const & c = l; c.wait(); after(); }));
        l.wait(); after();
# elif VM == 2
        for (int i = 1; i < VN; ++i) t.emplace_back(new std::thread([&, i] { before(i); l.countDownAndWait(); after(); }));
        before(0); l.countDownAndWait(); after(); last = 1;
# else
        for (int i = 0; i < VN - 1; ++i) t.emplace_back(new std::thread([&, i] { before(i); if (i % 2) l.countDownAndWait(), after(); else if (l.countDown()) last.fetch_add(1, std::memory_order_relaxed); }));
        if (l.isReady()) vp_fail("ready early");
        before(VN - 1);
        if (vp_choose(2, "wait")) { l.countDownAndWait(); after(); } else { if (l.countDown()) last.fetch_add(1, std::memory_order_relaxed); if (l.isReady()) after(); }
        for (auto & x : t) { x->join(); } t.clear(); after(); vp_check(last <= 1, "at most one last count-down"); last = 1;
# endif
        for (auto & x : t) x->join();
        vp_check(last == 1, "exactly one count-down is the last"); vp_check(l.isReady(), "open for ever");
#endif
    }
    vp_leak_check();
}
