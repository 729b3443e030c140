// One producer and one consumer thread on a circular buffer, under every interleaving of their synchronisation operations.
//VP name=wait tier=both flags="-DVM=1 -DVN=2 -DVC=1" desc="blocking waits, capacity 1, 2 elements of any value, one spurious wake-up, every schedule"
//VP name=wait2 tier=both flags="-DVM=1 -DVN=3 -DVC=2 -DVS=0" desc="blocking waits, capacity 2, 3 elements, every schedule"
//VP name=chunk tier=both flags="-DVM=2 -DVN=4 -DVC=2 -DVS=1" desc="chunked transfers, capacity 2, 4 elements, one spurious wake-up, every schedule"
//VP name=actor tier=both flags="-DVM=3 -DVN=3 -DVC=2 -DVS=1" desc="actor-based transfers, capacity 2, 3 elements, one spurious wake-up, every schedule"
//VP name=stop tier=both flags="-DVM=4 -DVN=2 -DVC=1 -DVS=0" desc="waits with a stop test, capacity 1, 2 elements, every schedule"
//VP name=wait3 tier=thorough flags="-DVM=1 -DVN=3 -DVC=2 -DVS=1" desc="blocking waits, capacity 2, 3 elements, one spurious wake-up"
//VP name=chunk3 tier=thorough flags="-DVM=2 -DVN=7 -DVC=3 -DVS=1" desc="chunked transfers, capacity 3, 7 elements, one spurious wake-up"
//VP name=actor3 tier=thorough flags="-DVM=3 -DVN=7 -DVC=3 -DVS=1" desc="actor-based transfers, capacity 3, 7 elements, one spurious wake-up"
//VP name=partial tier=both flags="-DVM=5 -DVN=2 -DVC=3 -DVS=1" desc="capacity 3: a full buffer of which up to all elements are consumed, in one or two steps, and an empty one into which up to three are written, against a wait, with and without a stop test (at most two tests), one spurious wake-up, every schedule"
#include <vp.h>
#include <chrono>
#include <cstdint>
#include <limits>
#include <memory>
#include <thread>
#include <sharemind/CircBufferSCSP.h>
#ifndef VS
#define VS 1
#endif
using B = sharemind::CircBufferSCSP<uint32_t>;
struct Stop {};
int main() {
    vp_leak_mark();
    {
        uint32_t in[VN], out[VN]; for (int i = 0; i < VN; ++i) in[i] = vp_any<uint32_t>("element");
        bool stopped = false; (void) in; (void) out; (void) stopped;
        B b(VC);
        if (VS) vp_spurious(VS);
#if VM == 5
        bool const fill = vp_choose(2, "full"), test = vp_choose(2, "stop test"); size_t const n = vp_range<size_t>("amount", 1, VC), first = vp_range<size_t>("first step", 1, VC); vp_assume(first <= n); vp_concretize(n); vp_concretize(first);
        if (fill) b.haveWritten(VC);
        std::thread w([&] { int tests = 0; auto const none = [&] { vp_assume(++tests <= 2); }; auto const ms = std::chrono::milliseconds(5);
            size_t const g = fill ? (test ? b.waitSpaceAvailable(none, ms) : b.waitSpaceAvailable()) : (test ? b.waitDataAvailable(none, ms) : b.waitDataAvailable());
            vp_check(g == first || g == n, "the wait returns the amount"); });
        auto const step = [&](size_t const k) { if (fill) vp_check(b.haveRead(k) <= VC, "rest"); else vp_check(b.haveWritten(k) <= VC, "rest"); };
        step(first); if (n > first) step(n - first);
        w.join(); vp_check(fill ? b.spaceAvailable() == n && b.dataAvailable() == VC - n : b.dataAvailable() == n && b.spaceAvailable() == VC - n, "bookkeeping");
#else
        std::thread p([&] {
            size_t i = 0;
            while (i < VN) {
                size_t const s = b.waitSpaceAvailable();
                vp_check(s > 0 && s <= VC, "the producer wakes with space"); vp_check(b.spaceAvailable() >= s, "space does not shrink without the producer");
#if VM == 1 || VM == 4
                vp_check(b.write(in + i, 1) == 1, "one element is written"); ++i;
#elif VM == 2
                size_t const w = b.write(in + i, VN - i); vp_check(w >= (s < VN - i ? s : VN - i), "at least the announced space is used"); i += w;
#else
                size_t const w = b.write([&](uint32_t * q, size_t n) noexcept -> size_t { size_t k = 0; for (; k < n && i + k < VN; ++k) q[k] = in[i + k]; i += k; return k; }); vp_check(w > 0, "something is written");
#endif
            }
        });
        std::thread c([&] {
            size_t i = 0;
#if VM == 4
            int tests = 0;
            try {
                while (i < VN + 1) {
                    size_t const d = b.waitDataAvailable([&] { if (++tests > 1) throw Stop(); }, std::chrono::milliseconds(5)); vp_check(d > 0 && d <= VC, "wakes with data");
                    vp_check(b.read(out + i, 1) == 1, "one element is read"); ++i;
                }
            } catch (Stop const &) { stopped = true; }
            vp_check(stopped, "the stop test ends the wait");
            while (i < VN) { vp_check(b.waitDataAvailable() > 0, "data"); vp_check(b.read(out + i, 1) == 1, "one element is read"); ++i; }
#else
            while (i < VN) {
                size_t const d = b.waitDataAvailable(); vp_check(d > 0 && d <= VC, "the consumer wakes with data"); vp_check(b.dataAvailable() >= d, "data does not shrink without the consumer");
#if VM == 1
                vp_check(b.read(out + i, 1) == 1, "one element is read"); ++i;
#elif VM == 2
                size_t const w = b.read(out + i, VN - i); vp_check(w >= (d < VN - i ? d : VN - i), "at least the announced data is read"); i += w;
#else
                size_t const w = b.read([&](uint32_t const * q, size_t n) noexcept -> size_t { size_t k = 0; for (; k < n && i + k < VN; ++k) out[i + k] = q[k]; i += k; return k; }); vp_check(w > 0, "something is read");
#endif
            }
#endif
        });
        p.join(); c.join();
        for (int i = 0; i < VN; ++i) vp_check(out[i] == in[i], "the consumer receives the elements in order, unmodified");
        vp_check(b.empty() && b.dataAvailable() == 0 && b.spaceAvailable() == VC, "nothing is left over");
#endif
    }
    vp_leak_check();
}
