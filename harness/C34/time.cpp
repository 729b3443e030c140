// Time of day in microseconds and the duration helpers, for every value.
//VP name=clock tier=both flags="-DVM=1" desc="every time of day below 2^43 seconds, and every failure"
//VP name=durations tier=both flags="-DVM=2" desc="every length that fits"
#include <vp.h>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <sys/time.h>
static bool fails; static timeval tv; static int calls = 0;
static int vpx_gettimeofday(timeval * t, void *) { ++calls; if (fails) return -1; *t = tv; return 0; }
#define gettimeofday vpx_gettimeofday
#include <sharemind/MicrosecondTime.h>
#undef gettimeofday
#include <sharemind/Durations.h>
using namespace std::chrono;
template <typename D> static void dur(std::size_t const n) { sharemind::LoopDuration<D> const d(n); D const & b = d; vp_check(b.count() == static_cast<typename D::rep>(n) && b == D(n), "the requested length"); }
VP_NOOPT int main() {
#if VM == 1
    fails = vp_choose(2, "fails"); tv.tv_sec = vp_any<decltype(tv.tv_sec)>("s"); tv.tv_usec = vp_any<decltype(tv.tv_usec)>("us"); vp_assume(tv.tv_sec >= 0 && tv.tv_sec < (std::int64_t(1) << 43) && tv.tv_usec >= 0 && tv.tv_usec < 1000000);
    sharemind::UsTime const onFail = vp_any<sharemind::UsTime>("on failure"), r = sharemind::getUsTime(onFail);
    vp_check(calls == 1, "read once"); if (fails) { vp_check(r == onFail, "the value for failures"); } else { using Wide = unsigned __int128; vp_check(Wide(r) == Wide(tv.tv_sec) * 1000000u + Wide(tv.tv_usec), "seconds and microseconds"); }
    if (fails) vp_check(sharemind::getUsTime() == 0u, "zero on failure by default");
    int const e = vp_any<int>("exception"); bool thrown = false; sharemind::UsTime q = 0; try { q = sharemind::getUsTimeOrThrow(e); } catch (int x) { thrown = true; vp_check(x == e, "the given exception"); }
    vp_check(thrown == fails, "throws exactly on failure"); if (!thrown) vp_check(q == r, "the same time");
#else
    std::size_t const n = vp_any<std::size_t>("n"); vp_assume(n <= std::size_t(INT64_MAX)); dur<milliseconds>(n); dur<microseconds>(n); dur<seconds>(n); dur<nanoseconds>(n); { sharemind::LoopDuration<> const d(n); vp_check(d.count() == milliseconds::rep(n), "milliseconds by default"); }
    vp_check((sharemind::StaticLoopDuration<>() == milliseconds(3) && sharemind::StaticLoopDuration<250>() == milliseconds(250) && sharemind::StaticLoopDuration<7, seconds>() == seconds(7) && sharemind::StaticLoopDuration<0>() == milliseconds(0)), "static durations");
#endif
}
