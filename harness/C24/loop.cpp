// The system call loop over every sequence of results and error numbers.
//VP name=int tier=both flags="-DVR=int -DVN=4" desc="up to four calls, every int result and errno value"
//VP name=ssize tier=both flags="-DVR=long -DVN=4" desc="up to four calls, every 64-bit result and errno value"
//VP name=deep tier=thorough flags="-DVR=int -DVN=9" desc="up to nine calls, every int result and errno value"
#include <vp.h>
#include <cerrno>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <sharemind/Posix.h>
struct Mine: sharemind::Exception { Mine() noexcept { errno = EDOM; } char const * what() const noexcept override { return "mine"; } };
static int calls; static VR res[VN]; static int err[VN]; static VR lim;
static VR call(int a, VR const * b, int & c) { vp_check(a == 5 && b == res && &c == &calls, "arguments are passed on every call"); vp_assume(calls < VN); int const i = calls++; errno = err[i]; return res[i]; }
int main() {
    for (int i = 0; i < VN; ++i) { res[i] = vp_any<VR>("result"); err[i] = vp_any<int>("errno"); }
    lim = vp_any<VR>("limit"); bool const eq = vp_choose(2, "predicate");
    auto const ok = [&](VR const r) { return eq ? r != lim : r >= lim; };
    int want = -1, last = -1; bool retry[VN];
    bool fatal = false;
    try {
        VR const r = sharemind::syscallLoop<Mine>(call, ok, 5, &res[0], calls);
        last = calls - 1; vp_check(last >= 0 && ok(res[last]) && r == res[last], "the accepted result is returned");
    } catch (Mine const & e) {
        fatal = true; last = calls - 1; vp_check(last >= 0 && !ok(res[last]), "an accepted result is not a failure"); vp_check((err[last] != EINTR) & (err[last] != EAGAIN), "an interruption is not a failure");
        try { std::rethrow_if_nested(e); vp_fail("the causing error is nested"); } catch (sharemind::ErrnoException const & n) { vp_check(n.errorNumber() == err[last], "the nested error is the call's"); vp_check(n.what() != nullptr && std::strlen(n.what()) < sharemind::ErrnoException::BUFFER_SIZE, "message"); }
    }
    for (int i = 0; i < last; ++i) vp_check(!ok(res[i]) & ((err[i] == EINTR) | (err[i] == EAGAIN)), "only interruptions are retried");
    (void) want; (void) retry; vp_cover(fatal, "failure"); vp_cover(!fatal && last == 2, "success after two interruptions");
}
