// Adding descriptor flags: every previous and requested flag set, with system calls failing.
//VP name=fd tier=both flags="-DVADD=fcntlAddFd -DVGET=F_GETFD -DVSET=F_SETFD" desc="descriptor flags, every previous and requested set, up to three failing calls of any kind"
//VP name=fl tier=both flags="-DVADD=fcntlAddFl -DVGET=F_GETFL -DVSET=F_SETFL" desc="status flags, every previous and requested set, up to three failing calls of any kind"
#include <vp.h>
#include <cerrno>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
static int cur, was, add, gets, sets, fails, lastErr; static int failedCmd;
struct VpxFcntl {
    int operator()(int f, int cmd, int arg = 0) const {
        vp_check(f == 7, "the descriptor is passed"); vp_check(cmd == VGET || cmd == VSET, "only the flags concerned are touched");
        if (fails < 3 && vp_choose(2, "fails")) { ++fails; errno = lastErr = vp_any<int>("errno"); failedCmd = cmd; return -1; }
        if (cmd == VGET) { ++gets; return cur; }
        ++sets; cur = arg; return 0;
    }
};
static VpxFcntl const vpx_fcntl{};
#define fcntl vpx_fcntl
#include <sharemind/Posix.h>
struct GetE: sharemind::Exception {}; struct SetE: sharemind::Exception {};
template <class E> static void nested(E const & e) { try { std::rethrow_if_nested(e); vp_fail("nested error"); } catch (sharemind::ErrnoException const & n) { vp_check(n.errorNumber() == lastErr, "the nested error is the call's"); } }
int main() {
    cur = was = vp_any<int>("previous"); vp_assume(was >= 0); add = vp_any<int>("requested"); vp_assume(add >= 0);
    try { sharemind::VADD<GetE, SetE>(7, add); vp_check(cur == (was | add), "all previous flags are kept, exactly the requested ones are added"); vp_check(sets >= 1 && gets >= 1, "flags are read and set"); }
    catch (GetE const & e) { vp_check(failedCmd == VGET && cur == was, "a failure to read leaves the flags alone"); nested(e); vp_check(lastErr != EINTR && lastErr != EAGAIN, "interruptions are retried"); }
    catch (SetE const & e) { vp_check(failedCmd == VSET && cur == was, "a failure to set leaves the flags alone"); nested(e); vp_check(lastErr != EINTR && lastErr != EAGAIN, "interruptions are retried"); }
    vp_cover(cur != was, "changed");
}
