// The ticket lock under every interleaving.
//VP name=t2 tier=both flags="-DVT=2 -DVN=2" shim=1 desc="two threads locking twice each: every interleaving"
//VP name=t3 tier=both flags="-DVT=3 -DVN=1" shim=1 desc="three threads locking once each: every interleaving"
//VP name=t3n2 tier=thorough flags="-DVT=3 -DVN=2" shim=1 desc="three threads locking twice each: every interleaving"
//VP name=t2n4 tier=thorough flags="-DVT=2 -DVN=4" shim=1 desc="two threads locking four times each: every interleaving"
#include <vp.h>
#include <atomic>
#include <cstddef>
#include <mutex>
#include <thread>
#include <sharemind/TicketSpinLock.h>
static sharemind::TicketSpinLock L; static int inside = 0, count = 0, plain = 0;
static void work() { for (int i = 0; i < VN; ++i) { std::lock_guard<sharemind::TicketSpinLock> const g(L); vp_check(inside == 0, "one holder at a time"); inside = 1; ++plain; vp_yield(); vp_check(inside == 1, "one holder at a time"); inside = 0; ++count; } }
int main() {
    std::thread a(work), b(work);
#if VT > 2
    std::thread c(work); c.join();
#endif
    a.join(); b.join(); vp_check(count == VT * VN && plain == VT * VN, "everyone gets the lock");
    L.lock(); L.unlock();
}
