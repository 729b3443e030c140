// File descriptor owners over a table of descriptors: each owned descriptor is closed exactly once, no other ever.
//VP name=ops tier=both flags="-DVK=4" desc="two owners, four descriptors, four operations, system calls succeeding"
//VP name=fail tier=both flags="-DVK=3 -DVF=2" desc="two owners, four descriptors, three operations, up to two failing system calls of any kind"
//VP name=deep tier=thorough flags="-DVK=5" desc="two owners, four descriptors, five operations, system calls succeeding"
//VP name=deepf tier=thorough flags="-DVK=4 -DVF=2" desc="two owners, four descriptors, four operations, up to two failing system calls of any kind"
#include "../syscalls.h"
#include <exception>
#include <memory>
#include <utility>
#include <sharemind/FileDescriptor.h>
using F = sharemind::FileDescriptor;
int main() {
    vp_leak_mark();
    {
        std::unique_ptr<F> o[2]; int own[2] = { -1, -1 }; // the descriptor each owner should own
        unsigned closed[Os::N] = {};
        auto const openNew = [&] { int f = 0; while (f < Os::N && os.d[f].open) ++f; vp_assume(f < 4); return os.open(f); };
        auto const drop = [&](int i) { if (own[i] >= 0) ++closed[own[i]]; own[i] = -1; };
        auto const same = [&] {
            for (int i = 0; i < 2; ++i) if (o[i]) { vp_check(o[i]->nativeHandle() == own[i], "an owner has its descriptor"); vp_check(o[i]->valid() == (own[i] >= 0), "valid"); if (own[i] >= 0) vp_check(os.d[own[i]].open, "an owned descriptor is open"); }
            vp_check(os.badClose == 0, "only open descriptors are closed");
            for (int f = 0; f < Os::N; ++f) vp_check(os.d[f].closed == closed[f], "a descriptor is closed exactly once, when its owner lets go of it");
        };
#ifdef VF
        os.flaky = true; os.budget = VF;
#endif
        int free_[2] = { -1, -1 }; int nfree = 0; // released descriptors
        o[0].reset(new F(openNew())); own[0] = 0; o[1].reset(new F); same();
        for (int k = 0; k < VK; ++k) {
            int const i = vp_choose(2, "owner"), j = 1 - i;
            switch (vp_choose(10, "operation")) {
            case 0: { vp_assume(bool(o[i])); int const f = openNew(); drop(i); o[i]->reset(f); own[i] = f; break; }
            case 1: vp_assume(bool(o[i])); o[i]->reset(own[i]); break;
            case 2: { vp_assume(bool(o[i]) && nfree < 2); int const f = o[i]->release(); vp_check(f == own[i], "release returns the descriptor"); if (f >= 0) free_[nfree++] = f; own[i] = -1; break; }
            case 3: vp_assume(bool(o[i])); o[i]->close(); drop(i); break;
            case 4: vp_assume(o[i] && o[j]); *o[i] = std::move(*o[j]); drop(i); own[i] = own[j]; own[j] = -1; break;
            case 5: { vp_assume(bool(o[i])); F & s = *o[i]; s = std::move(*o[i]); break; }
            case 6: vp_assume(bool(o[i])); o[i].reset(); drop(i); break;
            case 7: vp_assume(!o[i] && o[j]); o[i].reset(new F(std::move(*o[j]))); own[i] = own[j]; own[j] = -1; break;
            case 8: { vp_assume(!o[i]); int const f = nfree ? free_[--nfree] : openNew(); o[i].reset(new F(f)); own[i] = f; break; }
            default: {
                vp_assume(bool(o[i])); unsigned before = 0; for (auto & x : os.d) before += x.opened; bool threw = false; int const b = os.budget;
                try {
                    F d(o[i]->duplicate()); int const h = d.nativeHandle(); vp_check(own[i] >= 0 && d.valid() && h >= 0 && h < Os::N && h != own[i], "a duplicate is another descriptor");
                    vp_check(os.d[h].open && os.d[h].fd == FD_CLOEXEC, "a duplicate is close-on-exec"); for (int q = 0; q < 2; ++q) vp_check(own[q] != h, "independently owned");
                    if (vp_choose(2, "keep")) { drop(i); *o[i] = std::move(d); own[i] = h; } else { d.close(); ++closed[h]; vp_check(!os.d[h].open && os.d[own[i]].open, "closing the duplicate leaves the original open"); }
                } catch (sharemind::Exception const & e) {
                    threw = true; vp_check(own[i] < 0 || os.budget < b, "duplicating fails only when the system call does");
                    try { std::rethrow_if_nested(e); vp_fail("the system error is nested"); } catch (sharemind::ErrnoException const & n) { vp_check(n.errorNumber() == os.lastError && n.errorNumber() != EINTR && n.errorNumber() != EAGAIN, "the nested error is the system's"); }
                    unsigned after = 0; for (auto & x : os.d) after += x.opened; vp_check(after == before, "a failed duplication leaves no descriptor open");
                }
                if (own[i] < 0) vp_check(threw, "duplicating nothing fails");
            }
            }
            same();
        }
        for (int i = 0; i < 2; ++i) { o[i].reset(); drop(i); same(); }
    }
    vp_leak_check();
}
