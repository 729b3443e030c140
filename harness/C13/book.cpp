// The bookkeeping of the circular buffer with symbolic transfer sizes: counts, offsets and contiguous blocks for every amount.
//VP name=locked tier=both flags="-DVK=1" opts="--merge" desc="capacities 1, 7, 1024, start offsets 0, 1 and last, any fill, one transfer of any amount"
//VP name=unlocked tier=both flags="-DVK=1 -DVL=sharemind::CircBufferNoLocking" opts="--merge" desc="capacities 1, 7, 1024, start offsets 0, 1 and last, any fill, one transfer of any amount"
//VP name=deep tier=thorough flags="-DVK=2 -DVL=sharemind::CircBufferNoLocking" opts="--merge" desc="capacities 1, 7, 1024, start offsets 0, 1 and last, any fill, two transfers of any amount"
#include <vp.h>
#include <cstdint>
#include <limits>
#include <memory>
#include <sharemind/CircBufferSCSP.h>
#ifndef VW
#define VW uint32_t
#endif
#ifndef VL
#define VL sharemind::CircBufferScspLocking<>
#endif
using B = sharemind::CircBufferSCSP<uint8_t, VL>;
static size_t any(size_t max, char const * n) { size_t const v = vp_any<VW>(n); vp_assume(v <= max); return v; }
static size_t least(size_t a, size_t b) { return a < b ? a : b; }
static unsigned n_form = 0;
struct Ref { size_t cap, n, w, r; size_t space() const { return cap - n; } };
static size_t wrap(size_t o, size_t k, size_t cap) { o += k; return o >= cap ? o - cap : o; }
static void same(B & b, Ref const & f) {
    size_t x = 99, y = 99;
    vp_check((b.dataAvailable() == f.n) & (b.dataAvailable(x) == f.n) & (b.spaceAvailable() == f.space()) & (b.spaceAvailable(y) == f.space()) & (b.writeOffset() == f.w) & (b.readOffset() == f.r)
        & (x == least(f.n, f.cap - f.r)) & (b.dataAvailableUntilBufferEnd() == x) & (y == least(f.space(), f.cap - f.w)) & (b.spaceAvailableUntilBufferEnd() == y)
        & (b.empty() == (f.n == 0)) & (b.full() == (f.n == f.cap)), "counts, offsets and contiguous blocks");
}
static void step(B & b, Ref & f) {
    switch (vp_choose(4, "operation")) {
    case 0: {
        size_t const k = any(f.space(), "written"), form = (n_form++ % 3); f.n += k; f.w = wrap(f.w, k, f.cap);
        if (form == 0) vp_check(b.haveWritten(k) == f.space(), "haveWritten returns the free space");
        else if (form == 1) b.haveWrittenNoRet(k);
        else vp_check(b.haveWrittenRetUbe(k) == least(f.space(), f.cap - f.w), "haveWrittenRetUbe returns the contiguous free space");
        break;
    }
    case 1: {
        size_t const k = any(f.n, "read"), form = (n_form++ % 3); f.n -= k; f.r = wrap(f.r, k, f.cap);
        if (form == 0) vp_check(b.haveRead(k) == f.n, "haveRead returns the pending number");
        else if (form == 1) b.haveReadNoRet(k);
        else vp_check(b.haveReadRetUbe(k) == least(f.n, f.cap - f.r), "haveReadRetUbe returns the contiguous pending number");
        break;
    }
    case 2: {
        size_t sum = 0; bool stop = false;
        size_t const got = b.write([&](uint8_t * p, size_t n) noexcept -> size_t {
            vp_check(!stop, "no call after the actor stopped"); vp_check(p == b.arrayStart() + f.w, "block starts at the write offset");
            vp_check((n > 0) & (n == least(f.space(), f.cap - f.w)), "block is the contiguous free space");
            size_t const k = any(n, "taken"); stop = k < n; sum += k; f.n += k; f.w = wrap(f.w, k, f.cap); return k; });
        vp_check(got == sum, "reported number"); if (!stop) vp_check(f.n == f.cap, "stops early only when the actor does"); break;
    }
    default: {
        size_t sum = 0; bool stop = false;
        size_t const got = b.read([&](uint8_t const * p, size_t n) noexcept -> size_t {
            vp_check(!stop, "no call after the actor stopped"); vp_check(p == b.arrayStart() + f.r, "block starts at the read offset");
            vp_check((n > 0) & (n == least(f.n, f.cap - f.r)), "block is the contiguous pending data");
            size_t const k = any(n, "taken"); stop = k < n; sum += k; f.n -= k; f.r = wrap(f.r, k, f.cap); return k; });
        vp_check(got == sum, "reported number"); if (!stop) vp_check(f.n == 0, "stops early only when the actor does");
    }
    }
    same(b, f);
}
int main() {
    static size_t const caps[] = { 1, 7, 1024 };
    Ref f; f.cap = caps[vp_choose(3, "capacity")]; B b(f.cap); f.n = f.w = f.r = 0; same(b, f);
    size_t const sc = vp_choose(f.cap < 3 ? f.cap : 3, "start"), s = sc == 2 ? f.cap - 2 : sc, n = any(f.cap, "fill");
    b.haveWrittenNoRet(s); b.haveReadNoRet(s); b.haveWrittenNoRet(n); f.n = n; f.r = s; f.w = wrap(s, n, f.cap); same(b, f);
    n_form = vp_choose(3, "form"); for (unsigned i = 0; i < VK; ++i) step(b, f);
}
