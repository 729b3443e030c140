// The circular buffer, used from one thread, against a mathematical FIFO: every sequence of VK operations from every fill state.
//VP name=locked tier=both flags="-DVT=uint8_t -DVK=2 -DVC=3" desc="mutex locking, bytes, capacities 1..3, every start offset and fill, two operations of every size, all values"
//VP name=unlocked tier=both flags="-DVT=uint32_t -DVK=3 -DVC=2 -DVL=sharemind::CircBufferNoLocking" desc="no locking, 32-bit elements, capacities 1..2, every start offset and fill, three operations, all values"
//VP name=void tier=both flags="-DVT=void -DVK=2 -DVC=3 -DVL=sharemind::CircBufferNoLocking" desc="untyped elements, capacities 1..3, every start offset and fill, two operations, all values"
//VP name=wide tier=both flags="-DVT=uint64_t -DVK=1 -DVC=7 -DVL=sharemind::CircBufferNoLocking" desc="64-bit elements, capacities 1..7, every start offset and fill, one operation, all values"
//VP name=deep tier=thorough flags="-DVT=uint8_t -DVK=3 -DVC=4 -DVL=sharemind::CircBufferNoLocking" desc="bytes, capacities 1..4, three operations"
//VP name=deep2 tier=thorough flags="-DVT=uint16_t -DVK=4 -DVC=2 -DVL=sharemind::CircBufferNoLocking" desc="16-bit elements, capacities 1..2, four operations"
//VP name=deeplock tier=thorough flags="-DVT=uint16_t -DVK=3 -DVC=3" desc="mutex locking, capacities 1..3, three operations"
#include <vp.h>
#include <cstdint>
#include <limits>
#include <memory>
#include <sharemind/CircBufferSCSP.h>
#ifndef VL
#define VL sharemind::CircBufferScspLocking<>
#endif
using B = sharemind::CircBufferSCSP<VT, VL>;
using E = typename std::conditional<std::is_void<VT>::value, uint8_t, VT>::type;
static constexpr size_t MAXE = VC * (VK + 2) + 8;
struct Ref {
    size_t cap; E q[MAXE]; size_t head = 0, tail = 0;   // elements head..tail are pending
    size_t n() const { return tail - head; }
    size_t space() const { return cap - n(); }
};
static E * el(void * p) { return static_cast<E *>(p); }
static void inside(B & b, void const * p, size_t n) {
    E const * const s = el(b.arrayStart()); E const * const q = static_cast<E const *>(p);
    vp_check(q >= s && q < s + b.bufferSize() && n <= size_t(s + b.bufferSize() - q), "a contiguous block lies inside the array");
}
static void same(B & b, Ref const & r) {
    size_t x = 99, y = 99;
    vp_check(b.bufferSize() == r.cap, "capacity");
    vp_check(b.dataAvailable() == r.n() && b.dataAvailable(x) == r.n(), "data available");
    vp_check(b.spaceAvailable() == r.space() && b.spaceAvailable(y) == r.space(), "space available");
    vp_check(b.empty() == (r.n() == 0) && b.full() == (r.space() == 0), "empty, full");
    vp_check(b.readOffset() < r.cap && b.writeOffset() < r.cap, "offsets");
    size_t const dr = r.cap - b.readOffset(), dw = r.cap - b.writeOffset();
    size_t const wx = dr < r.n() ? dr : r.n(), wy = dw < r.space() ? dw : r.space();
    vp_check(x == wx && b.dataAvailableUntilBufferEnd() == wx, "contiguous data");
    vp_check(y == wy && b.spaceAvailableUntilBufferEnd() == wy, "contiguous space");
    for (size_t i = 0; i < r.n(); ++i)
        vp_check(el(b.arrayStart())[(b.readOffset() + i) % r.cap] == r.q[r.head + i], "pending elements are stored in order");
}
static void step(B & b, Ref & r) {
    switch (vp_choose(6, "operation")) {
    case 0: {   // write
        size_t const n = 1 + vp_choose(r.cap + 1, "write"); E d[VC + 1];
        for (size_t i = 0; i < n; ++i) d[i] = vp_any<E>("element");
        size_t const want = n < r.space() ? n : r.space();
        vp_check(b.write(d, n) == want, "write reports the number of elements there was space for");
        for (size_t i = 0; i < want; ++i) r.q[r.tail++] = d[i];
        break;
    }
    case 1: {   // read
        size_t const n = 1 + vp_choose(r.cap + 1, "read"); E d[VC + 2]; for (size_t i = 0; i < VC + 2; ++i) d[i] = E(i + 77);
        size_t const want = n < r.n() ? n : r.n();
        vp_check(b.read(d, n) == want, "read reports the number of elements there were");
        for (size_t i = 0; i < want; ++i) vp_check(d[i] == r.q[r.head++], "an element is read in write order, unmodified");
        for (size_t i = want; i < VC + 2; ++i) vp_check(d[i] == E(i + 77), "nothing else is written to the destination");
        break;
    }
    case 2: {   // actor-based write
        size_t budget = vp_choose(r.cap + 2, "actor takes"); size_t const want = budget < r.space() ? budget : r.space(); size_t calls = 0;
        size_t const got = b.write([&](VT * p, size_t n) noexcept -> size_t {
            inside(b, p, n); vp_check(n > 0 && n <= r.space(), "the actor is offered free space"); ++calls;
            size_t const k = n < budget ? n : budget; budget -= k;
            for (size_t i = 0; i < k; ++i) { E const e = vp_any<E>("element"); el(p)[i] = e; r.q[r.tail++] = e; }
            return k; });
        vp_check(got == want, "actor-based write reports what the actor wrote"); vp_check(calls <= 3, "calls"); break;
    }
    case 3: {   // actor-based read
        size_t budget = vp_choose(r.cap + 2, "actor takes"); size_t const want = budget < r.n() ? budget : r.n();
        size_t const got = b.read([&](VT const * p, size_t n) noexcept -> size_t {
            inside(b, p, n); vp_check(n > 0 && n <= r.n(), "the actor is offered pending data");
            size_t const k = n < budget ? n : budget; budget -= k;
            for (size_t i = 0; i < k; ++i) vp_check(static_cast<E const *>(p)[i] == r.q[r.head++], "the actor sees the elements in write order");
            return k; });
        vp_check(got == want, "actor-based read reports what the actor read"); break;
    }
    case 4: {   // manual write
        size_t const c = b.spaceAvailableUntilBufferEnd(); vp_assume(c > 0 || r.space() == 0); size_t const n = c ? vp_choose(c + 1, "manual") : 0;
        E * const p = el(b.arrayStart()) + b.writeOffset(); if (n) inside(b, p, n);
        for (size_t i = 0; i < n; ++i) { p[i] = vp_any<E>("element"); r.q[r.tail++] = p[i]; }
        size_t const w = (b.writeOffset() + n) % r.cap;
        switch (vp_choose(3, "form")) {
        case 0: vp_check(b.haveWritten(n) == r.space(), "haveWritten returns the free space"); break;
        case 1: b.haveWrittenNoRet(n); break;
        default: { size_t const u = b.haveWrittenRetUbe(n); vp_check(u == (r.cap - w < r.space() ? r.cap - w : r.space()), "haveWrittenRetUbe returns the contiguous free space"); }
        }
        vp_check(b.writeOffset() == w, "write offset advances"); break;
    }
    default: {  // manual read
        size_t const n = vp_choose(r.n() + 1, "manual"); size_t const w = (b.readOffset() + n) % r.cap; r.head += n;
        switch (vp_choose(3, "form")) {
        case 0: vp_check(b.haveRead(n) == r.n(), "haveRead returns the pending number"); break;
        case 1: b.haveReadNoRet(n); break;
        default: { size_t const u = b.haveReadRetUbe(n); vp_check(u == (r.cap - w < r.n() ? r.cap - w : r.n()), "haveReadRetUbe returns the contiguous pending number"); }
        }
        vp_check(b.readOffset() == w, "read offset advances");
    }
    }
    same(b, r);
}
int main() {
    vp_leak_mark();
    {
        Ref r; r.cap = 1 + vp_choose(VC, "capacity"); B b(r.cap); same(b, r);
        size_t const s = vp_choose(r.cap, "start"), n = vp_choose(r.cap + 1, "fill");
        E d[VC]; for (size_t i = 0; i < VC; ++i) d[i] = vp_any<E>("initial");
        if (s) { vp_check(b.write(d, s) == s, "write"); E t[VC]; vp_check(b.read(t, s) == s, "read"); for (size_t i = 0; i < s; ++i) vp_check(t[i] == d[i], "first lap"); }
        if (n) { vp_check(b.write(d, n) == n, "write"); for (size_t i = 0; i < n; ++i) r.q[r.tail++] = d[i]; }
        same(b, r);
        for (unsigned i = 0; i < VK; ++i) step(b, r);
    }
    vp_leak_check();
}
