// Plain and atomic flag sets against the operations on the bits, for every value.
//VP name=u8 tier=both flags="-DVU=std::uint8_t" desc="8-bit sets, every pair of values, every operation"
//VP name=u32 tier=both flags="-DVU=std::uint32_t" desc="32-bit sets, every pair of values, every operation"
//VP name=u64 tier=both flags="-DVU=std::uint64_t" desc="64-bit sets, every pair of values, every operation"
//VP name=e16 tier=both flags="-DVU=std::uint16_t -DVE" desc="sets of an enumeration of 16 bits, every pair of values, every operation"
//VP name=i32 tier=both flags="-DVU=std::int32_t" desc="sets in a signed type, every pair of values, every operation"
#include <vp.h>
#include <cstdint>
#include <type_traits>
#include <sharemind/AtomicFlags.h>
#include <sharemind/Flags.h>
using U = VU;
#ifdef VE
enum class E: U {}; using T = E;
#else
using T = U;
#endif
using F = sharemind::Flags<T>; using A = sharemind::AtomicFlags<T>;
static U u(U x) { return x; }
VP_NOOPT int main() {
    U const a = vp_any<U>("a"), b = vp_any<U>("b"); F f(a);
    vp_check(U(f) == a && f.load() == a, "holds its value");
    vp_check(f.hasAnyOf(b) == ((a & b) != 0) && f.hasAllOf(b) == ((a & b) == b) && f.hasNoneOf(b) == ((a & b) == 0), "queries");
    vp_check(U(f & b) == u(a & b) && U(f | b) == u(a | b) && U(f ^ b) == u(a ^ b) && U(f) == a, "operators");
    { F g(a); vp_check(&(g &= b) == &g && U(g) == u(a & b), "&="); } { F g(a); vp_check(&(g |= b) == &g && U(g) == u(a | b), "|="); } { F g(a); vp_check(&(g ^= b) == &g && U(g) == u(a ^ b), "^="); }
    { F g(a); vp_check(&(g = b) == &g && U(g) == b, "="); g.store(a); vp_check(U(g) == a, "store"); vp_check(U(g.exchange(b)) == a && U(g) == b, "exchange"); F h(g); vp_check(U(h) == b, "copy"); F k; k = h; vp_check(U(k) == b, "assignment"); }
    { F g(a); vp_check(&g.setFlags(b) == &g && U(g) == u(a | b), "setFlags"); g.setFlags(); vp_check(U(g) == u(~U(0)), "setFlags all"); }
    { F g(a); vp_check(&g.unsetFlags(b) == &g && U(g) == u(a & ~b), "unsetFlags"); g.unsetFlags(); vp_check(U(g) == 0, "unsetFlags all"); }
    { F g(a); vp_check(&g.toggleFlags(b) == &g && U(g) == u(a ^ b), "toggleFlags"); F h(a); h.toggleFlags(); vp_check(U(h) == u(~a), "toggleFlags all"); }
    A x(a); vp_check(U(x.load()) == a, "atomic holds its value");
    vp_check(x.hasAnyOf(b) == ((a & b) != 0) && x.hasAllOf(b) == ((a & b) == b) && x.hasNoneOf(b) == ((a & b) == 0), "atomic queries");
    { A g(a); vp_check(U(g.fetchSetFlags(b)) == a && U(g.load()) == u(a | b), "fetchSetFlags"); vp_check(U(g.fetchSetFlags()) == u(a | b) && U(g.load()) == u(~U(0)), "fetchSetFlags all"); }
    { A g(a); vp_check(U(g.fetchUnsetFlags(b)) == a && U(g.load()) == u(a & ~b), "fetchUnsetFlags"); vp_check(U(g.fetchUnsetFlags()) == u(a & ~b) && U(g.load()) == 0, "fetchUnsetFlags all"); }
    { A g(a); vp_check(U(g.fetchToggleFlags(b)) == a && U(g.load()) == u(a ^ b), "fetchToggleFlags"); g.setFlags(); vp_check(U(g.load()) == u(~U(0)), "setFlags"); g.unsetFlags(); vp_check(U(g.load()) == 0, "unsetFlags"); }
    { A g(a); vp_check(U(g.exchange(b)) == a && U(g.load()) == b, "exchange"); g.store(a); vp_check(U(g.load()) == a, "store"); }
    U const e0 = vp_any<U>("expected");
    { A g(a); U e(e0); bool const r = g.compareExchangeStrong(e, b); vp_check(r == (a == e0) && U(g.load()) == (r ? b : a) && e == (r ? e0 : a), "compareExchangeStrong"); }
    { A g(a); F e(e0); bool const r = g.compareExchangeStrong(e, b, std::memory_order_acq_rel, std::memory_order_acquire); vp_check(r == (a == e0) && U(g.load()) == (r ? b : a) && U(e) == (r ? e0 : a), "compareExchangeStrong"); }
    { A g(a); U e(e0); bool const r = g.compareExchangeStrong(e, b, std::memory_order_acq_rel, std::memory_order_acquire); vp_check(r == (a == e0) && U(g.load()) == (r ? b : a) && e == (r ? e0 : a), "compareExchangeStrong"); }
    { A g(a); F e(e0); bool const r = g.compareExchangeStrong(e, b); vp_check(r == (a == e0) && U(g.load()) == (r ? b : a) && U(e) == (r ? e0 : a), "compareExchangeStrong"); }
    { A g(a); U e(e0); bool const r = g.compareExchangeWeak(e, b); vp_check((!r || a == e0) && U(g.load()) == (r ? b : a) && e == (r ? e0 : a), "compareExchangeWeak"); }
    { A g(a); F e(e0); bool const r = g.compareExchangeWeak(e, b); vp_check((!r || a == e0) && U(g.load()) == (r ? b : a) && U(e) == (r ? e0 : a), "compareExchangeWeak"); }
    { A g(a); U e(e0); bool const r = g.compareExchangeWeak(e, b, std::memory_order_acq_rel, std::memory_order_acquire); vp_check((!r || a == e0) && U(g.load()) == (r ? b : a) && e == (r ? e0 : a), "compareExchangeWeak"); }
    { A g(a); F e(e0); bool const r = g.compareExchangeWeak(e, b, std::memory_order_acq_rel, std::memory_order_acquire); vp_check((!r || a == e0) && U(g.load()) == (r ? b : a) && U(e) == (r ? e0 : a), "compareExchangeWeak"); }
}
