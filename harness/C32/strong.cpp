// A strong type against the operators of its value, for every value.
//VP name=u32 tier=both flags="-DVT=std::uint32_t" desc="unsigned 32-bit, every pair of values, every operator"
//VP name=i32 tier=both flags="-DVT=std::int32_t -DVSIGNED" desc="signed 32-bit, every pair of values whose result is defined, every operator"
//VP name=u8 tier=both flags="-DVT=std::uint8_t" desc="unsigned 8-bit, every pair of values, every operator"
//VP name=i16 tier=both flags="-DVT=std::int16_t" desc="signed 16-bit, every pair of values whose result is defined, every operator"
//VP name=u64 tier=both flags="-DVT=std::uint64_t" desc="unsigned 64-bit, every pair of values, every operator"
//VP name=ptr tier=both flags="-DVPTR" desc="pointers into an array, every pair of positions, the operators of pointers"
#include <vp.h>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <ostream>
#include <type_traits>
#include <utility>
#include <sharemind/StrongType.h>
using namespace sharemind;
#ifdef VPTR
using T = int const *;
#else
using T = VT;
#endif
struct Sink { T got{}; int n = 0; Sink & operator<<(T v) { got = v; ++n; return *this; } };
struct Tag; struct Tag2;
#ifdef VPTR
using S = StrongType<T, Tag, StrongTypeHashable, StrongTypeFullyComparable, StrongTypeAddAssignableWith<int>, StrongTypeSubAssignableWith<int>, StrongTypeIncrementable, StrongTypeDecrementable, StrongTypeStreamableTo<Sink>, StrongTypeSwappable>;
#else
using O = StrongType<T, Tag2>;
# define VALL(n) StrongType ## n, StrongType ## n ## With<T>, StrongType ## n ## With<O>
using S = StrongType<T, Tag, StrongTypeHashable, StrongTypeFullyComparable, VALL(AddAssignable), VALL(SubAssignable), VALL(MulAssignable), VALL(DivAssignable), VALL(ModAssignable), VALL(XorAssignable), VALL(AndAssignable), VALL(OrAssignable),
    StrongTypeIncrementable, StrongTypeDecrementable, StrongTypeStreamableTo<Sink>, StrongTypeSwappable>;
#endif
VP_NOOPT int main() {
#ifdef VPTR
    static int arr[6]; std::size_t const i = vp_range<std::size_t>("i", 0, 5), j = vp_range<std::size_t>("j", 0, 5); T const a = arr + i, b = arr + j;
#else
    T const a = vp_any<T>("a"), b = vp_any<T>("b");
#endif
    S s(a); S const t(b);
    vp_check(s.get() == a && t.get() == b, "holds its value"); { S c(s); vp_check(c.get() == a, "copy"); c = t; vp_check(c.get() == b, "assignment"); c.get() = a; vp_check(c.get() == a, "reference"); S m(std::move(c)); vp_check(m.get() == a, "move"); }
    vp_check((s == t) == (a == b) && (s != t) == (a != b) && (s < t) == (a < b) && (s <= t) == (a <= b) && (s > t) == (a > b) && (s >= t) == (a >= b), "comparisons");
    vp_check(s.hash() == std::hash<T>()(a) && std::hash<S>()(s) == std::hash<T>()(a), "hash");
    { S c(a); S d(b); swap(c, d); vp_check(c.get() == b && d.get() == a, "swap"); }
    { Sink k; k << s; vp_check(k.n == 1 && k.got == a, "streamed"); }
#ifdef VPTR
    { S c(a); c += int(j) - int(i); vp_check(c.get() == b, "+="); c -= int(j) - int(i); vp_check(c.get() == a, "-="); }
    if (i < 5) { S c(a); vp_check(&++c == &c && c.get() == a + 1, "++"); vp_check(c--.get() == a + 1 && c.get() == a, "--"); vp_check(c++.get() == a && c.get() == a + 1, "++"); vp_check(&--c == &c && c.get() == a, "--"); }
#else
    S const s2(b); O const o(b); bool fits = true, fitsM = true;
# ifdef VSIGNED
    std::int64_t const A = a, B = b; auto ok = [](std::int64_t v) { return v >= INT32_MIN && v <= INT32_MAX; }; bool const add = ok(A + B), sub = ok(A - B), mul = ok(A * B), div = b != 0 && !(a == INT32_MIN && b == -1), inc = a != INT32_MAX, dec = a != INT32_MIN;
# else
    bool const add = true, sub = true, mul = true, div = b != 0, inc = true, dec = true;
# endif
    (void) fits; (void) fitsM; (void) s2;
# define OP(op, def) if (def) { T x(a); x op b; { S c(a); S & r = (c op t); vp_check(&r == &c && c.get() == x, #op); } { S c(a); S & r = (c op b); vp_check(&r == &c && c.get() == x, #op " value"); } { S c(a); S & r = (c op o); vp_check(&r == &c && c.get() == x, #op " other"); } }
    OP(+=, add) OP(-=, sub) OP(*=, mul) OP(/=, div) OP(%=, div) OP(^=, true) OP(&=, true) OP(|=, true)
    if (inc) { T x(a); ++x; S c(a); vp_check(&++c == &c && c.get() == x, "++"); S d(a); vp_check(d++.get() == a && d.get() == x, "++ after"); }
    if (dec) { T x(a); --x; S c(a); vp_check(&--c == &c && c.get() == x, "--"); S d(a); vp_check(d--.get() == a && d.get() == x, "-- after"); }
#endif
}
