// Pointer arithmetic and copying which also serve void pointers, and enumeration values.
//VP name=arith tier=both flags="-DVM=1" shim=1 desc="all distances within arrays of eight bytes, shorts and structures of twelve bytes, also by pointers to (const) void, signed and unsigned steps"
//VP name=copy tier=both flags="-DVM=2" shim=1 desc="all contents and numbers of elements up to eight, by void pointers, of shorts and of a class, any one assignment throwing"
//VP name=enum tier=both flags="-DVM=3" shim=1 desc="all values of enumerations of six underlying types and of integers"
#include <vp.h>
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <sharemind/PotentiallyVoidTypeInfo.h>
#include <sharemind/MaybeEnumToUnderlying.h>
struct S12 { std::int32_t a[3]; };
static int left = -1; struct Boom {};
struct C { std::int16_t v = 0; C & operator=(C const & o) { if (left == 0) throw Boom(); if (left > 0) --left; v = o.v; return *this; } };
template <class T, class E> static void arith(E * const base, std::size_t const elem) { // T: E, or (const) void
    T * const b = base; std::size_t const i = vp_range<std::size_t>("i", 0, 8), j = vp_range<std::size_t>("j", 0, 8);
    vp_assume(i * elem <= 8 * sizeof(E) && j * elem <= 8 * sizeof(E));
    T * const p = sharemind::ptrAdd(b, i); T * const q = sharemind::ptrAdd<T, std::ptrdiff_t>(b, static_cast<std::ptrdiff_t>(j));
    auto const raw = [base](T * const x) { return reinterpret_cast<std::uintptr_t>(x) - reinterpret_cast<std::uintptr_t>(base); };
    vp_check(raw(p) == i * elem && raw(q) == j * elem, "that many elements on");
    vp_check(sharemind::ptrDist(p, q) == static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i), "signed distance in elements");
    vp_check((sharemind::ptrSub(p, i) == b && sharemind::ptrSub<T, std::ptrdiff_t>(q, static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i)) == p), "and back");
    vp_check((sharemind::ptrAdd<T, std::ptrdiff_t>(q, static_cast<std::ptrdiff_t>(i) - static_cast<std::ptrdiff_t>(j))) == p, "backwards by a negative step");
    vp_check(sharemind::sizeOf<T>() == elem, "size of an element");
}
template <class E> static bool check(E e) { using U = typename std::underlying_type<E>::type; E const c = e; return sharemind::enumToUnderlying(c) == static_cast<U>(e) && sharemind::maybeEnumToUnderlying(c) == static_cast<U>(e)
    && std::is_same<decltype(sharemind::maybeEnumToUnderlying(c)), U>::value && std::is_same<decltype(sharemind::maybeEnumToUnderlying(static_cast<E &&>(e))), U>::value && sharemind::maybeEnumToUnderlying(static_cast<E &&>(e)) == static_cast<U>(c); }
enum class E8: std::int8_t {}; enum class EU8: std::uint8_t {}; enum class E16: std::int16_t {}; enum EU32: std::uint32_t {}; enum class E64: std::int64_t {}; enum class EU64: std::uint64_t {};
int main() {
#if VM == 1
    static char c[8]; static std::int16_t s[8]; static S12 t[8];
    switch (vp_choose(6, "type")) {
    case 0: arith<char>(c, 1); break; case 1: arith<std::int16_t>(s, 2); break; case 2: arith<S12>(t, 12); break; case 3: arith<S12 const>(t, 12); break;
    case 4: arith<void>(t, 1); break; default: arith<void const>(s, 1); break;
    }
#elif VM == 2
    std::size_t const n = vp_concretize(vp_range<std::size_t>("n", 0, 8));
    switch (vp_choose(3, "type")) {
    case 0: { unsigned char a[10], b[10]; vp_sym_bytes(a, 10, "a"); vp_sym_bytes(b, 10, "b"); unsigned char a0[10], b0[10]; std::copy(a, a + 10, a0); std::copy(b, b + 10, b0);
        sharemind::copy<void>(a + 1, b + 1, n); for (std::size_t i = 0; i < 10; ++i) { vp_check(a[i] == a0[i], "the source stays"); vp_check(b[i] == (i >= 1 && i <= n ? a0[i] : b0[i]), "exactly those bytes"); } break; }
    case 1: { std::int16_t a[10], b[10]; vp_sym_bytes(a, 20, "a"); vp_sym_bytes(b, 20, "b"); std::int16_t a0[10], b0[10]; std::copy(a, a + 10, a0); std::copy(b, b + 10, b0);
        sharemind::copy(a + 1, b + 1, n); for (std::size_t i = 0; i < 10; ++i) { vp_check(a[i] == a0[i], "the source stays"); vp_check(b[i] == (i >= 1 && i <= n ? a0[i] : b0[i]), "exactly those elements"); } break; }
    default: { C a[10], b[10]; for (int i = 0; i < 10; ++i) { a[i].v = vp_any<std::int16_t>("a"); b[i].v = static_cast<std::int16_t>(i); }
        left = static_cast<int>(vp_choose(4, "throwing")) * 3 - 1; int const k = left; bool thrown = false;
        try { sharemind::copy(a + 1, b + 1, n); } catch (Boom) { thrown = true; }
        vp_check(thrown == (k >= 0 && n > static_cast<std::size_t>(k)), "throws what an assignment throws"); left = -1;
        for (std::size_t i = 0; i < 10; ++i) vp_check(thrown && i > static_cast<std::size_t>(k) ? true : b[i].v == (i >= 1 && i <= n ? a[i].v : static_cast<std::int16_t>(i)), "exactly those elements"); break; }
    }
#else
    vp_check(check(static_cast<E8>(vp_any<std::int8_t>("e"))) && check(static_cast<EU8>(vp_any<std::uint8_t>("e"))) && check(static_cast<E16>(vp_any<std::int16_t>("e"))), "narrow");
    vp_check(check(static_cast<EU32>(vp_any<std::uint32_t>("e"))) && check(static_cast<E64>(vp_any<std::int64_t>("e"))) && check(static_cast<EU64>(vp_any<std::uint64_t>("e"))), "wide");
    std::int64_t const i = vp_any<std::int64_t>("i"); std::uint8_t const u = vp_any<std::uint8_t>("u"); vp_check(sharemind::maybeEnumToUnderlying(i) == i && sharemind::maybeEnumToUnderlying(+u) == u && sharemind::maybeEnumToUnderlying(u) == u, "integers as they are");
#endif
}
