// Conversions of wide unsigned integers preserve the value modulo the width of the target.
//VP name=1x8 tier=both flags="-DVN=1 -DVB=uint8_t" desc="uint_t<1,uint8_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=5x8 tier=both flags="-DVN=5 -DVB=uint8_t" desc="uint_t<5,uint8_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=8x8 tier=both flags="-DVN=8 -DVB=uint8_t" desc="uint_t<8,uint8_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=20x8 tier=both flags="-DVN=20 -DVB=uint8_t" desc="uint_t<20,uint8_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=40x16 tier=both flags="-DVN=40 -DVB=uint16_t" desc="uint_t<40,uint16_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=33x32 tier=both flags="-DVN=33 -DVB=uint32_t" desc="uint_t<33,uint32_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=64x32 tier=both flags="-DVN=64 -DVB=uint32_t" desc="uint_t<64,uint32_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=64x64 tier=both flags="-DVN=64 -DVB=uint64_t" desc="uint_t<64,uint64_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=100x64 tier=both flags="-DVN=100 -DVB=uint64_t" desc="uint_t<100,uint64_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=128x64 tier=both flags="-DVN=128 -DVB=uint64_t" desc="uint_t<128,uint64_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=192x64 tier=both flags="-DVN=192 -DVB=uint64_t" desc="uint_t<192,uint64_t>: all non-negative built-in sources, all blocks of five other widths, all of uint128_t; all demotions"
//VP name=u128 tier=both flags="-DV128 -DVN=128" desc="uint128_t: all non-negative built-in sources, all demotions"
#include "../C06/wide.hpp"
#include <sharemind/integer_demotion.h>
using namespace sharemind;
template <class T> using BI = unsigned _BitInt(sizeof(T) * 8);
using X = unsigned _BitInt(256);
static X ref(W const & w) { return val(w); }
static X modN(X v) { return v & ((X(1) << VN) - 1); }
template <class T> static void from() {         // a built-in integer, non-negative
    T const v = vp_any<T>("v"); vp_assume(v >= T(0));
    X const e = static_cast<X>(static_cast<uint64_t>(v));
    switch (vp_choose(3, "form")) {
    case 0: { W const w(v); canonical(w); vp_check(ref(w) == modN(e), "constructed value"); break; }
    case 1: { W w = make("old"); w = v; canonical(w); vp_check(ref(w) == modN(e), "assigned value"); break; }
    default: { T x = v; W w = x; canonical(w); vp_check(ref(w) == modN(e) && x == v, "initialised value"); }
    }
}
#ifndef V128
template <unsigned N2, class B2> static void fromWide() {
    uint_t<N2, B2> const o(vp_choose(2, "ones") ? uint_t<N2, B2>(0) : ~uint_t<N2, B2>(0));
    struct G2 { void operator()(B2 * b, B2 * e) const { for (; b != e; ++b) *b = vp_any<B2>("source block"); } } g;
    uint_t<N2, B2> s(g); X e = 0;
    for (size_t i = s.num_of_blocks; i--;) e = (e << s.bits_in_block) | s.block(i);
    if (vp_choose(2, "form")) { W const w(s); canonical(w); vp_check(ref(w) == modN(e), "constructed from another width"); }
    else { W w = make("old"); w = s; canonical(w); vp_check(ref(w) == modN(e), "assigned from another width"); }
    vp_check((!o) == (o.block(0) == 0), "negation");
}
static void from128() {
    uint64_t const u = vp_any<uint64_t>("u"), l = vp_any<uint64_t>("l"); uint128_t const s(u, l);
    X const e = static_cast<X>(u) << 64 | l;
    if (vp_choose(2, "form")) { W const w(s); canonical(w); vp_check(ref(w) == modN(e), "constructed from uint128_t"); }
    else { W w = make("old"); w = s; canonical(w); vp_check(ref(w) == modN(e), "assigned from uint128_t"); }
}
#endif
template <class T, bool = (sizeof(T) * 8 < VN)> struct To { static void run() {
    W const w = make("w"); T const t = demote_integer<T>(w);
    vp_check(t == static_cast<T>(ref(w)), "demoted to a built-in integer");
} };
template <class T> struct To<T, false> { static void run() {} };
template <unsigned N2, class B2, bool = (N2 < VN)> struct ToWide { static void run() {
#ifndef V128
    W const w = make("w"); uint_t<N2, B2> const t = demote_integer<uint_t<N2, B2>>(w);
    X e = 0; for (size_t i = t.num_of_blocks; i--;) e = (e << t.bits_in_block) | t.block(i);
    vp_check(e == (ref(w) & ((X(1) << N2) - 1)), "demoted to a narrower width");
#endif
} };
template <unsigned N2, class B2> struct ToWide<N2, B2, false> { static void run() {} };
template <bool b = (VN > 128), class WW = W> struct To128 { static void run() {
    WW const w = make("w"); uint128_t const t = demote_integer<uint128_t>(w);
    vp_check((static_cast<X>(t.upper()) << 64 | t.lower()) == (ref(w) & ((X(1) << 128) - 1)), "demoted to uint128_t");
} };
template <class WW> struct To128<false, WW> { static void run() {} };
int main() {
    switch (vp_choose(24, "conversion")) {
    case 0: from<uint8_t>(); break;
    case 1: from<uint16_t>(); break;
    case 2: from<uint32_t>(); break;
    case 3: from<uint64_t>(); break;
    case 4: from<int8_t>(); break;
    case 5: from<int16_t>(); break;
    case 6: from<int32_t>(); break;
    case 7: from<int64_t>(); break;
    case 8: { bool const b = vp_choose(2, "b"); W const w(b); vp_check(ref(w) == b, "from bool"); break; }
    case 9: { W const w = make("w"); vp_check((!w) == (ref(w) == 0), "operator! is true exactly for zero"); vp_check(demote_integer<bool>(w) == (ref(w) != 0), "bool is true exactly for non-zero values"); break; }
    case 10: To<uint8_t>::run(); break;
    case 11: To<uint16_t>::run(); break;
    case 12: To<uint32_t>::run(); break;
    case 13: To<uint64_t>::run(); break;
    case 14: { W const w = make("w"); W const c(w); W m(w); W const n(std::move(m)); W a = make("old"); a = w; vp_check(ref(c) == ref(w) && ref(n) == ref(w) && ref(a) == ref(w), "copies"); a = a; vp_check(ref(a) == ref(w), "self-assignment"); break; }
#ifndef V128
    case 15: fromWide<8, uint8_t>(); break;
    case 16: fromWide<20, uint8_t>(); break;
    case 17: fromWide<64, uint64_t>(); break;
    case 18: fromWide<100, uint32_t>(); break;
    case 19: fromWide<192, uint64_t>(); break;
    case 20: from128(); break;
    case 21: ToWide<8, uint8_t>::run(); ToWide<5, uint8_t>::run(); break;
    case 22: ToWide<20, uint8_t>::run(); ToWide<33, uint32_t>::run(); ToWide<100, uint32_t>::run(); break;
    case 23: ToWide<64, uint64_t>::run(); ToWide<100, uint64_t>::run(); To128<>::run(); break;
#endif
    }
}
