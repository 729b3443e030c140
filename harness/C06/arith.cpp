// Addition, subtraction, increments, bitwise operators, shifts and comparisons modulo 2^N.
//VP name=u128 tier=both flags="-DV128 -DVN=128" desc="uint128_t: all operand values, every shift amount"
//VP name=64x128 tier=both flags="-DVN=128 -DVB=uint64_t" desc="uint_t<128,uint64_t>: all operand values, every shift amount"
//VP name=64x192 tier=both flags="-DVN=192 -DVB=uint64_t" desc="uint_t<192,uint64_t>"
//VP name=64x100 tier=both flags="-DVN=100 -DVB=uint64_t" desc="uint_t<100,uint64_t>"
//VP name=32x40 tier=both flags="-DVN=40 -DVB=uint32_t" desc="uint_t<40,uint32_t>"
//VP name=8x20 tier=both flags="-DVN=20 -DVB=uint8_t" desc="uint_t<20,uint8_t>"
//VP name=8x24 tier=both flags="-DVN=24 -DVB=uint8_t" desc="uint_t<24,uint8_t>"
//VP name=16x16 tier=both flags="-DVN=16 -DVB=uint16_t" desc="uint_t<16,uint16_t>"
//VP name=8x5 tier=both flags="-DVN=5 -DVB=uint8_t" desc="uint_t<5,uint8_t>"
//VP name=64x1 tier=both flags="-DVN=1 -DVB=uint64_t" desc="uint_t<1,uint64_t>"
//VP name=64x64 tier=both flags="-DVN=64 -DVB=uint64_t" desc="uint_t<64,uint64_t>"
//VP name=64x256 tier=thorough flags="-DVN=256 -DVB=uint64_t" desc="uint_t<256,uint64_t>"
//VP name=16x40 tier=thorough flags="-DVN=40 -DVB=uint16_t" desc="uint_t<40,uint16_t>"
//VP name=32x65 tier=thorough flags="-DVN=65 -DVB=uint32_t" desc="uint_t<65,uint32_t>"
//VP name=8x32 tier=thorough flags="-DVN=32 -DVB=uint8_t" desc="uint_t<32,uint8_t>"
#include "wide.hpp"
#ifdef V128
#define SHW(...)
#else
#define SHW(...) __VA_ARGS__
#endif
static void eq(W const & w, R e) { canonical(w); vp_check(val(w) == mask(e), "result modulo 2^N"); }
int main() {
    W a = make("a"), b = make("b"); canonical(a);
    R const x = val(a), y = val(b); W c = a;
    switch (vp_choose(14, "operation")) {
    case 0: eq(a + b, x + y); eq(c += b, x + y); eq(c, x + y); break;
    case 1: eq(a - b, x - y); eq(c -= b, x - y); eq(c, x - y); break;
    case 2: eq(-a, MOD - x); eq(~a, MOD - 1 - x); break;
    case 3: eq(++c, x + 1); eq(c, x + 1); c = a; eq(c++, x); eq(c, x + 1); break;
    case 4: eq(--c, x - 1); eq(c, x - 1); c = a; eq(c--, x); eq(c, x - 1); break;
    case 5: eq(a & b, x & y); eq(c &= b, x & y); eq(c, x & y); break;
    case 6: eq(a | b, x | y); eq(c |= b, x | y); eq(c, x | y); break;
    case 7: eq(a ^ b, x ^ y); eq(c ^= b, x ^ y); eq(c, x ^ y); break;
    case 8: { uint64_t s = vp_choose(VN, "shift"); eq(a << s, x << s); eq(c <<= s, x << s); eq(c, x << s); SHW(c = a; eq(a << W(s), x << s); eq(c <<= W(s), x << s);) break; }
    case 9: { uint64_t s = vp_choose(VN, "shift"); eq(a >> s, x >> s); eq(c >>= s, x >> s); eq(c, x >> s); SHW(c = a; eq(a >> W(s), x >> s); eq(c >>= W(s), x >> s);) break; }
    case 10: vp_check((a == b) == (x == y), "=="); vp_check((a != b) == (x != y), "!="); vp_check((a == c) && !(a != c), "equal to its copy"); break;
    case 11: vp_check((a < b) == (x < y), "<"); vp_check((a > b) == (x > y), ">"); break;
    case 12: vp_check((a <= b) == (x <= y), "<="); vp_check((a >= b) == (x >= y), ">="); vp_check(!a == (x == 0), "!"); break;
#ifndef V128
    default: {
        size_t i = vp_choose(VN, "bit"); bool v = vp_any_bool("value"); bool const o = x >> i & 1; R const m = R(1) << i; W const & k = a;
        vp_check(k[i] == o && bool(a[i]) == o && ~a[i] == !o, "bit access");
        W s(sizeof(VB) * 0 + 0u); (void) s;
        size_t f = vp_choose(7, "bit operation");
        if (f == 0) { c[i] = v; eq(c, (x & ~m) | (v ? m : 0)); }
        else if (f == 1) { c[i] = b[i]; eq(c, (x & ~m) | (y & m)); }
        else if (f == 2) { c[i] |= v; eq(c, x | (v ? m : 0)); }
        else if (f == 3) { c[i] &= v; eq(c, v ? x : x & ~m); }
        else if (f == 4) { c[i] ^= v; eq(c, x ^ (v ? m : 0)); }
        else if (f == 5) { c[i] -= v; eq(c, v ? x & ~m : x); }
        else { c[i].flip(); eq(c, x ^ m); }
        break;
    }
#else
    default: { W d(a); d = b; eq(d, y); d = a; eq(d, x); break; }
#endif
    }
}
