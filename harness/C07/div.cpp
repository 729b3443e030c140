//VP name=1x8 tier=both flags="-DVN=1 -DVB=uint8_t" opts="--merge" desc="uint_t<1,uint8_t>: all numerators and divisors"
// Division: q*d + r = n and r < d, in every form the library offers.
//VP name=5x8 tier=both flags="-DVN=5 -DVB=uint8_t" opts="--merge" desc="uint_t<5,uint8_t>: all numerators and divisors"
//VP name=8x8 tier=both flags="-DVN=8 -DVB=uint8_t" opts="--merge" desc="uint_t<8,uint8_t>: all numerators and divisors"
//VP name=10x16 tier=both flags="-DVN=10 -DVB=uint16_t" opts="--merge" desc="uint_t<10,uint16_t>: all numerators and divisors"
//VP name=12x16 tier=thorough flags="-DVN=12 -DVB=uint16_t" opts="--merge" desc="uint_t<12,uint16_t>: all numerators and divisors"
//VP name=10x8 tier=thorough flags="-DVN=10 -DVB=uint8_t" opts="--merge" desc="uint_t<10,uint8_t> (two blocks): all numerators and divisors"
//VP name=64x64q3 tier=quick flags="-DVN=64 -DVB=uint64_t -DVQ=3" desc="uint_t<64,uint64_t>: numerators below 2^3; and divisors with one of the top 3 bits set, numerators with alike middle bits"
//VP name=64x64q4 tier=thorough flags="-DVN=64 -DVB=uint64_t -DVQ=4" desc="uint_t<64,uint64_t>: numerators below 2^4; and divisors with one of the top 4 bits set, numerators with alike middle bits"
//VP name=24x8q3 tier=quick flags="-DVN=24 -DVB=uint8_t -DVQ=3" desc="uint_t<24,uint8_t>: numerators below 2^3; and divisors with one of the top 3 bits set, numerators with alike middle bits"
//VP name=24x8q4 tier=thorough flags="-DVN=24 -DVB=uint8_t -DVQ=4" desc="uint_t<24,uint8_t>: numerators below 2^4; and divisors with one of the top 4 bits set, numerators with alike middle bits"
//VP name=40x16q3 tier=quick flags="-DVN=40 -DVB=uint16_t -DVQ=3" desc="uint_t<40,uint16_t>: numerators below 2^3; and divisors with one of the top 3 bits set, numerators with alike middle bits"
//VP name=40x16q4 tier=thorough flags="-DVN=40 -DVB=uint16_t -DVQ=4" desc="uint_t<40,uint16_t>: numerators below 2^4; and divisors with one of the top 4 bits set, numerators with alike middle bits"
//VP name=33x32q3 tier=quick flags="-DVN=33 -DVB=uint32_t -DVQ=3" desc="uint_t<33,uint32_t>: numerators below 2^3; and divisors with one of the top 3 bits set, numerators with alike middle bits"
//VP name=33x32q4 tier=thorough flags="-DVN=33 -DVB=uint32_t -DVQ=4" desc="uint_t<33,uint32_t>: numerators below 2^4; and divisors with one of the top 4 bits set, numerators with alike middle bits"
//VP name=128x64q2 tier=quick flags="-DVN=128 -DVB=uint64_t -DVQ=2" desc="uint_t<128,uint64_t>: numerators below 2^2; and divisors with one of the top 2 bits set, numerators with alike middle bits"
//VP name=128x64q3 tier=thorough flags="-DVN=128 -DVB=uint64_t -DVQ=3" desc="uint_t<128,uint64_t>: numerators below 2^3; and divisors with one of the top 3 bits set, numerators with alike middle bits"
//VP name=u128q2 tier=quick flags="-DV128 -DVN=128 -DVQ=2" desc="uint128_t: numerators below 2^2; and divisors with one of the top 2 bits set, numerators with alike middle bits"
//VP name=u128q3 tier=thorough flags="-DV128 -DVN=128 -DVQ=3" desc="uint128_t: numerators below 2^3; and divisors with one of the top 3 bits set, numerators with alike middle bits"
#include "../C06/wide.hpp"
#ifndef VQ
#define VQ VN       // the quotient is below 2^VQ
#endif
static bool throws(unsigned form, W n) {
    W z; z = 0;
    try { switch (form) { case 0: n = n / z; break; case 1: n = n % z; break; case 2: n /= z; break; default: n %= z; } } catch (W::division_by_zero_error const &) { return true; }
    return false;
}
int main() {
    W n = make("n"), d = make("d");
    R const N = val(n), D = val(d);
    if (vp_choose(2, "zero divisor")) { vp_check(throws(vp_choose(4, "form"), n), "division by zero throws"); return 0; }
    vp_assume(D != 0);
#if VQ < VN
    // either the numerator is below 2^VQ, or the divisor has one of its top VQ bits set and the bits of the numerator but for
    // the top two and the low VQ - 2 are alike
    if (vp_choose(2, "kind")) {
        vp_assume((D >> (VN - VQ)) != 0);
        R const mid = (N >> (VQ - 2)) & ((R(1) << (VN - VQ)) - 1);
        vp_assume(mid == (vp_choose(2, "middle") ? (R(1) << (VN - VQ)) - 1 : R(0)));
    } else vp_assume((N >> VQ) == 0);
#endif
    W q, r;
    switch (vp_choose(3, "form")) {
    case 0: q = n / d; r = n % d; break;
    case 1: q = n; q /= d; r = n; r %= d; break;
    default:
#ifdef V128
        q = n; q /= d; r = n % d;
#else
        auto const both = divMod(n, d); q = both.quot; r = both.rem;
#endif
    }
    canonical(q); canonical(r);
    R const Q = val(q), M = val(r);
    vp_check(M < D, "remainder below the divisor");
    vp_check(static_cast<RD>(Q) * D + M == static_cast<RD>(N), "quotient times divisor plus remainder is the numerator");
    vp_check(val(n) == N && val(d) == D, "operands unchanged");
#if VN > 1
    vp_cover(Q != 0 && M != 0, "quotient and remainder both non-zero");
#endif
}
