// Multiplication modulo 2^N for arbitrary factors. The reference is the schoolbook sum of partial products, at two piece
// widths (they are equal as mathematical integers); the solver sees equal partial products as equal terms.
//VP name=8x8 tier=both flags="-DVN=8 -DVB=uint8_t -DVG=8" desc="uint_t<8,uint8_t>: all products"
//VP name=8x5 tier=both flags="-DVN=5 -DVB=uint8_t -DVG=8" desc="uint_t<5,uint8_t>: all products"
//VP name=8x12 tier=both flags="-DVN=12 -DVB=uint8_t -DVG=8" opts="--merge" desc="uint_t<12,uint8_t>: all products"
//VP name=8x24 tier=both flags="-DVN=24 -DVB=uint8_t -DVG=8" opts="--merge" desc="uint_t<24,uint8_t>: all products"
//VP name=16x16 tier=both flags="-DVN=16 -DVB=uint16_t -DVG=16" ubsan=signed-integer-overflow desc="uint_t<16,uint16_t>: all products"
//VP name=16x40 tier=both flags="-DVN=40 -DVB=uint16_t -DVG=16" ubsan=signed-integer-overflow opts="--merge" desc="uint_t<40,uint16_t>: all products"
//VP name=u128 tier=both flags="-DV128 -DVN=128 -DVG=32" desc="uint128_t: all products"
//VP name=32x64 tier=both flags="-DVN=64 -DVB=uint32_t -DVG=32" opts="--merge" desc="uint_t<64,uint32_t>: all products"
//VP name=32x80 tier=both flags="-DVN=80 -DVB=uint32_t -DVG=32" opts="--merge" desc="uint_t<80,uint32_t>: all products"
//VP name=64x60 tier=both flags="-DVN=60 -DVB=uint64_t -DVG=64" desc="uint_t<60,uint64_t>: all products"
//VP name=32x160 tier=thorough flags="-DVN=160 -DVB=uint32_t -DVG=32" opts="--merge" desc="uint_t<160,uint32_t>: all products"
//VP name=8x32 tier=thorough flags="-DVN=32 -DVB=uint8_t -DVG=8" opts="--merge" desc="uint_t<32,uint8_t>: all products"
//VP name=64x128 tier=both flags="-DVN=128 -DVB=uint64_t -DVG=64 -DVSPECIAL" opts="--merge" desc="uint_t<128,uint64_t>: one factor arbitrary, one block of the other one of 8 values with at most two bits set, zeros below it and ones above"
//VP name=64x100 tier=both flags="-DVN=100 -DVB=uint64_t -DVG=64 -DVSPECIAL" opts="--merge" desc="uint_t<100,uint64_t>: one factor arbitrary, one block of the other one of 8 values with at most two bits set"
//VP name=64x192 tier=thorough flags="-DVN=192 -DVB=uint64_t -DVG=64 -DVSPECIAL" opts="--merge" desc="uint_t<192,uint64_t>: one factor arbitrary, one block of the other one of 8 values with at most two bits set"
//VP name=hilo tier=both flags="-DVHILO -DVN=128 -DVB=uint64_t -DVG=64" desc="multHiLo: the full double-width product of any two blocks of 8, 16, 32 and 64 bits"
#include "wide.hpp"
#if VG == 8
using G = uint8_t; using D = uint16_t; using D2 = uint32_t; using G2 = uint16_t;
#elif VG == 16
using G = uint16_t; using D = uint32_t; using D2 = uint64_t; using G2 = uint32_t;
#elif VG == 32
using G = uint32_t; using D = uint64_t; using D2 = unsigned __int128; using G2 = uint64_t;
#else
using G = uint64_t; using D = unsigned __int128; using D2 = unsigned __int128; using G2 = uint64_t;
#endif
template <class P, class DP> static R ref(R x, R y) {
    unsigned const g = sizeof(P) * 8, n = (VN + g - 1) / g; using Col = unsigned _BitInt(2 * g);
    Col col[n + 2] = {};    // column sums of the halves of the partial products
    for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; i + j < n; ++j) {
            DP const u = static_cast<P>(x >> (i * g)), v = static_cast<P>(y >> (j * g));
            DP const p = u * v;
            col[i + j] += static_cast<P>(p); col[i + j + 1] += static_cast<P>(p >> g);
        }
    R r = 0; Col carry = 0;
    for (unsigned i = 0; i < n; ++i) { carry += col[i]; r |= static_cast<R>(static_cast<P>(carry)) << (i * g); carry >>= g; }
    return mask(r);
}
#ifdef VHILO
template <class T, class T2> static void hilo() {
    T u = vp_any<T>("u"), v = vp_any<T>("v"); auto const m = sharemind::multHiLo<T>(u, v);
    T2 const g = sizeof(T) * 4, lo = (T2(1) << g) - 1;      // the mathematical product, by halves for the widest
    T2 const p = sizeof(T) == 8 ? T2(u & lo) * (v & lo) + ((T2(u & lo) * (v >> g) + T2(u >> g) * (v & lo)) << g) + ((T2(u >> g) * (v >> g)) << (2 * g)) : T2(u) * v;
    vp_check(((T2(m.hi) << (sizeof(T) * 8)) | m.lo) == p, "double-width product");
}
int main() {
    switch (vp_choose(4, "block width")) {
    case 0: hilo<uint8_t, uint32_t>(); break;
    case 1: hilo<uint16_t, uint32_t>(); break;
    case 2: hilo<uint32_t, uint64_t>(); break;
    default: hilo<uint64_t, unsigned __int128>(); break;
    }
}
#else
#ifdef VSPECIAL
static VB const special[8] = {0, 1, 2, VB(1) << (sizeof(VB) * 4), VB(1) << (sizeof(VB) * 8 - 1), 3, 5, VB(1) << (sizeof(VB) * 4 + 1)};
struct SGen {
    template <class It> void operator()(It b, It e) const { unsigned k = vp_choose(static_cast<unsigned>(e - b), "block"); for (unsigned i = 0; b != e; ++b, ++i) *b = i == k ? special[vp_choose(8, "value")] : i < k ? 0 : 1; }
};
#endif
int main() {
    W a = make("a");
#ifdef VSPECIAL
    W b((SGen()));
#else
    W b = make("b");
#endif
    R const x = val(a), y = val(b);
    W c = vp_choose(2, "order") ? a * b : b * a; canonical(c);
    R const z = val(c);
    vp_check((z == ref<G, D>(x, y)) | (z == ref<G2, D2>(x, y)), "product modulo 2^N");
    W d = a; d *= b; vp_check(val(d) == z, "compound product");
}
#endif
