// C11: the layout information of packed structures with fields of any length, without the bytes (src/DynamicPackingInfo.h, src/PackingInfo.h).
//VP name=main tier=both opts="" desc="fields int64, char, bytes[n], char, int32[m], uint16 with any n, m below 2^60: sizes, offsets, pointers, validity within [3, 2^40] and [1, 2^50], prefixes and suffixes"
#include <vp.h>
#include <cstdint>
#include <type_traits>
#include <sharemind/DynamicPackingInfo.h>
using namespace sharemind;
using Rw = DynamicFieldPlaceholder<3u, std::size_t(1) << 40u>; using Ar = DynamicVectorFieldPlaceholder<int32_t, 1u, std::size_t(1) << 50u>;
using I = DynamicPackingInfo<int64_t, char, Rw, char, Ar, uint16_t>;
using A = I::AccumArrayType;
static_assert(I::numFields() == 6 && I::numDynamicFields() == 2 && I::hasDynamicFields(), "");
static_assert(I::minSizeInBytes() == 12 + 3 + 4 && I::maxSizeInBytes() == 12 + (std::size_t(1) << 40u) + (std::size_t(1) << 52u), "");
static_assert(A::minSizeInBytes() == I::minSizeInBytes() && A::maxSizeInBytes() == I::maxSizeInBytes() && A::numFields() == 6 && A::numDynamicFields() == 2, "");
static_assert(std::is_same<I::PrefixType<4>, DynamicPackingInfo<int64_t, char, Rw, char> >::value && std::is_same<I::SuffixType<5>, DynamicPackingInfo<char, Rw, char, Ar, uint16_t> >::value, "");
static_assert(I::StaticPrefixType::sizeInBytes() == 9, "");
template <std::size_t K> static void field(A const & a, std::size_t const o, void * const p, char * const base) {
    vp_check(a.elemOffset<K>() == o && I::elemOffset<K>(a) == o, "every field begins where the fields before it end");
    vp_check(a.voidPtr<K>(p) == base + o && a.constVoidPtr<K>(p) == base + o && I::voidPtr<K>(p, a) == base + o && I::constVoidPtr<K>(p, a) == base + o, "pointers to fields");
}
int main() {
    std::size_t const lim = std::size_t(1) << 60u, n = vp_any<std::size_t>("n"), m = vp_any<std::size_t>("m");
    vp_check(I::validSizes(n, m) == (n >= 3u && n <= (std::size_t(1) << 40u) && m >= 1u && m <= (std::size_t(1) << 50u)), "valid are exactly the lengths within the limits");
    vp_assume(n < lim); vp_assume(m < lim);
    A const a(n, m);
    std::size_t const o[7] = {0u, 8u, 9u, 9u + n, 10u + n, 10u + n + 4u * m, 12u + n + 4u * m};
    vp_check(I::sizeInBytes(n, m) == o[6] && a.structSizeInBytes() == o[6] && I::sizeFromAccum(a) == o[6], "the size is the sum of the sizes of the fields");
    std::size_t acc[2]; I::populateAccumArray(acc, n, m); vp_check(acc[0] == a[0] && acc[1] == a[1] && acc[0] == o[3] && acc[1] == o[5], "accumulated sizes");
    static char base[1]; void * const p = base; char * const b = base;
    switch (vp_choose(7, "field")) {
    case 0: field<0>(a, o[0], p, b); break;
    case 1: field<1>(a, o[1], p, b); break;
    case 2: field<2>(a, o[2], p, b); break;
    case 3: field<3>(a, o[3], p, b); break;
    case 4: field<4>(a, o[4], p, b); break;
    case 5: field<5>(a, o[5], p, b); break;
    default: vp_check(a.endVoidPtr(p) == b + o[6] && a.endConstVoidPtr(p) == b + o[6] && I::endVoidPtr(p, a) == b + o[6], "the end"); A c(a); A d(1u, 2u); d = c; vp_check(c[0] == a[0] && c[1] == a[1] && d[0] == a[0] && d[1] == a[1], "copies"); vp_witness("end"); break;
    }
    using P = I::PrefixType<4>; using S = I::SuffixType<5>;
    vp_check(P::sizeInBytes(n) == o[4] && S::sizeInBytes(n, m) == o[6] - 8u, "sizes of prefixes and suffixes");
}
