// Packed structures: field offsets, isolation of fields, round trips and agreement of all accessors.
//VP name=a tier=both flags="-DVL=uint8_t,uint32_t,uint16_t,uint64_t -DVW=1" desc="4 fields of 1,4,2,8 bytes at every base offset 0..7, one write of any field through any accessor, all values"
//VP name=b tier=both flags="-DVL=uint64_t,uint8_t,int16_t,uint8_t,int32_t -DVW=1" desc="5 fields of 8,1,2,1,4 bytes at every base offset 0..7, one write, all values"
//VP name=a2 tier=both flags="-DVL=uint8_t,uint32_t,uint16_t -DVW=2" desc="3 fields of 1,4,2 bytes at every base offset 0..7, two writes of any fields through any accessor, all values"
//VP name=b2 tier=thorough flags="-DVL=uint64_t,uint8_t,int16_t,uint8_t,int32_t -DVW=2" desc="5 fields at every base offset 0..7, two writes, all values"
//VP name=one tier=both flags="-DVL=uint32_t -DVW=2" desc="1 field at every base offset 0..7, two writes, all values"
#include <vp.h>
#include <cstdint>
#include <cstring>
#include <new>
#include <tuple>
#include <sharemind/PackedStruct.h>
#include <sharemind/PackedStructAccessor.h>
#include <sharemind/ConstPackedStructAccessor.h>
#include <sharemind/MaybeDynamicPackedStruct.h>
#include <sharemind/PackingInfo.h>
using namespace sharemind;
using PS = PackedStruct<VL>; using PA = PackedStructAccessor<VL>; using CA = ConstPackedStructAccessor<VL>; using PI = PackingInfo<VL>; using TU = std::tuple<VL>;
static_assert(std::is_same<MaybeDynamicPackedStruct<VL>, PS>::value, "");
static constexpr size_t NF = std::tuple_size<TU>::value;
template <size_t I> using E = typename std::tuple_element<I, TU>::type;
template <size_t I> struct Off { static constexpr size_t value = Off<I - 1>::value + sizeof(E<I - 1>); };
template <> struct Off<0> { static constexpr size_t value = 0; };
static constexpr size_t SZ = Off<NF - 1>::value + sizeof(E<NF - 1>);
static_assert(sizeof(PS) == SZ && alignof(PS) == 1, "");
static_assert(PS::size() == SZ && PI::size() == SZ && PS::minSizeInBytes() == SZ && PS::maxSizeInBytes() == SZ && PI::sizeInBytes() == SZ && PS::numFields() == NF && PI::numFields() == NF && !PS::hasDynamicFields(), "");
static uint8_t buf[SZ + 16], ref[SZ + 16]; static size_t base;
template <size_t I> struct Fields {
    static void check(PS & s) {
        Fields<I - 1>::check(s);
        constexpr size_t i = I - 1, o = Off<i>::value; using T = E<i>;
        PS const & cs = s; PA a(buf + base); CA c(buf + base), c2(a); void * const d = buf + base; void const * const cd = d; uint8_t * const f = buf + base + o;
        T v; std::memcpy(&v, ref + base + o, sizeof(T));
        vp_check(PI::ElemOffset<i>::value == o, "field offset");
        vp_check(s.template voidPtr<i>() == f && cs.template voidPtr<i>() == f && s.template constVoidPtr<i>() == f && c.template voidPtr<i>() == f && PI::voidPtr<i>(d) == f && PI::constVoidPtr<i>(cd) == f, "field address");
        vp_check(static_cast<void *>(s.template ptr<i>()) == f && static_cast<void const *>(cs.template ptr<i>()) == f && static_cast<void const *>(s.template constPtr<i>()) == f && static_cast<void const *>(c.template ptr<i>()) == f && static_cast<void *>(PI::ptr<i>(d)) == f && static_cast<void const *>(PI::constPtr<i>(cd)) == f, "field pointer");
        bool ok = s.template get<i>() == v; ok &= cs.template get<i>() == v; ok &= a.template get<i>() == v; ok &= c.template get<i>() == v; ok &= c2.template get<i>() == v; ok &= PI::get<i>(cd) == v;
        vp_check(ok, "get");
        ok = static_cast<T>(s.template ref<i>()) == v; ok &= static_cast<T>(cs.template ref<i>()) == v; ok &= static_cast<T>(s.template cref<i>()) == v; ok &= static_cast<T>(a.template cref<i>()) == v; ok &= static_cast<T>(c.template ref<i>()) == v; ok &= static_cast<T>(c.template cref<i>()) == v; ok &= static_cast<T>(PI::ref<i>(d)) == v; ok &= static_cast<T>(PI::cref<i>(cd)) == v; ok &= static_cast<T>(s.refs().template get<i>()) == v; ok &= static_cast<T>(cs.refs().template get<i>()) == v;
        vp_check(ok, "references");
    }
    static void write(PS & s, size_t k) {
        if (k != I - 1) return Fields<I - 1>::write(s, k);
        constexpr size_t i = I - 1, o = Off<i>::value; using T = E<i>; T const v = vp_any<T>("v"); PA a(buf + base); void * const d = buf + base;
        switch (vp_choose(9, "accessor")) {
        case 0: s.template set<i>(v); break;
        case 1: s.template ref<i>() = v; break;
        case 2: *s.template ptr<i>() = v; break;
        case 3: a.template set<i>(v); break;
        case 4: *PI::ptr<i>(d) = v; break;
        case 5: PI::set<i>(d, v); break;
        case 6: PI::ref<i>(d) = v; break;
        case 7: s.refs().template set<i>(v); break;
        default: std::memcpy(s.template voidPtr<i>(), &v, sizeof(T));
        }
        std::memcpy(ref + base + o, &v, sizeof(T));
    }
};
template <> struct Fields<0> { static void check(PS &) {} static void write(PS &, size_t) {} };
int main() {
    base = vp_choose(8, "base offset"); vp_sym_bytes(buf, sizeof(buf), "memory"); std::memcpy(ref, buf, sizeof(buf));
    PS & s = *reinterpret_cast<PS *>(buf + base); PS const & cs = s;
    for (int w = 0; w < VW; ++w) Fields<NF>::write(s, vp_choose(NF, "field"));
    vp_check(std::memcmp(buf, ref, sizeof(buf)) == 0, "no byte of another field or outside the structure changes");
    Fields<NF>::check(s);
    uint8_t * const e = buf + base + SZ; PA a(buf + base); CA c(buf + base);
    vp_check(s.endVoidPtr() == e && cs.endVoidPtr() == e && s.endConstVoidPtr() == e && a.endConstVoidPtr() == e && c.endVoidPtr() == e && PI::endVoidPtr(static_cast<void *>(buf + base)) == e, "end address");
    vp_check(s.data() == buf + base && cs.data() == buf + base && s.constData() == buf + base && s.dataUint8() == buf + base && cs.dataChar() == reinterpret_cast<char const *>(buf + base) && a.data() == buf + base && c.data() == buf + base, "data address");
    PS t(s); vp_check(t == s && !(t != s), "a copy is equal");
    size_t const k = vp_choose(SZ, "byte"); t.dataUint8()[k] ^= 1 + (vp_any<uint8_t>("flip") & 0x7f); vp_check(t != s && !(t == s), "structures that differ in a byte are different");
}
