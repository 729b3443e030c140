// Packed structures with fields whose length is given at construction.
//VP name=main tier=quick flags="-DVM=2 -DVW=1" desc="fields int64, char, bytes[n], char, int32[m], uint16 with n, m in 0..2; one write to any field, all values; copies, moves and assignments between all sizes"
//VP name=deep tier=thorough flags="-DVM=3 -DVW=2" desc="as main, n, m in 0..3 and two writes"
#include <vp.h>
#include <cstdint>
#include <cstring>
#include <utility>
#include <sharemind/DynamicPackedStruct.h>
#include <sharemind/MaybeDynamicPackedStruct.h>
using namespace sharemind;
using Rw = DynamicFieldPlaceholder<0u, 100u>; using Ar = DynamicVectorFieldPlaceholder<int32_t, 0u, 100u>;
using DS = DynamicPackedStruct<int64_t, char, Rw, char, Ar, uint16_t>;
using DI = DynamicPackingInfo<int64_t, char, Rw, char, Ar, uint16_t>;
static_assert(std::is_same<MaybeDynamicPackedStruct<int64_t, char, Rw, char, Ar, uint16_t>, DS>::value, "");
static_assert(DS::numFields() == 6 && DS::numDynamicFields() == 2 && DS::hasDynamicFields() && DS::minSizeInBytes() == 12 && DS::maxSizeInBytes() == 12 + 100 + 400, "");
struct Ref { size_t n, m, o[6], size; uint8_t b[12 + 8 + 32]; };
static Ref layout(size_t n, size_t m) { Ref r; r.n = n; r.m = m; size_t const s[6] = {8, 1, n, 1, 4 * m, 2}; size_t a = 0; for (int i = 0; i < 6; ++i) { r.o[i] = a; a += s[i]; } r.size = a; return r; }
static void init(DS & d, Ref & r) { vp_sym_bytes(r.b, r.size, "contents"); std::memcpy(d.data(), r.b, r.size); }
template <class T> static T at(Ref const & r, size_t o) { T t; std::memcpy(&t, r.b + o, sizeof(T)); return t; }
template <class T> static void put(Ref & r, size_t o, T t) { std::memcpy(r.b + o, &t, sizeof(T)); }
static void check(DS & d, Ref const & r) {
    DS const & c = d; uint8_t * const p = static_cast<uint8_t *>(d.data());
    vp_check(d.size() == r.size, "size is the sum of the field sizes"); vp_check(c.data() == p && c.constData() == p, "data");
    vp_check(d.elemOffset<0>() == r.o[0] && d.elemOffset<1>() == r.o[1] && d.elemOffset<2>() == r.o[2] && d.elemOffset<3>() == r.o[3] && d.elemOffset<4>() == r.o[4] && d.elemOffset<5>() == r.o[5], "offsets are the sums of the preceding sizes");
    vp_check(c.voidPtr<0>() == p && c.voidPtr<1>() == p + r.o[1] && c.voidPtr<2>() == p + r.o[2] && c.constVoidPtr<3>() == p + r.o[3] && c.constVoidPtr<4>() == p + r.o[4] && c.voidPtr<5>() == p + r.o[5] && c.endVoidPtr() == p + r.size && d.endVoidPtr() == p + r.size && c.endConstVoidPtr() == p + r.size, "addresses");
    vp_check(c.ptr<2>() == p + r.o[2] && c.constPtr<2>() == p + r.o[2] && static_cast<void *>(c.ptr<4>()) == p + r.o[4] && static_cast<void const *>(c.constPtr<5>()) == p + r.o[5], "pointers");
    vp_check(std::memcmp(p, r.b, r.size) == 0, "bytes");
    bool ok = c.get<0>() == at<int64_t>(r, r.o[0]); ok &= c.get<1>() == at<char>(r, r.o[1]); ok &= c.get<3>() == at<char>(r, r.o[3]); ok &= c.get<5>() == at<uint16_t>(r, r.o[5]);
    vp_check(ok, "get");
    ok = static_cast<int64_t>(c.cref<0>()) == at<int64_t>(r, r.o[0]); ok &= static_cast<uint16_t>(d.ref<5>()) == at<uint16_t>(r, r.o[5]); ok &= static_cast<char>(c.cref<3>()) == at<char>(r, r.o[3]);
    for (size_t i = 0; i < r.m; ++i) ok &= static_cast<int32_t>(c.ptr<4>()[i]) == at<int32_t>(r, r.o[4] + 4 * i);
    vp_check(ok, "references");
}
static void write(DS & d, Ref & r) {
    switch (vp_choose(7, "write")) {
    case 0: { auto v = vp_any<int64_t>("v"); d.set<0>(v); put(r, r.o[0], v); break; }
    case 1: { auto v = vp_any<char>("v"); d.ref<1>() = v; put(r, r.o[1], v); break; }
    case 2: for (size_t i = 0; i < r.n; ++i) { auto v = vp_any<uint8_t>("v"); static_cast<uint8_t *>(d.ptr<2>())[i] = v; put(r, r.o[2] + i, v); } break;
    case 3: { auto v = vp_any<char>("v"); *d.ptr<3>() = v; put(r, r.o[3], v); break; }
    case 4: for (size_t i = 0; i < r.m; ++i) { auto v = vp_any<int32_t>("v"); d.ptr<4>()[i] = v; put(r, r.o[4] + 4 * i, v); } break;
    case 5: { auto v = vp_any<uint16_t>("v"); d.set<5>(v); put(r, r.o[5], v); break; }
    default: { auto v = vp_any<uint16_t>("v"); d.ref<5>() = v; put(r, r.o[5], v); }
    }
}
int main() {
    vp_leak_mark();
    {
        size_t const n = vp_choose(VM + 1, "n"), m = vp_choose(VM + 1, "m"); DS d(n, m); Ref r = layout(n, m); init(d, r);
        vp_check(DI::sizeInBytes(n, m) == r.size && DI::validSizes(n, m) && !DI::validSizes(n, 101u) && !DI::validSizes(101u, m), "layout information");
        for (int w = 0; w < VW; ++w) write(d, r);
        switch (vp_choose(6, "then")) {
        case 0: check(d, r); break;
        case 1: { DS c(d); check(c, r); vp_check(c == d && !(c != d), "copy is equal"); Ref q = r; write(c, q); check(c, q); check(d, r); break; }
        case 2: { DS c(std::move(d)); check(c, r); break; }
        case 3: { size_t const n2 = vp_choose(VM + 1, "n2"), m2 = vp_choose(VM + 1, "m2"); DS c(n2, m2); Ref q = layout(n2, m2); init(c, q); DS & x = (c = static_cast<DS const &>(d)); vp_check(&x == &c, "assignment returns the target"); check(c, r); check(d, r); write(c, r); check(c, r); break; }
        case 4: { DS c(1u, 1u); DS & x = (c = std::move(d)); vp_check(&x == &c, "assignment returns the target"); check(c, r); d = static_cast<DS const &>(c); check(d, r); break; }
        default: {
            size_t const n2 = vp_choose(VM + 1, "n2"), m2 = vp_choose(VM + 1, "m2"); DS c(n2, m2); Ref q = layout(n2, m2); init(c, q);
            bool const e = r.size == q.size && std::memcmp(r.b, q.b, r.size) == 0;
            vp_check((c == d) == e && (c != d) == !e, "equality is equality of size and bytes");
        }
        }
    }
    vp_leak_check();
}
