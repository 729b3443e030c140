// Unaligned pointers and references behave like pointers and references into an array that lies at any byte address.
//VP name=u16 tier=both flags="-DVT=uint16_t" desc="uint16_t, array of 3 elements at every byte offset 0..7, all values"
//VP name=i32 tier=both flags="-DVT=int32_t" desc="int32_t, array of 3 elements at every byte offset 0..7, all values"
//VP name=u64 tier=both flags="-DVT=uint64_t" desc="uint64_t, array of 3 elements at every byte offset 0..7, all values"
//VP name=u8 tier=both flags="-DVT=uint8_t" desc="uint8_t, array of 3 elements at every byte offset 0..7, all values"
//VP name=pod tier=both flags="-DVT=Pod -DVPOD" desc="a 12-byte trivially copyable struct, array of 3 elements at every byte offset 0..7, all values"
#include <vp.h>
#include <cstdint>
#include <cstring>
#include <sharemind/UnalignedPointer.h>
#include <sharemind/UnalignedReference.h>
#include <sharemind/ConstUnalignedReference.h>
using namespace sharemind;
struct Pod { uint32_t a; uint16_t b; uint16_t c; uint32_t d; };
using T = VT; using P = UnalignedPointer<T>; using CP = UnalignedPointer<T const>; using Rf = UnalignedReference<T>; using CRf = ConstUnalignedReference<T>;
static constexpr size_t S = sizeof(T), EL = 3, BYTES = S * EL + 16;
static bool eq(T const & x, T const & y) { return std::memcmp(&x, &y, S) == 0; }
struct Mem { uint8_t b[BYTES], m[BYTES]; size_t off; };   // memory and its model
static T model(Mem const & m, size_t i) { T t; std::memcpy(&t, m.m + m.off + i * S, S); return t; }
static void setModel(Mem & m, size_t i, T const & t) { std::memcpy(m.m + m.off + i * S, &t, S); }
static size_t idx(char const * n) { return vp_choose(EL, n); }
static P at(Mem & m, size_t i) {    // every way to reach element i
    P const base(static_cast<void *>(m.b + m.off));
    switch (vp_choose(13, "pointer")) {
    case 0: return base + i;
    case 1: return i + base;
    case 2: { P p(base); p += i; return p; }
    case 3: { P p(base); for (size_t k = 0; k < i; ++k) { P const o(p); P & r = ++p; vp_check(&r == &p && r != o, "pre-increment"); } return p; }
    case 4: { P p(base); for (size_t k = 0; k < i; ++k) { P const o(p), q = p++; vp_check(q == o && p != o, "post-increment returns the old position"); } return p; }
    case 5: { P const e = base + EL; return e - (EL - i); }
    case 6: { P e = base + EL; e -= EL - i; return e; }
    case 7: { P e = base + EL; for (size_t k = EL; k > i; --k) { if (k & 1) --e; else { P const o(e), q = e--; vp_check(q == o, "post-decrement returns the old position"); } } return e; }
    // negative offsets in the unsigned difference type:
    case 8: return (base + EL) + (i - EL);
    case 9: { P p(base + EL); p += i - EL; return p; }
    case 10: { P p(base); P & r = (p -= 0 - i); vp_check(&r == &p, "-= returns the pointer"); return p; }
    case 11: return base - (0 - i);
    default: return (i - EL) + (base + EL);
    }
}
static T read(Mem & m, size_t i) {
    switch (vp_choose(6, "read")) {
    case 0: return *at(m, i);
    case 1: { P const b(m.b + m.off); return b[i]; }
    case 5: { P const b(m.b + m.off + EL * S); return b[i - EL]; }
    case 2: { CP const b(static_cast<void const *>(m.b + m.off)); return *(b + i); }
    case 3: { CRf const r(m.b + m.off + i * S); return r; }
    default: { Rf const r(static_cast<void *>(at(m, i))); return r; }
    }
}
static void write(Mem & m, size_t i, T const & v) {
    switch (vp_choose(4, "write")) {
    case 0: *at(m, i) = v; break;
    case 1: { P const b(m.b + m.off); b[i] = v; break; }
    case 2: { Rf r(m.b + m.off + i * S); r = v; break; }
    default: { T t(v); Rf r(m.b + m.off + i * S); auto & q = (r = std::move(t)); vp_check(&q == &r, "assignment returns the reference"); }
    }
    setModel(m, i, v);
}
static void compare(Mem & m) {
    size_t const i = idx("i"), j = idx("j"); P const p = at(m, i); CP const q(static_cast<void const *>(m.b + m.off + j * S)); P const r(m.b + m.off + j * S);
    vp_check((p == r) == (i == j) && (p != r) == (i != j) && (p < r) == (i < j) && (p <= r) == (i <= j) && (p > r) == (i > j) && (p >= r) == (i >= j), "comparisons");
    vp_check((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p <= q) == (i <= j) && (p > q) == (i > j) && (p >= q) == (i >= j), "comparisons with pointers to const");
    vp_check(p - r == static_cast<ptrdiff_t>(i) - static_cast<ptrdiff_t>(j), "difference");
    vp_check(p - q == static_cast<ptrdiff_t>(i) - static_cast<ptrdiff_t>(j), "difference with pointers to const");
    vp_check(static_cast<bool>(p) && !static_cast<bool>(P(nullptr)), "null"); vp_check(static_cast<void *>(p) == m.b + m.off + i * S, "address");
}
int main() {
    Mem m; m.off = vp_choose(8, "byte offset"); vp_sym_bytes(m.b, BYTES, "memory"); std::memcpy(m.m, m.b, BYTES);
    switch (vp_choose(4, "scenario")) {
    case 0: { size_t const i = idx("i"); vp_check(eq(read(m, i), model(m, i)), "value read"); break; }
    case 1: { size_t const i = idx("i"); T const v = vp_any<T>("v"); write(m, i, v); vp_check(eq(read(m, i), v), "value read back"); break; }
    case 2: compare(m); break;
    default: {
        size_t const i = idx("i"), j = idx("j"); P const b(m.b + m.off);
        switch (vp_choose(2, "assign")) {
        case 0: { T const v = b[j]; b[i] = b[j]; setModel(m, i, v); break; }      // reference to reference
#ifndef VPOD
        default: { int16_t const n = vp_any<int16_t>("n"); T const v = static_cast<T>(n); b[i] = n; setModel(m, i, v); }    // converting
#endif
        }
    }
    }
    vp_check(std::memcmp(m.b, m.m, BYTES) == 0, "no other byte is touched");
}
