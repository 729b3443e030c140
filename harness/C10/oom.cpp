// An operation on a bit vector which runs out of memory changes nothing, and the vector can be used on.
//VP name=8 tier=both flags="-DVB=uint8_t" opts="--merge" desc="8-bit blocks, lengths 0 to 17 and {0, 3, 8, 17}, any one of the allocations of one growing operation failing, then another one; all contents"
//VP name=64 tier=both flags="-DVB=uint64_t -DVFEW" opts="--merge" desc="64-bit blocks, lengths {0, 63, 64, 65} and {0, 3, 64, 129}, any one of the allocations of one growing operation failing, then another one; all contents"
#include <vp.h>
#include <cstdint>
#include <list>
#include <new>
#include <vector>
#include <sharemind/BitVector.h>
using V = sharemind::BitVec<VB>;
static constexpr size_t BPB = sizeof(VB) * 8, CAP = 600;
struct Ref { size_t n = 0; bool b[CAP]; void push(bool x) { vp_assert(n < CAP); b[n++] = x; } };
static void fill(V & v, Ref & r, size_t n, char const * name) {
    v = V(n); r.n = n;
    for (size_t i = 0; i < (n + BPB - 1) / BPB; ++i) { VB const x = vp_any<VB>(name); static_cast<VB *>(v.data())[i] = x; }
    for (size_t i = 0; i < n; ++i) r.b[i] = (static_cast<VB *>(v.data())[i / BPB] >> (i % BPB)) & 1u;
}
static void same(V const & v, Ref const & r) {
    vp_check(v.size() == r.n && v.empty() == !r.n, "size"); bool ok = true; for (size_t i = 0; i < r.n; ++i) ok &= v[i] == r.b[i]; vp_check(ok, "elements");
}
static void append(Ref & a, Ref const & b) { size_t const n = b.n; for (size_t i = 0; i < n; ++i) a.push(b.b[i]); }
static void step(V & a, Ref & ra, V const & b, Ref const & rb) {
    switch (vp_choose(6, "operation")) {
    case 0: { bool const x = vp_any_bool("x"); a.push_back(x); ra.push(x); break; }
    case 1: a.append(b); append(ra, rb); break;
    case 2: a.append(a); append(ra, ra); break;
    case 3: { size_t const n = ra.n + BPB + 1; a.resize(n); for (size_t i = ra.n; i < n; ++i) { a[i] = false; ra.push(false); } break; }
    case 4: a = b; ra = rb; break;
    default: { V c(a); c.append(b); Ref rc = ra; append(rc, rb); same(c, rc); a.swap(c); ra = rc; break; }
    }
}
int main() {
    vp_leak_mark();
    {
#ifdef VFEW
        static unsigned const l0[] = { 0, 63, 64, 65 }, l1[] = { 0, 3, 64, 129 }; size_t const n = l0[vp_choose(4, "length")], m = l1[vp_choose(4, "other length")];
#else
        static unsigned const l1[] = { 0, 3, 8, 17 }; size_t const n = vp_choose(18, "length"), m = l1[vp_choose(4, "other length")];
#endif
        V a, b; Ref ra, rb; fill(a, ra, n, "a"); fill(b, rb, m, "b");
        bool failed = false;
        vp_alloc_may_fail(1); try { step(a, ra, b, rb); } catch (std::bad_alloc const &) { failed = true; vp_witness("out of memory"); } vp_alloc_may_fail(0);
        same(a, ra); same(b, rb); if (failed) { step(a, ra, b, rb); same(a, ra); same(b, rb); vp_check((a == b) == (b == a), "equality"); }
    }
    vp_leak_check();
}
