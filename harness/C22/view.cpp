// Reference vectors view exactly the elements of the referenced block.
//VP name=u8 tier=both flags="-DVT=uint8_t" desc="8-bit elements, blocks of 0..24 bytes, all contents, every index"
//VP name=u16 tier=both flags="-DVT=uint16_t" desc="16-bit elements, blocks of 0..24 bytes, all contents, every index"
//VP name=u64 tier=both flags="-DVT=uint64_t" desc="64-bit elements, blocks of 0..24 bytes, all contents, every index"
//VP name=odd tier=both flags="-DVT=Odd" desc="3-byte elements, blocks of 0..24 bytes, all contents, every index"
//VP name=bool tier=both flags="-DVT=bool -DVBOOL" desc="booleans, blocks of 0..24 bytes, all contents, every index"
#include <vp.h>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <sharemind/ReferenceVector.h>
struct Odd { uint8_t b[3]; friend bool operator==(Odd const & x, Odd const & y) { return x.b[0] == y.b[0] && x.b[1] == y.b[1] && x.b[2] == y.b[2]; } };
struct Reference { void * pData; size_t size; };
struct CReference { void const * pData; size_t size; };
using R = sharemind::RefVec<VT>; using C = sharemind::CRefVec<VT>;
struct Rng {
    uint8_t put[64]; size_t n = 0;
    template <class It> void fillBlock(It b, It e) { fillBytes(static_cast<void *>(&*b), static_cast<size_t>(e - b) * sizeof(*b)); }
    void fillBytes(void * p, size_t k) { vp_assert(n + k <= 64); for (size_t i = 0; i < k; ++i) { put[n] = vp_any<uint8_t>("random"); static_cast<uint8_t *>(p)[i] = put[n++]; } }
};
static constexpr size_t BYTES = 24;
alignas(16) static unsigned char mem[16 + BYTES + 16];
static VT value(char const * n) {
#ifdef VBOOL
    return vp_any<uint8_t>(n) & 1;
#else
    VT v; vp_sym_bytes(&v, sizeof v, n); return v;
#endif
}
int main() {
    unsigned char * const blk = mem + 16; unsigned char was[sizeof mem];
    vp_sym_bytes(mem, sizeof mem, "memory");
#ifdef VBOOL
    for (auto & m : mem) m &= 1;
#endif
    std::memcpy(was, mem, sizeof mem);
    size_t const size = vp_any<size_t>("size"); vp_assume(size <= BYTES);
    Reference const ref = { blk, size }; CReference const cref = { blk, size };
    size_t n = 0; for (size_t k = 1; k <= BYTES / sizeof(VT); ++k) n += size >= k * sizeof(VT);
    R v(ref); C c(cref), cv(v); R const & k = v; VT * const e = reinterpret_cast<VT *>(blk); C copy(cv); R w(v);
    vp_check(v.size() == n && c.size() == n && cv.size() == n && copy.size() == n && w.size() == n, "as many elements as fit in the block");
    vp_check(v.empty() == (n == 0) && c.empty() == (n == 0) && cv.empty() == (n == 0), "empty");
    vp_check(v.begin() == e && k.begin() == e && c.begin() == e && cv.begin() == e && w.begin() == e, "begin");
    vp_check(v.end() == e + n && k.end() == e + n && c.end() == e + n && cv.end() == e + n && copy.end() == e + n, "end");
    switch (vp_choose(4, "use")) {
    case 0: {
        vp_assume(n > 0); size_t const i = vp_any<size_t>("index"); vp_assume(i < n);
        vp_check(&v[i] == e + i && &k[i] == e + i && &c[i] == e + i && &cv[i] == e + i, "element i is the object at index i"); break;
    }
    case 1: {
        vp_assume(n > 0); size_t const i = vp_choose(BYTES / sizeof(VT), "index"); vp_assume(i < n); VT const x = value("x"); v[i] = x;
        vp_check(k[i] == x && c[i] == x && cv[i] == x && e[i] == x, "a write is seen through every vector");
        bool ok = true; for (size_t b = 0; b < sizeof mem; ++b) ok &= (b >= 16 + i * sizeof(VT) && b < 16 + (i + 1) * sizeof(VT)) || mem[b] == was[b]; vp_check(ok, "nothing else changes"); break;
    }
    case 2: {
        size_t i = 0; for (auto & x : v) { vp_check(&x == e + i, "iteration visits the elements in order"); ++i; } vp_check(i == n, "iteration visits every element"); i = 0;
        for (auto & x : cv) { vp_check(&x == e + i && x == e[i], "read-only iteration"); static_assert(std::is_const<typename std::remove_reference<decltype(x)>::type>::value, ""); ++i; } vp_check(i == n, "read-only iteration visits every element"); break;
    }
    default: {
#ifdef VBOOL
        unsigned const pre = vp_choose(3, "before"); if (pre) { std::memset(mem, pre == 2, sizeof mem); std::memset(was, pre == 2, sizeof mem); } // all false or all true
#endif
        Rng g; v.randomize(g); size_t const m = v.size() ? size_t(v.end() - v.begin()) : 0;
#ifdef VBOOL
        for (size_t i = 0; i < m && i < BYTES; ++i) vp_check(blk[i] <= 1, "a valid boolean");
        if (m == BYTES) { size_t const i = vp_choose(BYTES, "element"), j = (i + 1) % BYTES; if (pre && e[i] && !e[j]) vp_witness("random elements take both values independently"); }
#else
        vp_check(g.n == m * sizeof(VT), "exactly the elements are filled"); bool ok = true; for (size_t i = 0; i < m * sizeof(VT) && i < BYTES; ++i) ok &= blk[i] == g.put[i]; vp_check(ok, "filled");
#endif
        bool rest = true; for (size_t b = 0; b < sizeof mem; ++b) rest &= (b >= 16 && b < 16 + m * sizeof(VT)) || mem[b] == was[b]; vp_check(rest, "nothing outside the elements changes");
    }
    }
}
