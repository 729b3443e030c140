// A bit vector behaves as the sequence of booleans it stands for: every operation sequence up to VK from every start state.
//VP name=8 tier=both flags="-DVB=uint8_t -DVK=1 -DVS0=0 -DVS1=18" opts="--merge" desc="8-bit blocks, one operation from every pair of lengths 0..17 and 0..9, all contents"
//VP name=8k2 tier=quick flags="-DVB=uint8_t -DVK=2 -DVFEW" opts="--merge" desc="8-bit blocks, two operations, lengths {0,7,8,9} and {0,3,8}, all contents"
//VP name=8k3 tier=thorough flags="-DVB=uint8_t -DVK=3 -DVFEW" opts="--merge" desc="8-bit blocks, three operations, lengths {0,7,8,9} and {0,3,8}, all contents"
//VP name=32 tier=both flags="-DVB=uint32_t -DVK=1 -DVFEW" opts="--merge" desc="32-bit blocks, one operation, lengths {0,31,32,33} and {0,3,32}, all contents"
//VP name=64 tier=both flags="-DVB=uint64_t -DVK=1 -DVFEW" opts="--merge" desc="64-bit blocks, one operation, lengths {0,63,64,65} and {0,3,64}, all contents"
//VP name=64k2 tier=thorough flags="-DVB=uint64_t -DVK=2 -DVFEW" opts="--merge" desc="64-bit blocks, two operations, lengths {0,63,64,65} and {0,3,64}, all contents"
#include <vp.h>
#include <cstdint>
#include <list>
#include <vector>
#include <sharemind/BitVector.h>
using V = sharemind::BitVec<VB>;
static constexpr size_t BPB = sizeof(VB) * 8, CAP = BPB * 8 + 40;
struct Ref {            // the mathematical sequence
    size_t n = 0; bool b[CAP];
    void push(bool x) { vp_assert(n < CAP); b[n++] = x; }
};
static bool anyBit(char const * n) { return vp_any<uint8_t>(n) & 1; }
static size_t pick(Ref const & r) { return r.n <= 3 ? vp_choose(r.n, "index") : vp_choose(2, "end") ? r.n - 1 - vp_choose(2, "index") : vp_choose(2, "index") * 2; }
static void fill(V & v, Ref & r, size_t n, char const * name) {
    v = V(n); r.n = n;
    size_t const k = (n + BPB - 1) / BPB;
    for (size_t i = 0; i < k; ++i) { VB const x = vp_any<VB>(name); static_cast<VB *>(v.data())[i] = x; }
    for (size_t i = 0; i < n; ++i) r.b[i] = (static_cast<VB *>(v.data())[i / BPB] >> (i % BPB)) & 1u;
}
static void same(V const & v, Ref const & r) {
    vp_check(v.size() == r.n, "size"); vp_check(v.empty() == (r.n == 0), "empty");
    bool ok = true;
    for (size_t i = 0; i < r.n; ++i) ok &= v[i] == r.b[i];
    vp_check(ok, "elements");
    if (r.n) vp_check((v.front() == r.b[0]) & (v.back() == r.b[r.n - 1]) & (v.at(r.n - 1) == r.b[r.n - 1]), "front, back, at");
}
template <class F> static bool outOfRange(F f) { try { f(); } catch (std::out_of_range const &) { return true; } return false; }
static void step(V & a, Ref & ra, V & b, Ref & rb) {
    switch (vp_choose(20, "operation")) {
    case 0: { bool const x = anyBit("x"); a.push_back(x); ra.push(x); break; }
    case 1: vp_assume(ra.n > 0); a.pop_back(); --ra.n; break;
    case 2: { vp_assume(ra.n > 0); size_t const i = pick(ra); bool const x = vp_choose(2, "x"); a[i] = x; ra.b[i] = x; break; }
    case 3: {
        vp_assume(ra.n > 0); size_t const i = pick(ra); bool const x = vp_choose(2, "x");
        auto r = a.at(i); vp_check(bool(r) == ra.b[i] && ~r == !ra.b[i], "reference reads");
        switch (vp_choose(5, "reference operation")) {
        case 0: r.flip(); ra.b[i] = !ra.b[i]; break;
        case 1: r |= x; ra.b[i] |= x; break;
        case 2: r &= x; ra.b[i] &= x; break;
        case 3: r ^= x; ra.b[i] ^= x; break;
        default: r -= x; ra.b[i] = ra.b[i] & !x;
        }
        break;
    }
    case 4: { vp_assume(ra.n > 0 && rb.n > 0); size_t const i = pick(ra), j = pick(rb); a[i] = b[j]; ra.b[i] = rb.b[j]; break; }
    case 5: a.append(b); for (size_t i = 0; i < rb.n; ++i) ra.push(rb.b[i]); break;
    case 6: { a.append(a); size_t const n = ra.n; for (size_t i = 0; i < n; ++i) ra.push(ra.b[i]); break; }
    case 7: {   // new elements have any value, but have one
        size_t const n = vp_choose(2, "grow") ? ra.n + 1 + vp_choose(2, "by") * BPB : ra.n - (ra.n > BPB ? BPB : ra.n);
        a.resize(n); for (size_t i = ra.n; i < n; ++i) { ra.n = i; ra.push(a[i]); } ra.n = n; break;
    }
    case 8: if (vp_choose(2, "release")) a.clear_and_release(); else a.clear(); ra.n = 0; break;
    case 9: {
        unsigned const k = vp_choose(3, "all"); V & r = k == 0 ? a.set() : k == 1 ? a.reset() : a.flip(); vp_check(&r == &a, "returns itself");
        for (size_t i = 0; i < ra.n; ++i) ra.b[i] = k == 0 ? true : k == 1 ? false : !ra.b[i]; break;
    }
    case 10: { a.swap(b); Ref const t = ra; ra = rb; rb = t; break; }
    case 11: { a = std::move(b); ra = rb; same(a, ra); if (vp_choose(2, "use the one moved from")) { size_t const n = b.size(); rb.n = 0; for (size_t i = 0; i < n; ++i) rb.push(b[i]); } else { b = V(); rb.n = 0; } break; }
    case 12: { V c(std::move(a)); same(c, ra); if (vp_choose(2, "use the one moved from")) { size_t const n = a.size(); ra.n = 0; for (size_t i = 0; i < n; ++i) ra.push(a[i]); } else { a = V(); same(a, Ref()); a = std::move(c); } break; }
    case 13: { V c(b); same(c, rb); a = c; ra = rb; c.flip(); same(a, ra); break; }
    case 14: {
        vp_assume(ra.n <= rb.n); V c(b); c.resize(ra.n);
        unsigned const k = vp_choose(3, "operator"); V & r = k == 0 ? a &= c : k == 1 ? a |= c : a ^= c; vp_check(&r == &a, "returns itself");
        for (size_t i = 0; i < ra.n; ++i) ra.b[i] = k == 0 ? ra.b[i] & rb.b[i] : k == 1 ? ra.b[i] | rb.b[i] : ra.b[i] ^ rb.b[i]; break;
    }
    case 15: {
        vp_assume(ra.n <= rb.n); V c(b); c.resize(ra.n);
        unsigned const k = vp_choose(3, "operator"); V const d = k == 0 ? a & c : k == 1 ? a | c : a ^ c; Ref rd; rd.n = ra.n;
        for (size_t i = 0; i < ra.n; ++i) rd.b[i] = k == 0 ? ra.b[i] & rb.b[i] : k == 1 ? ra.b[i] | rb.b[i] : ra.b[i] ^ rb.b[i];
        same(d, rd); break;
    }
    case 16: { bool const x = vp_choose(2, "x"); size_t const n = vp_choose(3, "n") * (BPB - 1); if (vp_choose(2, "construct")) a = V(n, x); else a.assign(n, x); ra.n = 0; for (size_t i = 0; i < n; ++i) ra.push(x); break; }
    case 17: { vp_assume(ra.n >= rb.n); a.resize(rb.n); a.assign(b); ra = rb; break; }
    case 18: {
        static size_t const len[4] = {1, BPB - 1, BPB, BPB + 1}; size_t const n = len[vp_choose(BPB > 8 ? 2 : 4, "length")];
        std::list<bool> l; bool const x = vp_choose(2, "x"), y = vp_choose(2, "y"); for (size_t i = 0; i < n; ++i) l.push_back((i % 3 == 0) ? x : (i % 3 == 1) ? y : !x);
        if (vp_choose(2, "construct")) { V c(l.begin(), l.end()); a = std::move(c); } else { a.resize(n); a.assign(l.begin(), l.end()); }
        ra.n = 0; for (bool const e : l) ra.push(e); break;
    }
    case 19: {
        vp_assume(ra.n % 8 == 0 && ra.n <= 24); std::vector<uint8_t> bytes; for (size_t i = 0; i < ra.n / 8; ++i) bytes.push_back(vp_any<uint8_t>("byte"));
        a.assignBits(bytes.begin(), bytes.end()); for (size_t i = 0; i < ra.n; ++i) ra.b[i] = (bytes[i / 8] >> (i % 8)) & 1; break;
    }
    }
}
int main() {
    V a, b; Ref ra, rb;
#ifdef VFEW
    static size_t const na[4] = {0, BPB - 1, BPB, BPB + 1}, nb[3] = {0, 3, BPB};
    fill(a, ra, na[vp_choose(4, "size of a")], "a"); fill(b, rb, nb[vp_choose(3, "size of b")], "b");
#else
    fill(a, ra, VS0 + vp_choose(VS1 - VS0, "size of a"), "a"); fill(b, rb, vp_choose(10, "size of b"), "b");
#endif
    for (int k = 0; k < VK; ++k) step(a, ra, b, rb);
    same(a, ra); same(b, rb);
    vp_check(outOfRange([&] { a.at(ra.n); }) && outOfRange([&] { static_cast<V const &>(a).at(ra.n + 1); }), "at refuses indices past the end");
    V c;                        // the same sequence, with other bits beyond the size, or built from its elements
    if (VK > 1 || BPB > 8 || vp_choose(2, "copy")) {
        c = a; if (ra.n % BPB) static_cast<VB *>(c.data())[ra.n / BPB] ^= static_cast<VB>(vp_any<VB>("excess") << (ra.n % BPB));
    } else for (size_t i = 0; i < ra.n; ++i) c.push_back(ra.b[i]);
    vp_check(a == c && c == a && !(a != c), "equal sequences compare equal");
    if (ra.n) {
        size_t const i = pick(ra); c[i].flip(); vp_check(a != c && !(c == a), "sequences that differ in one element compare different"); c[i].flip();
        c.pop_back(); vp_check(a != c, "sequences of different length compare different"); c.push_back(ra.b[ra.n - 1]);
    }
    c.push_back(true); vp_check(a != c, "sequences of different length compare different");
    a.push_back(true); ra.push(true); a.push_back(false); ra.push(false); vp_check(a.size() == ra.n && a[ra.n - 2] && !a[ra.n - 1], "pushed elements"); if (VK == 1) same(a, ra);
}
