// Each map keeps to its own hash function and key predicate: both have state here, different for the two maps.
//VP name=pred tier=both flags="-DVS=1" shim=1 desc="one or two entries in each of two maps whose predicates compare the keys under any two masks, then any one of ten ways to make a map from another; every key"
//VP name=state tier=both flags="-DVS=0" shim=1 desc="the same with hash functions under masks 1 and 3, for keys 0 to 3"
#include <vp.h>
#include <cstddef>
#include <iterator>
#include <memory>
#include <utility>
#include <sharemind/UnorderedMap.h>
struct H { unsigned m = 7; H() = default; H(unsigned x) : m(x) {} std::size_t operator()(unsigned k) const noexcept { return VS ? 1u : k & m; } };
struct E { unsigned m = 7; E() = default; E(unsigned x) : m(x) {} bool operator()(unsigned a, unsigned b) const noexcept { return ((a ^ b) & m) == 0u; } };
using Map = sharemind::UnorderedMap<unsigned, int, H, E>;
#if VS
static unsigned key() { return vp_any<unsigned>("key"); }
#else
static unsigned key() { return unsigned(vp_choose(4, "key")); }
#endif
struct M { unsigned m; int n = 0; unsigned k[3]; int v[3]; M(unsigned x) : m(x) {} int at(unsigned q) const { for (int i = 0; i < n; ++i) if (((k[i] ^ q) & m) == 0u) return i; return -1; } void put(unsigned q, int x) { if (at(q) < 0) { k[n] = q; v[n++] = x; } } };
static void same(Map & m, M const & r, unsigned const q) {
    Map const & c = m; vp_check(c.size() == std::size_t(r.n), "size"); vp_check(c.hash_function().m == r.m && c.key_eq().m == r.m, "the hash function and predicate of the map");
    int const i = r.at(q); bool const h = i >= 0; auto const it = c.find(q);
    vp_check((it != c.end()) == h && (m.find(q) != m.end()) == h && c.count(q) == h && c.contains(q) == h, "lookup by the predicate of the map");
    if (h) vp_check(it->second == r.v[i] && m.at(q) == r.v[i] && c.at(q) == r.v[i] && m[q] == r.v[i], "value");
    vp_check(m.emplace(q, 99).second == !h, "inserted unless an equal key is there"); vp_check(m.erase(q) == 1u && !m.contains(q), "erased");
}
int main() {
    vp_leak_mark();
    {
#if VS
        unsigned const ma = vp_any<unsigned>("mask"), mb = vp_any<unsigned>("mask");
#else
        unsigned const ma = vp_choose(2, "mask") ? 3 : 1, mb = 4 - ma;
#endif
        Map a(8u, H(ma), E(ma)), b(2u, H(mb), E(mb)); M ra(ma), rb(mb);
        int const x = vp_any<int>("value"), y = vp_any<int>("value");
        { unsigned const k = key(); a.emplace(k, x); ra.put(k, x); } { unsigned const k = key(); b.insert({k, y}); rb.put(k, y); } if (vp_choose(2, "more")) { unsigned const k = key(); b.emplace(k, x); rb.put(k, x); }
        unsigned const q = key();
        switch (vp_choose(10, "operation")) {
        case 0: a.swap(b); same(a, rb, q); same(b, ra, q); break;
        case 1: { using std::swap; swap(a, b); same(a, rb, q); same(b, ra, q); break; }
        case 2: a = b; same(a, rb, q); same(b, rb, q); break;
        case 3: a = std::move(b); same(a, rb, q); break;
        case 4: { Map c(b); same(c, rb, q); same(b, rb, q); break; }
        case 5: { Map c(std::move(b)); same(c, rb, q); break; }
        case 6: { Map c(b, b.get_allocator()); same(c, rb, q); same(b, rb, q); break; }
        case 7: { Map c(std::move(b), std::allocator<std::pair<unsigned const, int> >()); same(c, rb, q); break; }
        case 8: { Map c(b.begin(), b.end(), 4u, H(mb), E(mb)); same(c, rb, q); same(b, rb, q); break; }
        default: b.clear(); same(b, M(mb), q); same(a, ra, q); break;
        }
    }
    vp_leak_check();
}
