// Every sequence of operations on the unordered map against a table of keys and values, with hashes that collide in every way.
//VP name=k1 tier=both flags="-DVK=1 -DVN=2" shim=1 desc="any one operation after an arbitrary map of up to two of three keys, every way their hashes may coincide or share a bucket, every value"
//VP name=k2 tier=both flags="-DVK=2 -DVN=1 -DVH=4" shim=1 desc="any two operations after an arbitrary map of up to one of three keys, hashes equal, in one bucket, distinct or partly equal, every value"
//VP name=k2n2 tier=thorough flags="-DVK=2 -DVN=2 -DVH=1" shim=1 desc="any two operations after an arbitrary map of up to two of three keys, hashes equal, in one bucket, distinct or partly equal, every value"
//VP name=throw1 tier=both flags="-DVK=1 -DVN=2 -DVTHROW" shim=1 desc="any one operation after an arbitrary map of up to two of three keys, where one copy of a value may throw"
//VP name=oom1 tier=both flags="-DVK=1 -DVN=2 -DVOOM" shim=1 desc="any one operation after an arbitrary map of up to two of three keys, every way their hashes may coincide or share a bucket, any one of its allocations failing"
//VP name=throw2 tier=thorough flags="-DVK=2 -DVN=1 -DVH=4 -DVTHROW" shim=1 desc="any two operations after an arbitrary map of up to one of three keys, where one copy of a value may throw"
#include <vp.h>
#include <cstddef>
#include <iterator>
#include <memory>
#include <new>
#include <utility>
#include <sharemind/UnorderedMap.h>
enum { N = 3 };
static std::size_t hv[N]; static int live = 0, boom = 0; struct Boom {};
static void may() { if (boom > 0 && vp_choose(2, "throws")) { --boom; throw Boom(); } }
struct K { int v; K(int i) : v(i) {} };
struct V { int v; V(int i = 0) : v(i) { ++live; } V(V const & o) : v((may(), o.v)) { ++live; } V(V && o) : v(o.v) { ++live; } V & operator=(V const & o) { may(); v = o.v; return *this; } V & operator=(V && o) { v = o.v; return *this; } ~V() { --live; } };
static bool operator==(V const & a, V const & b) { return a.v == b.v; }
struct H { int tag = 0; std::size_t operator()(K const & k) const noexcept { return hv[k.v]; } }; struct E { bool operator()(K const & a, K const & b) const noexcept { return a.v == b.v; } };
static bool operator==(K const & a, K const & b) { return a.v == b.v; }
using Map = sharemind::UnorderedMap<K, V, H, E>; using P = Map::value_type;
struct Pred { int v; std::size_t hash() const { return hv[v]; } bool operator()(K const & k) const { return k.v == v; } };
struct M { bool has[N] = {}; int v[N] = {}; int n() const { return has[0] + has[1] + has[2]; } };
static bool quiet = false; // while allocations may fail, which those made for the comparison must not
static void same(Map & m, M const & r) {
    if (quiet) return;
    Map const & c = m; vp_check(c.size() == std::size_t(r.n()) && c.empty() == !r.n(), "size"); int seen[N] = {};
    for (auto it = m.begin(); it != m.end(); ++it) { ++seen[it->first.v]; vp_check(it->second.v == r.v[it->first.v], "iteration: the value last assigned"); }
    for (int k = 0; k < N; ++k) {
        K const q(k); vp_check(seen[k] == int(r.has[k]), "iteration visits each key once"); auto const it = c.find(q); auto jt = m.find(q); vp_check((it != c.end()) == r.has[k] && (jt != m.end()) == r.has[k], "find");
        if (r.has[k]) { vp_check(it->first.v == k && it->second.v == r.v[k] && &it->second == &jt->second, "find: key and value"); vp_check(&m.at(q) == &it->second && &c.at(q) == &it->second, "at"); }
        else { bool t = false; try { m.at(q); } catch (std::out_of_range const &) { t = true; } vp_check(t, "at refuses absent keys"); t = false; try { c.at(q); } catch (std::out_of_range const &) { t = true; } vp_check(t, "at refuses absent keys"); }
        vp_check(c.count(q) == r.has[k] && c.contains(q) == r.has[k], "count"); auto const er = m.equal_range(q); auto const cr = c.equal_range(q); vp_check(std::distance(er.first, er.second) == r.has[k] && std::distance(cr.first, cr.second) == r.has[k], "equal_range"); if (r.has[k]) vp_check(er.first->first.v == k && cr.first->first.v == k, "equal_range");
        Pred const p{k}; auto const pred = [k](K const & x) { return x.v == k; }; auto const bin = [](K const & x, int y) { return x.v == y - 1000; }; int const far = k + 1000;
        vp_check((c.find(hv[k], pred) != c.end()) == r.has[k] && (m.find(hv[k], pred) != m.end()) == r.has[k] && c.contains(hv[k], pred) == r.has[k] && c.count(hv[k], pred) == r.has[k], "lookup by hash and predicate");
        vp_check((c.find(p) != c.end()) == r.has[k] && (m.find(p) != m.end()) == r.has[k] && c.contains(p) == r.has[k] && c.count(p) == r.has[k], "lookup by hash table predicate");
        vp_check((c.find(hv[k], bin, far) != c.end()) == r.has[k] && (m.find(hv[k], bin, far) != m.end()) == r.has[k] && c.contains(hv[k], bin, far) == r.has[k] && c.count(hv[k], bin, far) == r.has[k], "lookup by hash, predicate and key");
        vp_check((c.find(hv[k], q) != c.end()) == r.has[k] && (m.find(hv[k], q) != m.end()) == r.has[k], "lookup by hash and key"); if (r.has[k]) { vp_check(c.find(p)->first.v == k && m.find(hv[k], bin, far)->first.v == k && c.find(hv[k], q)->first.v == k && m.find(hv[k], pred)->first.v == k, "the key looked up"); vp_check(c.bucket(q) == c.hash_bucket(hv[k]) && c.bucket(it) == c.bucket(q), "bucket"); int in = 0; for (auto lt = c.cbegin(c.bucket(q)); lt != c.cend(c.bucket(q)); ++lt) in += lt->first.v == k; vp_check(in == 1, "bucket contents"); }
    }
}
int main() {
    vp_leak_mark(); hv[0] = 0;
#ifdef VH
    { static unsigned const t[4][2] = {{0, 0}, {13, 26}, {1, 2}, {0, 1}}; int const h = vp_choose(4, "hashes"); hv[1] = t[h][0]; hv[2] = t[h][1]; }
#else
    for (int i = 1; i < N; ++i) switch (vp_choose(3, "hash")) { case 0: hv[i] = hv[i - 1]; break; case 1: hv[i] = hv[0] + 13u * unsigned(i); break; default: hv[i] = unsigned(i); break; }
#endif
    {
        Map a, b; M ma, mb;
        for (int k = 0, n = vp_choose(VN + 1, "initial size"), f = 0; k < n; ++k) { int const key = f ? (f - 1 + 1 + vp_choose(2, "key")) % N : vp_choose(N, "key"); f = key + 1; int const x = vp_any<int>("value"); a.insert(P(K(key), V(x))); ma.has[key] = true; ma.v[key] = x; }
#ifdef VTHROW
        boom = 1;
#endif
        for (int s = 0; s < VK; ++s) {
            bool const two = s && vp_choose(2, "map"); Map & m = two ? b : a; Map & o = two ? a : b; M & r = two ? mb : ma; M & q = two ? ma : mb; M const r0 = r, q0 = q; int const op = vp_choose(20, "operation"); int const key = op < 14 ? vp_choose(N, "key") : 0; int const x = vp_any<int>("value"); bool range = false; bool const had = r.has[key]; K const kk(key); V const val(x);
            auto const put = [&](bool over) { if (!had || over) { r.has[key] = true; r.v[key] = x; } };
            auto const ins = [&](std::pair<Map::iterator, bool> const & i) { put(false); vp_check(i.second == !had && i.first->first.v == key && i.first->second.v == r.v[key], "insertion reports what it did"); };
            try {
#ifdef VOOM
                vp_alloc_may_fail(1); quiet = true;
#endif
                switch (op) {
                case 0: { P const p(kk, val); ins(m.insert(p)); } break;
                case 1: ins(m.insert(std::pair<K, V>(kk, val))); break;
                case 2: ins(m.emplace(kk, val)); break;
                case 3: { auto const it = m.emplace_hint(m.cbegin(), kk, val); put(false); vp_check(it->first.v == key && it->second.v == r.v[key], "hinted"); } break;
                case 4: { P const p(kk, val); auto const it = m.insert(m.cbegin(), p); put(false); vp_check(it->first.v == key && it->second.v == r.v[key], "hinted"); } break;
                case 5: { auto const i = m.insert_or_assign(kk, val); put(true); vp_check(i.second == !had && i.first->first.v == key && i.first->second.v == x, "insertion or assignment reports what it did"); } break;
                case 6: { K t(key); auto const i = m.insert_or_assign(std::move(t), val); put(true); vp_check(i.second == !had && i.first->first.v == key && i.first->second.v == x, "insertion or assignment reports what it did"); } break;
                case 7: { auto const i = m.insert_or_assign(m.cend(), kk, val); put(true); vp_check(i->first.v == key && i->second.v == x, "hinted"); } break;
                case 8: { K t(key); auto const i = m.insert_or_assign(m.cend(), std::move(t), val); put(true); vp_check(i->first.v == key && i->second.v == x, "hinted"); } break;
                case 9: { V & v = m[kk]; vp_check(v.v == (had ? r.v[key] : 0), "operator[]"); r.has[key] = true; r.v[key] = v.v; v = val; r.v[key] = x; } break;
                case 10: { K t(key); V & v = m[std::move(t)]; vp_check(v.v == (had ? r.v[key] : 0), "operator[]"); r.has[key] = true; r.v[key] = v.v; v = val; r.v[key] = x; } break;
                case 11: { vp_check(m.erase(kk) == had, "number erased"); r.has[key] = false; } break;
                case 12: { auto const it = m.find(kk); if (it != m.end()) { m.erase(Map::const_iterator(it)); r.has[key] = false; } } break;
                case 13: { auto const e = m.equal_range(kk); m.erase(Map::const_iterator(e.first), Map::const_iterator(e.second)); r.has[key] = false; } break;
                case 14: if (vp_choose(2, "all")) m.clear(); else m.erase(m.cbegin(), m.cend()); r = M(); break;
                case 15: if (vp_choose(2, "the other")) { o = m; q = r; } else { m = o; r = q; } break;
                case 16: m = std::move(o); r = q; o.clear(); q = M(); break;
                case 17: m.swap(o); std::swap(r, q); break;
                case 18: { Map c(m); same(c, r); vp_check(c == m && !(c != m), "a copy is equal"); Map d(std::move(c)); same(d, r); Map e(d, d.get_allocator()); for (auto & v : e) v.second.v = v.second.v ^ 1; e.insert_or_assign(K(0), V(7)); d.clear(); if (m.begin() != m.end()) { m.begin()->second.v ^= 1; r.v[m.begin()->first.v] ^= 1; vp_check(e.at(m.begin()->first).v == (m.begin()->first.v ? r.v[m.begin()->first.v] : 7), "copies are independent"); } Map f(std::move(e), m.get_allocator()); vp_check(f.size() == std::size_t(r.n() + !r.has[0]), "copies are independent"); } break;
                default: if (vp_choose(2, "assign")) { m = {P(K(1), val), P(K(2), V(3)), P(K(1), V(4))}; r = M(); r.has[1] = r.has[2] = true; r.v[1] = x; r.v[2] = 3; } else { Map c({P(K(1), val), P(K(2), V(3)), P(K(1), V(4))}); M e; e.has[1] = e.has[2] = true; e.v[1] = x; e.v[2] = 3; same(c, e); range = true; m.insert(c.begin(), c.end()); for (int i = 1; i < 3; ++i) if (!r.has[i]) { r.has[i] = true; r.v[i] = e.v[i]; } } break;
                }
            }
#ifdef VOOM
            catch (std::bad_alloc const &) {
                vp_alloc_may_fail(0); quiet = false; vp_witness("out of memory"); q = q0;
                if (range) { for (int i = 1; i < 3; ++i) if (!r.has[i] && m.contains(K(i))) { r.has[i] = true; r.v[i] = i == 1 ? x : 3; } } // a prefix of the range was inserted
                else r = r0;
            }
#endif
            catch (Boom const &) {
                if (op == 9 || op == 10) {} // the empty value is in place already
                else if (range) { for (int i = 1; i < 3; ++i) if (!r.has[i] && m.contains(K(i))) { r.has[i] = true; r.v[i] = i == 1 ? x : 3; } } // a prefix of the range was inserted
                else r = r0; q = q0;
            }
#ifdef VOOM
            vp_alloc_may_fail(0); quiet = false;
#endif
            if (s + 1 < VK) continue;
            for (int k = 0; k < N; ++k) if (ma.has[k] && mb.has[k]) vp_check(&a.at(K(k)) != &b.at(K(k)), "two maps share no element");
            same(a, ma); same(b, mb); vp_check((a == b) == (b == a) && (a != b) == !(a == b), "equality");
            { bool eq = true; for (int i = 0; i < N; ++i) eq = eq && ma.has[i] == mb.has[i] && (!ma.has[i] || ma.v[i] == mb.v[i]); vp_check((a == b) == eq, "equality is equality of contents"); }
        }
    }
    vp_check(live == 0, "all values destroyed"); vp_leak_check();
}
