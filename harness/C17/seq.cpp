// LRU cache histories against a most-recently-used list: exactly the kept values are alive, every get answers as the list says.
//VP name=int tier=quick flags="-DVK=4" desc="limits 1..2, three keys, two outside owners, four operations"
//VP name=str tier=quick flags="-DVK=3 -DVSTR" desc="string keys, limits 1..2, three keys, two outside owners, three operations"
//VP name=int5 tier=thorough flags="-DVK=5" desc="limits 1..2, three keys, two outside owners, five operations"
//VP name=str4 tier=thorough flags="-DVK=4 -DVSTR" desc="string keys, four operations"
//VP name=lim3 tier=both flags="-DVK=3 -DVPRE -DVLIM=3" desc="limit 3 from a filled cache, four keys, three operations"
//VP name=fail tier=both flags="-DVK=3 -DVSTR -DVFAIL" desc="string keys, three operations, one allocation failing in any insertion"
#include <vp.h>
#include <memory>
#include <new>
#include <string>
#include <utility>
#include <sharemind/LRU.h>
#ifndef VLIM
#define VLIM 0
#endif
static constexpr int KEYS = VLIM ? 4 : 3, MAXS = 24;
static bool alive[MAXS]; static int made = 0;
struct Val { int s, tag = 0x7a1; Val() : s(made++) { vp_assert(s < MAXS); alive[s] = true; } ~Val() { vp_check(tag == 0x7a1 && alive[s], "freed once"); tag = 0; alive[s] = false; } };
#ifdef VSTR
using K = std::string; static K key(int k) { static char const * const n[] = { "a", "b with a long name beyond the small string buffer", "", "d" }; return n[k]; }
#else
using K = int; static K key(int k) { return k * 100 - 7; }
#endif
using L = sharemind::LRU<K, Val>; using H = std::shared_ptr<Val>;
struct Model {
    int lim, n = 0, k[KEYS], v[KEYS];   // most recently used first
    int find(int x) const { for (int i = 0; i < n; ++i) if (k[i] == x) return i; return -1; }
    void remove(int i) { for (; i + 1 < n; ++i) { k[i] = k[i + 1]; v[i] = v[i + 1]; } --n; }
    void front(int x, int s) { int const i = find(x); if (i >= 0) remove(i); for (int j = n; j > 0; --j) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[0] = x; v[0] = s; ++n; }
    bool kept(int s) const { for (int i = 0; i < n && i < lim; ++i) if (v[i] == s) return true; return false; }
};
int main() {
    vp_leak_mark();
    {
        Model m; m.lim = VLIM ? VLIM : 1 + vp_choose(2, "limit"); std::unique_ptr<L> c(new L(m.lim)); H out[2];
        auto const same = [&](L * other) {
            for (int s = 0; s < made; ++s) {
                bool want = m.kept(s); for (auto const & o : out) want |= o && o->s == s;
                vp_check(alive[s] == want, "exactly the kept and the outside-owned values are alive");
            }
            for (int i = 0; i < m.n; ++i) if (i >= m.lim && !alive[m.v[i]]) { m.remove(i); --i; } // expired
            (void) other;
        };
        auto const put = [&](int k, H v) {
            int const s = v->s; K kk(key(k));
#ifdef VFAIL
            vp_alloc_may_fail(1);
            try { c->insert(std::move(kk), std::move(v)); } catch (std::bad_alloc const &) { vp_alloc_may_fail(0); return; }
            vp_alloc_may_fail(0);
#else
            c->insert(std::move(kk), std::move(v));
#endif
            m.front(k, s);
        };
        auto const get = [&](int k) -> H {
            H h(c->get(key(k))); int const i = m.find(k);
            if (i < 0) { vp_check(!h, "nothing for a key that is not there"); return h; }
            vp_check(h && h->s == m.v[i] && h->tag == 0x7a1, "the value most recently inserted for the key"); m.front(k, m.v[i]); return h;
        };
#ifdef VPRE
        for (int k = 0; k < KEYS; ++k) { H v(std::make_shared<Val>()); if (k == 0 && vp_choose(2, "owned")) out[0] = v; m.front(k, v->s); c->insert(key(k), std::move(v)); }
        same(nullptr);
#endif
        for (int o = 0; o < VK; ++o) {
            switch (vp_choose(7, "operation")) {
            case 0: { int const k = vp_choose(KEYS, "key"); H v(std::make_shared<Val>()); if (vp_choose(2, "owned")) out[0] = v; put(k, std::move(v)); break; }
            case 1: { int const k = vp_choose(KEYS, "key"), j = vp_choose(2, "owner"); vp_assume(bool(out[j])); put(k, out[j]); break; }
            case 2: case 3: { H h(get(vp_choose(KEYS, "key"))); if (vp_choose(2, "own")) out[1] = std::move(h); break; }
            case 4: { int const j = vp_choose(2, "owner"); vp_assume(bool(out[j])); out[j].reset(); break; }
            case 5: c->clear(); m.n = 0; break;
            default: {
                if (vp_choose(2, "move")) { std::unique_ptr<L> d(new L(std::move(*c))); c = std::move(d); }
                else { std::unique_ptr<L> d(new L(*c)); c->clear(); c = std::move(d); }
            }
            }
            same(nullptr);
        }
        for (int k = 0; k < KEYS; ++k) { get(k); same(nullptr); }
        c.reset(); m.n = 0; same(nullptr);
    }
    vp_leak_check();
}
