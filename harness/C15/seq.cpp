// Identifier pool histories: held identifiers are unique and stable, a released one becomes available again.
//VP name=u8 tier=quick flags="-DVT=uint8_t -DVK=3 -DVPOS=2" desc="8-bit identifiers, pool positions 0 and 254, three operations on three holders"
//VP name=strong tier=quick flags="-DVT=Strong -DVK=2 -DVPOS=5 -DVSTRONG" desc="strong 8-bit identifiers, pool positions 0, 1, 254, 255 and wrapped, two operations on three holders"
//VP name=u32 tier=both flags="-DVT=uint32_t -DVK=2 -DVSMALL" desc="32-bit identifiers, pool positions 0 and 1, two operations on three holders"
//VP name=fail tier=both flags="-DVT=uint8_t -DVK=2 -DVFAIL -DVSMALL" desc="8-bit identifiers, one allocation failing anywhere in two operations"
//VP name=strong3 tier=thorough flags="-DVT=Strong -DVK=3 -DVPOS=5 -DVSTRONG" desc="strong 8-bit identifiers, pool positions 0, 1, 254, 255 and wrapped, three operations on three holders"
//VP name=deep tier=thorough flags="-DVT=uint8_t -DVK=4 -DVPOS=3" desc="8-bit identifiers, pool positions 0, 254, 255, four operations on three holders"
#include <vp.h>
#include <cstdint>
#include <memory>
#include <new>
#include <utility>
#include <sharemind/IdentifierPool.h>
struct Tag {};
using Strong = sharemind::StrongType<uint8_t, Tag>;
using P = sharemind::IdentifierPool<VT>; using H = P::IdHolder;
#ifdef VSTRONG
static uint64_t num(H const & h) { return h.id().get(); }
#else
static uint64_t num(H const & h) { vp_check(h.id() == h.idRef(), "id and idRef agree"); return h.id(); }
#endif
struct Slot { H h; bool on = false; uint64_t id = 0; };
static void same(Slot * s, int n) {
    for (int i = 0; i < n; ++i) {
        vp_check(s[i].h.valid() == s[i].on && bool(s[i].h) == s[i].on, "validity");
        if (!s[i].on) continue;
        vp_check(num(s[i].h) == s[i].id, "a held identifier does not change");
        for (int j = 0; j < i; ++j) if (s[j].on) vp_check(s[i].id != s[j].id, "held identifiers are unique");
    }
}
static void take(Slot & s, P & p) {
#ifdef VFAIL
    try { s.h = p.reserve(); s.on = true; s.id = num(s.h); } catch (std::bad_alloc const &) {}
#else
    s.h = p.reserve(); s.on = true; s.id = num(s.h);
#endif
}
int main() {
    vp_leak_mark();
    {
        Slot s[3];
        {
            P p;
#ifdef VSMALL
            static unsigned const pre[] = { 0, 1 }; unsigned const k = pre[vp_choose(2, "position")];
#else
            static unsigned const pre[] = { 0, 254, 255, 1, 300 }; unsigned const k = pre[vp_choose(VPOS, "position")];
#endif
            if (vp_choose(2, "hold the first")) take(s[0], p);
            for (unsigned i = 0; i < k; ++i) { H h(p.reserve()); vp_check(h.valid() && (!s[0].on || num(h) != s[0].id), "held identifiers are unique"); }
            same(s, 3);
#ifdef VFAIL
            vp_alloc_may_fail(1);
#endif
            for (int o = 0; o < VK; ++o) {
                Slot & x = s[vp_choose(3, "slot")];
                switch (vp_choose(6, "operation")) {
                case 0: case 1: take(x, p); break;
                case 2: x.h.release(); x.on = false; break;
                case 3: { Slot & y = s[vp_choose(3, "from")]; x.h = std::move(y.h); if (&x != &y) { x.on = y.on; x.id = y.id; y.on = false; } break; }
                case 4: { H t(std::move(x.h)); vp_check(!x.h.valid() && t.valid() == x.on, "moving transfers"); if (x.on) vp_check(num(t) == x.id, "identifier moves"); if (vp_choose(2, "back")) x.h = std::move(t); else x.on = false; break; }
                default: { Slot & y = s[vp_choose(3, "with")]; vp_assume(&x != &y); std::swap(x.h, y.h); std::swap(x.on, y.on); std::swap(x.id, y.id); }
                }
                same(s, 3);
            }
#ifdef VFAIL
            vp_alloc_may_fail(0);
#endif
            for (int i = 0; i < 3; ++i) if (!s[i].on) { take(s[i], p); vp_check(s[i].on, "reserving succeeds while identifiers are free"); }
            same(s, 3);
        }
        same(s, 3); // holders survive the pool
    }
    vp_leak_check();
}
