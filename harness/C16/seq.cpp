// Histories of a shared resource map over two keys and three handles: one object per key, alive exactly while referenced.
//VP name=k3 tier=quick flags="-DVK=3" desc="two keys, three handles, three operations, failing constructors, map destroyed at any point"
//VP name=k4 tier=thorough flags="-DVK=4" desc="two keys, three handles, four operations, failing constructors, map destroyed at any point"
#include <vp.h>
#include <memory>
#include <string>
#include <utility>
#include <sharemind/SharedResourceMap.h>
static int live = 0, made = 0;
struct Obj { int key = -1, serial, alive = 0xa11fe; Obj() : serial(++made) { ++live; } explicit Obj(int k) : Obj() { key = k; } ~Obj() { vp_check(alive == 0xa11fe, "destroyed once"); alive = 0; --live; } };
struct Bang { int v; };
using M = sharemind::SharedResourceMap<std::string, Obj>;
static std::string name(int k) { return k ? "key one with a long name, beyond the small string" : "k"; }
struct Slot { std::shared_ptr<Obj> h; int key = -1, serial = 0; };
int main() {
    vp_leak_mark();
    {
        std::unique_ptr<M> m(new M); Slot s[3]; int cur[2] = { 0, 0 }; // serial of the live object of a key
        auto const refs = [&](int k) { int n = 0; for (auto const & x : s) n += x.h && x.key == k; return n; };
        auto const same = [&] {
            int keys = 0;
            for (int k = 0; k < 2; ++k) { if (refs(k)) ++keys; else cur[k] = 0; }
            if (!m) { for (auto const & x : s) if (x.h) vp_check(x.h->alive == 0xa11fe && x.h->serial == x.serial, "a held object is alive after the map"); return; }
            vp_check(live == keys, "exactly the held objects are alive");
            vp_check(m->size() == size_t(keys) && m->empty() == (keys == 0), "size and empty count the keys with an object");
            for (auto const & x : s) if (x.h) vp_check(x.h->alive == 0xa11fe && x.h->serial == cur[x.key], "every handle of a key refers to its one object");
            int seen[2] = { 0, 0 };
            m->forEach([&](std::string const & k, std::shared_ptr<Obj> p) { int const i = k == name(1); vp_check(p && p->serial == cur[i], "forEach passes the object of the key"); ++seen[i]; });
            for (int k = 0; k < 2; ++k) vp_check(seen[k] == (refs(k) > 0), "forEach visits each key once");
            if (!keys) m->waitForEmpty();
        };
        same();
        for (int o = 0; o < VK; ++o) {
            Slot & x = s[o ? vp_choose(o < 2 ? o + 1 : 3, "slot") : 0]; // slots not used yet are alike
            switch (vp_choose(7, "operation")) {
            case 0: case 1: {
                vp_assume(bool(m)); int const k = vp_choose(2, "key"), how = vp_choose(3, "constructor"), before = made; std::shared_ptr<Obj> h; bool const had = refs(k) > 0;
                try {
                    if (how == 0) h = m->getResource(name(k));
                    else h = m->getResource(name(k), [&](std::string const & n, int a) { vp_check(n == name(k) && a == 7, "the constructor gets the key and the arguments"); if (how == 2) throw Bang{5}; return std::make_shared<Obj>(k); }, 7);
                    vp_check(h && (had || how != 2), "an object is returned, or the exception");
                } catch (Bang const & b) { vp_check(how == 2 && !had && b.v == 5, "the exception of the constructor reaches the caller"); same(); break; }
                vp_check(made == before + !had, "constructed exactly when there is no live object"); if (!had) cur[k] = h->serial;
                x.h = std::move(h); x.key = k; x.serial = cur[k]; break;
            }
            case 2: x.h.reset(); break;
            case 5: { vp_assume(bool(m)); std::shared_ptr<Obj> l; int k = -1; m->forEach([&](std::string const & n, std::shared_ptr<Obj> p) { k = n == name(1); l = std::move(p); }); vp_assume(bool(l)); x.h = std::move(l); x.key = k; x.serial = cur[k]; break; }
            case 3: { Slot & y = s[vp_choose(3, "from")]; x = y; break; }
            case 4: { Slot & y = s[vp_choose(3, "from")]; vp_assume(&x != &y); x = std::move(y); y.h.reset(); break; }
            default: vp_assume(bool(m)); m.reset();
            }
            same();
        }
        if (m) { for (auto & x : s) { x.h.reset(); same(); } }
        else { for (auto & x : s) x.h.reset(); }
        vp_check(live == 0, "no object outlives its handles");
    }
    vp_leak_check();
}
