// Element pointers of shared tuples and self pointers: the right object, the whole owner kept alive until the last pointer goes.
//VP name=tuple tier=both flags="-DVM=1 -DVK=4" desc="tuples of 3 elements with a repeated type, element values symbolic, four operations on four pointers"
//VP name=self tier=both flags="-DVM=2 -DVK=4" desc="self pointers of a shared object, const and aliasing forms, four operations on three pointers"
//VP name=tuple6 tier=thorough flags="-DVM=1 -DVK=5" desc="five operations on four pointers"
//VP name=self6 tier=thorough flags="-DVM=2 -DVK=5" desc="five operations on three pointers"
//VP name=unowned tier=both flags="-DVM=3 -DVK=0" desc="self pointers asked of unshared objects: automatic, in the constructor, in the destructor, after release"
#include <vp.h>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#include <sharemind/EnableSharedFromThis.h>
#include <sharemind/SharedTupleElementPointers.h>
using namespace sharemind;
static int live = 0, dead = 0;
struct Obj { int v, tag = 0x0b; Obj(int x) : v(x) { ++live; } Obj(Obj const & o) : v(o.v) { ++live; } ~Obj() { vp_check(tag == 0x0b, "destroyed once"); tag = 0; --live; ++dead; } };
struct Self: EnableSharedFromThis<Self> {
    int v, tag = 0x5e, part[2] = { 3, 4 }; int * seen; explicit Self(int x, int * s = nullptr) : v(x), seen(s) { ++live; if (s) *s = probe(); }
    ~Self() { if (seen) *seen = probe(); vp_check(tag == 0x5e, "destroyed once"); tag = 0; --live; ++dead; }
    int probe() {   // every form on an object without an owner
        int n = 0; Self const & c = *this;
        try { sharedFromThis(); } catch (std::bad_weak_ptr const &) { ++n; }
        try { c.sharedFromThis(); } catch (std::bad_weak_ptr const &) { ++n; }
        try { sharedFromThis(&part[1]); } catch (std::bad_weak_ptr const &) { ++n; }
        try { c.sharedFromThis(&v); } catch (std::bad_weak_ptr const &) { ++n; }
        n += weakFromThis().expired() && !weakFromThis().lock(); n += c.weakFromThis().expired() && !c.weakFromThis().lock();
        n += weakFromThis(&v).expired() && !weakFromThis(&v).lock(); n += c.weakFromThis(&part[0]).expired();
        return n;
    }
};
#if VM == 1
using T = std::tuple<Obj, int, Obj>;
struct P { std::shared_ptr<void> p; void * at; std::shared_ptr<Obj> o; std::shared_ptr<int> i; bool on() const { return bool(p); } void drop() { p.reset(); o.reset(); i.reset(); at = nullptr; } };
int main() {
    vp_leak_mark();
    {
        int const a = vp_any<int>("a"), b = vp_any<int>("b"), c = vp_any<int>("c");
        std::shared_ptr<T> t(std::make_shared<T>(a, b, c)); P p[4]; void * const at[3] = { &std::get<0>(*t), &std::get<1>(*t), &std::get<2>(*t) }; dead = 0;
        auto const setO = [&](P & x, std::shared_ptr<Obj> o, void * w) { x.drop(); x.o = o; x.p = o; x.at = w; };
        auto const setI = [&](P & x, std::shared_ptr<int> o) { x.drop(); x.i = o; x.p = o; x.at = at[1]; };
        auto const same = [&] {
            bool held = bool(t); for (auto & x : p) held |= x.on();
            vp_check(live == (held ? 2 : 0) && dead == (held ? 0 : 2), "the owner lives exactly until the last pointer, and is destroyed once");
            for (auto & x : p) if (x.on()) { vp_check(x.p.get() == x.at, "the pointer refers to the requested element"); if (x.o) vp_check(x.o->v == (x.at == at[0] ? a : c) && x.o->tag == 0x0b && x.o.get() == x.at, "value"); if (x.i) vp_check(*x.i == b, "value"); }
        };
        same();
        for (int o = 0; o < VK; ++o) {
            unsigned const op = vp_choose(8, "operation"); if (op < 6) vp_assume(bool(t)); int const k = vp_choose(4, "slot");
            switch (op) {
            case 0: setO(p[k], makeSharedTupleElementPtr<0u>(t), at[0]); break;
            case 1: setI(p[k], makeSharedTupleElementPtr<1u>(t)); break;
            case 2: setO(p[k], makeSharedTupleElementPtr<2u>(t), at[2]); break;
            case 3: { auto r(makeSharedTupleElementPtrs<2u, 1u>(t)); static_assert(std::is_same<decltype(r), std::tuple<std::shared_ptr<Obj>, std::shared_ptr<int>>>::value, ""); setO(p[k], std::get<0>(r), at[2]); setI(p[(k + 1) % 4], std::get<1>(r)); break; }
            case 4: { std::tuple<std::shared_ptr<Obj>, std::shared_ptr<int>, std::shared_ptr<Obj>> r(makeAllSharedTupleElementPtrs(t)); setO(p[k], std::get<0>(r), at[0]); setI(p[(k + 1) % 4], std::get<1>(r)); setO(p[(k + 2) % 4], std::get<2>(r), at[2]); break; }
            case 5: t.reset(); break;
            case 6: vp_assume(p[k].on()); p[k].drop(); break;
            default: vp_assume(p[k].on()); p[(k + 1) % 4] = p[k];
            }
            same();
        }
        t.reset(); same(); for (auto & x : p) { x.drop(); same(); }
    }
    vp_leak_check();
}
#elif VM == 2
int main() {
    vp_leak_mark();
    {
        int const v = vp_any<int>("v"); std::shared_ptr<Self> s(std::make_shared<Self>(v)); Self * const raw = s.get(); std::shared_ptr<void const> p[3]; void const * at[3] = {}; std::weak_ptr<Self> w; std::weak_ptr<int const> wi; dead = 0;
        bool gotW = false, gotWi = false;
        auto const held = [&] { bool h = bool(s); for (auto & x : p) h |= bool(x); return h; };
        auto const same = [&] {
            vp_check(live == held() && dead == !held(), "the owner lives exactly until the last pointer, and is destroyed once");
            if (held()) vp_check(raw->tag == 0x5e && raw->v == v, "alive");
            for (int i = 0; i < 3; ++i) if (p[i]) vp_check(p[i].get() == at[i], "the pointer refers to the requested object");
            if (gotW) { auto l = w.lock(); vp_check(held() ? l.get() == raw : !l, "a weak self pointer locks exactly while alive"); }
            if (gotWi) { auto l = wi.lock(); vp_check(held() ? l.get() == &raw->part[1] : !l, "a weak aliasing pointer locks exactly while alive"); }
        };
        same();
        for (int o = 0; o < VK; ++o) {
            unsigned const op = vp_choose(10, "operation"); int const k = vp_choose(3, "slot"); if (op < 8) vp_assume(held()); Self const & c = *raw;
            switch (op) {
            case 0: p[k] = raw->sharedFromThis(); at[k] = raw; break;
            case 1: p[k] = c.sharedFromThis(); at[k] = raw; break;
            case 2: p[k] = raw->sharedFromThis(&raw->part[0]); at[k] = &raw->part[0]; break;
            case 3: p[k] = c.sharedFromThis(&c.v); at[k] = &raw->v; break;
            case 4: w = raw->weakFromThis(); gotW = true; break;
            case 5: { std::weak_ptr<Self const> x(c.weakFromThis()); vp_check(x.lock().get() == raw, "const weak self pointer"); break; }
            case 6: wi = vp_choose(2, "const") ? c.weakFromThis(&c.part[1]) : std::weak_ptr<int const>(raw->weakFromThis(&raw->part[1])); gotWi = true; break;
            case 7: s.reset(); break;
            case 8: vp_assume(bool(p[k])); p[k].reset(); break;
            default: vp_assume(bool(p[k])); p[(k + 1) % 3] = p[k]; at[(k + 1) % 3] = at[k];
            }
            same();
        }
        s.reset(); same(); for (auto & x : p) { x.reset(); same(); }
    }
    vp_leak_check();
}
#else
int main() {
    vp_leak_mark();
    {
        switch (vp_choose(4, "case")) {
        case 0: { Self s(1); vp_check(s.probe() == 8, "automatic object"); break; }
        case 1: { int n = -1; std::shared_ptr<Self> s(new Self(1, &n)); vp_check(n == 8, "in the constructor"); auto w = s->weakFromThis(); n = -1; s.reset(); vp_check(n == 8, "in the destructor"); vp_check(w.expired(), "expired"); break; }
        case 2: { std::unique_ptr<Self> s(new Self(1)); vp_check(s->probe() == 8, "unshared object"); std::shared_ptr<Self> h(std::move(s)); vp_check(h->sharedFromThis() == h, "shared afterwards"); break; }
        default: { auto s = std::make_shared<Self>(1); Self t(*s); vp_check(t.probe() == 8, "a copy of a shared object is not shared"); ++live; break; }
        }
    }
    vp_check(live == 0, "gone"); vp_leak_check();
}
#endif
