// Histories of two promises and two futures against a model of the shared outcomes.
//VP name=val3 tier=quick flags="-DVK=3 -DVT=0" desc="two promises, two futures, three operations of any kind, a move-only value with counted constructions"
//VP name=val4 tier=thorough flags="-DVK=4 -DVT=0" desc="two promises, two futures, four operations of any kind, a move-only value with counted constructions"
//VP name=copy3 tier=quick flags="-DVK=3 -DVT=1" desc="as val3, a copyable value whose constructors may throw"
//VP name=copy4 tier=thorough flags="-DVK=4 -DVT=1" desc="as val4, a copyable value whose constructors may throw"
//VP name=void3 tier=quick flags="-DVK=3 -DVT=2" desc="as val3, promises of nothing"
//VP name=void4 tier=thorough flags="-DVK=4 -DVT=2" desc="as val4, promises of nothing"
#include <vp.h>
#include <chrono>
#include <exception>
#include <memory>
#include <utility>
#include <sharemind/Future.h>
static int live = 0, boom = 0;
struct Bang { int v; };
struct Val {
    int v, tag = 0x5a5a;
    explicit Val(int x) : v(x) { if (boom) { boom = 0; throw Bang{77}; } ++live; }
#if VT == 0
    Val(Val && o) noexcept : v(o.v) { vp_check(o.tag == 0x5a5a, "moved from a live value"); o.v = -1; ++live; }
    Val(Val const &) = delete;
#else
    Val(Val && o) : v(o.v) { vp_check(o.tag == 0x5a5a, "moved from a live value"); if (boom) { boom = 0; throw Bang{77}; } o.v = -1; ++live; }
    Val(Val const & o) : v(o.v) { vp_check(o.tag == 0x5a5a, "copied from a live value"); if (boom) { boom = 0; throw Bang{77}; } ++live; }
#endif
    Val & operator=(Val const &) = delete;
    ~Val() { vp_check(tag == 0x5a5a, "destroyed once"); tag = 0; --live; }
};
#if VT == 2
using T = void;
#else
using T = Val;
#endif
using P = sharemind::Promise<T>; using F = sharemind::Future<T>;
enum What { Open, Value, Exc, Broken };
struct Outcome { What w = Open; int v = 0; } st[16]; static int nst = 0;
struct MP { int st = -1, fut = -1; } mp[2];   // the undecided state of a promise and its untaken future
static int mf[2] = { -1, -1 };
static void drop(MP & m) { if (m.st >= 0) st[m.st].w = Broken; m = MP(); }
static MP fresh() { vp_assert(nst < 16); MP m; m.st = m.fut = nst++; return m; }
static void take(F & f, int s) { // consumes a ready future
    int const held = live; (void) held;
    try {
#if VT == 2
        f.takeValue(); vp_check(st[s].w == Value, "a value exactly when one was set");
#else
        Val const x(f.takeValue()); vp_check(st[s].w == Value && x.v == st[s].v, "the value that was set");
#endif
    } catch (Bang const & b) { vp_check(st[s].w == Exc && b.v == st[s].v, "the exception that was set"); }
    catch (sharemind::BrokenPromiseException const &) { vp_check(st[s].w == Broken, "broken exactly when undecided"); }
    catch (...) { vp_fail("no other outcome"); }
    vp_check(!f.isValid(), "taken once");
}
int main() {
    vp_leak_mark();
    {
        std::unique_ptr<P> p[2] = { std::make_unique<P>(), std::make_unique<P>() }; F f[2];
        mp[0] = fresh(); mp[1] = fresh();
        auto const same = [&] {
            for (int i = 0; i < 2; ++i) {
                if (p[i]) { vp_check(p[i]->isValid() == (mp[i].st >= 0), "a promise is valid until decided"); vp_check(p[i]->hasFuture() == (mp[i].fut >= 0), "the future can be taken once"); }
                vp_check(f[i].isValid() == (mf[i] >= 0), "a future is valid while it refers to an outcome");
                if (mf[i] >= 0) { bool const r = st[mf[i]].w != Open; vp_check(f[i].isReady() == r, "ready exactly when decided"); vp_check(f[i].waitFor(std::chrono::seconds(0)) == r, "a timed wait tells"); if (r) f[i].wait(); }
            }
        };
        for (int k = 0; k < VK; ++k) {
            int const i = vp_choose(2, "promise"); std::unique_ptr<P> & a = p[i]; MP & m = mp[i];
            switch (vp_choose(11, "operation")) {
            case 0: if (a && vp_choose(2, "assign")) *a = P(); else a = std::make_unique<P>(); drop(m); m = fresh(); break;
            case 1: { vp_assume(a && m.fut >= 0); int const j = vp_choose(2, "future"); f[j] = a->takeFuture(); mf[j] = m.fut; m.fut = -1; break; }
            case 2: { int const j = vp_choose(2, "from"); vp_assume(a && p[j]); P & from = *p[j]; *a = std::move(from); if (j != i) { drop(m); m = mp[j]; mp[j] = MP(); } break; }
            case 3: { vp_assume(a && p[1 - i]); if (vp_choose(2, "std")) std::swap(*a, *p[1 - i]); else a->swap(*p[1 - i]); std::swap(mp[0], mp[1]); break; }
            case 4: { vp_assume(bool(a)); P b(std::move(*a)); vp_check(!a->isValid() && !a->hasFuture(), "moved away"); if (vp_choose(2, "drop")) drop(m); else *a = std::move(b); break; }
            case 5: { // fulfil
                vp_assume(a && m.st >= 0); int const x = vp_any<int>("value"); vp_assume(x >= 0);
#if VT == 2
                if (vp_choose(2, "name")) a->setValue(); else a->setReady(); st[m.st].w = Value; m.st = -1;
#else
                int const how = vp_choose(3, "way"); int const bang = vp_choose(2, "throws");
                try {
                    switch (how) {
                    case 0: boom = bang; a->emplaceValue(x); break;
# if VT == 1
                    case 1: { Val const v(x); boom = bang; a->setValue(v); break; }
                    default: { Val v(x); boom = bang; a->setValue(std::move(v)); }
# else
                    default: { Val v(x); vp_assume(!bang); a->setValue(std::move(v)); vp_check(v.v == -1, "moved"); }
# endif
                    }
                    vp_check(!bang, "the exception of the constructor is seen"); st[m.st].w = Value; st[m.st].v = x; m.st = -1;
                } catch (Bang const & b) { vp_check(bang && b.v == 77, "the exception of the constructor"); if (!a->isValid()) { st[m.st].w = Exc; st[m.st].v = 77; m.st = -1; } }
                boom = 0;
#endif
                break;
            }
            case 6: { vp_assume(a && m.st >= 0); int const x = vp_any<int>("exception"); if (vp_choose(2, "pointer")) a->setException(std::make_exception_ptr(Bang{x})); else { Bang b{x}; a->setException(b); vp_check(b.v == x, "kept"); } st[m.st].w = Exc; st[m.st].v = x; m.st = -1; break; }
            case 7: vp_assume(a && m.st >= 0); a->abandon(); st[m.st].w = Broken; m.st = -1; break;
            case 8: a.reset(); drop(m); break;
            case 9: { // futures among themselves
                int const how = vp_choose(4, "future operation");
                if (how == 0) { f[i] = std::move(f[1 - i]); mf[i] = mf[1 - i]; mf[1 - i] = -1; }
                else if (how == 1) { if (vp_choose(2, "std")) std::swap(f[0], f[1]); else f[0].swap(f[1]); std::swap(mf[0], mf[1]); }
                else if (how == 2) { F g(std::move(f[i])); vp_check(!f[i].isValid(), "moved away"); f[i] = std::move(g); }
                else { f[i] = F(); mf[i] = -1; }
                break;
            }
            default: { vp_assume(mf[i] >= 0 && st[mf[i]].w != Open); take(f[i], mf[i]); mf[i] = -1; }
            }
            same();
        }
        for (int i = 0; i < 2; ++i) { p[i].reset(); drop(mp[i]); }
        for (int i = 0; i < 2; ++i) if (mf[i] >= 0) take(f[i], mf[i]);
        vp_check(live == 0, "every value is destroyed");
    }
    vp_leak_check();
}
