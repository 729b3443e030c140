// Scope guards: every way of leaving a scope.
//VP name=exits tier=both flags="-DVM=1" desc="up to three guards in nested scopes, left by falling through, return, break, goto, continue or an exception at every point"
//VP name=kinds tier=both flags="-DVM=2" desc="every way to make a guard, moved and (where allowed) copied"
//VP name=throws tier=both flags="-DVM=3" desc="actions that throw, in any of two guards"
//VP name=oom tier=both flags="-DVM=4" desc="memory exhausted at any allocation"
#include <vp.h>
#include <functional>
#include <new>
#include <type_traits>
#include <utility>
#include <sharemind/ScopeExit.h>
using sharemind::ScopeExit;
struct Ex { int v; };
static int ran[4], order[8], nOrder = 0, scope = 0;
static void act(int i) { ++ran[i]; order[nOrder++] = i; }
static void left(int i) { vp_check(ran[i] == 1, "ran when its scope was left"); }
static void step(int p, int at) { if (p == at) throw Ex{at}; }
#if VM == 1
static int body(int how, int at) {
    for (int k = 0; k < 2; ++k) {
        int const before = ran[0];
        { SHAREMIND_SCOPE_EXIT(act(0)); step(0, at); vp_check(ran[0] == before, "not before the scope is left"); if (how == 1 && k == 0) { continue; } if (how == 2) break; if (how == 3) return 3; if (how == 4) goto out; }
        vp_check(ran[0] == before + 1, "ran when its scope was left");
    }
    {
        int x = 1; (void) x; ScopeExit const g1{[&] { act(1); }};
        step(1, at);
        { SHAREMIND_SCOPE_EXIT(act(2)); step(2, at); vp_check(ran[2] == 0 && ran[1] == 0, "not before"); if (how == 5) return 5; }
        left(2); step(3, at); vp_check(ran[1] == 0, "not before");
        if (how == 6) goto out;
    }
    left(1);
out: return how;
}
int main() {
    vp_leak_mark(); int const how = vp_choose(7, "way out"), at = int(vp_choose(5, "throws at")) - 1; bool thrown = false; int r = -1;
    try { r = body(how, at); } catch (Ex const & e) { thrown = true; vp_check(e.v == at, "the exception arrives"); }
    if (at == 0) vp_check(thrown && ran[0] == 1 && !ran[1] && !ran[2], "thrown in the first");
    else {
        int const loops = how == 2 || how == 3 || how == 4 ? 1 : 2; vp_check(ran[0] == loops, "once per scope"); bool const second = how != 3 && how != 4; int const before = !second ? -1 : at;
        if (!second) vp_check(!thrown && ran[1] == 0 && ran[2] == 0 && r == how, "left early");
        else { vp_check(ran[1] == 1, "once"); vp_check(ran[2] == (before == 1 ? 0 : 1), "once"); if (ran[2]) vp_check(order[nOrder - 1] == 1 && order[nOrder - 2] == 2, "the inner one first"); bool const exp = at == 1 || at == 2 || (at == 3 && how != 5); vp_check(thrown == exp, "the exception arrives"); }
    }
    vp_leak_check();
}
#elif VM == 2
static void f0() { act(0); }
static void f1(int i) { act(i); }
template <bool B> struct Copy { template <typename G> static void go(G const & g) { G const h(g); (void) h; } };
template <> struct Copy<false> { template <typename G> static void go(G const &) {} };
int main() {
    vp_leak_mark();
    {
        int big[10] = {}; std::function<void()> const sf([] { act(0); }); auto l = [big] { (void) big; act(0); }; auto const cl = [] { act(0); };
        switch (vp_choose(8, "made from")) {
        case 0: { ScopeExit const g{f0}; vp_check(!ran[0], "not before"); } break;
        case 1: { ScopeExit const g{sf}; vp_check(!ran[0], "not before"); } break;
        case 2: { ScopeExit const g{l}; vp_check(!ran[0], "not before"); } break;
        case 3: { ScopeExit const g{cl}; vp_check(!ran[0], "not before"); } break;
        case 4: { ScopeExit const g{std::bind(&f1, 0)}; vp_check(!ran[0], "not before"); } break;
        case 5: { ScopeExit const g{[big] { (void) big; act(0); }}; vp_check(!ran[0], "not before"); Copy<std::is_constructible<ScopeExit, ScopeExit const &>::value>::go(g); } break;
        case 6: { int i = 0; SHAREMIND_SCOPE_EXIT(act(i)); i = 1; vp_check(!ran[0] && !ran[1], "not before"); } break;
        default: { ScopeExit a{[big] { (void) big; act(0); }}; ScopeExit const b{std::move(a)}; vp_check(!ran[0], "not before"); } break;
        }
        vp_check(ran[0] == 1 && ran[1] == 0, "exactly once"); 
    }
    vp_leak_check();
}
#elif VM == 3
int main() {
    vp_leak_mark(); int const which = vp_choose(3, "throwing"); bool thrown = false;
    try { ScopeExit const a{[&] { act(0); if (which == 0) throw Ex{0}; }}; { ScopeExit const b{[&] { act(1); if (which == 1) throw Ex{1}; }}; vp_check(!ran[0] && !ran[1], "not before"); } vp_check(which != 1, "not reached"); }
    catch (Ex const & e) { thrown = true; vp_check(e.v == which, "its exception"); }
    vp_check(thrown == (which < 2) && ran[0] == 1 && ran[1] == 1, "each exactly once"); vp_leak_check();
}
#else
int main() {
    vp_leak_mark(); vp_alloc_may_fail(1); int big[10] = {}; bool made0 = false, made1 = false, oom = false;
    try { ScopeExit const a{[big] { (void) big; act(0); }}; made0 = true; { SHAREMIND_SCOPE_EXIT((void) big; act(1)); made1 = true; } vp_check(ran[1] == 1, "ran"); }
    catch (std::bad_alloc const &) { oom = true; }
    vp_check(ran[0] == int(made0) && ran[1] == int(made1) && (oom || (made0 && made1)), "a guard that was made runs exactly once"); vp_leak_check();
}
#endif
