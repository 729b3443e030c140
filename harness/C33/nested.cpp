// Nested exceptions: every sequence of up to four exceptions, outer ones nesting the inner ones.
//VP name=chain tier=both flags="-DVM=1" desc="two or three exceptions out of five types, given as rvalues or lvalues, every payload"
//VP name=chain4 tier=both flags="-DVM=2" desc="four exceptions out of three types, every payload"
//VP name=within tier=both flags="-DVM=3" desc="one to three exceptions thrown while another one is handled, and rethrowing without any"
#include <vp.h>
#include <exception>
#include <type_traits>
#include <utility>
#include <sharemind/ThrowNested.h>
#include <sharemind/ThrowWithNested.h>
static int live = 0;
template <int K> struct X: std::exception { int v; explicit X(int i) noexcept : v(i) { ++live; } X(X const & o) noexcept : std::exception(o), v(o.v) { ++live; } ~X() noexcept override { --live; } char const * what() const noexcept override { return "x"; } };
struct Plain { int v; };                    // no base class
struct Derived: X<0> { using X<0>::X; };
struct Fin final: std::exception { int v; explicit Fin(int i) noexcept : v(i) {} }; // cannot nest
template <int N> struct Pay { int k[N]; int v[N]; };
// which type arrived, and with what
static int kindOf(std::exception_ptr const & p, int & v, std::exception_ptr & inner) {
    inner = nullptr; int k = -1;
    auto nested = [&](auto const & e) { if (auto const * n = dynamic_cast<std::nested_exception const *>(std::addressof(e))) inner = n->nested_ptr(); };
    try { std::rethrow_exception(p); }
    catch (Derived const & e) { k = 1; v = e.v; nested(e); } catch (X<0> const & e) { k = 0; v = e.v; nested(e); } catch (X<1> const & e) { k = 2; v = e.v; nested(e); } catch (Fin const & e) { k = 4; v = e.v; }
    catch (Plain const & e) { k = 3; v = e.v; try { throw; } catch (std::nested_exception const & n) { inner = n.nested_ptr(); } catch (...) {} } catch (int i) { k = 5; v = i; }
    return k;
}
static int K[4], Vv[4];
// calls f with exceptions of the kinds chosen
template <int N> struct Go {
    template <typename ... Es> static void run(int i, bool within, Es && ... es) {
        switch (K[i]) {
        case 0: { X<0> e(Vv[i]); if (i % 2) return Go<N - 1>::run(i + 1, within, std::forward<Es>(es)..., e); return Go<N - 1>::run(i + 1, within, std::forward<Es>(es)..., X<0>(Vv[i])); }
        case 1: return Go<N - 1>::run(i + 1, within, std::forward<Es>(es)..., Derived(Vv[i]));
        case 2: { X<1> const e(Vv[i]); return Go<N - 1>::run(i + 1, within, std::forward<Es>(es)..., e); }
#if VM != 2
        case 3: return Go<N - 1>::run(i + 1, within, std::forward<Es>(es)..., Plain{Vv[i]});
        case 4: { Fin e(Vv[i]); return Go<N - 1>::run(i + 1, within, std::forward<Es>(es)..., e); }
#endif
        default: vp_fail("kind");
        }
    }
};
template <> struct Go<0> { template <typename ... Es> static void run(int, bool within, Es && ... es) { if (within) sharemind::throwWithNested(std::forward<Es>(es)...); else go(std::forward<Es>(es)...); }
    static void go() { std::terminate(); } template <typename ... Es> static void go(Es && ... es) { sharemind::throwNested(std::forward<Es>(es)...); } };
static void check(std::exception_ptr p, int n, std::exception_ptr base) { // the last one is the outermost
    int v = 0; std::exception_ptr inner;
    for (int i = n; i-- > 0;) {
        vp_check(p != nullptr, "nothing is lost"); int const k = kindOf(p, v, inner); vp_check(k == K[i], "the type of the exception"); vp_check(v == Vv[i], "its contents");
        if (i == 0 && !base) { vp_check(inner == nullptr, "the innermost nests nothing"); return; }
        if (k == 4) { vp_check(inner == nullptr, "a final class cannot nest"); return; }
        p = inner;
    }
    vp_check(p == base, "the exception handled at the time is the innermost");
}
int main() {
    vp_leak_mark();
    {
        for (int i = 0; i < 4; ++i) Vv[i] = vp_any<int>("payload");
#if VM == 3
        int const n = vp_choose(3, "exceptions"); for (int i = 0; i < n; ++i) K[i] = vp_choose(i ? 3 : 5, "kind"); std::exception_ptr caught, base;
        try { try { throw 5; } catch (...) { base = std::current_exception(); switch (n) { case 0: sharemind::throwWithNested(); case 1: Go<1>::run(0, true); break; default: Go<2>::run(0, true); } } } catch (...) { caught = std::current_exception(); }
        if (n == 0) vp_check(caught == base, "rethrown"); else check(caught, n, base);
#else
        int const n = VM == 2 ? 4 : 2 + vp_choose(2, "exceptions"); for (int i = 0; i < n; ++i) K[i] = vp_choose(VM == 2 ? 3 : 5, "kind"); std::exception_ptr caught;
# if VM == 2
        try { Go<4>::run(0, false); } catch (...) { caught = std::current_exception(); }
# else
        try { if (n == 2) Go<2>::run(0, false); else Go<3>::run(0, false); } catch (...) { caught = std::current_exception(); }
# endif
        check(caught, n, nullptr);
#endif
    }
    vp_check(live == 0, "every exception object is destroyed"); vp_leak_check();
}
