// Comparisons and the other queries, for every value and every state.
//VP name=cmp tier=both shim=1 desc="every pair of states and values of optionals of int, optionals of long, empty markers and plain values"
//VP name=make tier=both flags="-DVMAKE" shim=1 desc="every way to construct an optional and to read it"
#include <vp.h>
#include <initializer_list>
#include <utility>
#include <sharemind/Optional.h>
using sharemind::Optional; using sharemind::nullOption; using sharemind::inPlace;
#ifndef VMAKE
template <class A, class B> static void check(A const & a, B const & b, bool ha, long x, bool hb, long y) {
    bool const eq = ha == hb && (!ha || x == y), lt = hb && (!ha || x < y);
    vp_check((a == b) == eq && (b == a) == eq && (a != b) == !eq && (b != a) == !eq, "equality"); vp_check((a < b) == lt && (b > a) == lt && (a <= b) == (lt || eq) && (b >= a) == (lt || eq), "order"); vp_check((a >= b) == !lt && (b <= a) == !lt && (a > b) == !(lt || eq) && (b < a) == !(lt || eq), "order");
}
VP_NOOPT int main() {
    bool const ha = vp_choose(2, "first"), hb = vp_choose(2, "second"); int const x = vp_any<int>("x"), y = vp_any<int>("y"); Optional<int> a, b; Optional<long> c; if (ha) a.emplace(x); if (hb) { b.emplace(y); c.emplace(y); }
    check(a, b, ha, x, hb, y); check(a, c, ha, x, hb, y); check(a, nullOption, ha, x, false, 0); check(a, y, ha, x, true, y); check(a, long(y), ha, x, true, y); check(c, x, hb, y, true, x);
}
#else
struct P { int a, b; P(int x, int y) : a(x), b(y) {} P(std::initializer_list<int> l, int y) : a(*l.begin()), b(y) {} ~P() {} };
static int made = 0; struct E { int v; explicit E(int i) : v(i) { ++made; } E(E const & o) : v(o.v) { ++made; } ~E() { --made; } };
VP_NOOPT int main() {
    vp_leak_mark(); int const x = vp_any<int>("x"), y = vp_any<int>("y");
    {
        Optional<int> e; vp_check(!e && !e.hasValue(), "empty by default"); Optional<int> n(nullOption); vp_check(!n, "made empty"); Optional<int> const v(x); vp_check(v && *v == x, "made of a value"); Optional<int> i(inPlace, x); vp_check(*i == x, "made in place");
        Optional<int> z(inPlace); vp_check(z && *z == 0, "value-initialised in place"); Optional<long> l(x); vp_check(*l == x, "of a convertible value"); Optional<int> s = x; vp_check(*s == x, "converted");
        Optional<P> p(inPlace, x, y); vp_check(p->a == x && p->b == y, "several arguments"); p.emplace({x, 1}, y); vp_check(p && p->a == x && p->b == y, "an initialiser list"); (*p).a = y; vp_check((*static_cast<Optional<P> const &>(p)).a == y, "assigned through"); 
        auto m = sharemind::makeOptional(x); vp_check(*m == x, "makeOptional"); auto q = sharemind::makeOptional<P>(x, y); vp_check(q->a == x && q->b == y, "makeOptional"); auto r = sharemind::makeOptional<P>({x}, y); vp_check(r->a == x && r->b == y, "makeOptional");
        vp_check(e.valueOr(y) == y && v.valueOr(y) == x && Optional<int>(x).valueOr(y) == x && Optional<int>().valueOr(y) == y, "valueOr"); vp_check(e.valueOrConstruct(y) == y && v.valueOrConstruct(y) == x && Optional<int>(x).valueOrConstruct(y) == x && Optional<int>().valueOrConstruct(y) == y, "valueOrConstruct");
        { Optional<E> a(inPlace, x); Optional<E> b(a); E const f(*std::move(a)); vp_check(f.v == x && b->v == x && made == 3, "counted"); a = nullOption; vp_check(made == 2, "destroyed"); } vp_check(made == 0, "all destroyed");
        int const & cr = *static_cast<Optional<int> const &&>(v); vp_check(cr == x, "const rvalue");
    }
    vp_leak_check();
}
#endif
