// applyTuples and null-free tuples pass on every element itself, once, in order.
//VP name=apply tier=both flags="-DVM=1" shim=1 desc="one to three tuples of one to four elements, lvalues, const lvalues and rvalues, all values"
//VP name=nonull tier=both flags="-DVM=2" shim=1 desc="up to five arguments with null pointers in every set of three positions, all values"
//VP name=value tier=both flags="-DVM=3" shim=1 desc="rvalue tuples of owning pointers taken by value, all values"
#include <vp.h>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <tuple>
#include <utility>
#include <sharemind/ApplyTuples.h>
#include <sharemind/NoNullTuple.h>
static int copies, moves;
struct Tr {
    int v; Tr(int x) : v(x) {}
    Tr(Tr const & o) : v(o.v) { ++copies; }
    Tr(Tr && o) : v(o.v) { o.v = -1; ++moves; }
    Tr & operator=(Tr const &) = delete;
};
enum Kind { L, CL, R };
struct Seen { Kind k; void const * p; };
static Seen seen[12]; static int nSeen;
template <class T> static Kind kindOf() { return std::is_rvalue_reference<T>::value || !std::is_reference<T>::value ? R : std::is_const<typename std::remove_reference<T>::type>::value ? CL : L; }
struct F {
    int id = 0;
    template <class ... A> int operator()(A && ... a) & { return run(0, std::forward<A>(a)...); }
    template <class ... A> int operator()(A && ... a) && { return run(1, std::forward<A>(a)...); }
    template <class ... A> int run(int const r, A && ... a) { int const d[] = {(seen[nSeen].k = kindOf<A &&>(), seen[nSeen++].p = &a, 0)...}; (void) d; return id * 2 + r; }
};
static void at(int & i, Kind const k, void const * const p) { vp_check(i < nSeen && seen[i].p == p, "the element itself, in order"); vp_check(seen[i].k == k, "with its value category"); ++i; }
int main() {
    vp_leak_mark();
#if VM == 1
    int const v = vp_any<int>("v"), w = vp_any<int>("w"); F f; f.id = vp_range<int>("id", 0, 1000);
    std::tuple<Tr, int> a(v, w); std::tuple<Tr> const b(w); std::tuple<int, Tr, int, Tr> c(1, v, 2, w); int x = v; std::tuple<int &, Tr const &> d(x, std::get<0>(a));
    copies = moves = 0; int i = 0;
    switch (vp_choose(10, "shape")) {
    case 0: vp_check(sharemind::applyTuples(f, a) == f.id * 2, "result, by reference"); at(i, L, &std::get<0>(a)); at(i, L, &std::get<1>(a)); break;
    case 1: vp_check(sharemind::applyTuples(std::move(f), std::move(a)) == f.id * 2 + 1, "result, of the moved function"); at(i, R, &std::get<0>(a)); at(i, R, &std::get<1>(a)); break;
    case 2: sharemind::applyTuples(f, b); at(i, CL, &std::get<0>(b)); break;
    case 3: sharemind::applyTuples(f, a, b, c); at(i, L, &std::get<0>(a)); at(i, L, &std::get<1>(a)); at(i, CL, &std::get<0>(b)); at(i, L, &std::get<0>(c)); at(i, L, &std::get<1>(c)); at(i, L, &std::get<2>(c)); at(i, L, &std::get<3>(c)); break;
    case 4: sharemind::applyTuples(f, b, std::move(c)); at(i, CL, &std::get<0>(b)); at(i, R, &std::get<0>(c)); at(i, R, &std::get<1>(c)); at(i, R, &std::get<2>(c)); at(i, R, &std::get<3>(c)); break;
    case 5: sharemind::applyTuples(f, std::move(c), a); at(i, R, &std::get<0>(c)); at(i, R, &std::get<1>(c)); at(i, R, &std::get<2>(c)); at(i, R, &std::get<3>(c)); at(i, L, &std::get<0>(a)); at(i, L, &std::get<1>(a)); break;
    case 6: sharemind::applyTuples(f, d, b); at(i, L, &x); at(i, CL, &std::get<0>(a)); at(i, CL, &std::get<0>(b)); break;
    case 7: sharemind::applyTuples(f, std::move(d)); at(i, L, &x); at(i, CL, &std::get<0>(a)); break;
    case 8: sharemind::applyTuples(f, b, a, b); at(i, CL, &std::get<0>(b)); at(i, L, &std::get<0>(a)); at(i, L, &std::get<1>(a)); at(i, CL, &std::get<0>(b)); break;
    default: { std::pair<int, Tr> pr(v, w); copies = moves = 0; sharemind::applyTuples(f, pr, std::pair<int, int>(v, w), a);
        at(i, L, &pr.first); at(i, L, &pr.second); vp_check(seen[2].k == R && seen[3].k == R, "temporary"); i = 4; at(i, L, &std::get<0>(a)); at(i, L, &std::get<1>(a)); break; }
    }
    vp_check(i == nSeen, "nothing else"); if (i) vp_check(copies == 0 && moves == 0, "nothing is copied or moved");
#elif VM == 3 // by value: moved out of the given tuple, once each
    int const v = vp_any<int>("v"), w = vp_any<int>("w");
        std::tuple<std::unique_ptr<int>, std::unique_ptr<int> > u(std::make_unique<int>(v), std::make_unique<int>(w));
        long const s = sharemind::applyTuples([](std::unique_ptr<int> p, std::unique_ptr<int> q) { return static_cast<long>(*p) - *q; }, std::move(u));
        vp_check(s == static_cast<long>(v) - w && !std::get<0>(u) && !std::get<1>(u), "moved out");
#else
    int v[5]; for (int & x : v) x = vp_any<int>("v");
    Tr const e(v[3]); int r = v[4]; auto const p = nullptr;
    switch (vp_choose(9, "shape")) {
    case 0: { auto const t = sharemind::makeNoNullTuple(v[0], v[1], v[2]); static_assert(std::is_same<decltype(t), std::tuple<int, int, int> const>::value, "");
        vp_check(std::get<0>(t) == v[0] && std::get<1>(t) == v[1] && std::get<2>(t) == v[2], "all there"); break; }
    case 1: { auto const t = sharemind::makeNoNullTuple(nullptr, v[1], nullptr, v[2], p); static_assert(std::is_same<decltype(t), std::tuple<int, int> const>::value, "");
        vp_check(std::get<0>(t) == v[1] && std::get<1>(t) == v[2], "the others in order");
        using O = std::tuple<std::nullptr_t, int, std::nullptr_t, int, std::nullptr_t>;
        vp_check((sharemind::noNullGet<1u, O>(t)) == v[1] && (sharemind::noNullGet<3u, O>(t)) == v[2], "by the original position"); break; }
    case 2: { auto const t = sharemind::makeNoNullTuple(v[0], nullptr, v[1], p); vp_check(std::get<0>(t) == v[0] && std::get<1>(t) == v[1], "the others in order");
        using O = std::tuple<int, std::nullptr_t, int, std::nullptr_t>; vp_check((sharemind::noNullGet<0u, O>(t)) == v[0] && (sharemind::noNullGet<2u, O>(t)) == v[1], "by the original position"); break; }
    case 3: { auto t = sharemind::makeNoNullTuple(std::make_unique<int>(v[0]), nullptr, std::ref(r), e);
        static_assert(std::is_same<decltype(t), std::tuple<std::unique_ptr<int>, int &, Tr> >::value, "");
        vp_check(*std::get<0>(t) == v[0] && &std::get<1>(t) == &r && std::get<2>(t).v == v[3] && e.v == v[3], "moved, referred to and copied"); vp_check(copies == 1, "copied once");
        using O = std::tuple<std::unique_ptr<int>, std::nullptr_t, int &, Tr>; vp_check((sharemind::noNullGet<2u, O>(t)) == v[4] && (sharemind::noNullGet<3u, O>(t)).v == v[3], "by the original position"); break; }
    case 4: { auto const t = sharemind::makeNoNullTuple(nullptr, nullptr); static_assert(std::tuple_size<decltype(t)>::value == 0u, ""); (void) t; break; }
    case 5: { int * const q = v[0] > 0 ? &r : nullptr; auto const t = sharemind::makeNoNullTuple(q, p, v[1]); static_assert(std::is_same<decltype(t), std::tuple<int *, int> const>::value, "");
        vp_check(std::get<0>(t) == q && std::get<1>(t) == v[1], "a pointer that happens to be null is kept"); break; }
    case 6: { Tr m(v[0]); auto const t = sharemind::makeNoNullTuple(std::move(m), v[1], nullptr, m.v); vp_check(std::get<0>(t).v == v[0] && std::get<1>(t) == v[1] && m.v == -1, "moved"); vp_check(copies == 0, "not copied"); break; }
    case 7: { auto const t = sharemind::makeNoNullTuple(v[0], v[1], v[2], v[3], v[4]); using O = std::tuple<int, int, int, int, int>;
        vp_check((sharemind::noNullGet<0u, O>(t)) == v[0] && (sharemind::noNullGet<1u, O>(t)) == v[1] && (sharemind::noNullGet<4u, O>(t)) == v[4], "by position"); break; }
    default: { char const s[] = "ab"; auto const t = sharemind::makeNoNullTuple(nullptr, s, nullptr, nullptr, v[0]); static_assert(std::is_same<decltype(t), std::tuple<char const *, int> const>::value, "");
        vp_check(std::get<0>(t) == s && std::get<1>(t) == v[0], "the others in order"); using O = std::tuple<std::nullptr_t, char const *, std::nullptr_t, std::nullptr_t, int>;
        vp_check((sharemind::noNullGet<4u, O>(t)) == v[0], "by the original position"); break; }
    }
#endif
    vp_leak_check();
}
