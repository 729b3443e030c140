// Ranges of every kind, all contents and lengths.
//VP name=equal tier=both flags="-DVM=1 -DVN=4" shim=1 desc="all pairs of kinds (sized, random access, bounded, with a sentinel, array, vector, list, forward list), all contents and lengths up to four"
//VP name=equal7 tier=thorough flags="-DVM=1 -DVN=7" shim=1 desc="all pairs of kinds, all contents and lengths up to seven"
//VP name=size tier=both flags="-DVM=2 -DVN=5" shim=1 desc="size, measureRange, literal ranges and reversed ranges of every kind up to five elements"
#include <vp.h>
#include <array>
#include <cstddef>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <vector>
#include <sharemind/ReversedRange.h>
#include <sharemind/Range.h>
#include <sharemind/ReversionWrapper.h>
#include <sharemind/Size.h>
using V = unsigned char;
template <class Cat> struct It { using iterator_category = Cat; using value_type = V; using difference_type = std::ptrdiff_t; using pointer = V const *; using reference = V const &; V const * p; V const * e;
    reference operator*() const { vp_check(p < e, "never reads past the end"); return *p; } pointer operator->() const { return &**this; } It & operator++() { vp_check(p < e, "never steps past the end"); ++p; return *this; } It operator++(int) { It r(*this); ++*this; return r; } It & operator--() { --p; return *this; } It operator--(int) { It r(*this); --*this; return r; }
    It & operator+=(difference_type n) { p += n; return *this; } It & operator-=(difference_type n) { p -= n; return *this; } reference operator[](difference_type n) const { vp_check(p + n < e, "never reads past the end"); return p[n]; }
    friend It operator+(It a, difference_type n) { return a += n; } friend It operator+(difference_type n, It a) { return a += n; } friend It operator-(It a, difference_type n) { return a -= n; } friend difference_type operator-(It const & a, It const & b) { return a.p - b.p; }
    friend bool operator==(It const & a, It const & b) { return a.p == b.p; } friend bool operator!=(It const & a, It const & b) { return a.p != b.p; } friend bool operator<(It const & a, It const & b) { return a.p < b.p; } friend bool operator>(It const & a, It const & b) { return a.p > b.p; } friend bool operator<=(It const & a, It const & b) { return a.p <= b.p; } friend bool operator>=(It const & a, It const & b) { return a.p >= b.p; } };
struct Sent { template <class C> friend bool operator==(It<C> const & a, Sent const &) { return a.p == a.e; } template <class C> friend bool operator!=(It<C> const & a, Sent const &) { return a.p != a.e; } template <class C> friend bool operator==(Sent const &, It<C> const & a) { return a.p == a.e; } template <class C> friend bool operator!=(Sent const &, It<C> const & a) { return a.p != a.e; } };
struct Data { V d[VN + 1]; int n; };
template <class C> struct B { Data const & d; It<C> begin() const { return {d.d, d.d + d.n}; } It<C> end() const { return {d.d + d.n, d.d + d.n}; } }; // bounded, or with random access measurable
template <class C> struct S { Data const & d; It<C> begin() const { return {d.d, d.d + d.n}; } Sent end() const { return {}; } }; // with a sentinel
struct Z: B<std::forward_iterator_tag> { Z(Data const & x) : B<std::forward_iterator_tag>{x} {} std::size_t size() const { return std::size_t(d.n); } };
struct ZI: S<std::input_iterator_tag> { ZI(Data const & x) : S<std::input_iterator_tag>{x} {} int size() const { return d.n; } };
static Data any(char const * n) { Data r; r.n = vp_choose(VN + 1, n); for (int i = 0; i < r.n; ++i) r.d[i] = vp_any<V>("element"); return r; }
static bool eq(Data const & a, Data const & b) { if (a.n != b.n) return false; for (int i = 0; i < a.n; ++i) if (a.d[i] != b.d[i]) return false; return true; }
template <class F> static void with(int kind, Data const & d, F f) {
    switch (kind) {
    case 0: f(B<std::forward_iterator_tag>{d}); break; case 1: f(B<std::random_access_iterator_tag>{d}); break; case 2: f(S<std::input_iterator_tag>{d}); break; case 3: f(S<std::random_access_iterator_tag>{d}); break;
    case 4: f(Z(d)); break; case 5: f(ZI(d)); break; case 6: f(std::vector<V>(d.d, d.d + d.n)); break; case 7: f(std::list<V>(d.d, d.d + d.n)); break; default: f(std::forward_list<V>(d.d, d.d + d.n)); break; }
}
enum { KINDS = 9 };
int main() {
    vp_leak_mark();
#if VM == 1
    { Data const a = any("first length"), b = any("second length"); bool const same = eq(a, b); int const ka = vp_choose(KINDS, "first kind"), kb = vp_choose(KINDS, "second kind"); with(ka, a, [&](auto const & x) { with(kb, b, [&](auto const & y) { vp_check(sharemind::rangeEqual(x, y) == same, "equal exactly when the elements are"); }); });
      { V p[2] = {vp_any<V>("p"), vp_any<V>("p")}; Data d; d.n = 2; d.d[0] = p[0]; d.d[1] = p[1]; bool const e = eq(d, a); with(ka, a, [&](auto const & x) { vp_check(sharemind::rangeEqual(x, p) == e && sharemind::rangeEqual(p, x) == e, "arrays"); }); } }
#else
    { Data const a = any("length"); std::size_t const n = std::size_t(a.n);
      vp_check(sharemind::size(Z(a)) == n && sharemind::measureRange(Z(a)) == n && std::size_t(sharemind::measureRange(ZI(a))) == n && std::size_t(sharemind::measureRange(B<std::random_access_iterator_tag>{a})) == n, "size"); std::vector<V> v(a.d, a.d + a.n); std::list<V> l(v.begin(), v.end()); vp_check(sharemind::size(v) == n && sharemind::measureRange(v) == n && sharemind::size(l) == n && sharemind::measureRange(l) == n, "size of containers"); int arr[7] = {}; vp_check(sharemind::size(arr) == 7 && sharemind::measureRange(arr) == 7, "size of an array");
      auto lit = sharemind::asLiteralStringRange("a\0bc"); vp_check(lit.size() == 4 && sharemind::measureRange(lit) == 4 && lit.end() - lit.begin() == 4 && lit.begin()[2] == 'b' && sharemind::rangeEqual(lit, std::vector<char>{'a', '\0', 'b', 'c'}), "a literal without its terminator");
      Data r; r.n = a.n; for (int i = 0; i < a.n; ++i) r.d[i] = a.d[a.n - 1 - i];
      { auto w = sharemind::reverseRange(v); vp_check(w.size() == n && sharemind::rangeEqual(w, B<std::forward_iterator_tag>{r}) && sharemind::rangeEqual(Z(r), w), "reversed vector"); auto const & cw = w; vp_check(sharemind::rangeEqual(cw, Z(r)), "a constant reversed range"); int k = 0; for (V & x : w) { vp_check(x == r.d[k], "reversed elements"); x = V(k++); } for (int i = 0; i < a.n; ++i) vp_check(v[i] == a.n - 1 - i, "elements may be assigned"); }
      { std::vector<V> const cv(a.d, a.d + a.n); auto w = sharemind::reverseRange(cv); vp_check(w.size() == n && sharemind::rangeEqual(w, Z(r)), "reversed constant vector"); auto wl = sharemind::reverseRange(l); vp_check(wl.size() == n && sharemind::rangeEqual(wl, Z(r)), "reversed list"); B<std::random_access_iterator_tag> b{a}; (void) b; }
      { V q[3] = {vp_any<V>("q"), vp_any<V>("q"), vp_any<V>("q")}; Data d; d.n = 3; for (int i = 0; i < 3; ++i) d.d[i] = q[2 - i]; auto w = sharemind::reverseRange(q); int k = 0; for (V x : w) vp_check(x == d.d[k++], "reversed array"); vp_check(k == 3, "reversed array"); vp_check(sharemind::rangeEqual(w, Z(d)), "reversed array"); }
      { auto w = sharemind::makeReversionWrapper(l); int k = 0; for (V & x : w) { vp_check(k < a.n && x == r.d[k], "reversion wrapper"); ++k; } vp_check(k == a.n, "reversion wrapper"); } }
#endif
    vp_leak_check();
}
