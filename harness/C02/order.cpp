// Ordering of string views against the lexicographic order of the characters.
//VP name=order tier=both flags="-DVA=4 -DVB=3" desc="views of 0..4 against strings of 0..3 arbitrary bytes, every position and count"
//VP name=order+ tier=thorough flags="-DVA=6 -DVB=6" desc="views of 0..6 against strings of 0..6 arbitrary bytes, every position and count"
//VP name=order16 tier=thorough flags="-DVA=4 -DVB=3 -DVC=char16_t" desc="char16_t"
#include <vp.h>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <sharemind/StringView.h>
#ifndef VC
#define VC char
#endif
using C = VC;
using SV = sharemind::BasicStringView<C>;
static int sgn(int v) { return (v > 0) - (v < 0); }
template <class T> struct Un { using type = typename std::make_unsigned<T>::type; };
template <> struct Un<char16_t> { using type = char16_t; };
static int lex(C const * a, size_t na, C const * b, size_t nb) {
    using U = typename Un<C>::type; size_t m = na < nb ? na : nb; int r = na < nb ? -1 : na > nb;
    for (size_t i = m; i--;) { U x = static_cast<U>(a[i]), y = static_cast<U>(b[i]); r = x < y ? -1 : x > y ? 1 : r; }
    return r;
}
int main() {
    size_t na = vp_choose(VA + 1, "left length"), nb = vp_choose(VB + 1, "right length"), part = vp_choose(10, "operation");
    bool const cstr = part == 2 || part == 4 || part == 7 || part == 8;
    C * a = new C[na]; C * b = new C[nb + cstr];
    for (size_t i = 0; i < na; ++i) a[i] = vp_any<C>("left");
    for (size_t i = 0; i < nb; ++i) b[i] = vp_any<C>("right");
    if (cstr) { for (size_t i = 0; i < nb; ++i) vp_assume(b[i] != C()); b[nb] = C(); }
    C const * const s = b;
    SV const v(a, na), w(b, nb);
    int const e = lex(a, na, b, nb);
    size_t p = vp_any<size_t>("position"), q = vp_any<size_t>("count"), p2 = vp_any<size_t>("position 2"), q2 = vp_any<size_t>("count 2");
    bool thrown = false; int r = 0;
    auto sub = [](size_t p_, size_t q_, size_t n_) { return q_ < n_ - p_ ? q_ : n_ - p_; };
    switch (part) {
    case 0: vp_check(sgn(v.compare(w)) == e, "compare view"); break;
    case 1: vp_check(sgn(v.compare(s, nb)) == e, "compare pointer and length"); break;
    case 2: vp_check(sgn(v.compare(s)) == e, "compare C string"); break;
    case 3: case 4: case 5:
        try { r = part == 3 ? v.compare(p, q, w) : part == 4 ? v.compare(p, q, s) : v.compare(p, q, s, nb); } catch (std::out_of_range const &) { thrown = true; }
        vp_check(thrown == (p > na), "partial compare throws");
        if (!thrown) { p = vp_concretize(p); size_t l = vp_concretize(sub(p, q, na)); vp_check(sgn(r) == lex(a + p, l, b, nb), "partial compare"); }
        break;
    case 6:
        try { r = v.compare(p, q, w, p2, q2); } catch (std::out_of_range const &) { thrown = true; }
        vp_check(thrown == ((p > na) | (p2 > nb)), "double partial compare throws");
        if (!thrown) { p = vp_concretize(p); size_t l = vp_concretize(sub(p, q, na)); p2 = vp_concretize(p2); size_t l2 = vp_concretize(sub(p2, q2, nb)); vp_check(sgn(r) == lex(a + p, l, b + p2, l2), "double partial compare"); }
        break;
    case 7: case 8: {
        bool pre = nb <= na, suf = nb <= na;
        for (size_t i = 0; i < nb && nb <= na; ++i) { pre &= a[i] == b[i]; suf &= a[na - nb + i] == b[i]; }
        if (part == 7) { vp_check(v.startsWith(w) == pre, "startsWith view"); vp_check(v.startsWith(s, nb) == pre, "startsWith pointer and length"); vp_check(v.startsWith(s) == pre, "startsWith C string");
            if (nb) vp_check(v.startsWith(b[0]) == (na > 0 && a[0] == b[0]), "startsWith character"); vp_cover(pre, "prefix"); vp_cover(!pre, "no prefix"); }
        else { vp_check(v.endsWith(w) == suf, "endsWith view"); vp_check(v.endsWith(s, nb) == suf, "endsWith pointer and length"); vp_check(v.endsWith(s) == suf, "endsWith C string");
            if (nb) vp_check(v.endsWith(b[0]) == (na > 0 && a[na - 1] == b[0]), "endsWith character"); vp_cover(suf, "suffix"); vp_cover(!suf, "no suffix"); }
        break;
    }
    default:
        vp_check((v == w) == (e == 0), "=="); vp_check((v != w) == (e != 0), "!="); vp_check((v < w) == (e < 0), "<"); vp_check((v <= w) == (e <= 0), "<="); vp_check((v > w) == (e > 0), ">"); vp_check((v >= w) == (e >= 0), ">=");
        { std::basic_string<C> t(b, nb); vp_check((v == t) == (e == 0) && (t == v) == (e == 0), "== string"); vp_check((v < t) == (e < 0) && (t < v) == (e > 0), "< string"); vp_check((t >= v) == (e <= 0) && (v > t) == (e > 0) && (t != v) == (e != 0), "> string"); }
    }
    delete[] a; delete[] b;
}
