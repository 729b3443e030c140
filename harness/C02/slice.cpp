// Slicing, element access and trimming of the string view, for symbolic contents and arguments.
//VP name=slice tier=both flags="-DVH=5 -DVK=2" desc="views of 0..5 arbitrary bytes, every position and count, trim sets of 0..2 arbitrary bytes"
//VP name=slice+ tier=thorough flags="-DVH=7 -DVK=3" desc="views of 0..7 arbitrary bytes, every position and count, trim sets of 0..3 arbitrary bytes"
//VP name=slice16 tier=thorough flags="-DVH=5 -DVK=2 -DVC=char16_t" desc="char16_t views of 0..5 arbitrary characters"
#include <vp.h>
#include <stdexcept>
#include <string>
#include <utility>
#include <sharemind/StringView.h>
#ifndef VC
#define VC char
#endif
using C = VC;
using SV = sharemind::BasicStringView<C>;
static size_t const npos = static_cast<size_t>(-1);
static C * h; static size_t n;
template <class F> static bool oor(F f) { try { f(); } catch (std::out_of_range const &) { return true; } return false; }
// v must be exactly the original characters [b, b+len).
static void is(SV v, size_t b, size_t len, char const *) {
    vp_check(v.size() == len && v.length() == len && v.empty() == (len == 0), "size of the result");
    if (len) { vp_check(v.data() == h + b && v.begin() == h + b && v.end() == h + b + len, "position of the result"); }
}
static void slices() {
    SV const v(h, n); size_t a = vp_any<size_t>("first argument"), b = vp_any<size_t>("second argument");
    SV r;
    switch (vp_choose(14, "slice")) {
    case 0: { bool t = oor([&] { r = v.substr(a, b); }); vp_check(t == (a > n), "substr throws"); if (!t) is(r, a, b < n - a ? b : n - a, "substr"); break; }
    case 1: { bool t = oor([&] { r = v.substr(a); }); vp_check(t == (a > n), "substr to the end throws"); if (!t) is(r, a, n - a, "substr"); break; }
    case 2: { bool t = oor([&] { r = v.left(a); }); vp_check(t == (a > n), "left throws"); if (!t) is(r, 0, a, "left"); break; }
    case 3: { bool t = oor([&] { r = v.right(a); }); vp_check(t == (a > n), "right throws"); if (!t) is(r, n - a, a, "right"); break; }
    case 4: { bool t = oor([&] { r = v.leftClipped(a); }); vp_check(t == (a > n), "leftClipped throws"); if (!t) is(r, a, n - a, "leftClipped"); break; }
    case 5: { bool t = oor([&] { r = v.rightClipped(a); }); vp_check(t == (a > n), "rightClipped throws"); if (!t) is(r, 0, n - a, "rightClipped"); break; }
    case 6: { bool t = oor([&] { r = v.clipped(a, b); }); vp_check(t == (static_cast<unsigned __int128>(a) + b > n), "clipped throws"); if (!t) is(r, a, n - a - b, "clipped"); break; }
    case 7: { C const * p = nullptr; bool t = oor([&] { p = &v.at(a); }); vp_check(t == (a >= n), "at throws"); if (!t) vp_check(p == h + a && &v[a] == p, "at"); break; }
    case 8: { vp_assume(a <= n); r = v; r.removePrefix(a); is(r, a, n - a, "removePrefix"); break; }
    case 9: { vp_assume(a <= n); r = v; r.removeSuffix(a); is(r, 0, n - a, "removeSuffix"); break; }
    case 10: {
        C buf[VH + 2]; for (auto & c : buf) c = C(1);
        C old[VH + 2]; for (size_t i = 0; i < VH + 2; ++i) old[i] = buf[i] = vp_any<C>("destination");
        size_t got = 0; bool t = oor([&] { got = v.copy(buf, a, b); });
        vp_check(t == (b > n), "copy throws");
        size_t e = t ? 0 : (a < n - b ? a : n - b);
        if (!t) vp_check(got == e, "copy count");
        e = vp_concretize(e); size_t p = t ? 0 : vp_concretize(b);
        for (size_t i = 0; i < VH + 2; ++i) vp_check(buf[i] == (i < e ? h[p + i] : old[i]), "copied characters");
        break;
    }
    case 11: {
        if (n) vp_check(&v.front() == h && &v.back() == h + n - 1, "front and back");
        size_t i = n; for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; vp_check(&*it == h + i, "reverse iteration"); } vp_check(i == 0, "reverse iteration length");
        i = 0; for (auto & c : v) { vp_check(&c == h + i, "iteration"); ++i; } vp_check(i == n, "iteration length");
        i = n; for (auto it = v.crbegin(); it != v.crend(); ++it) --i; vp_check(i == 0 && v.cbegin() == v.begin() && v.cend() == v.end(), "constant iterators");
        break;
    }
    case 12: {
        SV x(v), y(h, n / 2); x.swap(y); is(y, 0, n, "swap"); is(x, 0, n / 2, "swap"); x = y; is(x, 0, n, "assign"); SV z(std::move(y)); is(z, 0, n, "move");
        vp_check(SV().empty() && SV().size() == 0 && SV(static_cast<C const *>(nullptr)).empty(), "empty views");
        break;
    }
    default: {
        auto s = v.str(); vp_check(s.size() == n, "str size"); for (size_t i = 0; i < n; ++i) vp_check(s[i] == h[i], "str contents");
        SV w(s); vp_check(w.size() == n && w.data() == s.data() && w == v, "view of string");
        break;
    }
    }
}
static void trims() {
    SV const v(h, n); size_t form = vp_choose(4, "trim overload"), which = vp_choose(3, "trim side"), k = form == 0 ? 1 : vp_choose(VK + 1, "trim set size");
    C * nd = new C[k + (form == 2)];
    for (size_t i = 0; i < k; ++i) nd[i] = vp_any<C>("trim set");
    if (form == 2) { for (size_t i = 0; i < k; ++i) vp_assume(nd[i] != C()); nd[k] = C(); }
    size_t lo = n, hi = 0; // kept range is [lo, hi)
    for (size_t i = n; i--;) { bool in = false; for (size_t j = 0; j < k; ++j) in |= h[i] == nd[j]; lo = in ? lo : i; }
    for (size_t i = 0; i < n; ++i) { bool in = false; for (size_t j = 0; j < k; ++j) in |= h[i] == nd[j]; hi = in ? hi : i + 1; }
    SV r;
#define TRIM(F) switch (form) { case 0: r = v.F(nd[0]); break; case 1: r = v.F(nd, k); break; case 2: r = v.F(static_cast<C const *>(nd)); break; default: r = v.F(SV(nd, k)); break; }
    if (which == 0) { TRIM(leftTrimmed) hi = n; }
    else if (which == 1) { TRIM(rightTrimmed) lo = 0; }
    else { TRIM(trimmed) }
    size_t len = hi > lo ? hi - lo : 0;
    vp_check(r.size() == len, "trimmed size");
    if (r.size()) vp_check(r.data() == h + lo, "trimmed position");
    vp_cover(len == 0, "everything trimmed"); vp_cover((len > 0) & (len < n), "something trimmed"); vp_cover(len == n, "nothing trimmed");
    delete[] nd;
}
int main() {
    n = vp_choose(VH + 1, "length"); h = new C[n];
    for (size_t i = 0; i < n; ++i) h[i] = vp_any<C>("characters");
    if (vp_choose(2, "part") == 0) slices(); else trims();
    delete[] h;
}
