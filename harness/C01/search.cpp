// Every search of the string view against its definition, for symbolic haystack bytes, needle bytes and start position.
//VP name=find tier=both flags="-DFN=find -DKIND=0 -DVH=5 -DVK=3" desc="find: haystacks of 0..5 and needles of 0..3 arbitrary bytes, every start position"
//VP name=rfind tier=both flags="-DFN=rfind -DKIND=1 -DVH=5 -DVK=3" desc="rfind: haystacks of 0..5 and needles of 0..3 arbitrary bytes, every start position"
//VP name=firstof tier=both flags="-DFN=findFirstOf -DKIND=2 -DVH=5 -DVK=3" desc="findFirstOf: haystacks of 0..5 and sets of 0..3 arbitrary bytes, every start position"
//VP name=firstnotof tier=both flags="-DFN=findFirstNotOf -DKIND=3 -DVH=5 -DVK=3" desc="findFirstNotOf: haystacks of 0..5 and sets of 0..3 arbitrary bytes, every start position"
//VP name=lastof tier=both flags="-DFN=findLastOf -DKIND=4 -DVH=5 -DVK=3" desc="findLastOf: haystacks of 0..5 and sets of 0..3 arbitrary bytes, every start position"
//VP name=lastnotof tier=both flags="-DFN=findLastNotOf -DKIND=5 -DVH=5 -DVK=3" desc="findLastNotOf: haystacks of 0..5 and sets of 0..3 arbitrary bytes, every start position"
//VP name=find16 tier=thorough flags="-DFN=find -DKIND=0 -DVH=4 -DVK=3 -DVC=char16_t" desc="find, char16_t"
//VP name=rfind16 tier=thorough flags="-DFN=rfind -DKIND=1 -DVH=4 -DVK=3 -DVC=char16_t" desc="rfind, char16_t"
//VP name=lastof16 tier=thorough flags="-DFN=findLastOf -DKIND=4 -DVH=4 -DVK=2 -DVC=wchar_t" desc="findLastOf, wchar_t"
//VP name=find+ tier=thorough flags="-DFN=find -DKIND=0 -DVH=12 -DVK=5" desc="find: haystacks of 0..12 and needles of 0..5 arbitrary bytes, every start position"
//VP name=rfind+ tier=thorough flags="-DFN=rfind -DKIND=1 -DVH=12 -DVK=5" desc="rfind: haystacks of 0..12 and needles of 0..5 arbitrary bytes, every start position"
//VP name=firstof+ tier=thorough flags="-DFN=findFirstOf -DKIND=2 -DVH=7 -DVK=4" desc="findFirstOf: haystacks of 0..7 and sets of 0..4 arbitrary bytes, every start position"
//VP name=firstnotof+ tier=thorough flags="-DFN=findFirstNotOf -DKIND=3 -DVH=7 -DVK=4" desc="findFirstNotOf: haystacks of 0..7 and sets of 0..4 arbitrary bytes, every start position"
//VP name=lastof+ tier=thorough flags="-DFN=findLastOf -DKIND=4 -DVH=7 -DVK=4" desc="findLastOf: haystacks of 0..7 and sets of 0..4 arbitrary bytes, every start position"
//VP name=lastnotof+ tier=thorough flags="-DFN=findLastNotOf -DKIND=5 -DVH=7 -DVK=4" desc="findLastNotOf: haystacks of 0..7 and sets of 0..4 arbitrary bytes, every start position"
#include <vp.h>
#include <sharemind/StringView.h>
#ifndef VC
#define VC char
#endif
using C = VC;
using SV = sharemind::BasicStringView<C>;
static size_t const npos = static_cast<size_t>(-1);
// Whether position i of the haystack matches; no branches on symbolic data.
static bool match(C const * h, size_t n, C const * nd, size_t k, size_t i) {
    if (KIND <= 1) { // substring
        if (k > n || i > n - k) return false;
        bool m = true;
        for (size_t j = 0; j < k; ++j) m &= h[i + j] == nd[j];
        return m;
    }
    if (i >= n) return false;
    bool in = false;
    for (size_t j = 0; j < k; ++j) in |= h[i] == nd[j];
    return (KIND == 2 || KIND == 4) ? in : !in;
}
static size_t ref(C const * h, size_t n, C const * nd, size_t k, size_t pos) {
    size_t r = npos;
    bool const fwd = KIND == 0 || KIND == 2 || KIND == 3;
    if (fwd) { for (size_t i = n + 1; i--;) r = (match(h, n, nd, k, i) & (i >= pos)) ? i : r; }
    else { for (size_t i = 0; i <= n; ++i) r = (match(h, n, nd, k, i) & (i <= pos)) ? i : r; }
    return r;
}
int main() {
    size_t n = vp_choose(VH + 1, "haystack length"), form = vp_choose(4, "overload");
    size_t k = form == 0 ? 1 : vp_choose(VK + 1, "needle length");
    C * h = new C[n]; C * nd = new C[k + (form == 2)];
    for (size_t i = 0; i < n; ++i) h[i] = vp_any<C>("haystack");
    for (size_t i = 0; i < k; ++i) nd[i] = vp_any<C>("needle");
    if (form == 2) { for (size_t i = 0; i < k; ++i) vp_assume(nd[i] != C()); nd[k] = C(); }
    size_t pos = vp_any<size_t>("start position");
    bool dflt = vp_choose(2, "default start position") && form != 1;
    if (dflt) pos = (KIND == 0 || KIND == 2 || KIND == 3) ? 0 : npos;
    SV const sv(h, n);
    size_t r;
    switch (form) {
    case 0: r = dflt ? sv.FN(nd[0]) : sv.FN(nd[0], pos); break;
    case 1: r = sv.FN(nd, pos, k); break;
    case 2: r = dflt ? sv.FN(static_cast<C const *>(nd)) : sv.FN(static_cast<C const *>(nd), pos); break;
    default: r = dflt ? sv.FN(SV(nd, k)) : sv.FN(SV(nd, k), pos); break;
    }
    size_t e = ref(h, n, nd, k, pos);
    vp_check(r == e, "search result");
    vp_cover(e == npos, "no match"); vp_cover(e != npos, "match"); vp_cover((e != npos) & (e > 0), "match after the start");
    delete[] h; delete[] nd;
}
