// split and splitNoAllowEmpty against the token sequence defined by the delimiter positions.
//VP name=split tier=both flags="-DVN=6" desc="inputs of 0..6 arbitrary bytes, any delimiter, actions that throw at any token or not at all"
//VP name=split+ tier=thorough flags="-DVN=11" desc="inputs of 0..11 arbitrary bytes, any delimiter, actions that throw at any token or not at all"
#include <vp.h>
#include <iterator>
#include <sharemind/Split.h>
// A forward-only iterator that rejects reading or stepping past the end.
struct It {
    using iterator_category = std::forward_iterator_tag; using value_type = char; using difference_type = long; using pointer = char const *; using reference = char const &;
    char const * p = nullptr; char const * e = nullptr;
    char const & operator*() const { vp_check(p < e, "dereferenced the end"); return *p; }
    It & operator++() { vp_check(p < e, "stepped past the end"); ++p; return *this; }
    It operator++(int) { It r(*this); ++*this; return r; }
    friend bool operator==(It a, It b) { return a.p == b.p; }
    friend bool operator!=(It a, It b) { return a.p != b.p; }
};
struct Stop {};
int main() {
    size_t n = vp_choose(VN + 1, "length"); bool allowEmpty = vp_choose(2, "empty tokens allowed"); bool raw = vp_choose(2, "pointers");
    char * s = new char[n]; bool dl[VN + 1];
    for (size_t i = 0; i < n; ++i) s[i] = vp_any<char>("input");
    char d = vp_any<char>("delimiter");
    size_t stopAt = vp_choose(3, "throwing token"); // 2: the last possible
    if (stopAt == 2) stopAt = static_cast<size_t>(-1);
    struct Tok { char const * b; char const * e; } tok[VN + 2]; size_t nt = 0;
    bool thrown = false;
    auto act = [&](char const * b, char const * e) { vp_check(nt < VN + 2, "token count bounded"); tok[nt].b = b; tok[nt].e = e; if (nt++ == stopAt) throw Stop(); };
    try {
        if (raw) {
            auto pred = [&](char c) { return c == d; };
            if (allowEmpty) sharemind::split(static_cast<char const *>(s), static_cast<char const *>(s + n), pred, act);
            else sharemind::splitNoAllowEmpty(static_cast<char const *>(s), static_cast<char const *>(s + n), pred, act);
        } else {
            auto pred = [&](char const & c) { return c == d; };
            auto act2 = [&](It b, It e) { act(b.p, e.p); };
            It b, e; b.p = s; b.e = e.p = e.e = s + n;
            if (allowEmpty) sharemind::split(b, e, pred, act2); else sharemind::splitNoAllowEmpty(b, e, pred, act2);
        }
    } catch (Stop const &) { thrown = true; }
    for (size_t i = 0; i < n; ++i) dl[i] = vp_concretize(s[i] == d);
    size_t k = 0, from = 0; bool ended = false;
    for (size_t i = 0; i <= n && !ended; ++i)
        if (i == n || dl[i]) {
            if (allowEmpty || i > from) {
                vp_check(k < nt, "every token is reported");
                vp_check(tok[k].b == s + from && tok[k].e == s + i, "token bounds and order");
                ended = k++ == stopAt;
            }
            from = i + 1;
        }
    vp_check(k == nt, "no further token is reported");
    vp_check(thrown == ended, "an exception of the action ends the iteration");
    vp_cover(nt == 0, "no tokens"); vp_cover(nt == 2, "two tokens"); vp_cover(nt == n + 1, "only delimiters"); vp_cover(thrown, "action threw");
    delete[] s;
}
