// StringHasher: every way of hashing the same characters agrees, and its transparent equality is equality of contents.
//VP name=string tier=both shim=1 flags="-DVN=6" desc="strings of 0..6 arbitrary bytes (non-zero ones for the C string forms), compared with strings of 0..6 bytes"
//VP name=string+ tier=thorough shim=1 flags="-DVN=12" desc="strings of 0..12 arbitrary bytes"
#include <vp.h>
#include <cstring>
#include <forward_list>
#include <list>
#include <string>
#include <vector>
#include <boost/functional/hash.hpp>
#include <sharemind/StringHasher.h>
#include <sharemind/StringHashTablePredicate.h>
#include <sharemind/StringView.h>
using namespace sharemind;
int main() {
    size_t n = vp_choose(VN + 1, "length"); bool part = vp_choose(2, "part");
    StringHasher const H{};
    if (part == 0) {
        char * a = new char[n + 1];
        bool cstr = vp_choose(2, "C string");
        for (size_t i = 0; i < n; ++i) { a[i] = vp_any<char>("data"); if (cstr) vp_assume(a[i] != 0); }
        a[n] = 0;
        std::string const s(a, n);
        std::size_t const h = H(s);
        
        vp_check(H(static_cast<char const *>(a), static_cast<char const *>(a + n)) == h, "iterators");
        std::vector<char> v(a, a + n); std::list<char> l(a, a + n);
        vp_check(H(v) == h, "vector"); vp_check(H(l) == h, "list");
        vp_check(H(StringView(a, n)) == h, "view as range");
        if (cstr) vp_check(H(static_cast<char const *>(a)) == h, "C string");
        delete[] a;
    } else {
        size_t m = vp_choose(VN + 1, "other length"); size_t form = vp_choose(5, "form");
        std::string a(n, ' '); char * b = new char[m + 1];
        for (size_t i = 0; i < n; ++i) a[i] = vp_any<char>("data");
        for (size_t i = 0; i < m; ++i) { b[i] = vp_any<char>("other"); }
        b[m] = 0;
        bool e = n == m; for (size_t i = 0; i < n && n == m; ++i) e &= a[i] == b[i];
        StringHasher::transparent_key_equal const E{}; std::string const & a2 = a;
        if (form == 0) { for (size_t i = 0; i < m; ++i) vp_assume(b[i] != 0); for (size_t i = 0; i < n; ++i) vp_assume(a[i] != 0); vp_check(E(a2, static_cast<char const *>(b)) == e && E(static_cast<char const *>(b), a2) == e, "C string equality"); }
        else if (form == 1) { std::vector<char> v(b, b + m); vp_check(E(a2, v) == e && E(v, a2) == e, "vector equality"); }
        else if (form == 2) { std::list<char> l(b, b + m); vp_check(E(a2, l) == e && E(l, a2) == e, "list equality"); }
        else if (form == 3) { std::string const t(b, m); vp_check(E(a2, t) == e && E(t, a2) == e, "string equality"); }
        else { std::string t(b, m); auto p = Detail::createTemporaryStringHashTablePredicate(t); auto q = Detail::createTemporaryStringHashTablePredicate(static_cast<char const *>(b)); std::list<char> l(b, b + m); auto r = Detail::createTemporaryStringHashTablePredicate(l); vp_check(r(a) == e && r.hash() == H(l), "range predicate"); if (std::strlen(b) == m) vp_check(q(a) == e && q.hash() == H(t), "C string predicate"); vp_check(p(a) == e, "predicate equality"); vp_check(p.hash() == H(t), "predicate hash"); }
        vp_cover(e, "equal"); vp_cover(!e, "different");
        delete[] b;
    }
}
