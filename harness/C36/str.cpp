// String keys: every form in which a key can be given agrees on equality and hash; lookups in every form.
//VP name=hash tier=both flags="-DVL=4" shim=1 desc="all contents of two strings of up to four characters in every form: string, C string, contiguous range, list, iterator pair, sentinel"
//VP name=hash8 tier=thorough flags="-DVL=8" shim=1 desc="all contents of two strings of up to eight characters in every form"
//VP name=find tier=both flags="-DVMAP -DVL=2" shim=1 desc="string map of two keys of up to two characters out of three (one of them the null character), looked up and erased in every form by a third"
#include <vp.h>
#include <cstring>
#include <list>
#include <string>
#include <vector>
#include <sharemind/SimpleUnorderedStringMap.h>
#include <sharemind/StringHashTablePredicate.h>
using sharemind::StringHasher; static StringHasher const H; static StringHasher::transparent_key_equal const E{};
static std::string str(char const * n) { std::string s; int const l = vp_choose(VL + 1, "length"); for (int i = 0; i < l; ++i) s.push_back(
#ifdef VMAP
        "\0ab"[vp_choose(3, n)]
#else
        vp_any<char>(n)
#endif
        ); return s; }
static bool eq(std::string const & a, std::string const & b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
static bool plain(std::string const & s) { for (char c : s) if (!c) return false; return true; }
int main() {
    vp_leak_mark();
#ifndef VMAP
    { std::string const a = str("a"), b = str("b"); std::vector<char> const v(b.begin(), b.end()); std::list<char> const l(b.begin(), b.end()); bool const same = eq(a, b);
      vp_check(E(a, b) == same, "string and string"); vp_check(E(a, v) == same && E(v, a) == same, "string and vector"); vp_check(E(a, l) == same && E(l, a) == same, "string and list");
      auto const h = H(b); vp_check(H(v) == h && H(l) == h && H(b.begin(), b.end()) == h && H(l.begin(), l.end()) == h, "one hash for every form");
      if (plain(b)) { char const * const c = b.c_str(); vp_check(E(a, c) == same && E(c, a) == same, "string and C string"); vp_check(H(c) == h && H(c, sharemind::Detail::TerminatingNullCharacterSentinel()) == h, "one hash for every form"); }
      if (same) vp_check(H(a) == h, "equal strings hash equally"); 
      { auto const p = sharemind::getOrCreateTemporaryStringHashTablePredicate(b); vp_check(p.hash() == h && p(a) == same, "predicate of a string"); auto const q = sharemind::getOrCreateTemporaryStringHashTablePredicate(v); vp_check(q.hash() == h && q(a) == same, "predicate of a range"); if (plain(b)) { auto const r = sharemind::getOrCreateTemporaryStringHashTablePredicate(b.c_str()); vp_check(r.hash() == h && r(a) == same, "predicate of a C string"); } } }
#else
    { sharemind::SimpleUnorderedStringMap<int> m; auto const & c = m; std::string const a = str("a"), b = str("b"), q = str("q"); m.emplace(a, 1); m.emplace(b, 2); int const r = eq(q, a) ? 1 : eq(q, b) ? 2 : 0; std::vector<char> const v(q.begin(), q.end()); std::list<char> const l(q.begin(), q.end());
      auto const is = [&](decltype(c.begin()) it) { vp_check((it != c.end()) == (r != 0) && (!r || (it->second == r && eq(it->first, q))), "lookup finds exactly the equal key"); };
      is(c.find(q)); is(c.find(v)); is(c.find(l)); is(m.find(q)); is(m.find(v)); is(m.find(l)); vp_check(c.count(q) == (r != 0) && c.count(v) == (r != 0) && c.contains(l) == (r != 0), "count"); if (plain(q)) { is(c.find(q.c_str())); is(m.find(q.c_str())); vp_check(c.contains(q.c_str()) == (r != 0), "contains"); }
      auto const er = c.equal_range(v); vp_check(std::distance(er.first, er.second) == (r != 0), "equal_range");
      std::size_t const n = m.size(); std::size_t k = 0; switch (vp_choose(plain(q) ? 4 : 3, "form")) { case 0: k = m.erase(q); break; case 1: k = m.erase(v); break; case 2: k = m.erase(l); break; default: k = m.erase(q.c_str()); break; } vp_check(k == (r != 0) && m.size() == n - k && !m.contains(q), "erased exactly that key"); if (r != 1) vp_check(m.at(a) == 1, "the others stay"); if (r != 2 && !eq(a, b)) vp_check(m.at(b) == 2, "the others stay"); }
#endif
    vp_leak_check();
}
