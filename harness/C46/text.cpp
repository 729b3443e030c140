// C46: text output of string views, wide integers and strong types, and concat() (StringView.h, uint_t.h, uint128_t.h, StrongType.h, Concat.h).
//VP name=view tier=both shim=1 flags="-DVIEW -DVN=3 -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="views of 0..3 arbitrary characters, widths -1..5, any fill character, every adjustment, streams with room for 0..6 characters or without a limit"
//VP name=int4 tier=both shim=1 flags="-DINT=4 -DVBITS=4 -DBLOCK=std::uint8_t -D_GLIBCXX_EXTERN_TEMPLATE=0" opts="--merge" desc="uint_t<4>: every value, base and case"
//VP name=int8 tier=both shim=1 flags="-DINT=8 -DVBITS=8 -DBLOCK=std::uint8_t -D_GLIBCXX_EXTERN_TEMPLATE=0" opts="--merge" desc="uint_t<8>: every value, base and case"
//VP name=int16 tier=quick shim=1 flags="-DINT=16 -DVBITS=3 -DBLOCK=std::uint8_t -D_GLIBCXX_EXTERN_TEMPLATE=0" opts="--merge" desc="uint_t<16> of two blocks: any 3 bits at any of 3 positions, others all 0 or all 1, every base and style"
//VP name=int16.v8 tier=thorough shim=1 flags="-DINT=16 -DVBITS=8 -DBLOCK=std::uint8_t -D_GLIBCXX_EXTERN_TEMPLATE=0" opts="--merge" desc="uint_t<16> of two blocks: any 8 bits at any of 3 positions, others all 0 or all 1, every base and style"
//VP name=int32 tier=both shim=1 flags="-DINT=32 -DVBITS=2 -DBLOCK=std::uint16_t -D_GLIBCXX_EXTERN_TEMPLATE=0" opts="--merge" desc="uint_t<32> of two blocks: any 2 bits at any of 3 positions, others all 0 or all 1, every base and style"
//VP name=int32.v4 tier=thorough shim=1 flags="-DINT=32 -DVBITS=4 -DBLOCK=std::uint16_t -D_GLIBCXX_EXTERN_TEMPLATE=0" opts="--merge" desc="uint_t<32> of two blocks: any 4 bits at any of 3 positions, others all 0 or all 1, every base and style"
//VP name=int128 tier=both shim=1 flags="-DINT=128 -DVBITS=4 -DLOW -D_GLIBCXX_EXTERN_TEMPLATE=0" opts="--merge" desc="uint_t<128>: values below 16, every base and style"
//VP name=u128 tier=quick shim=1 flags="-DU128 -DINT=128 -DVBITS=6 -DLOW -D_GLIBCXX_EXTERN_TEMPLATE=0" opts="--merge" desc="uint128_t: values below 64, every base and style"
//VP name=u128.v8 tier=thorough shim=1 flags="-DU128 -DINT=128 -DVBITS=10 -DLOW -D_GLIBCXX_EXTERN_TEMPLATE=0" opts="--merge" desc="uint128_t: values below 1024, every base and style"
//VP name=u128.wide tier=both shim=1 flags="-DU128 -DINT=128 -DVBITS=2 -DSPLIT -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="uint128_t: any 2 bits at any of 3 positions, others all 0 or all 1, one path per value, every base and style"
//VP name=concat tier=both flags="-DCONCAT -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="strings of 0..2 arbitrary bytes as every kind of argument, with characters and integers between them"
#include <vp.h>
#include <cstring>
#include <sstream>
#include <streambuf>
#include <string>
#if defined(VIEW)
#include <sharemind/StringView.h>
struct Limited : std::streambuf { // takes so many characters
    std::string s; std::size_t room;
    explicit Limited(std::size_t const r) : room(r) {}
    int_type overflow(int_type const c) override { if (s.size() >= room) return traits_type::eof(); s += traits_type::to_char_type(c); return c; }
};
#elif defined(INT)
#include <sharemind/uint_t.h>
#include <sharemind/uint128_t.h>
#ifndef BLOCK
#define BLOCK std::uint64_t
#endif
#ifndef VBITS
#define VBITS 8
#endif
#ifdef U128
using U = sharemind::uint128_t;
#else
using U = sharemind::uint_t<INT, BLOCK>;
#endif
#else
#include <sharemind/Concat.h>
#include <sharemind/StrongType.h>
struct Tag {}; using ST = sharemind::StrongType<unsigned, Tag, sharemind::StrongTypeStreamable>;
#endif

int main() {
#ifdef VIEW
    char b[VN]; std::size_t const n = vp_choose(VN + 1u, "n"); vp_sym_bytes(b, n, "text");
    std::string const text(b, n);
    std::size_t const room = vp_choose(8u, "room");
    Limited l(room < 7u ? room : 1000u), r(1000u);
    std::ostream os(&l), ref(&r);
    auto const fill = vp_any<char>("fill");
    int const width = static_cast<int>(vp_choose(7u, "width")) - 1; // -1: nothing is printed, as TestStringView demands
    for (auto * const o : {&os, &ref}) { o->fill(fill); o->width(width); }
    switch (vp_choose(4u, "adjust")) {
    case 0u: os << std::left; ref << std::left; break;
    case 1u: os << std::right; ref << std::right; break;
    case 2u: os << std::internal; ref << std::internal; break;
    default: break;
    }
    bool const bad = vp_choose(2u, "bad");
    if (bad) os.setstate(std::ios_base::badbit);
    if (width >= 0) ref << text; // the oracle: what the standard library prints for the string
    os << sharemind::BasicStringView<char>(b, n);
    if (bad) { vp_check(l.s.empty(), "nothing is written to a bad stream"); }
    else {
        std::size_t const want = r.s.size() < l.room ? r.s.size() : l.room;
        vp_check(l.s.size() == want && std::memcmp(l.s.data(), r.s.data(), want) == 0, "a view prints as the string of its characters, padded to the width (nothing for a negative width)");
        vp_check(os.fail() == (want < r.s.size()), "a failing stream is reported in its state, and only that");
        vp_check(os.width() == 0, "the width is used up"); (void) width;
    }
    vp_witness("reached");
#endif
#ifdef INT
    vp_leak_mark();
    {
        // The value: VBITS arbitrary bits at some position, all others alike
        using W = unsigned __int128;
        W const all = INT >= 128 ? ~W(0u) : (W(1u) << (INT % 128)) - 1u;
        auto const bits = vp_any<std::uint16_t>("bits"); vp_assume(VBITS >= 16 || (bits >> (VBITS % 16)) == 0u);
        #ifdef LOW
        unsigned const at = 0u;
#else
        unsigned const at = INT > VBITS ? static_cast<unsigned>(vp_choose(3u, "at")) * ((INT - VBITS) / 2u) : 0u;
#endif
#ifdef SPLIT
        vp_concretize(bits); // 128-bit division is too hard for the solver otherwise
#endif
        W v = W(bits) << at;
#ifndef LOW
        if (INT > VBITS && vp_choose(2u, "ones")) v = ~v;
#endif
        v &= all;
#if INT > 64
        U x(static_cast<std::uint64_t>(v >> 64)); x <<= 64; x |= U(static_cast<std::uint64_t>(v));
#else
        U x(static_cast<std::uint64_t>(v));
#endif
        U const before(x);
        std::ostringstream os;
        unsigned base = 10u; bool upper = false;
        #ifndef BASES
#define BASES 3u
#endif
        switch (BASES < 3u ? BASES : vp_choose(3u, "base")) { case 0u: break; case 1u: base = 16u; os << std::hex; break; default: base = 8u; os << std::oct; break; }
        auto const style = vp_choose(3u, "style");
        if (style == 1u) { upper = true; os << std::uppercase; }
        bool const plus = style == 2u && !(x == U(0u));
        if (plus) os << std::showpos;
        os << x;
        std::string s(os.str());
        vp_check(os.good() && x == before, "printing changes nothing");
        if (plus) { vp_check(!s.empty() && s[0] == '+', "a plus sign is shown if asked for"); s.erase(0u, 1u); }
        vp_check(!s.empty() && (s[0] != '0' || s.size() == 1u), "no leading zeros");
        W got = 0u;
        bool ok = true;
        for (char const c : s) {
            unsigned const d = static_cast<unsigned char>(c);
            bool const num = (d >= '0') & (d <= '9'), let = upper ? (d >= 'A') & (d <= 'F') : (d >= 'a') & (d <= 'f');
            unsigned const val = num ? d - '0' : (d & 31u) + 9u;
            ok &= (num | let) & (val < base);
            got = got * base + val;
        }
        vp_check(ok, "digits of the base, in the case asked for");
        vp_check(s.size() <= (base == 10u ? 39u : base == 16u ? 32u : 43u) && got == v, "the digits are those of the value");
        vp_witness("reached");
    }
    vp_leak_check();
#endif
#ifdef CONCAT
    char a[3], b[3]; std::size_t const n = vp_choose(3u, "n"), k = vp_choose(3u, "k"); vp_sym_bytes(a, n, "a"); vp_sym_bytes(b, k, "b");
    std::string sa(a, n), sb(b, k); std::string const ca(sa), cb(sb);
    auto const u = vp_any<std::uint8_t>("u"); vp_assume(u == 0u || u == 9u || u == 10u || u == 99u || u == 100u || u == 255u);vp_concretize(u);
    auto const c = vp_any<char>("c");
    char num[4]; std::size_t d = 0u; if (u >= 100u) num[d++] = static_cast<char>('0' + u / 100u); if (u >= 10u) num[d++] = static_cast<char>('0' + u / 10u % 10u); num[d++] = static_cast<char>('0' + u % 10u);
    std::string const sn(num, d);
    vp_check(sharemind::concat().empty(), "nothing gives the empty string");
    vp_check(sharemind::concat(ca) == ca && sharemind::concat(sa) == ca && sharemind::concat(std::string(sa)) == ca, "one string gives itself");
    vp_check(sharemind::concat("x y") == "x y", "one literal gives itself");
    std::string const want(ca + "<" + sn + c + cb);
    vp_check(sharemind::concat(ca, "<", unsigned(u), c, cb) == want, "the texts of the arguments, in order");
    vp_check(sharemind::concat(sa, '<', static_cast<unsigned long>(u), c, std::string(cb)) == want, "the texts of the arguments, in order");
    vp_check(sharemind::concat(sa, std::string("<"), static_cast<int>(u), c, sb) == want, "the texts of the arguments, in order");
    vp_check(sa == ca && sb == cb, "arguments are not changed");
    std::ostringstream os; os << ST(u); vp_check(os.str() == sn, "a strong type prints as its value");
    vp_witness("reached");
#endif
    vp_end();
}
