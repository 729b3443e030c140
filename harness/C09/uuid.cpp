// C09: UUID text conversion, hash and namespace names (src/Uuid.h).
// The string streams and boost code which it is built on are compiled from their headers and executed
// symbolically together with it; model/rt_ios.cpp supplies the "C" locale.
//VP name=print tier=both flags="-DPRINT -D_GLIBCXX_EXTERN_TEMPLATE=0 -DBOOST_UUID_NO_SIMD" opts="--ifconv" desc="uuidToString of any 16 bytes: length 36, hyphens at 8, 13, 18 and 23, every other character the lower case digit of its nibble"
//VP name=rt tier=both flags="-DRT -D_GLIBCXX_EXTERN_TEMPLATE=0 -DBOOST_UUID_NO_SIMD" opts="--ifconv" desc="text of a UUID with any one byte arbitrary (any position), the others fixed, read back"
//VP name=parse tier=both flags="-DPARSE -D_GLIBCXX_EXTERN_TEMPLATE=0 -DBOOST_UUID_NO_SIMD" opts="--ifconv" desc="valid text with one character replaced by any of the 256 characters at any of the 36 positions"
//VP name=len tier=both flags="-DLEN -D_GLIBCXX_EXTERN_TEMPLATE=0 -DBOOST_UUID_NO_SIMD" opts="--ifconv" desc="valid text cut to any length 0..35, or with any one character added at the front or the back"
//VP name=hash tier=both flags="-DHASH -D_GLIBCXX_EXTERN_TEMPLATE=0 -DBOOST_UUID_NO_SIMD" opts="--ifconv" desc="two UUIDs of 16 arbitrary bytes each"
//VP name=name tier=both flags="-DNAME -DLEN=2 -D_GLIBCXX_EXTERN_TEMPLATE=0 -DBOOST_UUID_NO_SIMD" opts="--ifconv" desc="names of 0..2 arbitrary bytes, as std::string, C string and buffer with length"
//VP name=namel tier=thorough flags="-DNAME -DLEN=70 -D_GLIBCXX_EXTERN_TEMPLATE=0 -DBOOST_UUID_NO_SIMD" opts="--ifconv" desc="names of 0..70 arbitrary bytes (more than one SHA-1 block)"
#include <vp.h>
#include <sharemind/Uuid.h>
#include <cstring>
#include <unordered_set>
using sharemind::Uuid;

static std::size_t textPos(unsigned const nibble) // position of the nibble in the text
{ return nibble + (nibble >= 8u) + (nibble >= 12u) + (nibble >= 16u) + (nibble >= 20u); }
static char const pattern[] = "01234567-89ab-cdef-0f1e-2d3c4b5a6978";

/* What the text says, or false. */
static bool read(std::string const & s, unsigned char (&out)[16]) {
    if (s.size() != 36u) return false;
    for (unsigned i = 0u; i < 32u; ++i) {
        unsigned char const c = static_cast<unsigned char>(s[textPos(i)]);
        unsigned v = 0u; bool ok = false;
        if (c >= '0' && c <= '9') { v = c - '0'; ok = true; }
        else if (c >= 'a' && c <= 'f') { v = c - 'a' + 10u; ok = true; }
        else if (c >= 'A' && c <= 'F') { v = c - 'A' + 10u; ok = true; }
        if (!ok) return false;
        if (i % 2u == 0u) out[i / 2u] = static_cast<unsigned char>(v << 4u);
        else out[i / 2u] = static_cast<unsigned char>(out[i / 2u] | v);
    }
    return s[8u] == '-' && s[13u] == '-' && s[18u] == '-' && s[23u] == '-';
}

static void parse(std::string const & s) {
    unsigned char want[16];
    bool const valid = read(s, want);
    bool threw = false, other = false;
    Uuid u{};
    try { u = sharemind::uuidFromString(s); }
    catch (boost::bad_lexical_cast const &) { threw = true; }
    catch (...) { other = true; }
    vp_check(!other, "text which is not a UUID is refused with boost::bad_lexical_cast");
    vp_check(!(valid && threw), "text of a UUID is accepted");
    vp_check(!(!valid && !threw), "text which is not a UUID is refused");
    if (valid && !threw)
        vp_check(std::memcmp(&u, want, 16u) == 0, "reading gives the UUID the text says");
}

int main() {
#ifdef PRINT
    Uuid u;
    vp_sym_bytes(&u, 16u, "u");
    Uuid const before(u);
    std::string const s(sharemind::uuidToString(u));
    vp_check(s.size() == 36u, "text has 36 characters");
    vp_check(s[8u] == '-' && s[13u] == '-' && s[18u] == '-' && s[23u] == '-', "hyphens where they belong");
    bool ok = true;
    for (unsigned i = 0u; i < 32u; ++i) {
        unsigned const b = (i % 2u) ? (u.data[i / 2u] & 15u) : (u.data[i / 2u] >> 4u);
        unsigned const c = b + '0' + (('a' - '0' - 10u) & (0u - (b > 9u)));
        ok = ok & (static_cast<unsigned char>(s[textPos(i)]) == c);
    }
    vp_check(ok, "every other character is the lower case digit of its nibble");
    vp_check(std::memcmp(&u, &before, 16u) == 0, "printing leaves the UUID as it was");
    vp_witness("reached");
#endif
#ifdef RT
    Uuid u;
    for (unsigned i = 0u; i < 16u; ++i) u.data[i] = static_cast<unsigned char>(i * 29u + 7u);
    unsigned const p = vp_choose(16u, "p");
    u.data[p] = vp_any<unsigned char>("b");
    Uuid const v(sharemind::uuidFromString(sharemind::uuidToString(u)));
    vp_check(std::memcmp(&u, &v, 16u) == 0, "text read back is the same UUID");
    vp_check(u == v, "text read back is an equal UUID");
    vp_witness("reached");
#endif
#ifdef PARSE
    std::string s(pattern);
    if (vp_choose(2u, "case")) s = "01234567-89AB-CDEF-0F1E-2D3C4B5A6978";
    s[vp_choose(36u, "p")] = vp_any<char>("c");
    parse(s);
    vp_witness("reached");
#endif
#ifdef LEN
#ifndef NAME
    std::string s(pattern);
    switch (vp_choose(4u, "what")) {
    case 0u: s = s.substr(0u, vp_choose(36u, "n")); break;
    case 1u: s += vp_any<char>("c"); break;
    case 2u: s = std::string(1u, vp_any<char>("c")) + s; break;
    default: s = s.substr(1u + vp_choose(4u, "n")); break;
    }
    parse(s);
    vp_witness("reached");
#endif
#endif
#ifdef HASH
    Uuid a, b;
    vp_sym_bytes(&a, 16u, "a");
    vp_sym_bytes(&b, 16u, "b");
    std::hash<Uuid> const h{};
    Uuid const before(a);
    std::size_t const r = h(a);
    vp_check(r == boost::hash<Uuid>()(a), "std::hash agrees with boost::hash");
    vp_check(r == std::hash<Uuid>{}(a) && std::memcmp(&a, &before, 16u) == 0, "the hash is the same every time");
    if (std::memcmp(&a, &b, 16u) == 0) {
        vp_witness("equal");
        vp_check(h(b) == r, "equal UUIDs have equal hashes");
    } else vp_witness("different");
#endif
#ifdef NAME
    // The namespace is the one documented: the bytes of "Sharemind~(^_^)~".
    Uuid ns;
    std::memcpy(&ns, "Sharemind~(^_^)~", 16u);
    vp_check(std::memcmp(&ns, &sharemind::sharemindNamespaceUuid, 16u) == 0, "the namespace is the documented one");
    char name[LEN + 1] = {};
    unsigned const n = vp_choose(LEN + 1u, "n");
    vp_sym_bytes(name, n, "name");
    boost::uuids::name_generator ref(ns);
    Uuid const want(ref(name, n));
    sharemind::SharemindUuidGenerator g;
    vp_check(std::memcmp(&want, &(ns = g(name, n)), 16u) == 0, "a generator gives the UUID of the name in the namespace");
    vp_check(g(std::string(name, n)) == want, "the same name gives the same UUID again, from a string");
    vp_check(sharemind::generateSharemindNameUuid(name, n) == want, "the function gives the UUID of the name, from a buffer");
    vp_check(sharemind::generateSharemindNameUuid(std::string(name, n)) == want, "the function gives the UUID of the name, from a string");
    vp_check((want.data[6] >> 4) == 5 && (want.data[8] >> 6) == 2, "name based UUIDs have the version and the variant of RFC 4122");
    vp_witness("reached");
#endif
    vp_end();
}
