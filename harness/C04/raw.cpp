// Raw data hashing and string view hashing.
//VP name=raw tier=both flags="-DVN=20" desc="0..20 arbitrary bytes, any seed, every alignment of the data modulo 8, cut into up to 2 pieces"
//VP name=raw+ tier=thorough flags="-DVN=70" desc="0..70 arbitrary bytes, any seed, every alignment of the data modulo 8, cut into up to 2 pieces"
#include <vp.h>
#include <cstring>
#include <string>
#include <boost/functional/hash.hpp>
#include <sharemind/Hash.h>
#include <sharemind/StringView.h>
using namespace sharemind;
int main() {
    size_t n = vp_choose(VN + 1, "length"), off = vp_choose(8, "alignment of the copy");
    char * a = new char[n]; char * bb = new char[n + off]; char * b = bb + off;
    for (size_t i = 0; i < n; ++i) { a[i] = vp_any<char>("data"); b[i] = a[i]; }
    std::size_t seed = vp_any<std::size_t>("seed");
    HashValue const h = hashCombineRawData(seed, a, n);
    vp_check(h == hashCombineRawData(seed, b, n), "equal contents at different addresses hash equal");
    HashValue const z = hashRawData(a, n);
    vp_check(z == hashRawData(b, n) && z == hashCombineRawData(0u, a, n), "raw hash starts at zero");
    vp_check(z == boost::hash<std::string>()(std::string(b, n)), "same as hashing the string");
    vp_check(z == boost::hash<StringView>()(StringView(b, n)) && z == hash_value(StringView(a, n)), "same as hashing the view");
    vp_check(z == boost::hash_range(static_cast<char const *>(b), static_cast<char const *>(b + n)), "same as hashing the range");
    size_t cut = vp_choose(2, "cut") ? n / 2 : n;
    vp_check(hashCombineRawData(seed, a, cut, b + cut, n - cut) == hashCombineRawData(hashCombineRawData(seed, a, cut), a + cut, n - cut), "several pieces are combined in order");
    vp_check(hashRawData(a, cut, b + cut, n - cut) == hashCombineRawData(z * 0 + hashRawData(a, cut), a + cut, n - cut), "several pieces are combined in order from zero");
    struct P { unsigned x; unsigned short y, w; } p{vp_any<unsigned>("field"), vp_any<unsigned short>("field"), vp_any<unsigned short>("field")};
    vp_check(RawHasher()(p) == hashRawData(&p, sizeof(p)) && RawHasherT<P>()(p) == RawHasher()(p), "RawHasher hashes the object representation");
    struct M { size_t v; size_t hash() const noexcept { return v; } } m{seed};
    vp_check(HashMemberCaller()(m) == seed && HashMemberCallerT<M>()(m) == seed, "member hash");
    delete[] a; delete[] bb;
}
