//VP name=all ubsan=signed-integer-overflow desc="all values; argument counts 1 to 5"
#include <vp.h>
#include <type_traits>
#include <sharemind/IsPowerOfTwo.h>
#include <sharemind/Max.h>
#include <sharemind/Min.h>
#include <sharemind/SignedToUnsigned.h>
#include <sharemind/ToSigned.h>
#include <sharemind/ToUnsigned.h>
using namespace sharemind;
template <class T> void pow2() {
    T x = vp_any<T>("x"); bool ref = false;
    for (unsigned i = 0; i < sizeof(T) * 8 - (std::is_signed<T>::value ? 1 : 0); ++i) ref |= x == static_cast<T>(static_cast<T>(1) << i);
    vp_check(isPowerOfTwo(x) == ref, "isPowerOfTwo");
    vp_cover(ref, "power of two"); vp_cover(!ref, "no power of two");
}
template <class T> void minmax() {
    T a = vp_any<T>("a"), b = vp_any<T>("b"), c = vp_any<T>("c"), d = vp_any<T>("d"), e = vp_any<T>("e");
    T v[5] = {a, b, c, d, e}; T mn[5], mx[5]; mn[0] = mx[0] = a;
    for (int i = 1; i < 5; ++i) { mn[i] = v[i] < mn[i - 1] ? v[i] : mn[i - 1]; mx[i] = v[i] > mx[i - 1] ? v[i] : mx[i - 1]; }
    vp_check(min(a) == mn[0] && max(a) == mx[0], "min/max of 1");
    vp_check(min(a, b) == mn[1], "min of 2"); vp_check(max(a, b) == mx[1], "max of 2");
    vp_check(min(a, b, c) == mn[2], "min of 3"); vp_check(max(a, b, c) == mx[2], "max of 3");
    vp_check(min(a, b, c, d) == mn[3], "min of 4"); vp_check(max(a, b, c, d) == mx[3], "max of 4");
    vp_check(min(a, b, c, d, e) == mn[4], "min of 5"); vp_check(max(a, b, c, d, e) == mx[4], "max of 5");
}
template <class S> void signs() {
    using U = typename std::make_unsigned<S>::type;
    S s = vp_any<S>("s"); U u = vp_any<U>("u");
    __int128 mod = static_cast<__int128>(1) << (sizeof(S) * 8);
    static_assert(std::is_same<decltype(signedToUnsigned(s)), U>::value, "");
    vp_check(static_cast<__int128>(signedToUnsigned(s)) == (s < 0 ? s + mod : static_cast<__int128>(s)), "signedToUnsigned");
    vp_check(static_cast<__int128>(toUnsigned(s)) == (s < 0 ? s + mod : static_cast<__int128>(s)), "toUnsigned of signed");
    vp_check(toUnsigned(u) == u, "toUnsigned of unsigned");
    vp_check(toSigned(s) == s, "toSigned of signed");
    vp_check(static_cast<__int128>(toSigned(u)) == (u >= static_cast<U>(mod / 2) ? static_cast<__int128>(u) - mod : static_cast<__int128>(u)), "toSigned of unsigned");
    vp_check(toSigned(toUnsigned(s)) == s && toUnsigned(toSigned(u)) == u, "round trip");
    vp_check(std::is_unsigned<typename std::decay<decltype(toUnsigned(s))>::type>::value && std::is_signed<typename std::decay<decltype(toSigned(u))>::type>::value, "signedness of the result");
}
int main() {
    switch (vp_choose(25, "check")) {
    case 0: pow2<signed char>(); break;
    case 1: pow2<unsigned char>(); break;
    case 2: pow2<short>(); break;
    case 3: pow2<unsigned short>(); break;
    case 4: pow2<int>(); break;
    case 5: pow2<unsigned>(); break;
    case 6: pow2<long>(); break;
    case 7: pow2<unsigned long>(); break;
    case 8: pow2<char>(); break;
    case 9: pow2<long long>(); break;
    case 10: pow2<unsigned long long>(); break;
    case 11: minmax<signed char>(); break;
    case 12: minmax<unsigned char>(); break;
    case 13: minmax<short>(); break;
    case 14: minmax<unsigned short>(); break;
    case 15: minmax<int>(); break;
    case 16: minmax<unsigned>(); break;
    case 17: minmax<long>(); break;
    case 18: minmax<unsigned long>(); break;
    case 19: signs<signed char>(); break;
    case 20: signs<short>(); break;
    case 21: signs<int>(); break;
    case 22: signs<long>(); break;
    case 23: signs<char>(); break;
    case 24: signs<long long>(); break;
    }
}
