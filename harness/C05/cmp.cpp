// Every pair of integral types, every pair of values: comparisons equal those of the mathematical integers.
//VP name=s8 flags="-DLHS=signed\ char" desc="all values of the left operand type and of 15 right operand types"
//VP name=u8 flags="-DLHS=unsigned\ char" desc="as above"
//VP name=c flags="-DLHS=char" desc="as above"
//VP name=b flags="-DLHS=bool" desc="as above"
//VP name=s16 flags="-DLHS=short" desc="as above"
//VP name=u16 flags="-DLHS=unsigned\ short" desc="as above"
//VP name=s32 flags="-DLHS=int" desc="as above"
//VP name=u32 flags="-DLHS=unsigned" desc="as above"
//VP name=s64 flags="-DLHS=long" desc="as above"
//VP name=u64 flags="-DLHS=unsigned\ long" desc="as above"
//VP name=sll flags="-DLHS=long\ long" desc="as above"
//VP name=ull flags="-DLHS=unsigned\ long\ long" desc="as above"
//VP name=w flags="-DLHS=wchar_t" desc="as above"
//VP name=c16 flags="-DLHS=char16_t" desc="as above"
//VP name=c32 flags="-DLHS=char32_t" desc="as above"
#include <vp.h>
#include <sharemind/IntegralComparisons.h>
using namespace sharemind;
using Wide = __int128;
template <class T> T any(char const * n) { return vp_any<T>(n); }
template <> bool any<bool>(char const * n) { return vp_any_bool(n); }
template <class A, class B> void two() {
    A a = any<A>("a"); B b = any<B>("b");
    Wide x = a, y = b;
    vp_check(integralEqual(a, b) == (x == y), "integralEqual");
    vp_check(integralNotEqual(a, b) == (x != y), "integralNotEqual");
    vp_check(integralLess(a, b) == (x < y), "integralLess");
    vp_check(integralLessThan(a, b) == (x < y), "integralLessThan");
    vp_check(integralLessEqual(a, b) == (x <= y), "integralLessEqual");
    vp_check(integralGreater(a, b) == (x > y), "integralGreater");
    vp_check(integralGreaterThan(a, b) == (x > y), "integralGreaterThan");
    vp_check(integralGreaterEqual(a, b) == (x >= y), "integralGreaterEqual");
    vp_cover(x == y, "equal operands");
    vp_cover(x < y, "smaller left operand");
    vp_cover(x > y, "greater left operand");
}
template <class T> void one() {
    T a = any<T>("a"); Wide x = a;
    vp_check(integralPositive(a) == (x > 0), "integralPositive");
    vp_check(integralNegative(a) == (x < 0), "integralNegative");
    vp_check(integralNonNegative(a) == (x >= 0), "integralNonNegative");
    vp_check(integralNonPositive(a) == (x <= 0), "integralNonPositive");
    vp_check(integralZero(a) == (x == 0), "integralZero");
    vp_check(integralNonZero(a) == (x != 0), "integralNonZero");
}
using L = LHS;
int main() {
    one<L>();
    switch (vp_choose(15, "right operand type")) {
    case 0: two<L, signed char>(); break;
    case 1: two<L, unsigned char>(); break;
    case 2: two<L, char>(); break;
    case 3: two<L, bool>(); break;
    case 4: two<L, short>(); break;
    case 5: two<L, unsigned short>(); break;
    case 6: two<L, int>(); break;
    case 7: two<L, unsigned>(); break;
    case 8: two<L, long>(); break;
    case 9: two<L, unsigned long>(); break;
    case 10: two<L, long long>(); break;
    case 11: two<L, unsigned long long>(); break;
    case 12: two<L, wchar_t>(); break;
    case 13: two<L, char16_t>(); break;
    case 14: two<L, char32_t>(); break;
    }
}
