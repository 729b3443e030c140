// The hash takes every byte and the length into account: it distinguishes some pair of contents that differ in any one byte or in length only.
//VP name=content tier=both flags="-DVN=12" desc="each byte position of each length 1..12: some pair of contents differing only there hashes differently; the same for appending a zero byte"
#include <vp.h>
#include <sharemind/Hash.h>
using namespace sharemind;
int main() {
    size_t n = 1 + vp_choose(VN, "length"), i = vp_choose(n + 1, "position");
    char a[VN + 1], b[VN + 1];
    for (size_t k = 0; k <= VN; ++k) a[k] = b[k] = 0;
    if (i < n) { b[i] = vp_any<char>("other byte"); char const lab[] = {'b', 'y', 't', 'e', ' ', char('a' + i), ' ', 'o', 'f', ' ', char('a' + n), 0}; vp_cover(hashRawData(a, n) != hashRawData(b, n), lab); }
    else vp_cover(hashRawData(a, n) != hashRawData(b, n + 1), "length matters");
}
