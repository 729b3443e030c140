// Serialising a bit vector and reading it back gives the same sequence; other lengths and truncated messages are refused.
//VP name=8 tier=both flags="-DVB=uint8_t" opts="--merge" desc="8-bit blocks, lengths 0..20 and 63..66, all contents, every truncation"
//VP name=16 tier=both flags="-DVB=uint16_t" opts="--merge" desc="16-bit blocks, lengths 0..20 and 63..66, all contents, every truncation"
//VP name=64 tier=both flags="-DVB=uint64_t" opts="--merge" desc="64-bit blocks, lengths 0..20 and 63..66, all contents, every truncation"
#include <vp.h>
#include <cstdint>
#include <cstring>
#include <sharemind/BitVector.h>
using V = sharemind::BitVec<VB>;
static constexpr size_t BPB = sizeof(VB) * 8;
struct Msg {
    uint8_t d[64]; size_t n = 0, r = 0;
    template <class T> void write(T const & v) { vp_assert(n + sizeof(T) <= sizeof(d)); std::memcpy(d + n, &v, sizeof(T)); n += sizeof(T); }
    template <class T> bool read(T & v) { if (n - r < sizeof(T)) return false; std::memcpy(&v, d + r, sizeof(T)); r += sizeof(T); return true; }
};
static V any(size_t n, char const * name) { V v(n); for (size_t i = 0; i < (n + BPB - 1) / BPB; ++i) static_cast<VB *>(v.data())[i] = vp_any<VB>(name); return v; }
int main() {
    size_t const n = vp_choose(2, "long") ? 63 + vp_choose(4, "length") : vp_choose(21, "length");
    V const a = any(n, "a"); Msg m; a.serialize(m);
    switch (vp_choose(3, "scenario")) {
    case 0: {
        V b = any(n, "b"); vp_check(b.deserialize(m), "reading back succeeds"); vp_check(m.r == m.n, "the whole message is consumed"); vp_check(b.size() == n, "size");
        bool ok = true; for (size_t i = 0; i < n; ++i) ok &= static_cast<V const &>(b)[i] == a[i]; vp_check(ok, "elements"); vp_check(a == b, "equal"); break;
    }
    case 1: { V b = any(n + 1, "b"); vp_check(!b.deserialize(m), "another length is refused"); vp_check(b.size() == n + 1, "size kept"); break; }
    default: { V b = any(n, "b"); m.n -= 1 + vp_choose(8, "bytes cut off"); vp_check(!b.deserialize(m), "a truncated message is refused"); vp_check(b.size() == n, "size kept"); }
    }
}
