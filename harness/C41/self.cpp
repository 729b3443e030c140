// C41: writing a part of a network message, or all of it, to the message itself (src/NetworkMessage.h).
//VP name=self tier=both shim=1 opts="" desc="a message of 1..3 arbitrary bytes; any part of it, or all, written to itself by any of 6 kinds of write call, twice"
//VP name=selfoom tier=both shim=1 flags="-DOOM" opts="" desc="as self, one call, its allocation may fail"
#include <vp.h>
#include <cstring>
#include <sharemind/NetworkMessage.h>
using namespace sharemind;

VP_NOOPT int main() {
    OutgoingNetworkMessage m;
    unsigned char d[120];
    std::size_t n = vp_choose(3u, "size") + 1u;
    vp_sym_bytes(d, n, "byte");
    m.writeBytes(d, n);
#ifdef OOM
    vp_alloc_may_fail(1u);
    unsigned const rounds = 1u;
#else
    unsigned const rounds = 2u;
#endif
    for (unsigned i = 0u; i < rounds; ++i) {
        std::size_t const from = vp_choose(n < 3u ? n : 3u, "from");
        std::size_t const rest = n - from;
        std::size_t const len = vp_choose(rest < 3u ? rest + 1u : 3u, "length");
        auto const * const p = static_cast<unsigned char const *>(m.getData()) + from;
        unsigned char e[120];
        std::memcpy(e, d, n);
        std::size_t en = n;
        bool ok = true;
        auto const bytes = [&](std::size_t const f, std::size_t const k) { std::memcpy(e + en, d + f, k); en += k; };
        auto const size = [&](std::uint64_t const s) { for (unsigned j = 0u; j < 8u; ++j) e[en++] = static_cast<unsigned char>(s >> (8u * j)); };
        try {
            switch (vp_choose(6u, "kind")) {
            case 0u: bytes(0u, n); m.write(m); break;
            case 1u: bytes(from, len); m.writeBytes(p, len); break;
            case 2u: size(len); bytes(from, len); m.write(reinterpret_cast<char const *>(p), len); break;
            case 3u: bytes(from, 1u); m.write(*p); break;
            case 4u: bytes(from, len); m.writeArray(p, len); break;
            default: size(len); bytes(from, len); m.writeSizeAndArray(p, len); break;
            }
        } catch (std::bad_alloc const &) {
#ifdef OOM
            vp_witness("no memory");
#else
            vp_fail("a write fails though memory is available");
#endif
            ok = false;
        }
        if (ok) { std::memcpy(d, e, en); n = en; }
        vp_check(m.getSize() == n && m.getOffset() == n, "the size is that of the bytes written");
        vp_check(std::memcmp(m.getData(), d, n) == 0, "the message has exactly the bytes written, also if they come from itself");
        if (ok) vp_witness("written");
    }
    return 0;
}
