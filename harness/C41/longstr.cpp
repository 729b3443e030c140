// C41: reading strings too long to be stored in place, while memory may run out (src/NetworkMessage.h).
//VP name=main tier=both shim=1 opts="" desc="a string of 20 arbitrary characters followed by a byte, read into an empty, a short or a long string, one allocation may fail; then read again"
#include <vp.h>
#include <cstring>
#include <new>
#include <string>
#include <sharemind/NetworkMessage.h>
using namespace sharemind;

VP_NOOPT int main() {
    vp_leak_mark();
    {
        OutgoingNetworkMessage m;
        char d[21];
        vp_sym_bytes(d, 20u, "character");
        m.write(std::string(d, 20u));
        m.write(static_cast<unsigned char>(7u));
        static std::size_t const before[3] = {0u, 3u, 40u};
        std::string s(before[vp_choose(3u, "old string")], 'x');
        std::string const old(s);
        IncomingNetworkMessage in(m.getData(), m.getSize());
        bool failed = false, r = false;
        vp_alloc_may_fail(1u);
        try { r = in.read(s); } catch (std::bad_alloc const &) { failed = true; }
        vp_alloc_may_fail(0u);
        if (failed) { vp_check(s == old, "the string is left alone"); r = in.read(s); vp_witness("failed"); }
        vp_check(r && s.size() == 20u && std::memcmp(s.data(), d, 20u) == 0, "a failed read leaves the position, and the next one gives the string");
        unsigned char c = 0u;
        vp_check(in.read(c) && c == 7u && !in.read(c), "nothing else is consumed");
    }
    vp_leak_check();
}
