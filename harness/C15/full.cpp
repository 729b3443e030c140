// Exhaustion: all 256 identifiers of an 8-bit pool can be held; then, and only then, reserving throws and changes nothing.
//VP name=u8 tier=quick flags="-DVT=uint8_t -DVR=16" opts="--max-steps 50000000" desc="8-bit identifiers, all held, sixteen single released identifier"
//VP name=strong tier=quick flags="-DVR=16 -DVT=Strong -DVSTRONG" opts="--max-steps 50000000" desc="strong 8-bit identifiers, all held, sixteen single released identifier"
//VP name=all tier=thorough flags="-DVT=uint8_t -DVR=256" opts="--max-steps 50000000" desc="8-bit identifiers, all held, every single released identifier"
#include <vp.h>
#include <cstdint>
#include <memory>
#include <utility>
#include <sharemind/IdentifierPool.h>
struct Tag {};
using Strong = sharemind::StrongType<uint8_t, Tag>;
using P = sharemind::IdentifierPool<VT>; using H = P::IdHolder;
#ifdef VSTRONG
static uint64_t num(H const & h) { return h.id().get(); }
#else
static uint64_t num(H const & h) { return h.id(); }
#endif
static bool throws(P & p) { try { H h(p.reserve()); return false; } catch (P::ReserveException const & e) { vp_check(e.what() && *e.what(), "message"); return true; } }
int main() {
    vp_leak_mark();
    {
        P p; bool held[256] = {}; H h[256];
        static unsigned const pre[] = { 0, 3, 255 }; unsigned const k = pre[vp_choose(3, "position")];
        for (unsigned i = 0; i < k; ++i) H(p.reserve());
        for (unsigned i = 0; i < 256; ++i) { h[i] = p.reserve(); uint64_t const x = num(h[i]); vp_check(h[i].valid() && x < 256 && !held[x], "every identifier is handed out once"); held[x] = true; }
        vp_check(throws(p), "an exhausted pool refuses"); vp_check(throws(p), "an exhausted pool keeps refusing");
        for (int r = 0; r < 2; ++r) {
            unsigned const i = vp_choose(r ? 2 : VR, "released") * (r ? 100 : 256 / VR) + (r ? 0 : VR == 256 ? 0 : 3); uint64_t const x = num(h[i]);
            switch (r ? 0u : vp_choose(5, "how")) {
            case 0: h[i].release(); break;
            case 1: h[i] = H(); break;
            case 2: { H const t(std::move(h[i])); break; }
            case 3: { unsigned const j = (i + 1u) % 256u; uint64_t const y = num(h[j]); h[i] = std::move(h[j]); vp_check(!h[j].valid() && num(h[i]) == y, "moved"); h[j] = std::move(h[i]); vp_check(num(h[j]) == y, "moved back"); break; }
            default: { h[i] = static_cast<H &&>(h[i]); vp_check(h[i].valid() && num(h[i]) == x && throws(p), "assigned to itself"); h[i].release(); h[i].release(); break; }
            }
            vp_check(!h[i].valid(), "released");
            h[i] = p.reserve(); vp_check(h[i].valid() && num(h[i]) == x, "the only free identifier is handed out again"); vp_check(throws(p), "exactly once");
        }
        uint64_t const a = num(h[7]), b = num(h[200]); h[7].release(); h[200].release();
        h[7] = p.reserve(); h[200] = p.reserve(); uint64_t const c = num(h[7]), d = num(h[200]);
        vp_check((c == a && d == b) || (c == b && d == a), "released identifiers become available again"); vp_check(throws(p), "exhausted");
    }
    vp_leak_check();
}
