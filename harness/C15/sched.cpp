// Threads reserving and releasing identifiers of one pool.
//VP name=two tier=both flags="-DVN=2" desc="8-bit identifiers, two threads with two reservations each, every schedule"
//VP name=three tier=thorough flags="-DVN=3" desc="8-bit identifiers, three threads, every schedule"
#include <vp.h>
#include <cstdint>
#include <memory>
#include <thread>
#include <utility>
#include <vector>
#include <sharemind/IdentifierPool.h>
using P = sharemind::IdentifierPool<uint8_t>; using H = P::IdHolder;
int main() {
    vp_leak_mark();
    {
        P p; H keep[VN];
        H first(p.reserve());
        if (vp_choose(2, "wrap")) for (int i = 0; i < 254; ++i) H(p.reserve());
        std::vector<std::thread> t;
        for (int i = 0; i < VN; ++i) t.emplace_back([&, i] {
            H a(p.reserve()); uint8_t const x = a.id();
            { H b(p.reserve()); vp_check(b.id() != x && b.id() != first.id(), "held identifiers are unique"); if (i == 0) keep[i] = std::move(b); }
            vp_check(a.id() == x && x != first.id(), "a held identifier does not change");
            if (i) keep[i] = std::move(a);
        });
        for (auto & x : t) x.join();
        for (int i = 0; i < VN; ++i) { vp_check(keep[i].valid() && keep[i].id() != first.id(), "unique"); for (int j = 0; j < i; ++j) vp_check(keep[i].id() != keep[j].id(), "identifiers held by different threads differ"); }
    }
    vp_leak_check();
}
