// Buckets: every entry is in exactly the bucket of its key, and rehashing, reserving and load factors change no content.
//VP name=buckets tier=both shim=1 desc="arbitrary map of up to four of six keys under hashes which coincide, share a bucket or differ, rehashed, reserved or given another load factor up to twice, one key erased: every bucket"
#include <vp.h>
#include <cstddef>
#include <functional>
#include <iterator>
#include <memory>
#include <utility>
#include <sharemind/UnorderedMap.h>
struct H { std::size_t operator()(unsigned k) const noexcept { return (k & 3u) * 7u; } };
using Map = sharemind::UnorderedMap<unsigned, int, H>;
static void same(Map & m, bool const * in, int const * v) {
    Map const & c = m; std::size_t n = 0u; for (unsigned k = 0u; k < 6u; ++k) n += in[k];
    vp_check(c.size() == n, "size"); std::size_t all = 0u; unsigned seen = 0u;
    for (std::size_t b = 0u; b < c.bucket_count(); ++b) {
        std::size_t here = 0u;
        for (auto it = c.begin(b); it != c.end(b); ++it) { vp_check(it->first < 6u && in[it->first] && it->second == v[it->first], "a bucket holds entries of the map"); vp_check(c.bucket(it->first) == b && c.hash_bucket(H()(it->first)) == b, "each in the bucket of its key and hash"); vp_check(!((seen >> it->first) & 1u), "once"); seen |= 1u << it->first; ++here; }
        vp_check(std::size_t(std::distance(m.begin(b), m.end(b))) == here && std::size_t(std::distance(c.cbegin(b), c.cend(b))) == here && c.bucket_size(b) == here, "bucket_size"); all += here;
    }
    vp_check(all == n, "every entry is in a bucket");
    for (unsigned k = 0u; k < 6u; ++k) { vp_check(c.contains(k) == in[k], "contents"); if (in[k]) vp_check(c.at(k) == v[k] && c.bucket(c.find(k)) == c.bucket(k), "value, and bucket by iterator"); }
    vp_check(c.load_factor() == float(n) / float(c.bucket_count()), "load factor"); vp_check(c.bucket_count() <= c.max_bucket_count() && c.size() <= c.max_size(), "limits");
}
int main() {
    vp_leak_mark();
    {
        Map m(std::size_t(vp_choose(2, "buckets")) * 5u + 1u); bool in[6] = {}; int v[6] = {};
        unsigned const pick = unsigned(vp_choose(8, "keys")); static unsigned char const sets[8] = {0u, 1u, 2u | 16u, 1u | 2u | 4u, 1u | 16u | 2u | 32u, 1u | 2u | 4u | 8u, 8u, 2u | 4u | 32u};
        for (unsigned k = 0u; k < 6u; ++k) if ((sets[pick] >> k) & 1u) { in[k] = true; v[k] = vp_any<int>("value"); m.emplace(k, v[k]); }
        same(m, in, v);
        for (int step = 0; step < 2; ++step) {
            switch (vp_choose(6, "operation")) {
            case 0: break;
            case 1: { std::size_t const n = std::size_t(vp_choose(4, "n")) * 9u; m.rehash(n); vp_check(m.bucket_count() >= n, "rehash"); break; }
            case 2: { std::size_t const n = std::size_t(vp_choose(4, "n")) * 9u; m.reserve(n); vp_check(float(n) <= m.max_load_factor() * float(m.bucket_count()), "reserve"); std::size_t const b = m.bucket_count(); if (n > 6u) { for (unsigned k = 0u; k < 6u; ++k) if (!in[k]) { in[k] = true; v[k] = int(k); m.emplace(k, v[k]); } vp_check(m.bucket_count() == b, "room for what was reserved"); } break; }
            case 3: { float const f = vp_choose(2, "f") ? 0.5f : 2.f; m.max_load_factor(f); vp_check(m.max_load_factor() == f, "max_load_factor"); m.rehash(0u); vp_check(m.load_factor() <= f, "load factor within its maximum after rehash"); break; }
            case 4: { m = {std::pair<unsigned const, int>(5u, 7), std::pair<unsigned const, int>(1u, 8), std::pair<unsigned const, int>(5u, 9)}; for (bool & b : in) b = false; in[5] = in[1] = true; v[5] = 7; v[1] = 8; break; }
            default: { unsigned const k = unsigned(vp_choose(6, "k")); vp_check(m.erase(k) == in[k], "erase"); in[k] = false; break; }
            }
            same(m, in, v);
        }
        { float const f = m.max_load_factor(); m = {std::pair<unsigned const, int>(2u, 4)}; vp_check(m.max_load_factor() == f, "a list of entries keeps the load factor"); Map n(m); n.swap(m); vp_check(m.max_load_factor() == f && n.max_load_factor() == f && m.size() == 1u && m.at(2u) == 4, "a copy keeps the load factor"); }
    }
    vp_leak_check();
}
