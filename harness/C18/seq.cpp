// Histories of an intrusive shared item set: membership, lookups and ownership counts agree with a mathematical set of items.
//VP name=one tier=both flags="-DVK=3 -DVBUCKETS=1" desc="one bucket (all items collide), four items of three classes with one pair equal, three operations"
//VP name=hash tier=both flags="-DVK=3 -DVBUCKETS=4 -DVHASH=3" desc="four buckets, colliding and distinct hashes, three operations"
//VP name=def tier=quick flags="-DVK=2 -DVHASH=1" desc="default bucket count, two operations"
//VP name=deep tier=thorough flags="-DVK=4 -DVBUCKETS=2 -DVHASH=1" desc="two buckets, four operations"
#include <vp.h>
#include <memory>
#include <utility>
#include <boost/intrusive/options.hpp>
#include <sharemind/IntrusiveUnorderedSharedItemSet.h>
#ifndef VHASH
#define VHASH 0
#endif
static int live = 0;
struct Item: sharemind::IntrusiveUnorderedSharedItemSetItemBase<Item> {
    int cls, tag = 0x17e; explicit Item(int c) : cls(c) { ++live; } ~Item() noexcept override { vp_check(tag == 0x17e, "destroyed once"); tag = 0; --live; }
    friend bool operator==(Item const & a, Item const & b) noexcept { return a.cls == b.cls; }
    friend std::size_t hash_value(Item const & i) noexcept { return VHASH ? std::size_t(i.cls) * VHASH : 5u; }
};
struct KeyHash { std::size_t operator()(long k) const noexcept { return VHASH ? std::size_t(k - 1000) * VHASH : 5u; } };
struct KeyEq { bool operator()(long k, Item const & i) const noexcept { return k - 1000 == i.cls; } bool operator()(Item const & i, long k) const noexcept { return k - 1000 == i.cls; } };
using S = sharemind::IntrusiveUnorderedSharedItemSet<Item>;
static constexpr int N = 4; static int const cls[N] = { 0, 1, 1, 2 };
int main() {
    vp_leak_mark();
    {
        std::shared_ptr<Item> p[N]; bool in[N] = {}; for (int i = 0; i < N; ++i) p[i] = std::make_shared<Item>(cls[i]);
#ifdef VBUCKETS
        std::unique_ptr<S> s(new S(VBUCKETS));
#else
        std::unique_ptr<S> s(new S);
#endif
        Item * raw[N]; for (int i = 0; i < N; ++i) raw[i] = p[i].get();
        bool outside[N]; for (int i = 0; i < N; ++i) outside[i] = true;
        auto const same = [&] {
            S const & c = *s; size_t n = 0; int want = 0;
            for (int i = 0; i < N; ++i) {
                n += in[i]; want += in[i] || outside[i];
                if (outside[i]) vp_check(p[i].use_count() == 1 + in[i], "the set holds one reference to each member and to nothing else");
                if (in[i]) { vp_check(raw[i]->tag == 0x17e, "members are alive"); auto q = S::retrieveSharedPtr(*raw[i]); vp_check(q.get() == raw[i] && q.use_count() == 2 + outside[i], "retrieveSharedPtr"); q.reset(); auto q2 = S::retrieveSharedPtr(c.iteratorTo(*raw[i])); vp_check(q2.get() == raw[i], "retrieveSharedPtr by iterator"); }
            }
            vp_check(live == want, "items live exactly while owned");
            vp_check(s->size() == n && c.empty() == (n == 0), "size and empty");
            size_t seen = 0; for (auto it = c.begin(); it != c.end(); ++it) { bool member = false; for (int i = 0; i < N; ++i) member |= in[i] && &*it == raw[i]; vp_check(member, "iteration visits members"); ++seen; }
            vp_check(seen == n, "iteration visits every member once");
            for (int k = 0; k < 4; ++k) {
                Item * e = nullptr; for (int i = 0; i < N; ++i) if (in[i] && cls[i] == k) e = raw[i];
                vp_check(s->find(1000L + k, KeyHash(), KeyEq()) == e, "find by key finds the equal member"); vp_check(c.find(1000L + k, KeyHash(), KeyEq()) == e, "const find");
            }
        };
        same();
        for (int o = 0; o < VK; ++o) {
            int const i = vp_choose(N, "item");
            switch (vp_choose(8, "operation")) {
            case 0: case 1: {
                vp_assume(outside[i]); int twin = -1; for (int j = 0; j < N; ++j) if (in[j] && cls[j] == cls[i]) twin = j;
                auto const r = s->insert(p[i]); vp_check(r.second == (twin < 0), "insert tells whether it inserted"); vp_check(&*r.first == raw[twin < 0 ? i : twin], "insert returns the member"); if (twin < 0) in[i] = true; break;
            }
            case 2: vp_assume(in[i]); s->erase(const_cast<S const &>(*s).iteratorTo(*raw[i])); in[i] = false; break;
            case 3: {   // erase by an equal item
                int twin = -1; for (int j = 0; j < N; ++j) if (in[j] && cls[j] == cls[i]) twin = j; vp_assume(outside[i] || in[i]);
                vp_check(s->erase(*raw[i]) == (twin >= 0 ? 1u : 0u), "erase returns the number erased"); if (twin >= 0) in[twin] = false; break;
            }
            case 4: { vp_assume(in[i]); auto q = s->take(const_cast<S const &>(*s).iteratorTo(*raw[i])); vp_check(q.get() == raw[i] && q.use_count() == 1 + outside[i], "take hands over the set's reference"); in[i] = false; if (!outside[i]) { p[i] = std::move(q); outside[i] = true; } break; }
            case 5: { vp_assume(in[i]); auto q = s->take(*raw[i]); vp_check(q.get() == raw[i] && q.use_count() == 1 + outside[i], "take hands over the set's reference"); in[i] = false; if (!outside[i]) { p[i] = std::move(q); outside[i] = true; } break; }
            case 6: vp_assume(outside[i]); p[i].reset(); outside[i] = false; break;
            default: s.reset(new S(3)); for (auto & x : in) x = false;
            }
            same();
        }
        s.reset(); for (auto & x : in) x = false;
        int want = 0; for (int i = 0; i < N; ++i) { want += outside[i]; if (outside[i]) vp_check(p[i].use_count() == 1, "destroying the set releases all"); }
        vp_check(live == want, "destroying the set releases all");
    }
    vp_check(live == 0, "no item leaks"); vp_leak_check();
}
