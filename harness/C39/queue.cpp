// The multi-producer queue under every interleaving of producers and the consumer.
//VP name=p2 tier=both flags="-DVA=2 -DVB=1 -DVC=4" shim=1 desc="two producers (two elements and one) and a consumer making four attempts: every interleaving, data races on the elements"
//VP name=p22 tier=thorough flags="-DVA=2 -DVB=2 -DVC=5" shim=1 desc="two producers (two elements each) and a consumer making five attempts: every interleaving"
//VP name=p3 tier=thorough flags="-DVA=1 -DVB=1 -DVD=1 -DVC=4" shim=1 desc="three producers and a consumer: every interleaving"
//VP name=seq tier=both flags="-DVSEQ=5" shim=1 desc="one thread: any five pushes, pops and queries, nodes pushed again, every value"
#include <vp.h>
#include <atomic>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/MpscWaitFreeSemiIntrusiveQueue.h>
static std::atomic<int> live{0};
struct D { int p = -1, i = 0; D() noexcept { live.fetch_add(1, std::memory_order_relaxed); } D(int a, int b) noexcept : p(a), i(b) { live.fetch_add(1, std::memory_order_relaxed); } D(D && o) noexcept : p(o.p), i(o.i) { o.p = -1; live.fetch_add(1, std::memory_order_relaxed); } D & operator=(D && o) noexcept { p = o.p; i = o.i; o.p = -1; return *this; } ~D() { live.fetch_sub(1, std::memory_order_relaxed); } };
using Q = sharemind::MpscWaitFreeSemiIntrusiveQueue<D>;
#ifdef VSEQ
int main() {
    vp_leak_mark();
    { std::unique_ptr<Q> q(new Q()); int vals[VSEQ], head = 0, tail = 0; std::unique_ptr<Q::Node> kept;
      for (int k = 0; k < VSEQ; ++k) { switch (vp_choose(kept ? 3 : 2, "operation")) {
        case 0: { int const x = vp_any<int>("x"); q->push(std::unique_ptr<Q::Node>(new Q::Node(1, x))); vals[tail++] = x; } break;
        case 1: { auto n = q->pop(); vp_check(bool(n) == (head != tail), "a pop succeeds exactly when there is an element"); if (n) { vp_check(n->data.p == 1 && n->data.i == vals[head], "first in, first out"); vp_check(!n->next.load(), "a popped node may be pushed again"); ++head; kept = std::move(n); } } break;
        default: { int const x = vp_any<int>("x"); kept->data = D(1, x); q->push(std::move(kept)); vals[tail++] = x; } break; }
        vp_check(q->empty() == (head == tail), "empty"); } }
    vp_check(live.load() == 0, "all elements destroyed"); vp_leak_check();
}
#else
#ifndef VD
#define VD 0
#endif
static std::atomic<int> begun[3], done[3];
static void produce(Q & q, int id, int n) { for (int i = 0; i < n; ++i) { std::unique_ptr<Q::Node> n(new Q::Node(id, i)); begun[id].store(i + 1, std::memory_order_relaxed); q.push(std::move(n)); done[id].store(i + 1, std::memory_order_relaxed); } }
int main() {
    {
        Q q; int got[3] = {0, 0, 0}; int const want[3] = {VA, VB, VD};
        std::thread a([&] { produce(q, 0, VA); }), b([&] { produce(q, 1, VB); });
#if VD
        std::thread c([&] { produce(q, 2, VD); });
#endif
        auto const take = [&](std::unique_ptr<Q::Node> n) { int const p = n->data.p; vp_check(p >= 0 && p < 3 && n->data.i == got[p] && got[p] < want[p], "each producer's elements come out once, in its order"); ++got[p]; };
        for (int k = 0; k < VC; ++k) {
            int const d[3] = {done[0].load(std::memory_order_relaxed), done[1].load(std::memory_order_relaxed), done[2].load(std::memory_order_relaxed)};
            if (auto n = q.pop()) take(std::move(n)); else { bool progress = false; for (int j = 0; j < 3; ++j) progress = progress || d[j] < begun[j].load(std::memory_order_relaxed); vp_check(progress || d[0] + d[1] + d[2] == got[0] + got[1] + got[2], "a pop fails only while a push is in progress or nothing is there"); }
        }
        a.join(); b.join();
#if VD
        c.join();
#endif
        while (auto n = q.pop()) take(std::move(n)); vp_check(q.empty(), "empty after everything was taken"); for (int j = 0; j < 3; ++j) vp_check(got[j] == want[j], "every element comes out");
    }
    vp_check(live.load() == 0, "all elements destroyed");
}
#endif
