// Tasks and pools whose creation runs out of memory leave nothing behind.
//VP name=oom tier=both shim=1 replay=no desc="a pool with up to two workers, then up to two tasks of the three kinds, any one allocation of the creation of one of these failing; then run in order: every interleaving"
//VP name=many tier=both flags="-DVMANY=3000" shim=1 desc="a pool destroyed with 3000 tasks which were not run: it must not recurse once for each"
#include <vp.h>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <new>
#include <thread>
#include <utility>
#include <vector>
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
using sharemind::ThreadPool; using sharemind::SimpleThreadPool; using sharemind::ParticipatoryThreadPool;
static std::atomic<int> alive{0}; static int ran = 0;
struct Job { int i; Job(int n) : i(n) { alive.fetch_add(1, std::memory_order_relaxed); } Job(Job const & o) : i(o.i) { alive.fetch_add(1, std::memory_order_relaxed); } ~Job() { alive.fetch_sub(1, std::memory_order_relaxed); }
    void operator()() const { vp_check(ran == i, "in order of submission, each once"); ++ran; } void operator()(ThreadPool::Task &&) const { (*this)(); } };
template <class P, class F> static void pool(F const & run) {
    std::unique_ptr<P> p; alignas(P) static char mem[sizeof(P)]; P * q = nullptr;
    vp_alloc_may_fail(1); try { q = run(mem); } catch (std::bad_alloc const &) { vp_witness("pool out of memory"); } vp_alloc_may_fail(0);
    if (q) q->~P();
}
int main() {
    vp_leak_mark();
#ifdef VMANY
    { ParticipatoryThreadPool p; for (int i = 0; i < VMANY; ++i) p.submit(ThreadPool::createSimpleTask(Job(i))); if (vp_choose(2, "run one")) vp_check(p.participateOnce() && ran == 1, "a task is run"); }
#else
    switch (vp_choose(3, "what")) {
    case 0: { std::size_t const n = vp_choose(3, "workers"); pool<SimpleThreadPool>([n](void * m) { return new (m) SimpleThreadPool(n); }); break; }
    case 1: pool<ParticipatoryThreadPool>([](void * m) { return new (m) ParticipatoryThreadPool; }); break;
    default: {
        ParticipatoryThreadPool p; ThreadPool::Task t[2]; std::unique_ptr<ThreadPool::ReusableTask> r[2]; int n = 0;
        int const bad = int(vp_choose(2, "which"));
        for (int k = 0; k < 2; ++k) {
            int const kind = int(vp_choose(3, "kind")); bool ok = false; int const before = alive.load(std::memory_order_relaxed);
            if (k == bad) vp_alloc_may_fail(1);
            try {
                if (kind == 0) t[k] = ThreadPool::createSimpleTask(Job(n)); else if (kind == 1) t[k] = ThreadPool::createTask(Job(n)); else r[k].reset(new ThreadPool::ReusableTask([j = Job(n)] { j(); }));
                ok = true;
            } catch (std::bad_alloc const &) { vp_witness("task out of memory"); }
            vp_alloc_may_fail(0); vp_check(alive.load(std::memory_order_relaxed) == before + (ok ? 1 : 0), "the callable lives exactly in the task");
            if (ok) { ++n; p.submit(kind == 2 ? std::move(*r[k]) : std::move(t[k])); }
        }
        for (int k = 0; k < n; ++k) vp_check(p.participateOnce(), "a task is run"); vp_check(ran == n, "every task runs"); p.stopAndJoin();
    } }
#endif
    vp_check(alive.load(std::memory_order_relaxed) == 0, "every task is destroyed exactly once"); vp_leak_check();
}
