// Pools have as many workers as asked for; destroying (or joining) a participatory pool waits for every participant that is inside.
//VP name=meet tier=both flags="-DVM=1" opts="--preempt 1" shim=1 desc="two workers and two tasks which wait for each other, up to one preemption"
//VP name=meet.all tier=thorough flags="-DVM=1" opts="--preempt 3" shim=1 desc="two workers and two tasks which wait for each other, up to three preemptions"
//VP name=leave tier=both flags="-DVM=2" shim=1 desc="one participant of each of the five kinds, busy with a task while the pool is destroyed, every interleaving"
//VP name=leave2 tier=both flags="-DVM=3" opts="--preempt 1" shim=1 desc="two participants, each once or timed, busy while the pool is destroyed, up to one preemption"
//VP name=joins tier=both flags="-DVM=4" shim=1 desc="join without a stop, while a participant takes part once, every interleaving"
#include <vp.h>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <memory>
#include <new>
#include <mutex>
#include <thread>
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
using sharemind::ThreadPool; using sharemind::SimpleThreadPool; using sharemind::ParticipatoryThreadPool;
static std::mutex M; static std::condition_variable C; static int inside = 0;
static void meet(int n) { std::unique_lock<std::mutex> l(M); ++inside; C.notify_all(); while (inside < n) C.wait(l); }
static void await(int n) { std::unique_lock<std::mutex> l(M); while (inside < n) C.wait(l); }
static void scribble(unsigned char * p, std::size_t n) { std::memset(p, 0xA5, n); } // whoever is still inside would see this (and is a data race with it)
static void part(ParticipatoryThreadPool & p, int k) {
    using namespace std::chrono; auto const later = hours(1);
    switch (k) {
    case 0: vp_check(p.participateOnce(), "a task was run"); break;
    case 1: vp_check(p.participateOnceUntil(steady_clock::now() + later) == ThreadPool::Ok, "a task was run"); break;
    case 2: vp_check(p.participateOnceFor(later) == ThreadPool::Ok, "a task was run"); break;
    case 3: vp_check(p.participateUntil(steady_clock::now() + later) == ThreadPool::StopNotified, "left because of the stop"); break;
    default: p.participate();
    }
}
int main() {
    vp_leak_mark(); vp_horizon(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count() + 1000000000);
    {
#if VM == 1
        SimpleThreadPool p(2u); for (int i = 0; i < 2; ++i) p.submit(ThreadPool::createSimpleTask([] { meet(2); })); await(2);
#elif VM == 2
        alignas(ParticipatoryThreadPool) static unsigned char raw[sizeof(ParticipatoryThreadPool)]; auto * const p = new (raw) ParticipatoryThreadPool; auto & q = *p; int const k = vp_choose(5, "kind");
        std::thread t([&q, k] { part(q, k); }); p->submit(ThreadPool::createSimpleTask([] { meet(1); })); await(1); p->~ParticipatoryThreadPool(); scribble(raw, sizeof(raw)); t.join();
#elif VM == 3
        alignas(ParticipatoryThreadPool) static unsigned char raw[sizeof(ParticipatoryThreadPool)]; auto * const p = new (raw) ParticipatoryThreadPool; auto & q = *p; int const k = vp_choose(2, "kind"), k2 = vp_choose(2, "kind");
        std::thread t([&q, k] { part(q, k); }), u([&q, k2] { part(q, k2); });
        for (int i = 0; i < 2; ++i) p->submit(ThreadPool::createSimpleTask([] { meet(2); })); await(2); p->~ParticipatoryThreadPool(); scribble(raw, sizeof(raw)); t.join(); u.join();
#else
        alignas(ParticipatoryThreadPool) static unsigned char raw[sizeof(ParticipatoryThreadPool)]; auto * const p = new (raw) ParticipatoryThreadPool; auto & q = *p; int const k = vp_choose(3, "kind"); static bool over; over = false;
        std::thread t([&q, k] { part(q, k); }); p->submit(ThreadPool::createSimpleTask([] { meet(1); over = true; })); await(1); p->join(); vp_check(over, "the participant has left"); p->~ParticipatoryThreadPool(); scribble(raw, sizeof(raw)); t.join();
#endif
    }
    vp_leak_check();
}
