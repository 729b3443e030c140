// A strand on a thread pool under every interleaving of submitters, workers and the stopping thread.
//VP name=run1 tier=both flags="-DVM=1 -DVW=1" shim=1 desc="one worker, two jobs submitted and waited for, the strand and the pool destroyed: every interleaving"
//VP name=run21 tier=both flags="-DVM=1 -DVW=2 -DVJ=1" shim=1 desc="two workers, one job: every interleaving"
//VP name=run2 tier=quick flags="-DVM=1 -DVW=2" opts="--preempt 2" shim=1 desc="two workers, two jobs submitted and waited for, at most two preemptions"
//VP name=run2.p3 tier=thorough flags="-DVM=1 -DVW=2" opts="--preempt 3" shim=1 desc="two workers, two jobs submitted and waited for, at most three preemptions"
//VP name=stop1 tier=both flags="-DVM=2 -DVW=1" shim=1 desc="one worker, two jobs, the strand stopped or destroyed meanwhile: every interleaving"
//VP name=stop21 tier=both flags="-DVM=2 -DVW=2 -DVJ=1" shim=1 desc="two workers, one job, the strand stopped or destroyed meanwhile: every interleaving"
//VP name=stop2 tier=quick flags="-DVM=2 -DVW=2" opts="--preempt 2" shim=1 desc="two workers, two jobs, the strand stopped or destroyed meanwhile, at most two preemptions"
//VP name=stop2.p3 tier=thorough flags="-DVM=2 -DVW=2" opts="--preempt 3" shim=1 desc="two workers, two jobs, the strand stopped or destroyed meanwhile, at most three preemptions"
//VP name=two1 tier=quick flags="-DVM=3 -DVW=1" opts="--preempt 2" shim=1 desc="two submitting threads, one worker, at most two preemptions"
//VP name=two1.p3 tier=thorough flags="-DVM=3 -DVW=1" opts="--preempt 3" shim=1 desc="two submitting threads, one worker, at most three preemptions"
//VP name=two2 tier=quick flags="-DVM=3 -DVW=2" opts="--preempt 1" shim=1 desc="two submitting threads, two workers, at most one preemption"
//VP name=two2.p2 tier=thorough flags="-DVM=3 -DVW=2" opts="--preempt 2" shim=1 desc="two submitting threads, two workers, at most two preemptions"
//VP name=inside1 tier=both flags="-DVM=4 -DVW=1" shim=1 desc="a job that submits another one or stops the strand from inside, one worker: every interleaving"
//VP name=inside2 tier=both flags="-DVM=4 -DVW=2" shim=1 desc="a job that submits another one or stops the strand from inside, two workers: every interleaving"
//VP name=strands tier=both flags="-DVM=5 -DVW=1" shim=1 desc="two strands on one worker: every interleaving"
//VP name=strands2 tier=thorough flags="-DVM=5 -DVW=2" opts="--preempt 2" shim=1 desc="two strands on two workers, at most two preemptions"
//VP name=stops tier=quick flags="-DVM=6 -DVW=1 -DVJ=1" opts="--preempt 3" shim=1 desc="one worker, one job, two threads stopping the strand at once, at most three preemptions"
//VP name=stops.all tier=thorough flags="-DVM=6 -DVW=1 -DVJ=1" shim=1 desc="one worker, one job, two threads stopping the strand at once: every interleaving"
//VP name=stops2 tier=thorough flags="-DVM=6 -DVW=2 -DVJ=1" opts="--preempt 2" shim=1 desc="two workers, one job, two threads stopping the strand at once, at most two preemptions"
//VP name=other tier=quick flags="-DVM=7 -DVW=2" opts="--preempt 2" shim=1 desc="a job that stops another strand, two workers, at most two preemptions"
//VP name=other.p3 tier=thorough flags="-DVM=7 -DVW=2" opts="--preempt 3" shim=1 desc="a job that stops another strand, two workers, at most three preemptions"
//VP name=spurious tier=quick flags="-DVM=6 -DVW=1 -DVJ=1 -DVS=1" opts="--preempt 2" shim=1 desc="one worker, one job, two threads stopping the strand at once, one spurious wake-up, at most two preemptions"
//VP name=spurious1 tier=both flags="-DVM=2 -DVW=1 -DVJ=1 -DVS=1" opts="--preempt 2" shim=1 desc="one worker, one job, the strand stopped or destroyed meanwhile, one spurious wake-up, at most two preemptions"
//VP name=pool tier=both flags="-DVM=8 -DVW=1" shim=1 desc="one worker, two jobs, the pool stopped meanwhile and the strand after it: every interleaving"
//VP name=many tier=both flags="-DVM=9 -DVW=0" shim=1 desc="a strand destroyed with 3000 jobs which were not run: it must not recurse once for each"
#include <vp.h>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <sharemind/AlignedAllocator.h>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/Strand.h>
#ifndef VJ
#define VJ 2
#endif
using sharemind::ThreadPool; using sharemind::SimpleThreadPool; using sharemind::Strand;
static std::mutex M; static std::condition_variable C; static int done = 0; static std::atomic<int> alive{0};
static bool joined = false; // written after a join, read by jobs
static int inside = 0, next = 0; // shared by the jobs only, without any lock: two jobs at once are also a data race
struct Job { int i; Job(int n) : i(n) { alive.fetch_add(1, std::memory_order_relaxed); } Job(Job const & o) : i(o.i) { alive.fetch_add(1, std::memory_order_relaxed); } ~Job() { alive.fetch_sub(1, std::memory_order_relaxed); }
    void operator()() const { vp_check(!joined, "no job runs after the strand was stopped and joined"); vp_check(inside == 0, "no two jobs at once"); inside = 1; vp_yield(); if (i >= 0) { vp_check(next == i, "in order of submission, each once"); } ++next; inside = 0; std::lock_guard<std::mutex> g(M); ++done; C.notify_all(); } };
static void waitFor(int n) { std::unique_lock<std::mutex> l(M); while (done < n) C.wait(l); }
static ThreadPool::Task job(int i) { return ThreadPool::createSimpleTask(Job(i)); }
int main() {
#ifdef VS
    vp_spurious(VS);
#endif
    { auto const p = std::allocate_shared<SimpleThreadPool>(sharemind::AlignedAllocator<SimpleThreadPool>(), VW);
#if VM == 1
      { Strand s(p); for (int i = 0; i < VJ; ++i) s.submit(job(i)); waitFor(VJ); } joined = true; vp_check(next == VJ, "every job runs");
#elif VM == 2
      { Strand s(p); for (int i = 0; i < VJ; ++i) s.submit(job(i)); if (vp_choose(2, "explicitly")) { auto const q = s.stopAndJoin(); vp_check(q == p, "the pool is handed back"); joined = true; s.submit(job(-1)); vp_check(!s.stopAndMaybeJoin(), "handed back once"); } } joined = true; vp_check(next <= VJ, "a prefix of the jobs");
#elif VM == 3
      { Strand s(p); std::thread t([&s] { s.submit(job(-1)); }); s.submit(job(-1)); waitFor(2); t.join(); } joined = true; vp_check(next == 2, "both run");
#elif VM == 4
      { std::unique_ptr<Strand> s(new Strand(p)); Strand & r = *s; bool const stop = vp_choose(2, "stop inside"); 
        s->submit(ThreadPool::createSimpleTask([&r, stop] { vp_check(inside == 0, "no two jobs at once"); if (stop) { r.submit(job(-1)); auto const q = r.stopAndMaybeJoin(); vp_check(bool(q), "the pool is handed back"); } else r.submit(job(1)); vp_check(next == 0, "the job submitted from inside waits"); next = 1; std::lock_guard<std::mutex> g(M); ++done; C.notify_all(); }));
        waitFor(stop ? 1 : 2); s.reset(); joined = true; vp_check(next == (stop ? 1 : 2), "run unless stopped"); }
#elif VM == 6
      { Strand s(p); for (int i = 0; i < VJ; ++i) s.submit(job(i)); std::shared_ptr<ThreadPool> a, b; bool const maybe = vp_choose(2, "maybe"); std::thread t([&] { a = maybe ? s.stopAndMaybeJoin() : s.stopAndJoin(); { std::lock_guard<std::mutex> g(M); joined = true; } });
        b = s.stopAndJoin(); t.join(); vp_check(joined, "both return"); vp_check((a == p) != (b == p), "the pool is handed back once"); vp_check(next <= VJ, "a prefix of the jobs"); }
#elif VM == 8
      { Strand * const s = new Strand(p); for (int i = 0; i < VJ; ++i) s->submit(job(i)); p->stopAndJoin(); joined = true;
        static std::atomic<int> who(-1); std::thread t([s] { who = vp_tid(); delete s; who = -2; });
        while (who == -1) vp_yield();
        while (who >= 0 && !vp_is_blocked(who)) vp_yield();
        vp_check(who == -2, "destroying a strand returns although its pool was stopped before it ran all jobs of the strand"); t.join(); }
#elif VM == 9
      { Strand s(p); for (int i = 0; i < 3000; ++i) s.submit(job(i)); }
#elif VM == 7
      { Strand s(p), u(p); static bool stopped; stopped = false; u.submit(ThreadPool::createSimpleTask([] { vp_check(!stopped, "no job runs after its strand was stopped"); vp_yield(); vp_check(!stopped, "stopping a strand waits for its job"); }));
        s.submit(ThreadPool::createSimpleTask([&u, &p] { auto const q = u.stopAndMaybeJoin(); stopped = true; vp_check(q == p, "the pool is handed back"); std::lock_guard<std::mutex> g(M); ++done; C.notify_all(); })); waitFor(1); }
#else
      { Strand s(p), u(p); s.submit(job(-1)); int other = 0; u.submit(ThreadPool::createSimpleTask([&other] { other = 1; std::lock_guard<std::mutex> g(M); ++done; C.notify_all(); })); waitFor(2); vp_check(other == 1 && next == 1, "strands run independently"); } joined = true;
#endif
    }
    vp_check(alive.load() == 0, "every job is destroyed exactly once");
}
