// Thread pools under every interleaving of submitters, workers, participants and the stopping thread.
//VP name=run1 tier=both flags="-DVM=1 -DVW=1 -DVT=2" shim=1 desc="one worker, two tasks submitted and waited for, then the pool is destroyed: every interleaving"
//VP name=run2 tier=both flags="-DVM=1 -DVW=2 -DVT=2" shim=1 desc="two workers, two tasks submitted and waited for: every interleaving"
//VP name=stop1 tier=both flags="-DVM=2 -DVW=1 -DVT=2" shim=1 desc="one worker, two tasks submitted, the pool stopped while they may be running or waiting: every interleaving"
//VP name=stop2 tier=both flags="-DVM=2 -DVW=2 -DVT=1" shim=1 desc="two workers, one task submitted, the pool stopped"
//VP name=two tier=quick flags="-DVM=3 -DVW=1" opts="--preempt 2" shim=1 desc="two threads submit one task each to one worker and wait for them, at most two preemptions"
//VP name=two.all tier=thorough flags="-DVM=3 -DVW=1" shim=1 desc="two threads submit one task each to one worker and wait for them, every interleaving"
//VP name=run1t3 tier=thorough flags="-DVM=1 -DVW=1 -DVT=3" shim=1 desc="one worker, three tasks submitted and waited for: every interleaving"
//VP name=stop2t2 tier=thorough flags="-DVM=2 -DVW=2 -DVT=2" shim=1 desc="two workers, two tasks, the pool stopped meanwhile: every interleaving"
//VP name=again tier=both flags="-DVM=4 -DVW=1" shim=1 desc="a task that submits itself again from inside, and a reusable task submitted twice"
//VP name=part tier=both flags="-DVM=5" shim=1 desc="one participant, participating once or until stopped, against a submitter that stops the pool"
//VP name=timed tier=both flags="-DVM=6" shim=1 desc="a participant with any deadline (once or repeatedly) against a submitter"
//VP name=timed2 tier=both flags="-DVM=7" shim=1 desc="a participant with any deadline next to one that waits for tasks without end: the first one returns by its deadline"
//VP name=late tier=both flags="-DVM=8" shim=1 desc="a pool stopped with up to two tasks left: every way to participate, with any deadline past or to come, runs none of them and reports the stop"
//VP name=joins tier=both flags="-DVM=9 -DVW=1" shim=1 desc="one worker, up to one task, two threads stopping, joining and asking for the state at once: every interleaving"
//VP name=joins2 tier=thorough flags="-DVM=9 -DVW=2" opts="--preempt 2" shim=1 desc="two workers, up to one task, two threads stopping, joining and asking for the state at once, at most two preemptions"
//VP name=nothread tier=both flags="-DVM=10" replay=no shim=1 desc="up to three workers, any one of which cannot be created: every interleaving"
//VP name=spurious tier=both flags="-DVM=1 -DVW=1 -DVT=1 -DVS=1" shim=1 desc="one worker, one task, one spurious wake-up: every interleaving"
//VP name=spurious2 tier=both flags="-DVM=2 -DVW=2 -DVT=1 -DVS=1" opts="--preempt 2" shim=1 desc="two workers, one task, the pool stopped, one spurious wake-up, at most two preemptions"
//VP name=spurious3 tier=both flags="-DVM=9 -DVW=1 -DVS=1" opts="--preempt 2" shim=1 desc="one worker, up to one task, two threads stopping, joining and asking for the state at once, one spurious wake-up, at most two preemptions"
#include <vp.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <system_error>
#include <thread>
#include <utility>
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
#ifndef VT
#define VT 2
#endif
using sharemind::ThreadPool; using sharemind::SimpleThreadPool; using sharemind::ParticipatoryThreadPool;
static std::mutex M; static std::condition_variable C; static int ran[4], done = 0, order[4]; static std::atomic<int> alive{0}; static bool joined = false;
struct Job { int i; Job(int n) : i(n) { alive.fetch_add(1, std::memory_order_relaxed); } Job(Job const & o) : i(o.i) { alive.fetch_add(1, std::memory_order_relaxed); } ~Job() { alive.fetch_sub(1, std::memory_order_relaxed); }
    void operator()() const { std::lock_guard<std::mutex> g(M); vp_check(!joined, "no task runs after the pool was joined"); vp_check(++ran[i] == 1, "a task runs at most once"); order[done++] = i; C.notify_all(); } };
static void waitFor(int n) { std::unique_lock<std::mutex> l(M); while (done < n) C.wait(l); }
static int finished() { std::lock_guard<std::mutex> g(M); joined = true; return done; }
static void inOrder(int n) { for (int k = 0; k < n; ++k) vp_check(order[k] == k, "tasks are taken in order of submission"); }
int main() {
#ifdef VS
    vp_spurious(VS);
#endif
#if VM == 1 || VM == 2
    { SimpleThreadPool p(VW); for (int i = 0; i < VT; ++i) p.submit(ThreadPool::createSimpleTask(Job(i)));
#if VM == 1
      waitFor(VT); 
#else
      if (vp_choose(2, "explicitly")) { p.stopAndJoin(); vp_check(p.stopNotified(), "stopped"); int const d = finished(); p.submit(ThreadPool::createSimpleTask(Job(3))); (void) d; } 
#endif
    }
    int const d = finished(); if (VM == 1) vp_check(d == VT, "all run"); if (VW == 1) inOrder(d);
#elif VM == 3
    { SimpleThreadPool p(VW); std::thread t([&p] { p.submit(ThreadPool::createSimpleTask(Job(0))); }); p.submit(ThreadPool::createSimpleTask(Job(1))); waitFor(2); t.join(); } vp_check(finished() == 2 && ran[0] == 1 && ran[1] == 1, "both run");
#elif VM == 4
    { std::unique_ptr<ThreadPool::ReusableTask> r; static int reused; reused = 0; SimpleThreadPool p(VW);
      if (vp_choose(2, "reusable")) { r.reset(new ThreadPool::ReusableTask([j = Job(3)] { std::lock_guard<std::mutex> g(M); ++reused; ++done; C.notify_all(); })); p.submit(std::move(*r)); waitFor(1); vp_check(bool(*r), "the task comes back before it runs"); p.submit(std::move(*r)); waitFor(2); vp_check(reused == 2, "run once per submission"); p.stopAndJoin(); }
      else { struct A { Job j; SimpleThreadPool & p; int n; A(Job const & a, SimpleThreadPool & b) : j(a), p(b), n(0) {} A(A const &) = default; void operator()(ThreadPool::Task && t) { bool again; { std::lock_guard<std::mutex> g(M); again = ++n < 2; if (!again) { ++done; C.notify_all(); } } if (again) p.submit(std::move(t)); } }; p.submit(ThreadPool::createTask(A(Job(3), p))); waitFor(1); } }
    finished();
#elif VM == 5
    { ParticipatoryThreadPool p; bool const once = vp_choose(2, "once"), run = vp_choose(2, "wait for it"); bool got = false; std::thread t([&] { if (once) got = p.participateOnce(); else p.participate(); });
      p.submit(ThreadPool::createSimpleTask(Job(0))); if (run) waitFor(1); p.stopAndJoin(); if (!once && vp_choose(2, "late")) p.participate(); t.join(); if (once) vp_check(got == (ran[0] == 1), "reports whether a task was run"); if (run) vp_check(ran[0] == 1, "run"); vp_check(!p.participateOnce(), "nothing is run once stopped"); } finished();
#elif VM == 9
    { SimpleThreadPool p(VW); bool const task = vp_choose(2, "task"); if (task) p.submit(ThreadPool::createSimpleTask(Job(0)));
      std::thread t([&] { if (vp_choose(2, "ask")) { bool const s = p.stopNotified(); p.stopAndJoin(); (void) s; } else { p.notifyStop(); p.join(); } vp_check(p.stopNotified(), "stopped"); finished(); });
      p.stopAndJoin(); vp_check(p.stopNotified(), "stopped"); finished(); t.join(); }
#elif VM == 10
    { vp_leak_mark(); int const n = vp_choose(4, "workers"); vp_thread_failures = 1; bool made = false; try { SimpleThreadPool p(static_cast<std::size_t>(n)); made = true; vp_check(!p.stopNotified(), "not stopped"); if (n) { p.submit(ThreadPool::createSimpleTask(Job(0))); waitFor(1); } } catch (std::system_error const &) { vp_check(!made && vp_thread_failures == 0, "passed on when a thread cannot be created"); vp_witness("a thread cannot be created"); }
      vp_check(made == (vp_thread_failures == 1), "constructed unless a thread cannot be created"); finished(); vp_leak_check(); }
#elif VM == 7
    { ParticipatoryThreadPool p; bool const once = vp_choose(2, "once"), task = vp_choose(2, "task"); std::thread w([&] { p.participate(); }); if (task) p.submit(ThreadPool::createSimpleTask(Job(0)));
      auto const dl = std::chrono::steady_clock::now() + std::chrono::nanoseconds(vp_range<int>("ns", 0, 1000)); auto const s = once ? p.participateOnceUntil(dl) : p.participateUntil(dl); vp_check(s == ThreadPool::Timeout || (once && task && s == ThreadPool::Ok), "returns by its deadline"); if (s == ThreadPool::Timeout) vp_check(std::chrono::steady_clock::now() >= dl, "no time-out before the deadline"); if (task) waitFor(1); p.stopAndJoin(); w.join(); } finished();
#elif VM == 8
    { ParticipatoryThreadPool p; int const n = vp_choose(3, "tasks"); if (n > 0) p.submit(ThreadPool::createSimpleTask(Job(0))); if (vp_choose(2, "early")) p.notifyStop(); if (n > 1) p.submit(ThreadPool::createSimpleTask(Job(1)));
      p.notifyStop(); finished(); int const ns = vp_range<int>("ns", -1000, 1000); auto const dl = std::chrono::steady_clock::now() + std::chrono::nanoseconds(ns);
      for (int k = 0; k < 2; ++k) switch (vp_choose(6, "how")) {
      case 0: p.participate(); break;
      case 1: vp_check(!p.participateOnce(), "no task was run"); break;
      case 2: vp_check(p.participateUntil(dl) == ThreadPool::StopNotified, "stopped"); break;
      case 3: vp_check(p.participateFor(std::chrono::nanoseconds(ns)) == ThreadPool::StopNotified, "stopped"); break;
      case 4: vp_check(p.participateOnceUntil(dl) == ThreadPool::StopNotified, "stopped"); break;
      default: vp_check(p.participateOnceFor(std::chrono::nanoseconds(ns)) == ThreadPool::StopNotified, "stopped"); break;
      } vp_check(p.stopNotified(), "stopped"); }
#else
    { ParticipatoryThreadPool p; bool const once = vp_choose(2, "once"); ThreadPool::Status s = ThreadPool::Ok; auto const dl = std::chrono::steady_clock::now() + std::chrono::nanoseconds(vp_range<int>("ns", 0, 1000)); bool const stop = vp_choose(2, "stop");
      std::thread t([&] { s = once ? p.participateOnceUntil(dl) : p.participateUntil(dl); bool r; { std::lock_guard<std::mutex> g(M); r = ran[0] == 1; } if (once) vp_check((s == ThreadPool::Ok) == r, "Ok exactly when a task was run"); else vp_check(s != ThreadPool::Ok, "participates until the deadline or the stop"); if (s == ThreadPool::Timeout) vp_check(std::chrono::steady_clock::now() >= dl, "no time-out before the deadline"); else if (s == ThreadPool::StopNotified) vp_check(stop, "StopNotified only when stopped"); });
      p.submit(ThreadPool::createSimpleTask(Job(0))); if (stop) p.notifyStop(); t.join(); } finished();
#endif
    vp_check(alive.load() == 0, "every task is destroyed exactly once");
}
