// Harness interface to the symbolic executor (and to the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_sym(void *p, size_t n, char const *name);        // fresh symbolic value of n bytes
void vp_sym_bytes(void *p, size_t n, char const *name);  // n independent symbolic bytes
size_t vp_choose(size_t n, char const *name);            // symbolic choice 0..n-1, every value explored
void vp_assume(bool c);
void vp_assert_(bool c, char const *what);
void vp_fail(char const *what);
void vp_witness(char const *label);                      // must be reached on some feasible path
void vp_cover(bool c, char const *label);                // c must be satisfiable on some path (does not fork)
int vp_native(void);
uint64_t vp_concretize(uint64_t v);                      // fork over all feasible values
void vp_leak_mark(void);
void vp_leak_check(void);
size_t vp_live_heap(void);
void vp_alloc_may_fail(int budget);
void vp_spurious(int budget);
extern int vp_thread_failures;                      // thread creations which may fail (multi-threaded jobs only, never replayed)
void vp_log(char const *m, uint64_t v);
void vp_end(void);
int vp_valid(void const *p, size_t n);
void vp_noleak(void *p);
void vp_yield(void);
int vp_tid(void);
int64_t vp_now(void);
int64_t vp_clock(void);
void vp_set_now(int64_t);
void vp_horizon(int64_t);                                // the time never gets past this: waits until later do not time out
size_t vp_live_threads(void);
int vp_is_blocked(int tid);
}
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define vp_assert(c) vp_assert_(static_cast<bool>(c), #c " [" __FILE__ ":" VP_STR(__LINE__) "]")
#define vp_check(c, what) vp_assert_(static_cast<bool>(c), what " [" __FILE__ ":" VP_STR(__LINE__) "]")
template <class T> inline T vp_any(char const *name) { T t; vp_sym(&t, sizeof(T), name); return t; }
inline bool vp_any_bool(char const *name) { unsigned char c; vp_sym(&c, 1, name); return c & 1; }
template <class T> inline T vp_range(char const *name, T lo, T hi) { T t = vp_any<T>(name); vp_assume(t >= lo && t <= hi); return t; }
#ifdef __clang__
#define VP_NOOPT __attribute__((optnone, noinline)) // the harness code is not simplified by the compiler: the solver decides
#else
#define VP_NOOPT
#endif
