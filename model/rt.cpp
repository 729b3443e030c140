// Runtime model: the parts of libstdc++/libsupc++/pthread that live in shared libraries.
#define private public
#include <thread>
#undef private
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <chrono>
#include <system_error>
#include <map>
#include <unordered_map>
#include <list>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <sys/time.h>
#include <pthread.h>
extern "C" {
void* vp_malloc(size_t n, size_t al, int kind); void vp_free(void*, int kind);
void vp_unwind(void*) __attribute__((noreturn));
int vp_thread_failures = 0; size_t vp_choose(size_t, char const *); int vp_thread_create(void*(*)(void*), void*); void vp_thread_join(int);
int64_t vp_clock(); int64_t vp_now(); void vp_set_now(int64_t); int vp_never(int64_t); int vp_cond_timedwait(void*, void*, int64_t); void vp_sleep_until(int64_t); void vp_mutex_recursive(void*); void vp_noleak(void*);
char __libc_single_threaded = 0;
}
#define NI __attribute__((noinline))
// ------------------------------------------------------------------ new/delete
void* operator new(size_t n) { void* p = vp_malloc(n, 16, 2); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = vp_malloc(n, 16, 3); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return vp_malloc(n, 16, 2); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return vp_malloc(n, 16, 3); }
void operator delete(void* p) noexcept { vp_free(p, 2); }
void operator delete[](void* p) noexcept { vp_free(p, 3); }
void operator delete(void* p, size_t) noexcept { vp_free(p, 2); }
void operator delete[](void* p, size_t) noexcept { vp_free(p, 3); }
void operator delete(void* p, std::nothrow_t const&) noexcept { vp_free(p, 2); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { vp_free(p, 3); }
extern "C" { void vp_eh_addref(void*); void vp_eh_dropref(void*); void* vp_eh_current(); void* vp_eh_type(void*); void vp_eh_rethrow(void*) __attribute__((noreturn)); unsigned vp_eh_uncaught(); }
namespace std {
bool uncaught_exception() noexcept { return vp_eh_uncaught() != 0; }
int uncaught_exceptions() noexcept { return (int)vp_eh_uncaught(); }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) vp_eh_addref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { void* o = _M_exception_object; _M_exception_object = nullptr; vp_eh_dropref(o); } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return (type_info const*)vp_eh_type(_M_exception_object); }
}
exception_ptr current_exception() noexcept { exception_ptr p; if (void* o = vp_eh_current()) { *(void**)&p = o; vp_eh_addref(o); } return p; }
NI void rethrow_exception(exception_ptr ep) { void* o = *(void**)&ep; vp_eh_addref(o); ep = nullptr; vp_eh_rethrow(o); }
nested_exception::~nested_exception() noexcept {}
// ------------------------------------------------------------------ exception classes
exception::~exception() noexcept {}
char const* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} char const* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} char const* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} char const* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} char const* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} char const* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} char const* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} char const* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(type_info const*, void**, unsigned) const { return false; } bool type_info::__do_upcast(__cxxabiv1::__class_type_info const*, void**) const { return false; }
#define CTORS(T, B) T::T(string const& s) : B(s) {} T::T(char const* s) : B(s) {} T::~T() noexcept {}
#define CTORS2(T, B) CTORS(T, B) T::T(T const&) noexcept = default; T& T::operator=(T const&) noexcept = default;
namespace { struct CowRep { long refs; };
void cowInit(char const*& p, char const* s, size_t n) { char* r = (char*)vp_malloc(sizeof(CowRep) + n + 1, 16, 2); if (!r) throw bad_alloc(); ((CowRep*)r)->refs = 1; char* t = r + sizeof(CowRep); memcpy(t, s, n); t[n] = 0; p = t; }
void cowDrop(char const* p) { if (!p) return; CowRep* r = (CowRep*)(p - sizeof(CowRep)); if (__atomic_sub_fetch(&r->refs, 1, __ATOMIC_ACQ_REL) == 0) vp_free(r, 2); }
void cowAdd(char const* p) { if (p) __atomic_add_fetch(&((CowRep*)(p - sizeof(CowRep)))->refs, 1, __ATOMIC_RELAXED); }
}
}
namespace std {
#if !_GLIBCXX_USE_CXX11_ABI
#error
#endif
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string& s) { cowInit(_M_p, s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { cowInit(_M_p, s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; cowAdd(_M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { cowAdd(o._M_p); cowDrop(_M_p); _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { cowDrop(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { auto t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
logic_error::logic_error(string const& s) : _M_msg(s) {} logic_error::logic_error(char const* s) : _M_msg(s, strlen(s)) {} logic_error::~logic_error() noexcept {} char const* logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(logic_error&&) noexcept = default; logic_error& logic_error::operator=(logic_error&&) noexcept = default; logic_error::logic_error(logic_error const& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(logic_error const& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(string const& s) : _M_msg(s) {} runtime_error::runtime_error(char const* s) : _M_msg(s, strlen(s)) {} runtime_error::~runtime_error() noexcept {} char const* runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(runtime_error&&) noexcept = default; runtime_error& runtime_error::operator=(runtime_error&&) noexcept = default; runtime_error::runtime_error(runtime_error const& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(runtime_error const& o) noexcept { _M_msg = o._M_msg; return *this; }
CTORS(domain_error, logic_error) CTORS(invalid_argument, logic_error) CTORS(length_error, logic_error) CTORS(out_of_range, logic_error) CTORS(range_error, runtime_error) CTORS(overflow_error, runtime_error) CTORS(underflow_error, runtime_error)
// ------------------------------------------------------------------ system_error (messages are not modelled)
inline namespace _V2 {
error_category::~error_category() = default;
}
inline namespace _V2 {
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, error_condition const& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(error_code const& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
}
namespace { struct SysCat : error_category { char const* name() const noexcept override { return "system"; } string message(int) const override { return string("error"); } }; struct GenCat : error_category { char const* name() const noexcept override { return "generic"; } string message(int) const override { return string("error"); } };
SysCat g_sys; GenCat g_gen; }
inline namespace _V2 { error_category const& system_category() noexcept { return g_sys; } error_category const& generic_category() noexcept { return g_gen; } }
system_error::~system_error() noexcept {}
// ------------------------------------------------------------------ throw helpers
extern "C" { NI void __cxa_bad_cast() { throw std::bad_cast(); } NI void __cxa_bad_typeid() { throw std::bad_typeid(); } NI void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); } }
NI void __throw_bad_exception() { throw bad_exception(); }
NI void __throw_bad_alloc() { throw bad_alloc(); }
NI void __throw_bad_array_new_length() { throw bad_array_new_length(); }
NI void __throw_bad_cast() { throw bad_cast(); }
NI void __throw_bad_typeid() { throw bad_typeid(); }
NI void __throw_logic_error(char const* s) { throw logic_error(s); }
NI void __throw_domain_error(char const* s) { throw domain_error(s); }
NI void __throw_invalid_argument(char const* s) { throw invalid_argument(s); }
NI void __throw_length_error(char const* s) { throw length_error(s); }
NI void __throw_out_of_range(char const* s) { throw out_of_range(s); }
NI void __throw_out_of_range_fmt(char const* s, ...) { throw out_of_range(s); }
NI void __throw_runtime_error(char const* s) { throw runtime_error(s); }
NI void __throw_bad_function_call() { throw bad_function_call(); }
NI void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
// ------------------------------------------------------------------ list / rb-tree / hashing
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) { if (y._M_next != &y) { auto t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// unbalanced: same ordered-tree semantics; the root stays black so that decrement() recognises the header
void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    h._M_color = _S_red; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    if (h._M_left == z) h._M_left = (z->_M_right || z->_M_parent != &h) ? _Rb_tree_increment(z) : &h;
    if (h._M_right == z) h._M_right = (z->_M_left || z->_M_parent != &h) ? _Rb_tree_decrement(z) : &h;
    auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
    else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    return z; }
size_t _Hash_bytes(void const* p, size_t n, size_t seed) { unsigned char const* b = (unsigned char const*)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h << 5) + (h >> 59) + b[i]; return h; }
size_t _Fnv_hash_bytes(void const* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = n <= 1 ? 1 : n <= 3 ? 3 : n <= 7 ? 7 : n <= 13 ? 13 : n <= 29 ? 29 : n | 1; _M_next_resize = r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize || _M_next_resize == 0) { size_t want = ne + ni; if (want + 1 > nb || _M_next_resize == 0) { size_t g = want > nb * 2 ? want : nb * 2; if (g < 2) g = 2; return pair<bool, size_t>(true, _M_next_bkt(g)); } _M_next_resize = nb; }
    return pair<bool, size_t>(false, 0); }
}
// ------------------------------------------------------------------ threads
thread::_State::~_State() {}
unsigned thread::hardware_concurrency() noexcept { return 2; }
namespace { void* thrEntry(void* p) { unique_ptr<thread::_State> s((thread::_State*)p); s->_M_run(); return nullptr; } }
NI void thread::_M_start_thread(_State_ptr s, void (*)()) { if (vp_thread_failures > 0 && vp_choose(2, "the thread cannot be created")) { --vp_thread_failures; __throw_system_error(11); } int t = vp_thread_create(&thrEntry, s.release()); *(unsigned long*)&_M_id = (unsigned long)(t + 1); }
void thread::join() { if (_M_id == id()) __throw_system_error(22); unsigned long v = *(unsigned long*)&_M_id; if (v == (unsigned long)pthread_self()) __throw_system_error(35); vp_thread_join((int)v - 1); _M_id = id(); }
void thread::detach() { if (_M_id == id()) __throw_system_error(22); _M_id = id(); }
namespace this_thread { void __sleep_for(chrono::seconds s, chrono::nanoseconds n) { vp_sleep_until(vp_clock() + s.count() * 1000000000 + n.count()); } }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept { pthread_cond_destroy((pthread_cond_t*)this); }
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait((pthread_cond_t*)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)this); }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_clock())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vp_clock())); }
} }
}
extern "C" {
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const* t) { return vp_cond_timedwait(c, m, t->tv_sec * 1000000000 + t->tv_nsec); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) { return vp_cond_timedwait(c, m, t->tv_sec * 1000000000 + t->tv_nsec); }
// A timed lock takes the mutex when it is free at the moment the thread is scheduled, otherwise it has waited until the deadline.
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, timespec const* t) noexcept { if (!pthread_mutex_trylock(m)) return 0; int64_t const d = t->tv_sec * 1000000000 + t->tv_nsec; if (vp_never(d)) return pthread_mutex_lock(m); if (d > vp_now()) vp_set_now(d); return ETIMEDOUT; }
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* t) noexcept { return pthread_mutex_clocklock(m, 0, t); }
int nanosleep(timespec const* t, timespec*) { vp_sleep_until(vp_clock() + t->tv_sec * 1000000000 + t->tv_nsec); return 0; }
void vp_force_link() {}
}
extern "C" char* strerror_r(int e, char* buf, size_t n) noexcept {   // the GNU form: known errors have static texts, others are written to the buffer
    if (e >= 0 && e < 134) return const_cast<char*>("System error");
    static char const t[] = "Unknown error"; size_t i = 0; for (; i + 1 < n && t[i]; ++i) buf[i] = t[i]; if (n) buf[i] = 0; return buf;
}
extern "C" bool vp_atomic_is_lock_free(unsigned long n, void const *) __asm__("__atomic_is_lock_free");
bool vp_atomic_is_lock_free(unsigned long n, void const *) { return n <= 8; }
