// C strings and the exception ABI, kept apart from the library headers whose declarations of the same names differ.
#include <typeinfo>
#include <cstddef>
extern "C" { void* vp_malloc(size_t n, size_t al, int kind); void vp_free(void*, int kind); void vp_unwind(void*) __attribute__((noreturn)); void* memset(void*, int, size_t) noexcept; }
namespace std { void terminate() noexcept; }
namespace std { class bad_exc_; }
#define NI __attribute__((noinline))
// ------------------------------------------------------------------ C strings
extern "C" {
size_t wcslen(wchar_t const* s) { size_t n = 0; while (s[n]) ++n; return n; }
int wmemcmp(wchar_t const* a, wchar_t const* b, size_t n) { for (; n; --n, ++a, ++b) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
wchar_t* wmemchr(wchar_t const* a, wchar_t c, size_t n) { for (; n; --n, ++a) if (*a == c) return (wchar_t*)a; return nullptr; }
size_t strlen(char const* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(char const* a, char const* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(char const* a, char const* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
void* memchr(void const* p, int c, size_t n) { unsigned char const* q = (unsigned char const*)p; for (size_t i = 0; i < n; ++i) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
}
// ------------------------------------------------------------------ exception ABI
namespace {
struct Hdr { std::type_info const* ti; void* adj; void* obj; void (*dtor)(void*); long refs; long handlers; Hdr* next; Hdr* primary; };
static_assert(sizeof(Hdr) == 64, "");
struct Globals { Hdr* caught; unsigned uncaught; };
thread_local Globals g_eh;
inline Hdr* hdrOf(void* obj) { return (Hdr*)((char*)obj - sizeof(Hdr)); }
void addRef(Hdr* h) { __atomic_fetch_add(&h->refs, 1, __ATOMIC_RELAXED); }
void dropRef(Hdr* h) { if (__atomic_sub_fetch(&h->refs, 1, __ATOMIC_ACQ_REL) == 0) { if (h->dtor) h->dtor(h->obj); vp_free(h, 4); } }
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { Hdr* h = (Hdr*)vp_malloc(n + sizeof(Hdr), 16, 4); memset(h, 0, sizeof(Hdr)); h->obj = h + 1; return h + 1; }
void __cxa_free_exception(void* o) noexcept { vp_free(hdrOf(o), 4); }
} extern "C" { void* __cxa_init_primary_exception(void* o, std::type_info* t, void (*d)(void*)) noexcept { Hdr* h = hdrOf(o); h->ti = t; h->dtor = d; h->obj = o; h->refs = 0; return h; }
NI void __cxa_throw(void* o, std::type_info* t, void (*d)(void*)) { Hdr* h = hdrOf(o); h->ti = t; h->dtor = d; h->obj = o; h->refs = 1; h->handlers = 0; h->primary = h; ++g_eh.uncaught; vp_unwind(h); }
void* __cxa_get_exception_ptr(void* p) noexcept { return ((Hdr*)p)->adj; }
void* __cxa_begin_catch(void* p) noexcept { Hdr* h = (Hdr*)p; long c = h->handlers; if (c < 0) c = -c; h->handlers = c + 1; --g_eh.uncaught; if (g_eh.caught != h) { h->next = g_eh.caught; g_eh.caught = h; } return h->adj; }
void __cxa_end_catch() {
    Hdr* h = g_eh.caught; if (!h) return;
    long c = h->handlers;
    if (c < 0) { if (++c == 0) g_eh.caught = h->next; h->handlers = c; return; }
    h->handlers = --c;
    if (c == 0) { g_eh.caught = h->next; Hdr* pr = h->primary; if (pr != h) vp_free(h, 4); dropRef(pr); }
}
NI void __cxa_rethrow() { Hdr* h = g_eh.caught; if (!h) std::terminate(); h->handlers = -h->handlers; ++g_eh.uncaught; vp_unwind(h); }
std::type_info* __cxa_current_exception_type() noexcept { Hdr* h = g_eh.caught; return h ? const_cast<std::type_info*>(h->ti) : nullptr; }
NI void _Unwind_Resume(void* h) { vp_unwind(h); }
void __cxa_call_unexpected(void*) { std::terminate(); }
}
extern "C" {
void vp_eh_addref(void* o) { addRef(hdrOf(o)); }
void vp_eh_dropref(void* o) { dropRef(hdrOf(o)); }
void* vp_eh_current() { Hdr* h = g_eh.caught; return h ? h->primary->obj : nullptr; }
void* vp_eh_type(void* o) { return (void*)hdrOf(o)->ti; }
unsigned vp_eh_uncaught() { return g_eh.uncaught; }
void vp_eh_rethrow(void* o) {
    Hdr* pr = hdrOf(o);
    Hdr* h = (Hdr*)vp_malloc(sizeof(Hdr), 16, 4); h->ti = pr->ti; h->obj = o; h->adj = o; h->dtor = nullptr; h->refs = 1; h->handlers = 0; h->next = nullptr; h->primary = pr; ++g_eh.uncaught;
    vp_unwind(h);
}
}
