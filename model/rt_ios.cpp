// Runtime model: what string streams need of the locale and ios_base code in libstdc++.so.
// The only facets present are ctype<char> ("C" locale) and nothing else: a stream operation
// that needs another facet (num_put, num_get ...) throws bad_cast as the standard says it does.
#define private public
#define protected public
#include <locale>
#undef private
#undef protected
#include <ios>
#include <new>
#include <cstring>
namespace std {
locale::facet::~facet() {}
locale::id ctype<char>::id;
locale::id ctype<wchar_t>::id;
size_t locale::id::_M_id() const throw() {
    static size_t next = 0;
    if (!_M_index) _M_index = ++next;
    return _M_index - 1;
}
static ctype_base::mask const noTable[256] = {};
ctype<char>::ctype(mask const *, bool, size_t refs) : facet(refs), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(noTable), _M_widen_ok(0), _M_narrow_ok(0)
{ memset(_M_widen, 0, sizeof(_M_widen)); memset(_M_narrow, 0, sizeof(_M_narrow)); }
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (c >= 'a' && c <= 'z') ? char(c - 32) : c; }
char const * ctype<char>::do_toupper(char * lo, char const * hi) const { for (; lo < hi; ++lo) *lo = do_toupper(*lo); return hi; }
char ctype<char>::do_tolower(char c) const { return (c >= 'A' && c <= 'Z') ? char(c + 32) : c; }
char const * ctype<char>::do_tolower(char * lo, char const * hi) const { for (; lo < hi; ++lo) *lo = do_tolower(*lo); return hi; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; ++i) _M_widen[i] = char(i); _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; ++i) _M_narrow[i] = char(i); _M_narrow_ok = 1; }

// Integers only, in the "C" locale; floating point and pointers are not modelled.
struct VpNumPut : num_put<char> {
    VpNumPut() : num_put<char>(1) {}
    iter_type put(iter_type o, ios_base & io, char fill, unsigned long v, bool neg, bool sgn) const {
        char b[40]; int n = 40, digits;
        ios_base::fmtflags const f = io.flags(), base = f & ios_base::basefield;
        unsigned const r = base == ios_base::oct ? 8u : base == ios_base::hex ? 16u : 10u;
        char const * const t = (f & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
        bool const zero = v == 0;
        do { b[--n] = t[v % r]; v /= r; } while (v);
        digits = n;
        if ((f & ios_base::showbase) && !zero) { if (r == 8u) b[--n] = '0'; else if (r == 16u) { b[--n] = (f & ios_base::uppercase) ? 'X' : 'x'; b[--n] = '0'; } }
        if (r == 10u && sgn) { if (neg) b[--n] = '-'; else if (f & ios_base::showpos) b[--n] = '+'; }
        streamsize w = io.width(); io.width(0);
        streamsize pad = w > 40 - n ? w - (40 - n) : 0;
        ios_base::fmtflags const adj = f & ios_base::adjustfield;
        int i = n;
        if (adj == ios_base::left) { for (; i < 40; ++i) *o++ = b[i]; for (; pad > 0; --pad) *o++ = fill; return o; }
        if (adj == ios_base::internal) for (; i < digits && (b[i] == '+' || b[i] == '-' || r == 16u); ++i) *o++ = b[i];
        for (; pad > 0; --pad) *o++ = fill;
        for (; i < 40; ++i) *o++ = b[i];
        return o;
    }
    static bool isDec(ios_base & io) { ios_base::fmtflags const b = io.flags() & ios_base::basefield; return b != ios_base::oct && b != ios_base::hex; }
    iter_type do_put(iter_type o, ios_base & io, char c, bool v) const override { return put(o, io, c, v, false, true); }
    iter_type do_put(iter_type o, ios_base & io, char c, long v) const override { bool const n = v < 0 && isDec(io); return put(o, io, c, n ? 0ul - (unsigned long)v : (unsigned long)v, n, true); }
    iter_type do_put(iter_type o, ios_base & io, char c, unsigned long v) const override { return put(o, io, c, v, false, false); }
    iter_type do_put(iter_type o, ios_base & io, char c, long long v) const override { return do_put(o, io, c, (long)v); }
    iter_type do_put(iter_type o, ios_base & io, char c, unsigned long long v) const override { return do_put(o, io, c, (unsigned long)v); }
    iter_type do_put(iter_type, ios_base &, char, double) const override { __builtin_trap(); }
    iter_type do_put(iter_type, ios_base &, char, long double) const override { __builtin_trap(); }
    iter_type do_put(iter_type, ios_base &, char, void const *) const override { __builtin_trap(); }
};
static locale::_Impl * classicImpl() {
    alignas(16) static char implRaw[sizeof(locale::_Impl)];
    alignas(16) static char ctypeRaw[sizeof(ctype<char>)];
    static locale::facet const * facets[128];
    static locale::_Impl * impl = nullptr;
    if (!impl) {
        auto * const i = reinterpret_cast<locale::_Impl *>(implRaw);
        i->_M_refcount = 1;
        i->_M_facets = facets;
        i->_M_facets_size = 128;
        i->_M_caches = nullptr;
        i->_M_names = nullptr;
        facets[ctype<char>::id._M_id()] = new (ctypeRaw) ctype<char>(nullptr, false, 1);
        alignas(16) static char numPutRaw[sizeof(VpNumPut)];
        facets[num_put<char>::id._M_id()] = new (numPutRaw) VpNumPut;
        impl = i;
    }
    return impl;
}
locale::locale() throw() : _M_impl(classicImpl()) {}
locale::locale(locale const & o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
locale const & locale::operator=(locale const & o) throw() { _M_impl = o._M_impl; return *this; }

ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() {
    _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale();
}
ios_base::failure::failure(string const & s) : system_error(make_error_code(io_errc::stream), s) {}
ios_base::failure::failure(string const & s, error_code const & e) : system_error(e, s) {}
ios_base::failure::failure(char const * s, error_code const & e) : system_error(e, s) {}
ios_base::failure::~failure() {}
char const * ios_base::failure::what() const throw() { return runtime_error::what(); }
namespace {
struct IosCategory : error_category {
    char const * name() const noexcept override { return "iostream"; }
    string message(int) const override { return "iostream error"; }
};
}
error_category const & iostream_category() noexcept { static IosCategory const c; return c; }
void __throw_ios_failure(char const * s) { throw ios_base::failure(s, make_error_code(io_errc::stream)); }
void __throw_ios_failure(char const * s, int) { throw ios_base::failure(s, make_error_code(io_errc::stream)); }
}
#include <cassert>
namespace std { void __glibcxx_assert_fail(char const * f, int l, char const * fn, char const * c) noexcept { __assert_fail(c ? c : "unreachable", f ? f : "", l, fn ? fn : ""); } }
#include <cwchar>
extern "C" {
wchar_t * wmemcpy(wchar_t * d, wchar_t const * s, size_t n) noexcept { return static_cast<wchar_t *>(memcpy(d, s, n * sizeof(wchar_t))); }
wchar_t * wmemmove(wchar_t * d, wchar_t const * s, size_t n) noexcept { return static_cast<wchar_t *>(memmove(d, s, n * sizeof(wchar_t))); }
}
#include <exception>
namespace std {
static terminate_handler curTerminate = nullptr; static unexpected_handler curUnexpected = nullptr;
terminate_handler set_terminate(terminate_handler h) noexcept { auto o = curTerminate; curTerminate = h; return o; }
terminate_handler get_terminate() noexcept { return curTerminate; }
unexpected_handler set_unexpected(unexpected_handler h) noexcept { auto o = curUnexpected; curUnexpected = h; return o; }
unexpected_handler get_unexpected() noexcept { return curUnexpected; }
}
