// C43: exceptions carry their message and error number unchanged (Exception.h, ExceptionMacros.h, detail/ExceptionMacros.h, DebugVerboseHandlers.h).
//VP name=errno tier=both flags="-DERRNO" desc="any error number; texts of 0..2 and 1021..1026 characters, in the buffer given or elsewhere; copies and moves"
//VP name=msg tier=both flags="-DMSG -DVK=3" desc="messages of 0..3 arbitrary bytes; any 3 operations on two exceptions of each macro; thrown and caught as each base"
//VP name=print tier=both flags="-DPRINT -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="chains of 1..3 nested exceptions, the last of 3 kinds, messages of 0..2 arbitrary characters"
//VP name=scope tier=both flags="-DSCOPE -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="scoped handlers around any handlers"
#include <vp.h>
#include <cstring>
#include <exception>
#include <memory>
#include <string>
#include <sstream>
#ifdef ERRNO
static char text[1100]; static std::size_t textSize; static bool elsewhere; static int asked; static unsigned calls;
static char * vpx_strerror_r(int const e, char * const buf, std::size_t const n) {
    asked = e; ++calls;
    if (elsewhere) return text;
    std::size_t const k = textSize < n - 1u ? textSize : n - 1u;
    std::memcpy(buf, text, k); buf[k] = '\0';
    return buf;
}
#include <array>
#include <cerrno>
#include <utility>
#define strerror_r vpx_strerror_r
#endif
#include <sharemind/Exception.h>
#ifdef ERRNO
#undef strerror_r
#endif
#include <sharemind/ExceptionMacros.h>
#include <sharemind/detail/ExceptionMacros.h>
#if defined(PRINT) || defined(SCOPE)
#include <sharemind/DebugVerboseHandlers.h>
#endif

#ifdef MSG
namespace m {
SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Base1);
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(Base1, Const1, "constant one");
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_STDSTRING(Base1, String1);
SHAREMIND_DECLARE_EXCEPTION_NOINLINE(sharemind::Exception, Base2);
SHAREMIND_DEFINE_EXCEPTION_NOINLINE(sharemind::Exception,, Base2);
SHAREMIND_DECLARE_EXCEPTION_CONST_MSG_NOINLINE(Base2, Const2);
SHAREMIND_DEFINE_EXCEPTION_CONST_MSG_NOINLINE(Base2,, Const2, "constant two");
SHAREMIND_DECLARE_EXCEPTION_CONST_STDSTRING_NOINLINE(Base2, String2);
SHAREMIND_DEFINE_EXCEPTION_CONST_STDSTRING_NOINLINE(Base2,, String2);
}
template <typename E, typename Base, typename Const> static void run(char const * const constant) {
    std::unique_ptr<E> o[2]; std::string text[2];
    auto const fresh = [] { char b[4]; std::size_t const n = vp_choose(3u, "size"); vp_sym_bytes(b, n, "message"); for (std::size_t i = 0u; i < n; ++i) vp_assume(b[i] != '\0'); return std::string(b, n); };
    for (unsigned i = 0u; i < 2u; ++i) { text[i] = fresh(); o[i].reset(new E(text[i])); }
    for (unsigned k = 0u; k < VK; ++k) {
        switch (vp_choose(4u, "operation")) {
        case 0u: *o[0] = *o[1]; text[0] = text[1]; break;
        case 1u: o[0].reset(new E(*o[1])); text[0] = text[1]; break;
        case 2u: { text[1] = fresh(); std::string s(text[1]); o[1].reset(new E(std::move(s))); break; }
        default: { // thrown, the original gone
            bool caught = false;
            try { E e(*o[0]); o[0].reset(); throw e; }
            catch (std::exception const & e) { caught = true; vp_check(text[0] == e.what(), "a thrown exception has its message"); o[0].reset(new E(dynamic_cast<E const &>(e))); }
            vp_check(caught, "caught as std::exception"); break; }
        }
        for (unsigned i = 0u; i < 2u; ++i) vp_check(text[i] == o[i]->what(), "an exception has the message given to it");
    }
    bool caught = false;
    try { throw *o[0]; } catch (Const const &) { vp_fail("caught as another class"); } catch (Base const & e) { caught = true; vp_check(text[0] == e.what(), "the message is seen by the base class"); }
    vp_check(caught, "caught as its base class");
    caught = false;
    try { Const c; Const d(c); d = c; throw d; } catch (E const &) { vp_fail("caught as another class"); } catch (sharemind::Exception const & e) { caught = true; vp_check(std::strcmp(constant, e.what()) == 0, "a constant message is that of its class"); }
    vp_check(caught, "caught as sharemind::Exception");
}
#endif
#ifdef PRINT
struct Ex : std::exception { std::string m; Ex(std::string s) : m(std::move(s)) {} char const * what() const noexcept override { return m.c_str(); } };
struct Plain { int v; };
#endif
#ifdef SCOPE
static void h1() {} static void h2() {}
#endif

int main() {
#ifdef ERRNO
    int const e = vp_any<int>("errno");
    unsigned const c = vp_choose(9u, "text size");
    textSize = c < 3u ? c : 1018u + c; elsewhere = vp_choose(2u, "elsewhere");
    for (std::size_t i = 0u; i < textSize; ++i) text[i] = static_cast<char>('a' + i % 26u);
    for (std::size_t i : {std::size_t(0u), std::size_t(1022u), std::size_t(1023u)}) if (i < textSize) { text[i] = vp_any<char>("c"); vp_assume(text[i] != '\0'); }
    text[textSize] = '\0';
    std::size_t const want = textSize < 1023u ? textSize : 1023u;
    auto const same = [&](sharemind::ErrnoException const & x) {
        vp_check(x.errorNumber() == e, "the error number is kept");
        char const * const w = x.what();
        vp_check(static_cast<char const *>(std::memchr(w, 0, 1024u)) == w + want, "the message ends after the text of the error");
        vp_check(std::memcmp(w, text, want) == 0, "the message is the text of the error");
    };
    errno = 77;
    sharemind::ErrnoException const x(e);
    vp_check(asked == e && calls == 1u, "the text asked for is that of the error");
    same(x);
    { std::unique_ptr<sharemind::ErrnoException> p(new sharemind::ErrnoException(x)); sharemind::ErrnoException const y(std::move(*p)); p.reset(); same(y); }
    bool caught = false;
    try { throw x; } catch (sharemind::Exception const & z) { caught = true; same(dynamic_cast<sharemind::ErrnoException const &>(z)); std::exception const & s = z; vp_check(std::memcmp(s.what(), text, want) == 0, "the message is seen by std::exception"); }
    vp_check(caught, "caught as sharemind::Exception");
    vp_witness("reached");
#endif
#ifdef MSG
    vp_leak_mark();
    if (vp_choose(2u, "macros")) run<m::String1, m::Base1, m::Const1>("constant one"); else {
        run<m::String2, m::Base2, m::Const2>("constant two");
        auto const p = std::make_shared<std::string const>("shared"); m::String2 const s(p); vp_check(std::strcmp(s.what(), "shared") == 0, "a shared message is kept");
    }
    vp_witness("reached");
    vp_leak_check();
#endif
#ifdef PRINT
    {
        unsigned const depth = 1u + static_cast<unsigned>(vp_choose(3u, "depth")), last = static_cast<unsigned>(vp_choose(3u, "last"));
        std::string want, text[3];
        for (unsigned i = 0u; i < depth; ++i) { char b[2]; std::size_t const n = vp_choose(3u, "size"); vp_sym_bytes(b, n, "message"); for (std::size_t k = 0u; k < n; ++k) vp_assume(b[k] != '\0'); text[i].assign(b, n); }
        std::exception_ptr p;
        for (unsigned i = depth; i-- > 0u;) { // the innermost first
            if (i == depth - 1u) {
                if (last == 0u) p = std::make_exception_ptr(Ex(text[i]));
                else if (last == 1u) p = std::make_exception_ptr(Plain{3});
                else { try { std::throw_with_nested(Ex(text[i])); } catch (...) { p = std::current_exception(); } } // nests nothing
            } else { try { std::rethrow_exception(p); } catch (...) { try { std::throw_with_nested(Ex(text[i])); } catch (...) { p = std::current_exception(); } } }
        }
        { std::exception_ptr q(p);
          for (unsigned i = 0u; i < depth; ++i) {
            std::string const num(1u, static_cast<char>('1' + i));
            if (i == depth - 1u && last == 1u) want += num + ": [" + typeid(Plain).name() + "]\n... unable to continue printing nested exceptions, if any ...\n";
            else { want += num + ": [" + q.__cxa_exception_type()->name() + "] " + text[i] + "\n"; try { std::rethrow_exception(q); } catch (std::nested_exception const & n) { q = n.nested_ptr(); } catch (...) {} }
          } }
        std::ostringstream os;
        sharemind::verbosePrintException(p, os);
        vp_check(os.str() == want, "every nested exception is listed, outermost first, with its type and message");
        vp_check(os.good(), "the stream is good");
        vp_witness("reached");
    }
#endif
#ifdef SCOPE
    std::terminate_handler const t = vp_choose(2u, "terminate handler") ? &h1 : &h2;
    std::unexpected_handler const u = vp_choose(2u, "unexpected handler") ? &h1 : &h2;
    std::set_terminate(t); std::set_unexpected(u);
    {
        sharemind::ScopedDebugVerboseHandlers s; (void) s;
        vp_check(std::get_terminate() == &sharemind::verboseTerminateHandler && std::get_unexpected() == &sharemind::verboseUnexpectedHandler, "the verbose handlers are set");
        if (vp_choose(2u, "nested")) { sharemind::ScopedDebugVerboseHandlers r; (void) r; }
        vp_check(std::get_terminate() == &sharemind::verboseTerminateHandler && std::get_unexpected() == &sharemind::verboseUnexpectedHandler, "the verbose handlers are set");
    }
    vp_check(std::get_terminate() == t && std::get_unexpected() == u, "the handlers are restored");
    vp_witness("reached");
#endif
    vp_end();
}
