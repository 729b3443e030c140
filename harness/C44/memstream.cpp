// C44: input memory streams (src/InputMemoryStream.h). The stream classes are compiled from their headers and executed too.
//VP name=ops tier=quick flags="-DVK=2 -DVN=4 -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="buffer of any length 0..4 of arbitrary bytes, any 2 operations of 11 kinds, then the rest"
//VP name=ops3 tier=thorough flags="-DVK=3 -DVN=4 -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="any 3 operations"
//VP name=wide tier=both flags="-DVK=2 -DVN=3 -DWIDE -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="wide characters, any length 0..3, any 2 operations"
#include <vp.h>
#include <cstring>
#include <sharemind/InputMemoryStream.h>
#ifdef WIDE
using C = wchar_t;
#else
using C = char;
#endif
using S = sharemind::BasicInputMemoryStream<C>;
using T = std::char_traits<C>;

int main() {
    vp_leak_mark();
    {
        std::size_t const n = vp_choose(VN + 1u, "n");
        C * const d = new C[n + 0u]; // no byte more than the stream is given
        vp_sym_bytes(d, n * sizeof(C), "data");
#ifdef WIDE // WEOF is no character
        for (std::size_t i = 0u; i < n; ++i) vp_assume(!T::eq_int_type(T::to_int_type(d[i]), T::eof()));
#endif
        C copy[VN + 1]; std::memcpy(copy, d, n * sizeof(C));
        {
            S s(d, n);
            std::size_t pos = 0u;
            for (unsigned k = 0u; k < VK; ++k) {
                if (!s.good()) { s.clear(); }
                std::size_t const left = n - pos;
                switch (vp_choose(11u, "operation")) {
                case 0u: { auto const c = s.get(); if (left) { vp_check(T::eq_int_type(c, T::to_int_type(copy[pos])), "the next character is got"); ++pos; } else vp_check(T::eq_int_type(c, T::eof()) && s.eof() && s.fail(), "the end is reported"); break; }
                case 1u: { auto const c = s.peek(); vp_check(left ? T::eq_int_type(c, T::to_int_type(copy[pos])) && s.good() : T::eq_int_type(c, T::eof()) && s.eof(), "peeking shows the next character"); break; }
                case 2u: { C b[8]; std::size_t const m = vp_choose(6u, "count"); s.read(b, static_cast<std::streamsize>(m)); std::size_t const g = m < left ? m : left;
                    vp_check(static_cast<std::size_t>(s.gcount()) == g && std::memcmp(b, copy + pos, g * sizeof(C)) == 0, "the bytes asked for are read, as far as there are"); vp_check(s.good() == (m <= left) && s.eof() == (m > left), "reading past the end is reported"); pos += g; break; }
                case 3u: { C b[8]; std::size_t const m = vp_choose(6u, "count"); auto const r = s.readsome(b, static_cast<std::streamsize>(m)); std::size_t const g = m < left ? m : left;
                    vp_check(r == static_cast<std::streamsize>(g) && std::memcmp(b, copy + pos, g * sizeof(C)) == 0, "what is there is read"); pos += g; break; }
                case 4u: { s.unget(); vp_check(s.good() == (pos > 0u), "one can go back, but not before the start"); if (pos) --pos; break; }
                case 5u: { vp_assume(pos > 0u); s.putback(copy[pos - 1u]); vp_check(s.good(), "the character read can be put back"); --pos; break; }
                case 6u: { auto const c = vp_any<C>("other"); vp_assume(pos > 0u && !T::eq(c, copy[pos - 1u])); s.putback(c); vp_check(!s.good(), "another character cannot be put back"); break; }
                case 7u: { C c = C(77); s.get(c); if (left) { vp_check(T::eq(c, copy[pos]), "the next character is got"); ++pos; } else vp_check(s.eof() && s.fail(), "the end is reported"); break; }
                case 8u: { vp_check(s.rdbuf()->in_avail() == (left ? static_cast<std::streamsize>(left) : s.rdbuf()->in_avail()), "all of the rest is available at once"); break; }
                case 9u: { s.rdbuf()->sputc(C(66)); break; }
                default: { s.get(); s.clear(); if (left) ++pos; break; }
                }
                vp_check(std::memcmp(d, copy, n * sizeof(C)) == 0, "the data is never changed");
            }
            s.clear();
            for (; pos < n; ++pos) vp_check(T::eq_int_type(s.get(), T::to_int_type(copy[pos])), "the rest is read in order");
            vp_check(s.good() && T::eq_int_type(s.get(), T::eof()) && s.eof(), "the stream ends with the data");
        }
        vp_check(std::memcmp(d, copy, n * sizeof(C)) == 0, "the data is never changed");
        delete[] d;
        vp_witness("reached");
    }
    vp_leak_check();
    vp_end();
}
