// Bit vectors made from ranges: forward, list-like and single-pass iterators, bits and other values.
//VP name=8 tier=both flags="-DVB=uint8_t -DVN=10" opts="--merge" desc="8-bit blocks, every length up to 10, all contents, random access, forward and single-pass iterators over bits and over integers, constructed and assigned"
//VP name=64 tier=thorough flags="-DVB=uint64_t -DVN=66" opts="--merge" desc="64-bit blocks, lengths 0 to 66, all contents, random access, forward and single-pass iterators over bits and over integers, constructed and assigned"
#include <vp.h>
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <sharemind/BitVector.h>
using sharemind::BitVec;
template <class T> struct Pass { // all copies share one position
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const *; using reference = T const &;
    T const * * at; T const * lim; bool end;
    T const & operator*() const { vp_check(!end && *at < lim, "an element is read where there is one"); return **at; } Pass & operator++() { vp_check(!end && *at < lim, "advanced within the range"); ++*at; return *this; } struct V { T v; T operator*() const { return v; } }; V operator++(int) { V const r{**this}; ++*this; return r; }
    bool done() const { return end || *at == lim; } friend bool operator==(Pass const & a, Pass const & b) { return a.done() == b.done(); } friend bool operator!=(Pass const & a, Pass const & b) { return !(a == b); }
};
template <class T> struct Fwd { using iterator_category = std::forward_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const *; using reference = T const &; T const * p = nullptr; T const & operator*() const { return *p; } Fwd & operator++() { ++p; return *this; } Fwd operator++(int) { Fwd r(*this); ++p; return r; } friend bool operator==(Fwd a, Fwd b) { return a.p == b.p; } friend bool operator!=(Fwd a, Fwd b) { return a.p != b.p; } };
template <class T> static void run(T const * const a, std::size_t const n, bool const assign) {
    auto const check = [&](BitVec<VB> & v) { vp_check(v.size() == n, "as long as the range"); for (std::size_t i = 0u; i < n; ++i) vp_check(v[i] == bool(a[i]), "the bits of the range"); v.push_back(true); vp_check(v.size() == n + 1u && v.back(), "and usable"); };
    int const kind = int(vp_choose(3, "iterator")); T const * at = a; Pass<T> const b{&at, a + n, false}, e{nullptr, nullptr, true}; Fwd<T> f, g; f.p = a; g.p = a + n;
    if (assign) { BitVec<VB> v(n, vp_choose(2, "before") != 0); if (kind == 0) v.assign(a, a + n); else if (kind == 1) v.assign(f, g); else v.assign(b, e); check(v); }
    else if (kind == 0) { BitVec<VB> v(a, a + n); check(v); } else if (kind == 1) { BitVec<VB> v(f, g); check(v); } else { BitVec<VB> v(b, e); check(v); }
    if (kind == 2) vp_check(at == a + n, "the whole range is read");
}
int main() {
    vp_leak_mark();
    {
        std::size_t const n = vp_choose(VN + 1, "length"); bool const assign = vp_choose(2, "assign");
        if (vp_choose(2, "integers")) { static int a[VN]; for (std::size_t i = 0u; i < n; ++i) a[i] = vp_any<int>("value"); run<int>(a, n, assign); }
        else { static bool a[VN]; for (std::size_t i = 0u; i < n; ++i) a[i] = vp_any_bool("bit"); run<bool>(a, n, assign); }
    }
    vp_leak_check();
}
