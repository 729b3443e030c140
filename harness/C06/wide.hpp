// Common parts of the wide integer harnesses: a reference value type and conversions through the public interface.
#pragma once
#include <vp.h>
#include <cstdint>
#include <sharemind/uint128_t.h>
#include <sharemind/uint_t.h>
#ifndef VN
#define VN 128
#endif
#ifndef VB
#define VB uint64_t
#endif
using R = unsigned _BitInt(VN + 2);        // reference: integers modulo 2^(VN+2), reduced explicitly
using RD = unsigned _BitInt(2 * VN + 2);
#ifdef V128
using W = sharemind::uint128_t;
#else
using W = sharemind::uint_t<VN, VB>;
#endif
static R const MOD = static_cast<R>(1) << VN;
static R mask(R v) { return v & (MOD - 1); }
#ifdef V128
static R val(W const & w) { return static_cast<R>(w.upper()) << 64 | w.lower(); }
static W make(char const * name) { uint64_t u = vp_any<uint64_t>(name), l = vp_any<uint64_t>(name); return W(u, l); }
static void canonical(W const &) {}
static W from(R v) { return W(static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)); }
#else
static R val(W const & w) { R r = 0; for (size_t i = W::num_of_blocks; i--;) r = (W::bits_in_block >= VN ? R(0) : r << (W::bits_in_block >= VN ? 0 : W::bits_in_block)) | w.block(i); return r; }
// A wide integer from a generator that fills every block with arbitrary bits, the unused ones included.
struct Gen { char const * name; template <class It> void operator()(It b, It e) const { for (; b != e; ++b) *b = vp_any<VB>(name); } };
static W make(char const * name) { Gen g{name}; return W(g); }
static void canonical(W const & w) { vp_check(val(w) < MOD, "bits outside the width are zero"); }
static W from(R v) { W w; for (size_t i = 0; i < W::num_of_blocks; ++i) { w.block(i) = static_cast<VB>(v); v = W::bits_in_block >= VN ? R(0) : v >> (W::bits_in_block >= VN ? 0 : W::bits_in_block); } w.clear_unused_bits(); return w; }
#endif
