// Aligned allocation: every element count; aligned, large enough, refused with bad_alloc when impossible, released once.
//VP name=a1 tier=both flags="-DVA=1 -DVZ=1" desc="alignment 1, element size 1, counts 0..8 and all from 2^40"
//VP name=a4 tier=both flags="-DVA=4 -DVZ=12" desc="alignment 4, element size 12, counts 0..8 and all from 2^40"
//VP name=a8 tier=both flags="-DVA=8 -DVZ=8" desc="alignment 8, element size 8, counts 0..8 and all from 2^40"
//VP name=a64 tier=both flags="-DVA=64 -DVZ=192" desc="alignment 64, element size 192, counts 0..8 and all from 2^40"
//VP name=a4096 tier=both flags="-DVA=4096 -DVZ=4096" desc="alignment 4096, element size 4096, counts 0..8 and all from 2^40"
//VP name=huge tier=both flags="-DVA=1 -DVZ=8 -DVH=1" desc="element sizes 2^58+1 and 3*2^54+2, every count from 1 to 2^62: no request whose size overflows is granted"
#include <vp.h>
#include <cstdint>
#include <memory>
#include <new>
#include <vector>
#include <sharemind/AlignedAllocator.h>
struct alignas(VA) El { unsigned char c[VZ]; };
static_assert(sizeof(El) == VZ && alignof(El) == VA, "");
struct alignas(VA) Mem { unsigned char c[VZ]; SHAREMIND_ALIGNEDALLOCATION_MEMBERS(alignof(Mem)) };
template <class T> static void usable(T * p, size_t n) {
    vp_check(reinterpret_cast<uintptr_t>(p) % VA == 0, "aligned as requested"); vp_check(vp_valid(p, n * sizeof(T)), "large enough");
    unsigned char * const c = reinterpret_cast<unsigned char *>(p); for (size_t i = 0; i < n * sizeof(T); i += VZ > 64 ? VZ - 1 : 1) c[i] = (unsigned char) i;
}
#ifdef VH
template <unsigned long long S> struct Huge { unsigned char c[S]; };
template <unsigned long long S> static void huge() {
    size_t const n = vp_any<size_t>("count"); vp_assume(n >= 1 && n <= (size_t(1) << 62)); bool refused = false;
    try { (void) sharemind::AlignedAllocator<Huge<S> >::allocate(n); } catch (std::bad_alloc const &) { refused = true; }
    vp_check(refused, "a request larger than the memory throws bad_alloc");
}
int main() { if (vp_choose(2, "size")) huge<(1ull << 58) + 1>(); else huge<(3ull << 54) + 2>(); }
#else
int main() {
    vp_leak_mark();
    using A = sharemind::AlignedAllocator<El>;
    switch (vp_choose(5, "form")) {
    case 0: {
        size_t const n = vp_any<size_t>("count"); vp_assume(n <= 8 || n >= (size_t(1) << 40));
        try { El * const p = A::allocate(n); vp_check(n <= 8, "an impossible request throws bad_alloc"); usable(p, n); A::deallocate(p, n); }
        catch (std::bad_alloc const &) { vp_check(n > 8, "a possible request is granted"); }
        break;
    }
    case 1: {
        vp_alloc_may_fail(1); bool failed = false;
        try { A a; std::allocator_traits<A>::rebind_alloc<Mem> b(a); vp_check(a == b && !(a != b), "equal allocators"); Mem * const p = std::allocator_traits<decltype(b)>::allocate(b, 3); usable(p, 3); b.deallocate(p, 3); }
        catch (std::bad_alloc const &) { failed = true; }
        vp_cover(failed, "a failing allocation throws"); vp_alloc_may_fail(0); break;
    }
    case 2: {
        size_t const s = vp_any<size_t>("size"); vp_assume(s <= 8 || s >= (size_t(1) << 40)); vp_alloc_may_fail(1);
        void * const p = sharemind::allocateAlignedStorage<VA>(s, std::nothrow); vp_alloc_may_fail(0);
        if (p) { vp_check(s <= 8, "impossible"); vp_check(reinterpret_cast<uintptr_t>(p) % VA == 0 && vp_valid(p, s), "aligned and large enough"); sharemind::freeAlignedStorage(p); }
        vp_cover(!p && s <= 8, "a failing allocation returns null"); break;
    }
    case 3: {
        vp_alloc_may_fail(1); Mem * a = nullptr; Mem * b = nullptr;
        try { a = new Mem; usable(a, 1); b = new Mem[3]; usable(b, 3); } catch (std::bad_alloc const &) {}
        delete a; delete[] b; vp_alloc_may_fail(0);
        Mem * const c = new (std::nothrow) Mem; vp_check(c, "granted"); usable(c, 1); delete c;
        Mem * const d = new (std::nothrow) Mem[2]; vp_check(d, "granted"); usable(d, 2); delete[] d; break;
    }
    default: { std::vector<El, A> v; for (unsigned i = 0; i < 3; ++i) { v.push_back(El()); v.back().c[0] = (unsigned char) i; usable(v.data() + v.size(), 0); } for (unsigned i = 0; i < 3; ++i) vp_check(v[i].c[0] == i, "contents"); std::vector<El, A> w(v), x(std::move(w)); vp_check(x.size() == 3 && x[2].c[0] == 2, "copies"); }
    }
    vp_leak_check();
}
#endif
