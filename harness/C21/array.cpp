// The uninitialised dynamic array: size and contents through every sequence of moves and swaps, storage freed once.
//VP name=int tier=both flags="-DVT=uint32_t -DVK=3" desc="three arrays of 0..3 32-bit elements, all contents, three operations"
//VP name=al tier=both flags="-DVT=Al -DVK=2" desc="three arrays of 0..3 elements of alignment 16, two operations"
//VP name=deep tier=thorough flags="-DVT=uint32_t -DVK=5" desc="three arrays, five operations"
#include <vp.h>
#include <cstdint>
#include <utility>
#include <sharemind/UninitializedDynamicArray.h>
struct alignas(16) Al { uint32_t v; Al & operator=(uint32_t x) { v = x; return *this; } operator uint32_t() const { return v; } };
using A = sharemind::UninitializedDynamicArray<VT>;
struct Ref { size_t n; uint32_t v[3]; };
static void same(A & a, Ref const & r) {
    A const & c = a; vp_check(a.size() == r.n && a.empty() == (r.n == 0), "size, empty");
    vp_check(a.end() == a.begin() + r.n && c.end() == c.begin() + r.n && c.cend() == c.cbegin() + r.n && c.begin() == a.begin() && c.cbegin() == a.begin(), "iterators span the elements");
    vp_check(a.data() == a.begin() && c.data() == c.begin(), "data");
    if (r.n) vp_check(reinterpret_cast<uintptr_t>(a.data()) % alignof(VT) == 0 && vp_valid(a.data(), r.n * sizeof(VT)), "aligned and large enough");
    for (size_t i = 0; i < r.n; ++i) { vp_check(&a[i] == a.begin() + i && &c[i] == &a[i] && a.data(i) == &a[i] && c.data(i) == &a[i], "element access"); vp_check(uint32_t(a[i]) == r.v[i], "contents"); }
}
static size_t fill(A & a, Ref & r) { for (size_t i = 0; i < r.n; ++i) { r.v[i] = vp_any<uint32_t>("element"); a[i] = r.v[i]; } return r.n; }
int main() {
    vp_leak_mark();
    {
        Ref r[3]; for (auto & x : r) x.n = 0; A a[3];
        for (int i = 0; i < 2; ++i) { r[i].n = i ? vp_choose(3, "size") : 3; A t(r[i].n); vp_check(t.size() == r[i].n, "constructed with the size"); fill(t, r[i]); a[i] = std::move(t); vp_check(t.empty() && t.size() == 0, "a moved-from array is empty"); }
        for (int i = 0; i < 3; ++i) same(a[i], r[i]);
        for (int o = 0; o < VK; ++o) {
            int const i = vp_choose(3, "array"), j = vp_choose(3, "other");
            switch (vp_choose(4, "operation")) {
            case 0: { A & t = (a[i] = std::move(a[j])); vp_check(&t == &a[i], "assignment returns its target"); if (i != j) { r[i] = r[j]; r[j].n = 0; } break; }
            case 1: { A t(std::move(a[i])); same(t, r[i]); vp_check(a[i].empty() && a[i].size() == 0, "a moved-from array is empty"); a[j] = std::move(t); Ref const x = r[i]; r[i].n = 0; r[j] = x; break; }
            case 2: { using std::swap; swap(a[i], a[j]); Ref const x = r[i]; r[i] = r[j]; r[j] = x; break; }
            default: if (r[i].n) { size_t const k = vp_choose(r[i].n, "index"); r[i].v[k] = vp_any<uint32_t>("x"); *(a[i].begin() + k) = r[i].v[k]; } else { a[i] = A(2); r[i].n = 2; fill(a[i], r[i]); }
            }
            for (int k = 0; k < 3; ++k) same(a[k], r[k]);
        }
    }
    vp_leak_check();
}
