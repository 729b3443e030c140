// Concurrent updates of an atomic flag set: none is lost, and the values they report form one order.
//VP name=two tier=both flags="-DVT=2 -DVK=2" desc="two threads with two updates each, every operation and symbolic operand, every schedule"
//VP name=three tier=both flags="-DVT=3 -DVK=1" desc="three threads with one update each, every operation and symbolic operand, every schedule"
//VP name=publish tier=both flags="-DVT=0" desc="data written before a flag is set is visible to who sees the flag, with the default order and with release and acquire"
#include <vp.h>
#include <cstdint>
#include <thread>
#include <sharemind/AtomicFlags.h>
using U = std::uint16_t; using A = sharemind::AtomicFlags<U>;
#if VT
struct Op { int k; U v; U before; U apply(U x) const { switch (k) { case 0: return U(x | v); case 1: return U(x & ~v); case 2: return U(x ^ v); case 3: return v; default: return U(~U(0)); } } };
static Op op[VT][VK];
static void act(A & a, int t) { for (int i = 0; i < VK; ++i) { Op & o = op[t][i]; switch (o.k) { case 0: o.before = a.fetchSetFlags(o.v); break; case 1: o.before = a.fetchUnsetFlags(o.v); break; case 2: o.before = a.fetchToggleFlags(o.v); break; case 3: o.before = a.exchange(o.v); break; default: o.before = a.fetchSetFlags(); } } }
static bool explain(U x, int * next, U end) { // is there an order of the updates that yields every reported value and the end?
    bool left = false, r = false;
    for (int t = 0; t < VT; ++t) if (next[t] < VK) { left = true; Op const & o = op[t][next[t]]; ++next[t]; r = r | ((o.before == x) & explain(o.apply(x), next, end)); --next[t]; }
    return left ? r : x == end;
}
int main() {
    U const s = vp_any<U>("start"); A a(s);
    for (int t = 0; t < VT; ++t) for (int i = 0; i < VK; ++i) { op[t][i].k = vp_choose(VK == 2 ? 3 : 5, "operation"); op[t][i].v = vp_any<U>("operand"); }
    { std::thread u([&] { act(a, 1); });
# if VT == 3
      std::thread v([&] { act(a, 2); });
# endif
      act(a, 0); u.join();
# if VT == 3
      v.join();
# endif
    }
    int next[VT] = {}; vp_check(explain(s, next, a.load()), "no update is lost");
}
#else
int main() {
    static int data = 0; A a(0); bool const seq = vp_choose(2, "default order"); int const how = vp_choose(3, "set by");
    std::thread u([&] { data = 7; auto const o = seq ? std::memory_order_seq_cst : std::memory_order_release; if (how == 0) a.fetchSetFlags(2u, o); else if (how == 1) a.store(2u, o); else a.fetchToggleFlags(2u, o); });
    U const v = a.load(seq ? std::memory_order_seq_cst : std::memory_order_acquire); vp_check(v == 0 || v == 2, "a value that was stored"); if (v) vp_check(data == 7, "what was written before is visible");
    bool const h = a.hasAnyOf(2u, seq ? std::memory_order_seq_cst : std::memory_order_acquire); vp_check(h || !v, "once set, set"); if (h) vp_check(data == 7, "what was written before is visible");
    u.join(); vp_check(a.hasAllOf(2u) && data == 7, "set");
}
#endif
