// Every sequence of operations on optionals against a model that knows whether each holds a value and which.
//VP name=k3 tier=both flags="-DVK=3" shim=1 desc="any three operations on two optionals of a class type and one of a convertible type, every value; one constructor or assignment may throw"
//VP name=k4 tier=thorough flags="-DVK=4" shim=1 desc="any four operations on two optionals of a class type and one of a convertible type, every value; one constructor or assignment may throw"
//VP name=int3 tier=both flags="-DVK=3 -DVINT" shim=1 desc="any three operations on two optionals of int and one of short, every value"
//VP name=mo3 tier=both flags="-DVK=3 -DVMO" shim=1 desc="any three operations on two optionals of a move-only type, every value; one constructor or assignment may throw"
#include <vp.h>
#include <initializer_list>
#include <utility>
#include <sharemind/Optional.h>
using sharemind::Optional; using sharemind::nullOption; using sharemind::inPlace;
static int live = 0, boom = 0, moves = 0; struct Boom {};
static void may() { if (boom > 0 && vp_choose(2, "throws")) { --boom; throw Boom(); } }
struct W { int v; explicit W(int i) : v(i) {} };
struct Tk {
    int v; Tk const * self; 
    explicit Tk(int i) : v((may(), i)), self(this) { ++live; } Tk(W const & w) : v((may(), w.v)), self(this) { ++live; } Tk(W && w) : v((may(), w.v)), self(this) { w.v = -2; ++live; }
    Tk(std::initializer_list<int> l, int i) : v((may(), *l.begin() + i)), self(this) { ++live; }
#ifdef VMO
    Tk(Tk const &) = delete; Tk & operator=(Tk const &) = delete;
#else
    Tk(Tk const & o) : v((may(), o.v)), self(this) { vp_check(o.self == &o, "copied from a live value"); ++live; } Tk & operator=(Tk const & o) { vp_check(o.self == &o && self == this, "assigned between live values"); may(); v = o.v; return *this; }
#endif
    Tk(Tk && o) : v((may(), o.v)), self(this) { vp_check(o.self == &o, "moved from a live value"); if (&o != this) o.v = -1; ++live; } Tk & operator=(Tk && o) { vp_check(o.self == &o && self == this, "assigned between live values"); may(); int const x = o.v; o.v = -1; v = x; return *this; }
    Tk & operator=(W const & w) { vp_check(self == this, "assigned to a live value"); may(); v = w.v; return *this; } Tk & operator=(W && w) { vp_check(self == this, "assigned to a live value"); may(); v = w.v; w.v = -2; return *this; }
    ~Tk() { vp_check(self == this, "only live values are destroyed"); self = nullptr; --live; }
};
#ifdef VINT
using T = int; using U = short; static int val(int x) { return x; } enum { MOVED_T = 0, MOVED = 0 };
#else
using T = Tk; using U = W; static int val(T const & x) { vp_check(x.self == &x, "a live value"); return x.v; } enum { MOVED = 1 };
#endif
struct M { bool has = false; int v = 0; };
static void same(Optional<T> const & o, M const & m) { vp_check(o.hasValue() == m.has && bool(o) == m.has && (o == nullOption) == !m.has, "holds a value exactly when one was put in"); if (m.has) { vp_check(val(*o) == m.v, "that value"); vp_check(o.operator->() == &*o, "the same object"); } }
#ifdef VINT
static void movedW(Optional<U> const & w, M const & m) { vp_check(w.hasValue() == m.has, "a moved-from optional keeps its moved-from value"); }
#else
static void movedW(Optional<U> const & w, M const & m) { vp_check(w.hasValue() == m.has && (!m.has || (*w).v == -2), "the value is moved, not copied"); }
#endif
int main() {
    vp_leak_mark(); boom = 
#ifdef VINT
        0;
#else
        1;
#endif
    {
        Optional<T> o[2]; M m[2]; Optional<U> w; M mw; (void) w; (void) mw;
        for (int k = 0; k < VK; ++k) {
            int const i = k ? vp_choose(2, "optional") : 0, j = 1 - i; Optional<T> & a = o[i]; Optional<T> & b = o[j]; M & ma = m[i]; M & mb = m[j]; M const a0 = ma, b0 = mb;
            int const n =
#ifdef VINT
                vp_range("value", -100, 100);
#else
                vp_any<int>("value");
#endif
            int const op = vp_choose(
#ifdef VMO
                10
#else
                17
#endif
                , "operation"); bool thrown = false; M exp = ma;
            try {
                switch (op) {
                case 0: exp.has = false; a = nullOption; break;
                case 1: exp.has = false; a.reset(); break;
                case 2: { exp.has = true; exp.v = n; ma.has = false; T & r = a.emplace(n); vp_check(&r == &*a, "the new value"); ma = exp; } break;
                case 3: { bool const had = b.hasValue(); exp = mb; if (!had) ma = M(); a = std::move(b); ma = exp; if (had && MOVED) mb.v = -1; } break;
                case 4: { M const t = ma; a.swap(b); ma = mb; mb = t; exp = ma; } break;
                case 5: { M const t = ma; swap(a, b); ma = mb; mb = t; exp = ma; } break;
                case 6: { exp.has = true; exp.v = n; a = Optional<T>(inPlace, n); ma = exp; } break;
                case 7: { Optional<T> c(std::move(a)); same(c, ma); if (MOVED && ma.has) ma.v = -1; exp = ma; } break;
                case 8: { w = Optional<U>(inPlace, static_cast<short>(n)); mw.has = true; mw.v = static_cast<short>(n); if (vp_choose(2, "empty")) { w.reset(); mw = M(); } exp = mw; if (!mw.has) ma = M(); a = std::move(w); ma = exp; movedW(w, mw); } break;
                case 9: { w = Optional<U>(); mw = M(); if (vp_choose(2, "value")) { w.emplace(static_cast<short>(n)); mw.has = true; mw.v = static_cast<short>(n); } Optional<T> c(std::move(w)); same(c, mw); movedW(w, mw); exp = ma; } break;
#ifndef VMO
                case 10: exp = mb; if (!mb.has) ma = M(); a = b; ma = exp; break;
                case 11: a = static_cast<Optional<T> const &>(a); break;
                case 12: { Optional<T> c(b); same(c, mb); Optional<T> const d(c); same(d, mb); } break;
                case 13: { if (vp_choose(2, "value")) { w.emplace(static_cast<short>(n)); mw.has = true; mw.v = static_cast<short>(n); } else { w.reset(); mw = M(); } exp = mw; if (!mw.has) ma = M(); a = static_cast<Optional<U> const &>(w); ma = exp; } break;
                case 14: { Optional<U> const u(vp_choose(2, "value") ? Optional<U>(inPlace, static_cast<short>(n)) : Optional<U>()); M mu; mu.has = u.hasValue(); mu.v = static_cast<short>(n); Optional<T> c(u); same(c, mu); } break;
                case 15: { T const t(n); exp.has = true; exp.v = n; a = t; ma = exp; } break;
                default: { T const d(n); T const r(a.valueOr(d)); vp_check(val(r) == (ma.has ? ma.v : n), "the value or the default"); T const q(static_cast<Optional<T> const &>(b).valueOrConstruct(n)); vp_check(val(q) == (mb.has ? mb.v : n), "the value or a new one"); } break;
#endif
                }
            } catch (Boom const &) { thrown = true; }
            if (!thrown) { ma = exp; if (op < 3 || op == 6) {} }
            else { // what an exception leaves: each optional holds a value it had or was to get, or none if it had to be emptied
                for (int q = 0; q < 2; ++q) { M & x = m[q]; M const & old = q == i ? a0 : b0; bool const h = o[q].hasValue();
                    if (op == 2 && q == i) vp_check(!h, "emptied before the new value is made"); else vp_check(h == old.has, "an optional that had a value keeps one, an empty one stays empty");
                    x.has = h; if (h) x.v = val(*o[q]); }
                if (op == 10 || op == 12 || op == 15 || op >= 13) { if (op != 10 && op != 13 && op != 15) vp_check(!m[i].has || m[i].v == a0.v, "unchanged"); vp_check(!m[j].has || m[j].v == b0.v, "the source of a copy is unchanged"); }
            }
            same(a, ma); same(b, mb);
#ifndef VINT
            vp_check(live == int(m[0].has) + int(m[1].has), "constructions and destructions balance");
#endif
        }
    }
    vp_check(live == 0, "constructions and destructions balance"); vp_leak_check();
}
