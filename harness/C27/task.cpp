// Packaged tasks and ready-made futures.
//VP name=k3 tier=quick flags="-DVK=3" desc="two packaged tasks, three operations, any arguments, throwing callables"
//VP name=k5 tier=thorough flags="-DVK=5" desc="two packaged tasks, five operations, any arguments, throwing callables"
//VP name=made tier=both flags="-DVK=0" desc="ready, exceptional and broken futures of several types, any values"
#include <vp.h>
#include <exception>
#include <functional>
#include <memory>
#include <utility>
#include <sharemind/Future.h>
struct Bang { int v; Bang(int x) : v(x) {} Bang(Bang const &) = default; Bang(Bang && o) noexcept : v(o.v) { o.v = -1; } };
using I = sharemind::Future<int>; using W = sharemind::Future<void>;
static int calls[4];
#if VK
struct Fun { // throws when copied, if told so
    int id; bool copyThrows = false;
    Fun(int i) : id(i) {} Fun(Fun const & o) : id(o.id), copyThrows(o.copyThrows) { if (copyThrows) throw Bang(99); } Fun(Fun && o) : id(o.id), copyThrows(o.copyThrows) {}
    int operator()(int a, int b) const { ++calls[id]; if (b < 0) throw Bang(a); return a ^ b; }
};
using PT = sharemind::PackagedTask<int(int, int)>;
struct MT { int id = -1; bool valid = false, fut = false; int slot = -1; };
int main() {
    vp_leak_mark();
    {
        PT t[2]; MT m[2]; I f[4]; int fstate[4] = { 0, 0, 0, 0 }, fv[4]; int nf = 0; // 0 none, 1 open, 2 value, 3 exception, 4 broken
        int made = 0;
        auto const drop = [&](MT & k) { if (k.valid && k.slot >= 0) fstate[k.slot] = 4; };
        for (int k = 0; k < VK; ++k) {
            int const i = vp_choose(2, "task");
            switch (vp_choose(8, "operation")) {
            case 0: case 1: { vp_assume(made < 4); Fun fun(made); if (vp_choose(2, "assign")) t[i] = PT(fun); else { PT n(std::move(fun)); t[i].swap(n); } drop(m[i]); m[i] = MT(); m[i].id = made++; m[i].valid = m[i].fut = true; break; }
            case 2: { vp_assume(m[i].fut && nf < 4); f[nf] = t[i].takeFuture(); if (m[i].valid) { fstate[nf] = 1; } else { fstate[nf] = m[i].slot < -1 ? 3 : 2; fv[nf] = m[i].slot; } vp_assume(m[i].valid); m[i].slot = nf++; m[i].fut = false; break; }
            case 3: {
                vp_assume(m[i].valid); int const a = vp_any<int>("argument"), b = vp_any<int>("argument"), before = calls[m[i].id];
                bool const own = m[i].fut; if (own) { vp_assume(nf < 4); }
                t[i](a, b); vp_check(calls[m[i].id] == before + 1, "the function is called once"); vp_check(!t[i].isValid(), "the task is done");
                if (own) { f[nf] = t[i].takeFuture(); m[i].slot = nf++; m[i].fut = false; } // the future is taken after the call
                int const s = m[i].slot; fstate[s] = vp_concretize(b < 0) ? 3 : 2; fv[s] = b < 0 ? a : a ^ b; m[i].valid = false; m[i].slot = -1; break;
            }
            case 4: t[i] = std::move(t[1 - i]); drop(m[i]); m[i] = m[1 - i]; m[1 - i] = MT(); break;
            case 5: if (vp_choose(2, "std")) std::swap(t[0], t[1]); else t[0].swap(t[1]); std::swap(m[0], m[1]); break;
            case 6: { vp_assume(m[i].id >= 0); t[i].reset(); drop(m[i]); int const id = m[i].id; m[i] = MT(); m[i].id = id; m[i].valid = m[i].fut = true; break; }
            default: { Fun fun(0); fun.copyThrows = true; try { PT n(fun); vp_fail("the exception of the copy is seen"); } catch (Bang const & b) { vp_check(b.v == 99, "the exception of the copy"); } PT n(std::move(t[i])); vp_check(!t[i].isValid(), "moved away"); t[i] = std::move(n); }
            }
            for (int j = 0; j < 2; ++j) vp_check(t[j].isValid() == m[j].valid, "a task is valid until called");
            for (int j = 0; j < nf; ++j) vp_check(f[j].isReady() == (fstate[j] > 1), "ready exactly when called or gone");
        }
        for (int j = 0; j < 2; ++j) { t[j] = PT(); drop(m[j]); }
        for (int j = 0; j < nf; ++j) {
            vp_check(f[j].isReady(), "ready at the end");
            try { int const v = f[j].takeValue(); vp_check(fstate[j] == 2 && v == fv[j], "the result of the call"); }
            catch (Bang const & b) { vp_check(fstate[j] == 3 && b.v == fv[j], "the exception of the call"); }
            catch (sharemind::BrokenPromiseException const &) { vp_check(fstate[j] == 4, "broken exactly when not called"); }
        }
    }
    {
        int const a = vp_any<int>("argument"); bool const bang = vp_choose(2, "throws"); int n = 0; // tasks that return nothing
        sharemind::PackagedTask<void(int)> t([&](int v) { ++n; vp_check(v == a, "the argument"); if (bang) throw Bang(v); }); W f(t.takeFuture());
        t(a); vp_check(n == 1 && f.isReady(), "called once");
        try { f.takeValue(); vp_check(!bang, "completed"); } catch (Bang const & b) { vp_check(bang && b.v == a, "the exception"); }
    }
    vp_leak_check();
}
#else
struct Mo { int v; Mo(int x) : v(x) {} Mo(Mo && o) noexcept : v(o.v) { o.v = -1; } };
int main() {
    vp_leak_mark();
    {
        int const x = vp_any<int>("value");
        { I f(sharemind::makeReadyFuture(x)); vp_check(f.isValid() && f.isReady() && f.takeValue() == x, "an int"); }
        { int y = x; I f(sharemind::makeReadyFuture(std::move(y))); vp_check(f.isReady() && f.takeValue() == x, "an int"); }
        { auto f(sharemind::makeReadyFuture(Mo(x))); vp_check(f.isReady(), "ready"); Mo const m(f.takeValue()); vp_check(m.v == x, "a move-only value"); }
        { auto f(sharemind::makeReadyFuture(std::make_unique<int>(x))); vp_check(*f.takeValue() == x, "a pointer"); }
        { W f(sharemind::makeReadyFuture()); vp_check(f.isReady(), "nothing"); f.takeValue(); }
        for (int how = 0; how < 4; ++how) {
            Bang b(x); Bang const c(x);
            I f(how == 0 ? sharemind::makeExceptionalFuture<int>(b) : how == 1 ? sharemind::makeExceptionalFuture<int>(c) : how == 2 ? sharemind::makeExceptionalFuture<int>(Bang(x)) : sharemind::makeExceptionalFuture<int>(std::make_exception_ptr(c)));
            vp_check(b.v == x, "the exception of the caller is kept");
            try { f.takeValue(); vp_fail("no value"); } catch (Bang const & e) { vp_check(e.v == x, "the exception"); }
        }
        { std::exception_ptr e(std::make_exception_ptr(Bang(x))); W f(sharemind::makeExceptionalFuture<void>(e)); try { f.takeValue(); vp_fail("no value"); } catch (Bang const & b) { vp_check(b.v == x, "the exception"); } }
        { I f(sharemind::makeBrokenFuture<int>()); vp_check(f.isReady(), "ready"); try { f.takeValue(); vp_fail("no value"); } catch (sharemind::BrokenPromiseException const &) {} }
        { W f(sharemind::makeBrokenFuture<void>()); vp_check(f.isReady(), "ready"); try { f.takeValue(); vp_fail("no value"); } catch (sharemind::BrokenPromiseException const &) {} }
    }
    vp_leak_check();
}
#endif
