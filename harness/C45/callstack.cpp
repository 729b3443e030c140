// C45: call stacks (src/CallStack.h) list exactly the active contexts of their own thread, innermost first.
//VP name=seq tier=quick flags="-DSEQ -DVK=5" desc="any 5 operations (open a context, close the innermost, throw out of any number of them, key or value construction fails), arbitrary 8-bit keys and values"
//VP name=seq7 tier=thorough flags="-DSEQ -DVK=7" desc="any 7 operations"
//VP name=thr tier=quick flags="-DTHR -DVK=2" opts="--preempt 2" desc="two threads with up to 2 contexts each, at most 2 preemptions"
//VP name=thr3 tier=thorough flags="-DTHR -DVK=3" opts="--preempt 3" desc="two threads with up to 3 contexts each, at most 3 preemptions"
#include <vp.h>
#include <new>
#include <sharemind/CallStack.h>
#include <thread>
#include <type_traits>
struct Boom {};
struct Key { unsigned char v; Key(unsigned char const x) noexcept(false) : v(x) { if (x == 255u) throw Boom{}; } };
inline bool operator==(Key const a, Key const b) noexcept { return a.v == b.v; }
struct Val { unsigned char v; Val() noexcept : v(9u) {} Val(unsigned char const x) noexcept(false) : v(x) { if (x == 255u) throw Boom{}; } };
using A = sharemind::CallStack<Key>;
using B = sharemind::CallStack<Key, Val>;

struct Model { unsigned n = 0u; unsigned char key[8], val[8]; void * at[8]; };
static unsigned char valueOf(B::Context & c) { return c.value().v; }
static unsigned char valueOf(A::Context &) { return 0u; }

template <typename S> static void check(Model const & m) {
    auto * c = S::top();
    for (unsigned i = m.n; i-- > 0u; c = c->next()) {
        vp_check(c == m.at[i], "the contexts are listed innermost first");
        vp_check(c->key().v == m.key[i] && valueOf(*c) == m.val[i], "a context has its key and value");
    }
    vp_check(c == nullptr, "no other context is listed");
}
template <typename S> static void find(Model const & m, unsigned char const k) {
    auto * const found = S::contains(Key(k));
    unsigned i = m.n;
    while (i > 0u && m.key[i - 1u] != k) --i;
    vp_check(found == (i ? m.at[i - 1u] : nullptr), "the innermost context of a key is found, and only if there is one");
}

struct Unwind { unsigned levels; };

template <typename S> struct Open;
template <> struct Open<A> { A::Context c; unsigned char val = 0u; Open(unsigned char const k, unsigned char, bool) : c(k) {} };
template <> struct Open<B> { alignas(B::Context) unsigned char raw[sizeof(B::Context)]; B::Context & c; unsigned char val;
    Open(unsigned char const k, unsigned char const v, bool const d) : c(d ? *new (raw) B::Context(k) : *new (raw) B::Context(k, v)), val(d ? 9u : v) {}
    ~Open() { c.~Context(); } };

template <typename S> static void level(Model & m, unsigned & left) {
    check<S>(m);
    while (left > 0u) {
        --left;
        switch (vp_choose(4u, "operation")) {
        case 3u: { auto const k = vp_any<unsigned char>("find"); vp_assume(k != 255u); find<S>(m, k); left = 0u; vp_end(); }
        case 0u: return; // close
        case 1u: { Unwind const u{static_cast<unsigned>(vp_choose(m.n + 1u, "levels"))}; if (u.levels) throw u; return; }
        default: {
            auto const k = vp_any<unsigned char>("key"), v = vp_any<unsigned char>("value");
            bool const d = vp_choose(2u, "default value");
            unsigned const n = m.n;
            void * const top = S::top();
            try {
                Open<S> o(k, v, d);
                vp_check(k != 255u && (d || v != 255u || std::is_same<S, A>::value), "a context is open only if it could be constructed");
                m.key[n] = k; m.val[n] = o.val; m.at[n] = &o.c; m.n = n + 1u;
                vp_check(static_cast<void *>(o.c.next()) == top, "a context is opened in the innermost one");
                level<S>(m, left);
                m.n = n;
            } catch (Boom const &) { vp_witness("failed"); m.n = n; check<S>(m); }
            catch (Unwind const & u) { m.n = n; check<S>(m); if (u.levels > 1u && n > 0u) throw Unwind{u.levels - 1u}; }
            check<S>(m);
        } }
    }
}

#ifdef THR
static void other() {
    Model m;
    check<B>(m);
    unsigned left = VK;
    while (left > 0u) {
        --left;
        unsigned char const k = vp_tid() ? 2u : 1u;
        Open<B> o(k, 3u, false);
        m.key[0] = k; m.val[0] = 3u; m.at[0] = &o.c; m.n = 1u;
        find<B>(m, 1u); find<B>(m, 2u);
        check<B>(m);
        { Open<B> p(1u, 4u, false); m.key[1] = 1u; m.val[1] = 4u; m.at[1] = &p.c; m.n = 2u; find<B>(m, 1u); find<B>(m, 2u); check<B>(m); }
        m.n = 1u; check<B>(m);
        m.n = 0u;
    }
}
#endif
int main() {
#ifdef SEQ
    vp_leak_mark();
    {
        unsigned left = VK;
        Model m;
        if (vp_choose(2u, "with values")) { while (left > 0u) level<B>(m, left); vp_check(B::top() == nullptr, "all contexts are closed"); }
        else { while (left > 0u) level<A>(m, left); vp_check(A::top() == nullptr, "all contexts are closed"); }
        vp_witness("reached");
    }
    vp_leak_check();
#endif
#ifdef THR
    { std::thread t(&other); other(); t.join(); vp_check(B::top() == nullptr, "all contexts are closed"); vp_witness("reached"); }
#endif
    vp_end();
}
