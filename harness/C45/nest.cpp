// C45: keys and values that use the stack themselves while they are made and destroyed, or keep a context open inside of them.
//VP name=nest tier=both desc="a context in an outer one, key and value each any of: plain, use a context while constructed, keep one open, fail afterwards; arbitrary 8-bit keys"
#include <vp.h>
#include <new>
#include <memory>
#include <sharemind/CallStack.h>
struct Key; struct Val; using S = sharemind::CallStack<Key, Val>;
struct Boom {};
struct Made { unsigned char key; unsigned how; }; // how: 0 plain, 1 a context during construction, 2 keeps one, 3 as 2 and then fails, 4 as 1 and then fails
struct Part {
    unsigned char v; std::unique_ptr<S::Context> kept;
    explicit Part(unsigned char x) noexcept; explicit Part(Made m); ~Part();
};
struct Key : Part { using Part::Part; }; struct Val : Part { Val() noexcept : Part(static_cast<unsigned char>(0u)) {} using Part::Part; };
static bool operator==(Key const & a, unsigned char k) noexcept { return a.v == k; }
static unsigned char model[8]; static unsigned depth = 0u; // innermost last
static void same(char const * const) {
    unsigned i = depth;
    for (auto c = S::top(); c; c = c->next()) { vp_check(i > 0u, "no other context is listed"); vp_check(c->key().v == model[--i], "the contexts are listed innermost first"); }
    vp_check(i == 0u, "every active context is listed");
    auto const k = vp_any<unsigned char>("find"); auto const f = S::contains(k);
    for (i = depth; i > 0u && model[i - 1u] != k; --i); vp_check((f != nullptr) == (i > 0u), "found only if active");
    unsigned n = depth; for (auto c = S::top(); c && n > i; c = c->next()) --n; if (i) { auto c = S::top(); for (n = depth; n > i; --n) c = c->next(); vp_check(c == f, "the innermost one is found"); }
}
Part::Part(unsigned char x) noexcept : v(x) {}
Part::Part(Made m) : v(m.key) {
    if (m.how == 1u || m.how == 4u) { unsigned char const k = 7u; S::Context c(k); model[depth++] = k; same("during"); --depth; }
    if (m.how == 2u || m.how == 3u) { kept.reset(new S::Context(static_cast<unsigned char>(v + 1u))); model[depth++] = static_cast<unsigned char>(v + 1u); }
    if (m.how >= 3u) { if (kept) { kept.reset(); --depth; } throw Boom{}; }
}
Part::~Part() { if (kept) { same("before"); kept.reset(); --depth; same("after"); } }
int main() {
    vp_leak_mark();
    {
        auto const a = vp_any<unsigned char>("outer"), b = vp_any<unsigned char>("inner");
        S::Context outer(a); model[depth++] = a; same("outer");
        Made const k{b, static_cast<unsigned>(vp_choose(5u, "key"))}, v{static_cast<unsigned char>(b ^ 16u), static_cast<unsigned>(vp_choose(5u, "value"))}; bool const dflt = vp_choose(2u, "default value");
        alignas(S::Context) unsigned char raw[sizeof(S::Context)]; S::Context * c = nullptr;
        unsigned const before = depth;
        try { c = dflt ? new (raw) S::Context(k) : new (raw) S::Context(k, v); } catch (Boom const &) { vp_check(k.how >= 3u || (!dflt && v.how >= 3u), "fails only if a part of it does"); }
        if (c) {
            model[depth++] = b; same("inner"); vp_check(S::top() == c, "the innermost context"); vp_check(c->value().v == (dflt ? 0u : v.key), "its value");
            --depth; c->~Context();
        }
        vp_check(depth == before, "all of the inner ones are gone"); same("gone"); vp_check(S::top() == &outer, "the outer one is the innermost again");
        --depth;
    }
    vp_check(S::top() == nullptr, "all contexts are closed");
    vp_leak_check();
}
