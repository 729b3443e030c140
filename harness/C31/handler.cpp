// Handlers made from functions: each keeps its own copy and passes on exactly the events given.
//VP name=own tier=both flags="-DVX=1" desc="handlers made from temporary, named, constant and move-only functions, which are gone when the handler is used; every set of events"
#include <vp.h>
#include <memory>
#include <utility>
#include "epoll.h"
#include <sharemind/EventLoop.h>
using sharemind::EventLoop;
static int live = 0;
struct F {
    int key; std::uint32_t * got; int * n; F(int k, std::uint32_t * g, int * m) : key(k), got(g), n(m) { ++live; } F(F const & o) : key(o.key), got(o.got), n(o.n) { ++live; } ~F() { key = -1; --live; }
    void operator()(EventLoop::EventSet e) const noexcept { *got = e ^ static_cast<std::uint32_t>(key); ++*n; } void operator()() const noexcept { *got = static_cast<std::uint32_t>(key); ++*n; }
};
struct G { std::unique_ptr<int> key; std::uint32_t * got; int * n; void operator()(EventLoop::EventSet e) noexcept { *got = e ^ static_cast<std::uint32_t>(*key); ++*n; ++*key; } };
int main() {
    vp_leak_mark();
    {
        std::uint32_t got = 0; int n = 0; int const key = vp_any<int>("key"); std::uint32_t const e = vp_any<std::uint32_t>("events"), f = vp_any<std::uint32_t>("other events");
        std::unique_ptr<EventLoop::EventHandler> h; bool simple = false, counts = false;
        switch (vp_choose(6, "kind")) {
        case 0: h = EventLoop::createHandler(F(key, &got, &n)); break;
        case 1: { std::unique_ptr<F> p(new F(key, &got, &n)); h = EventLoop::createHandler(*p); break; }
        case 2: { std::unique_ptr<F const> p(new F(key, &got, &n)); h = EventLoop::createHandler(*p); break; }
        case 3: { G g{std::make_unique<int>(key), &got, &n}; h = EventLoop::createHandler(std::move(g)); counts = true; break; }
        case 4: { std::unique_ptr<F> p(new F(key, &got, &n)); h = EventLoop::createSimpleHandler(*p); simple = true; break; }
        default: h = EventLoop::createSimpleHandler(F(key, &got, &n)); simple = true; break;
        }
        vp_check(live == (counts ? 0 : 1), "the handler keeps one copy of the function"); vp_check(n == 0, "making a handler does not call it");
        h->handleEvents(e); vp_check(n == 1 && got == ((simple ? 0u : e) ^ static_cast<std::uint32_t>(key)), "called once with exactly the events");
        h->handleEvents(f); vp_check(n == 2 && got == ((simple ? 0u : f) ^ (static_cast<std::uint32_t>(key) + (counts ? 1u : 0u))), "called again with exactly the events");
        h.reset(); vp_check(live == 0, "the function goes with the handler");
    }
    vp_leak_check();
}
