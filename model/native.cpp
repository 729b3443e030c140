// Native replay runtime: runs a harness against the real code, natively compiled with sanitizers, on the inputs of a counterexample.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <chrono>
#include <thread>
namespace {
struct Rec { std::string name; std::vector<unsigned char> bytes; };
std::vector<Rec> recs; size_t pos = 0; bool loaded = false; int64_t nowNs = 1000000000; long liveMark = 0;
void load() {
    if (loaded) return; loaded = true; // format per line: name TAB hexbytes (little endian)
    char const * fn = std::getenv("VP_REPLAY"); if (!fn) return; FILE * f = std::fopen(fn, "r"); if (!f) return;
    std::string line; int c;
    while ((c = std::fgetc(f)) != EOF) {
        if (c != '\n') { line += static_cast<char>(c); continue; }
        auto t = line.rfind('\t'); Rec r; r.name = line.substr(0, t); for (size_t i = t + 1; i + 2 <= line.size(); i += 2) r.bytes.push_back(static_cast<unsigned char>(std::strtoul(line.substr(i, 2).c_str(), nullptr, 16)));
        recs.push_back(r); line.clear();
    }
    std::fclose(f);
}
[[noreturn]] void die(int rc) { std::fflush(stdout); std::fflush(stderr); std::_Exit(rc); }
Rec const * take(char const * name) { load(); for (size_t i = pos; i < recs.size(); ++i) if (recs[i].name == name) { pos = i + 1; return &recs[i]; } return nullptr; }
}
extern "C" {
void vp_sym(void * p, size_t n, char const * name) { if (auto r = take(name)) { std::memset(p, 0, n); std::memcpy(p, r->bytes.data(), r->bytes.size() < n ? r->bytes.size() : n); } else { std::memset(p, 0, n); } }
void vp_sym_bytes(void * p, size_t n, char const * name) { vp_sym(p, n, name); }
size_t vp_choose(size_t n, char const * name) { unsigned long v = 0; vp_sym(&v, sizeof v, name); return n ? v % n : 0; }
void vp_assume(bool c) { if (!c) { std::printf("REPLAY assumption not met\n"); die(77); } }
void vp_assert_(bool c, char const * what) { if (!c) { std::printf("REPLAY assertion failed: %s\n", what); die(42); } }
void vp_fail(char const * what) { std::printf("REPLAY assertion failed: %s\n", what); die(42); }
void vp_witness(char const *) {}
void vp_cover(bool, char const *) {}
int vp_native(void) { return 1; }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_leak_mark(void) {} void vp_leak_check(void) {} size_t vp_live_heap(void) { return 0; }
void vp_alloc_may_fail(int) {} void vp_spurious(int) {}
void vp_log(char const * m, uint64_t v) { std::printf("LOG %s %llu\n", m, static_cast<unsigned long long>(v)); }
void vp_end(void) { die(0); }
int vp_valid(void const *, size_t) { return 1; } void vp_noleak(void *) {} void vp_yield(void) { std::this_thread::yield(); } int vp_tid(void) { return 0; }
int64_t vp_now(void) { return nowNs; } int64_t vp_clock(void) { return nowNs; } void vp_set_now(int64_t n) { nowNs = n; } void vp_horizon(int64_t) {}
size_t vp_live_threads(void) { return 1; } int vp_is_blocked(int) { return 0; }
}
