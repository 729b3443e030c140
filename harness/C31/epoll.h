// Stand-ins for the system calls of an event loop: a table of descriptors, one epoll set and one pipe; nothing real is touched.
#pragma once
#include <vp.h>
#include <cerrno>
#include <condition_variable>
#include <initializer_list>
#include <cstdint>
#include <fcntl.h>
#include <mutex>
#include <sys/epoll.h>
#include <unistd.h>
struct Sys {
    enum { EP = 3, RD = 4, WR = 5, U0 = 6, N = 10 };
    struct D { bool open = false; int opened = 0, closed = 0; } d[N];
    struct Reg { bool in = false, armed = false; std::uint32_t ev = 0; void * data = nullptr; } reg[N];
    std::uint32_t ready[N] = {};            // what the system reports for user descriptors
    std::size_t bytes = 0;                  // in the pipe
    bool hup = false;                       // the end of the pipe was reported
    int timeouts = 0;                       // empty waits allowed
    bool slowWake = false;
    int ctlFails = 0, waitFails = 0, ioFails = 0; // failing calls left
    bool failEpoll = false, failPipe = false; int interrupted = 0, badFd = 0, lastError = 0, ctlCalls = 0, flags = 0, waits = 0;
    void * got[8]; std::uint32_t gotEv[8]; int nGot = 0; // reported and to be dispatched
    bool block = false, less = false; std::mutex m; std::condition_variable c;
    void err(int e) { errno = lastError = e; }
    void open(int f) { d[f].open = true; ++d[f].opened; }
    int epoll_create1(int fl) { flags |= fl == EPOLL_CLOEXEC ? 1 : 0; if (failEpoll && vp_choose(2, "epoll_create1 fails")) { err(EMFILE); return -1; } open(EP); return EP; }
    int pipe2(int * fds, int fl) {
        if (failPipe) { int const k = vp_choose(3, "pipe2 fails"); if (k == 1) { failPipe = interrupted < 1; err(EINTR); ++interrupted; return -1; } if (k == 2) { err(ENFILE); return -1; } }
        flags |= fl == (O_CLOEXEC | O_NONBLOCK) ? 2 : 0; open(RD); open(WR); fds[0] = RD; fds[1] = WR; return 0;
    }
    int close(int f) { std::lock_guard<std::mutex> g(m); if (f < 0 || f >= N || !d[f].open) { ++badFd; errno = EBADF; return -1; } d[f].open = false; ++d[f].closed; c.notify_all(); return 0; }
    int epoll_ctl(int ep, int op, int fd, epoll_event * e) {
        std::lock_guard<std::mutex> g(m); ++ctlCalls; vp_check(ep == EP && d[EP].open, "on the epoll set");
        if (ctlFails > 0) { int const k = vp_choose(4, "epoll_ctl fails"); if (k) { --ctlFails; if (k < 3) ++interrupted; err(k == 1 ? EINTR : k == 2 ? EAGAIN : ENOMEM); return -1; } }
        if (fd < 0 || fd >= N || !d[fd].open) { err(EBADF); return -1; }
        Reg & r = reg[fd];
        if (op == EPOLL_CTL_ADD) { if (r.in) { err(EEXIST); return -1; } }
        else { if (!r.in) { err(ENOENT); return -1; } }
        if (op == EPOLL_CTL_DEL) { r = Reg(); return 0; }
        vp_check(op == EPOLL_CTL_ADD || op == EPOLL_CTL_MOD, "a known operation");
        r.in = r.armed = true; r.ev = e->events; r.data = e->data.ptr; c.notify_all(); return 0;
    }
    std::uint32_t state(int f) { // level triggered
        if (f == RD) return (bytes ? EPOLLIN : 0u) | (d[WR].open ? 0u : EPOLLHUP);
        return ready[f];
    }
    std::uint32_t due(int f) { return reg[f].in && reg[f].armed && d[f].open ? state(f) & (reg[f].ev | EPOLLERR | EPOLLHUP) & ~EPOLLONESHOT : 0u; }
    int epoll_wait(int ep, epoll_event * ev, int max, int timeout) {
        std::unique_lock<std::mutex> g(m); vp_check(ep == EP && d[EP].open && max > 0, "on the epoll set"); ++waits; vp_check(!hup, "run() returns after the batch which reported that it is stopped");
        if (waitFails > 0) { int const k = vp_choose(3, "epoll_wait fails"); if (k) { --waitFails; if (k == 1) ++interrupted; err(k == 1 ? EINTR : EINVAL); return -1; } }
        for (;;) {
            int order[N], n = 0; for (int f = 0; f < N; ++f) if (due(f)) order[n++] = f;
            if (n) {
                int out = 0;
                while (n && out < max) { // any order, at least one
                    int const k = n > 1 ? vp_choose(n, "next reported") : 0, f = order[k]; for (int i = k; i + 1 < n; ++i) order[i] = order[i + 1]; --n;
                    ev[out].events = due(f); ev[out].data.ptr = reg[f].data; if (reg[f].ev & EPOLLONESHOT) { reg[f].armed = false; }
                    if (f == RD && (ev[out].events & EPOLLHUP)) hup = true;
                    if (f != RD) { vp_assert(nGot < 8); got[nGot] = ev[out].data.ptr; gotEv[nGot++] = ev[out].events; }
                    ++out; if (less && n && vp_choose(2, "report less")) break;
                }
                return out;
            }
            if (timeout == 0) return 0;
            if (timeouts > 0 && timeout > 0 && vp_choose(2, "timeout")) { --timeouts; return 0; }
            vp_check(block, "an event loop with nothing to wait for"); c.wait(g);
        }
    }
    bool ioFail() { if (ioFails > 0) { int const k = vp_choose(2, "interrupted"); if (k) { --ioFails; ++interrupted; err(EINTR); return true; } } return false; }
    ssize_t read(int f, void * p, std::size_t n) {
        std::lock_guard<std::mutex> g(m); if (ioFail()) return -1;
        if (f != RD || !d[RD].open) { ++badFd; err(EBADF); return -1; }
        if (!bytes) { if (!d[WR].open) return 0; err(EAGAIN); return -1; }
        std::size_t const k = bytes < n ? bytes : n; (void) p; bytes -= k; return static_cast<ssize_t>(k);
    }
    ssize_t write(int f, void const * p, std::size_t n) {
        std::lock_guard<std::mutex> g(m); if (ioFail()) return -1; (void) p;
        if (f == RD) { err(EBADF); return -1; } // not open for writing
        if (f != WR || !d[WR].open) { ++badFd; err(EBADF); return -1; }
        bytes += n; c.notify_all(); return static_cast<ssize_t>(n);
    }
    void checkClosed() { vp_check(!badFd, "no descriptor is used or closed after it was closed"); for (int f : { int(EP), int(RD), int(WR) }) vp_check(!d[f].open && d[f].closed == d[f].opened, "no descriptor leaks"); }
};
static Sys sys;
static inline int vpx_epoll_create1(int a) { return sys.epoll_create1(a); }
static inline int vpx_pipe2(int * a, int b) { return sys.pipe2(a, b); }
static inline int vpx_close(int a) { return sys.close(a); }
static inline int vpx_epoll_ctl(int a, int b, int c, epoll_event * d) { return sys.epoll_ctl(a, b, c, d); }
static inline int vpx_epoll_wait(int a, epoll_event * b, int c, int d) { return sys.epoll_wait(a, b, c, d); }
static inline ssize_t vpx_read(int a, void * b, std::size_t c) { return sys.read(a, b, c); }
static inline ssize_t vpx_write(int a, void const * b, std::size_t c) { return sys.write(a, b, c); }
#include <atomic>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <memory>
#include <string>
#include <thread>
#include <unordered_map>
#define epoll_create1 vpx_epoll_create1
#define pipe2 vpx_pipe2
#define close vpx_close
#define epoll_ctl vpx_epoll_ctl
#define epoll_wait vpx_epoll_wait
#define read vpx_read
#define write vpx_write
