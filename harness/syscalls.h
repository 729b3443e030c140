// Stand-ins for close() and fcntl(): they act on a small table of descriptors, never on real ones.
#pragma once
#include <vp.h>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
struct Os {
    static constexpr int N = 6;
    struct D { bool open = false; int fd = 0, fl = 0; unsigned opened = 0, closed = 0; } d[N];
    bool flaky = false; int budget = 0;     // failing calls left
    unsigned badClose = 0, interrupted = 0; int lastError = 0;
    int open(int fd) { d[fd].open = true; d[fd].fd = 0; ++d[fd].opened; return fd; }
    int doClose(int f) {
        if (f < 0 || f >= N || !d[f].open) { ++badClose; errno = EBADF; return -1; }
        d[f].open = false; ++d[f].closed;
        if (flaky && budget > 0 && vp_choose(2, "close reports an error")) { --budget; errno = vp_choose(2, "close errno") ? EINTR : EIO; return -1; }
        return 0;
    }
    int doFcntl(int f, int cmd, int arg) {
        if (f < 0 || f >= N || !d[f].open) { errno = lastError = EBADF; return -1; }
        if (flaky && budget > 0) {
            unsigned const e = vp_choose(4, "fcntl fails");
            if (e) { --budget; if (e < 3) ++interrupted; errno = lastError = e == 1 ? EINTR : e == 2 ? EAGAIN : EMFILE; return -1; }
        }
        switch (cmd) {
        case F_DUPFD_CLOEXEC: for (int n = arg; n < N; ++n) if (!d[n].open) { open(n); d[n].fd = FD_CLOEXEC; d[n].fl = d[f].fl; return n; } errno = lastError = EMFILE; return -1;
        case F_DUPFD: for (int n = arg; n < N; ++n) if (!d[n].open) { open(n); d[n].fl = d[f].fl; return n; } errno = lastError = EMFILE; return -1;
        case F_GETFD: return d[f].fd; case F_SETFD: d[f].fd = arg; return 0;
        case F_GETFL: return d[f].fl; case F_SETFL: d[f].fl = arg; return 0;
        default: vp_fail("unexpected fcntl command"); return -1;
        }
    }
};
static Os os;
static inline int vpx_close(int f) { return os.doClose(f); }
struct VpxFcntl { int operator()(int f, int cmd, int arg = 0) const { return os.doFcntl(f, cmd, arg); } };
static VpxFcntl const vpx_fcntl{};
#define close vpx_close
#define fcntl vpx_fcntl
