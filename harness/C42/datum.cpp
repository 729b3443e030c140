// C42: Datum (src/Datum.h) holds exactly its bytes, and loading a file gives the whole file or an exception.
// The file system is a stand-in: one file of arbitrary content; system calls fail and are interrupted at will.
//VP name=ops tier=quick shim=1 flags="-DOPS -DVK=2 -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="any 2 operations of 12 kinds on two Datums of 0..3 arbitrary bytes, against plain byte arrays"
//VP name=ops3 tier=thorough shim=1 flags="-DOPS -DVK=3 -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="any 3 operations"
//VP name=range tier=both shim=1 flags="-DRANGE -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS" desc="range and hash of Datums of 0..9 arbitrary bytes, with the preconditions of the standard containers checked"
//VP name=load tier=both shim=1 flags="-DLOAD -DFAULTS=2 -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="file of 0..3 arbitrary bytes; every read returns any number of bytes; up to 2 calls fail or are interrupted; any type of file"
//VP name=loadf tier=thorough shim=1 flags="-DLOAD -DFAULTS=4 -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="up to 4 calls fail or are interrupted"
//VP name=chg tier=both shim=1 flags="-DLOAD -DFAULTS=1 -DCHANGE -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="the file shrinks or grows while it is read"
//VP name=oom tier=both shim=1 flags="-DLOAD -DFAULTS=0 -DOOM -D_GLIBCXX_EXTERN_TEMPLATE=0" desc="any one allocation fails while loading"
#include <vp.h>
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <limits>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/types.h>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>

/* The stand-in for the file system: one file, one descriptor. */
static struct {
    unsigned char content[4]; std::size_t size = 0u, pos = 0u;
    ::mode_t mode = S_IFREG;
    int budget = 0, error = 0;
    bool open = false, failed = false, nothing = false; unsigned opened = 0u, badClose = 0u;
    bool change = false; int fd = 5;
} fs;
static bool failing(char const * const what, bool const mayInterrupt) {
    if (fs.budget <= 0 || !vp_choose(2u, what)) return false;
    --fs.budget;
    if (mayInterrupt && vp_choose(2u, "interrupted")) { errno = EINTR; return true; }
    errno = fs.error = vp_choose(2u, "errno") ? EIO : EACCES; fs.failed = true;
    return true;
}
static int vpx_open(char const * const name, int, ...) {
    vp_check(std::strcmp(name, "name") == 0, "the file asked for is opened");
    if (failing("open fails", false)) return -1;
    vp_check(!fs.open, "the file is opened once"); fs.open = true; ++fs.opened; fs.pos = 0u;
    return fs.fd = vp_choose(2u, "descriptor zero") ? 0 : 5;
}
static int vpx_fstat(int const fd, struct ::stat * const s) {
    if (fd != fs.fd || !fs.open) { errno = EBADF; vp_fail("fstat of a descriptor that is not open"); return -1; }
    if (failing("fstat fails", false)) return -1;
    std::memset(s, 0, sizeof(*s)); s->st_mode = fs.mode | 0644; s->st_size = static_cast<::off_t>(fs.size);
    return 0;
}
static ::ssize_t vpx_read(int const fd, void * const buf, std::size_t const n) {
    if (fd != fs.fd || !fs.open) { errno = EBADF; vp_fail("read of a descriptor that is not open"); return -1; }
    if (failing("read fails", true)) return -1;
    if (fs.change && vp_choose(2u, "file changes")) { fs.change = false; fs.size = vp_choose(5u, "new size"); }
    std::size_t const left = fs.pos < fs.size ? fs.size - fs.pos : 0u, most = left < n ? left : n;
    if (most == 0u) { if (n > 0u) fs.nothing = true; return 0; }
    std::size_t const k = 1u + vp_choose(static_cast<unsigned>(most), "bytes read");
    std::memcpy(buf, fs.content + fs.pos, k); fs.pos += k;
    return static_cast<::ssize_t>(k);
}
static int vpx_close(int const fd) {
    if (fd != fs.fd || !fs.open) { ++fs.badClose; errno = EBADF; return -1; }
    fs.open = false; // the error is reported by errno, the descriptor is gone either way
    if (fs.budget > 0 && vp_choose(2u, "close fails")) { --fs.budget; errno = EINTR; return -1; }
    return 0;
}
#include <sharemind/Exception.h>
#include <sharemind/Hash.h>
#include <sharemind/PotentiallyVoidTypeInfo.h>
#include <sharemind/Concat.h>
#define open vpx_open
#define fstat vpx_fstat
#define read vpx_read
#define close vpx_close
#include <sharemind/Datum.h>
#undef open
#undef fstat
#undef read
#undef close
using sharemind::Datum;

struct Ref { unsigned char d[8]; std::size_t n = 0u; };
static void same(Datum const & d, Ref const & r) {
    vp_check(d.size() == r.n && d.empty() == (r.n == 0u), "size");
    if (r.n) {
        vp_check(std::memcmp(d.constData(), r.d, r.n) == 0, "bytes");
        vp_check(static_cast<char const *>(d.constDataEnd()) - static_cast<char const *>(d.constData()) == static_cast<std::ptrdiff_t>(r.n), "the range of the data has the size of the Datum");
    }
}

int main() {
#ifdef OPS
    vp_leak_mark();
    {
        std::unique_ptr<Datum> o[2]; Ref r[2];
        for (unsigned i = 0u; i < 2u; ++i) {
            r[i].n = vp_choose(i ? 2u : 3u, "size"); vp_sym_bytes(r[i].d, r[i].n, "bytes");
            o[i].reset(new Datum(r[i].d, r[i].n));
            same(*o[i], r[i]);
        }
        for (unsigned k = 0u; k < VK; ++k) {
            switch (vp_choose(12u, "operation")) {
            case 0u: *o[0] = *o[1]; r[0] = r[1]; break;
            case 1u: { Datum & s = *o[0]; *o[0] = s; break; }
            case 2u: *o[0] = std::move(*o[1]); r[0] = r[1]; o[1]->clear(); r[1].n = 0u; break;
            case 3u: o[0].reset(new Datum(*o[1])); r[0] = r[1]; break;
            case 4u: o[0].reset(new Datum(std::move(*o[1]))); r[0] = r[1]; o[1].reset(new Datum); r[1].n = 0u; break;
            case 5u: case 6u: { std::size_t const n = vp_choose(5u, "new size"); auto const v = vp_any<char>("fill");
                bool const fill = vp_choose(2u, "with a value"); if (fill) o[0]->resize(n, v); else o[0]->resize(n);
                for (std::size_t i = r[0].n; i < n; ++i) r[0].d[i] = fill ? static_cast<unsigned char>(v) : 0u; r[0].n = n; break; }
            case 7u: { std::size_t const n = vp_choose(4u, "new size"); unsigned char b[4]; vp_sym_bytes(b, n, "new bytes"); o[0]->assign(b, n); std::memcpy(r[0].d, b, n); r[0].n = n; break; }
            case 8u: o[0]->clear(); r[0].n = 0u; break;
            case 9u: { std::size_t const n = vp_choose(4u, "new size"); auto const v = vp_any<char>("fill"); o[0].reset(new Datum(n, v)); std::memset(r[0].d, static_cast<unsigned char>(v), n); r[0].n = n; break; }
            case 10u: { vp_assume(r[0].n > 0u); std::size_t const i = vp_choose(static_cast<unsigned>(r[0].n), "index"); auto const v = vp_any<unsigned char>("byte"); static_cast<unsigned char *>(o[0]->data())[i] = v; r[0].d[i] = v; break; }
            default: std::swap(o[0], o[1]); std::swap(r[0], r[1]); break;
            }
            same(*o[0], r[0]); same(*o[1], r[1]);
            bool const eq = r[0].n == r[1].n && std::memcmp(r[0].d, r[1].d, r[0].n) == 0;
            vp_check((*o[0] == *o[1]) == eq && (*o[0] != *o[1]) == !eq, "Datums are equal exactly when their bytes are");
        }
        vp_witness("reached");
    }
    vp_leak_check();
#endif
#ifdef RANGE
    {
        unsigned char b[9]; std::size_t const n = vp_choose(10u, "n"); vp_sym_bytes(b, n, "b");
        Datum d(b, n);
        Datum const & c = d;
        vp_check(d.data() == c.constData() && d.dataEnd() == c.constDataEnd(), "both ranges are the same");
        vp_check(static_cast<char const *>(d.dataEnd()) - static_cast<char const *>(d.data()) == static_cast<std::ptrdiff_t>(n), "the range of the data has the size of the Datum");
        vp_check(n == 0u || std::memcmp(c.constData(), b, n) == 0, "bytes");
        vp_check(d.hash() == sharemind::hashRawData(b, n) && hash_value(d) == d.hash(), "the hash is that of the bytes");
        Datum e(7u); e.assign(b, n);
        vp_check(e == d && e.hash() == d.hash(), "equal Datums have equal hashes");
        vp_check(n == 0u || std::memcmp(c.constData(), b, n) == 0, "hashing changes nothing");
        vp_witness("reached");
    }
#endif
#ifdef LOAD
    vp_leak_mark();
    {
        std::size_t const size = vp_choose(4u, "file size"); fs.size = size;
        vp_sym_bytes(fs.content, 4u, "file"); 
        switch (vp_choose(3u, "file type")) { case 0u: fs.mode = S_IFREG; break; case 1u: fs.mode = S_IFDIR; break; default: fs.mode = S_IFIFO; break; }
        bool const regular = fs.mode == S_IFREG;
        std::string const name("name");
        Ref r; r.n = 2u; r.d[0] = vp_any<unsigned char>("old0"); r.d[1] = vp_any<unsigned char>("old1");
        Datum old(r.d, r.n);
        fs.budget = FAULTS;
#ifdef CHANGE
        fs.change = true;
#endif
        bool const construct = vp_choose(2u, "construct");
        bool loaded = false, mem = false;
#ifdef OOM
        vp_alloc_may_fail(1);
#endif
        try {
            if (construct) { Datum d(name); Ref f; f.n = d.size(); loaded = true; vp_check(f.n == size, "the file is loaded whole"); 
                vp_check(f.n == 0u || std::memcmp(d.constData(), fs.content, f.n) == 0, "the bytes of the file are loaded, in order"); }
            else { old.loadFromFile(name); loaded = true; vp_check(old.size() == size && (size == 0u || std::memcmp(old.constData(), fs.content, size) == 0), "the bytes of the file are loaded, in order"); }
        } catch (Datum::LoadException const & e) {
#ifndef OOM // string streams drop what they have no memory for
            vp_check(std::strcmp(e.what(), "Failed to load file \"name\"!") == 0, "the exception names the file");
#endif
            bool nested = false;
            try { std::rethrow_if_nested(e); }
            catch (sharemind::ErrnoException const & n) { nested = true; vp_check(fs.failed && n.errorNumber() == fs.error, "the nested exception has the error of the system"); }
            catch (Datum::FileTypeNotSupportedException const &) { nested = true; vp_check(!fs.failed && !regular, "the type of the file is refused"); }
            catch (Datum::FileSizeChangedException const &) { nested = true; vp_check(!fs.failed && regular && fs.nothing, "the file ended early"); }
            catch (std::bad_alloc const &) { nested = true; mem = true; }
            vp_check(nested, "the exception has the reason nested");
        } catch (std::bad_alloc const &) { mem = true; }
#ifdef OOM
        vp_alloc_may_fail(0);
        if (mem) vp_witness("no memory");
#else
        vp_check(!mem, "memory is available");
#endif
        if (loaded) vp_witness("loaded");
        vp_check(!loaded || !fs.failed, "a failure of a system call is reported");
        vp_check(loaded || fs.failed || !regular || fs.nothing || mem, "loading fails only for a reason");
        if (!loaded || construct) same(old, r);
        vp_check(!fs.open && fs.badClose == 0u, "the descriptor is closed exactly once");
        vp_witness("reached");
    }
    vp_leak_check();
#endif
    vp_end();
}
