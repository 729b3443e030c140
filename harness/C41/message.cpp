// C41: network messages (src/NetworkMessage.h) and the byte order functions which they use (src/EndianMacros.h).
//VP name=write tier=both shim=1 flags="-DWRITE -DVK=2" opts="" desc="any 2 write calls out of 17 kinds, values arbitrary, strings and arrays of 0..2 elements, against a separately built byte string; then read back"
//VP name=write3 tier=thorough shim=1 flags="-DWRITE -DVK=3" opts="" desc="any 3 write calls"
//VP name=oom tier=both shim=1 flags="-DWRITE -DVK=2 -DOOM" opts="" desc="any 2 write calls, any one allocation fails"
//VP name=read tier=both shim=1 flags="-DREAD -DVK=2 -DVN=12" opts="" desc="message of any length 0..12 of arbitrary bytes, at any position; any 2 read calls out of 14 kinds"
//VP name=read3 tier=thorough shim=1 flags="-DREAD -DVK=3 -DVN=12" opts="" desc="any 3 read calls"
//VP name=huge tier=both shim=1 flags="-DHUGE" opts="" desc="array and byte counts over the whole 64-bit range, element sizes 1, 3, 8 and 24"
//VP name=endian tier=both shim=1 flags="-DENDIAN" opts="" desc="every value of every integer type of 8 to 64 bits and strong types of them"
#include <vp.h>
#include <cstring>
#include <sharemind/EndianMacros.h>
#include <sharemind/NetworkMessage.h>
#include <sharemind/StrongType.h>
#include <string>
using namespace sharemind;

/* A byte string, built independently. */
struct Bytes {
    unsigned char d[200]; std::size_t n = 0u;
    void put(void const * const p, std::size_t const k) { if (k) std::memcpy(d + n, p, k); n += k; }
    template <typename T> void le(T const v) { for (unsigned i = 0u; i < sizeof(T); ++i) d[n++] = static_cast<unsigned char>(static_cast<std::uint64_t>(v) >> (8u * i)); }
};
static bool same(NetworkMessage const & m, Bytes const & b)
{ return m.size == b.n && (b.n == 0u || std::memcmp(m.data, b.d, b.n) == 0); }

struct Triple { unsigned char c[3]; };
struct P { std::uint32_t a; std::uint16_t b; std::uint16_t c; };

#ifdef WRITE
struct Rec { unsigned kind; std::size_t n; std::uint64_t v; unsigned char s[16]; };

template <typename F> static void attempt(OutgoingNetworkMessage & m, Bytes & b, Bytes const & next, F && f) {
    std::size_t const off = m.getOffset();
    try { f(); b = next; }
    catch (std::bad_alloc const &) {
#ifdef OOM
        vp_witness("no memory");
#else
        vp_fail("a write fails though memory is available");
#endif
        vp_check(m.getOffset() == off, "a failed write leaves the position");
    } catch (...) { vp_fail("a write fails with another exception than for lack of memory"); }
    vp_check(same(m, b), "the message has exactly the bytes written");
    vp_check(m.getOffset() == b.n && m.getRemainingSize() == 0u && m.getSize() == b.n, "size and position are those of the bytes written");
}

static void writeOne(OutgoingNetworkMessage & m, Bytes & b, Rec & r) {
    Bytes next(b);
    r.kind = vp_choose(17u, "kind");
    r.n = 0u;
    switch (r.kind) {
    case 0u: { bool const v = vp_any_bool("bool"); r.v = v; next.le<std::uint8_t>(v ? 1u : 0u); attempt(m, b, next, [&] { m.write(v); }); break; }
    case 1u: { auto v = vp_any<std::uint8_t>("u8"); r.v = v; next.le(v); attempt(m, b, next, [&] { m.write(v); }); break; }
    case 2u: { auto v = vp_any<std::int32_t>("i32"); r.v = static_cast<std::uint32_t>(v); next.put(&v, 4u); attempt(m, b, next, [&] { m.write(static_cast<std::int32_t &&>(v)); }); break; }
    case 3u: { auto const v = vp_any<std::uint64_t>("u64"); r.v = v; next.put(&v, 8u); attempt(m, b, next, [&] { m.write(v); }); break; }
    case 4u: { P p{vp_any<std::uint32_t>("a"), 7u, 9u}; r.v = p.a; next.put(&p, sizeof(p)); attempt(m, b, next, [&] { m.write(p); }); break; }
    case 5u: case 6u: case 7u: case 8u: case 9u: case 10u: {
        r.n = vp_choose(3u, "len");
        vp_sym_bytes(r.s, r.n, "str");
        next.le<std::uint64_t>(r.n); next.put(r.s, r.n);
        if (r.kind >= 8u && r.kind <= 9u) for (std::size_t i = 0u; i < r.n; ++i) vp_assume(r.s[i] != 0u);
        r.s[r.n] = 0u;
        char * const cs = reinterpret_cast<char *>(r.s);
        std::string s(cs, r.n);
        switch (r.kind) {
        case 5u: { std::string const & c = s; attempt(m, b, next, [&] { m.write(c); }); break; }
        case 6u: attempt(m, b, next, [&] { m.write(s); }); break;
        case 7u: attempt(m, b, next, [&] { m.write(std::move(s)); }); break;
        case 8u: { char const * const c = cs; attempt(m, b, next, [&] { m.write(c); }); break; }
        case 9u: { char * c = cs; attempt(m, b, next, [&] { m.write(c); }); break; }
        default: attempt(m, b, next, [&] { m.write(static_cast<char const *>(cs), r.n); }); break;
        }
        break;
    }
    case 11u: { auto const v = vp_any<std::uint8_t>("sz"); r.v = v; next.le<std::uint16_t>(v); attempt(m, b, next, [&] { m.writeSize<std::uint16_t>(v); }); break; }
    case 12u: { auto const v = vp_any<std::uint32_t>("sz"); r.v = v; next.le<std::uint64_t>(v); attempt(m, b, next, [&] { m.writeSize(v); }); break; }
    case 13u: { r.n = vp_choose(3u, "len"); std::uint16_t a[3]; vp_sym_bytes(a, 2u * r.n, "arr"); std::memcpy(r.s, a, 2u * r.n); next.put(a, 2u * r.n);
        attempt(m, b, next, [&] { m.writeArray(a, r.n); }); break; }
    case 14u: { r.n = vp_choose(3u, "len"); std::uint32_t a[3]; vp_sym_bytes(a, 4u * r.n, "arr"); std::memcpy(r.s, a, 4u * r.n); next.le<std::uint8_t>(static_cast<std::uint8_t>(r.n)); next.put(a, 4u * r.n);
        attempt(m, b, next, [&] { m.writeSizeAndArray<std::uint8_t>(a, static_cast<std::uint8_t>(r.n)); }); break; }
    case 15u: { r.n = vp_choose(3u, "len"); vp_sym_bytes(r.s, r.n, "raw"); next.put(r.s, r.n);
        bool const asConst = vp_choose(2u, "const");
        IncomingNetworkMessage i(r.s, r.n); NetworkMessage const & c = i;
        attempt(m, b, next, [&] { if (asConst) m.write(c); else m.write(i); }); break; }
    default: { r.n = vp_choose(3u, "len"); vp_sym_bytes(r.s, r.n, "raw"); next.put(r.s, r.n);
        attempt(m, b, next, [&] { m.writeBytes(r.s, r.n); }); break; }
    }
}

static void readOne(IncomingNetworkMessage & i, Rec const & r) {
    switch (r.kind) {
    case 0u: { bool v; vp_check(i.read(v) && v == (r.v != 0u), "a boolean reads back"); break; }
    case 1u: { std::uint8_t v; vp_check(i.read(v) && v == r.v, "a byte reads back"); break; }
    case 2u: { std::int32_t v; vp_check(i.read(v) && static_cast<std::uint32_t>(v) == r.v, "an int reads back"); break; }
    case 3u: { std::uint64_t v; vp_check(i.read(v) && v == r.v, "a 64-bit integer reads back"); break; }
    case 4u: { P v; vp_check(i.read(v) && v.a == r.v && v.b == 7u && v.c == 9u, "a struct reads back"); break; }
    case 5u: case 6u: case 7u: case 8u: case 9u: case 10u: { std::string s("old"); vp_check(i.read(s) && s.size() == r.n && std::memcmp(s.data(), r.s, r.n) == 0, "a string reads back"); break; }
    case 11u: { std::uint8_t v; vp_check(i.readSize<std::uint16_t>(v) && v == r.v, "a size reads back"); break; }
    case 12u: { std::uint32_t v; vp_check(i.readSize(v) && v == r.v, "a size reads back"); break; }
    case 13u: { std::uint16_t a[3]; vp_check(i.readArray(a, r.n) && std::memcmp(a, r.s, 2u * r.n) == 0, "an array reads back"); break; }
    case 14u: { std::size_t n; std::uint32_t a[3]; vp_check(i.readSize<std::uint8_t>(n) && n == r.n && i.readArray(a, n) && std::memcmp(a, r.s, 4u * n) == 0, "an array with its size reads back"); break; }
    default: { unsigned char a[3]; vp_check(i.readBytes(a, r.n) && std::memcmp(a, r.s, r.n) == 0, "bytes read back"); break; }
    }
}
#endif

#ifdef READ
struct MyError { int v; };
/* Reads at most what is there; says whether the call must succeed. */
static void readStep(IncomingNetworkMessage & i, unsigned char const * const d, std::size_t const n) {
    std::size_t const off = i.getOffset(), left = n - off;
    unsigned char const * const p = d + off;
    auto le = [p](unsigned const k) { std::uint64_t v = 0u; for (unsigned j = 0u; j < k; ++j) v |= static_cast<std::uint64_t>(p[j]) << (8u * j); return v; };
    std::size_t used = 0u;
    bool ok = false, want = false;
    switch (vp_choose(14u, "kind")) {
    case 0u: { std::uint8_t v = 77u; want = left >= 1u; ok = i.read(v); if (ok && want) { vp_check(v == p[0], "value read"); used = 1u; } break; }
    case 1u: { std::uint32_t v = 77u; want = left >= 4u; ok = i.read(v); if (ok && want) { vp_check(v == le(4u), "value read"); used = 4u; } break; }
    case 2u: { std::uint64_t v = 77u; want = left >= 8u; ok = i.read(v); if (ok && want) { vp_check(v == le(8u), "value read"); used = 8u; } break; }
    case 3u: { Triple v; want = left >= 3u; ok = i.read(v); if (ok && want) { vp_check(std::memcmp(&v, p, 3u) == 0, "value read"); used = 3u; } break; }
    case 4u: { bool v = true; want = left >= 1u && p[0] <= 1u; ok = i.read(v); if (ok && want) { vp_check(v == (p[0] == 1u), "value read"); used = 1u; } break; }
    case 5u: { std::string v("old"); want = left >= 8u && le(8u) <= left - 8u; ok = i.read(v);
        if (ok && want) { std::size_t const k = le(8u); vp_check(v.size() == k && std::memcmp(v.data(), p + 8, k) == 0, "string read"); used = 8u + k; }
        if (!ok) vp_check(v == "old", "a failed read leaves the string"); break; }
    case 6u: { std::uint8_t v = 0u; bool threw = false; try { ok = i.readSize<std::uint16_t>(v); } catch (std::bad_array_new_length const &) { threw = true; }
        vp_check(threw == (left >= 2u && le(2u) > 255u), "a size which does not fit is reported by the exception"); if (threw) { vp_check(v == 0u, "a failed read leaves the size"); break; }
        want = left >= 2u; if (ok && want) { vp_check(v == le(2u), "size read"); used = 2u; } break; }
    case 7u: { std::uint16_t v = 0u; int threw = 0; try { ok = i.readSize<std::uint32_t>(v, MyError{5}); } catch (MyError const & e) { threw = e.v; }
        vp_check(threw == (left >= 4u && le(4u) > 65535u ? 5 : 0), "a size which does not fit is reported by the exception given"); if (threw) { vp_check(v == 0u, "a failed read leaves the size"); break; }
        want = left >= 4u; if (ok && want) { vp_check(v == le(4u), "size read"); used = 4u; } break; }
    case 8u: { std::uint64_t v = 0u; want = left >= 8u; ok = i.readSize(v); if (ok && want) { vp_check(v == le(8u), "size read"); used = 8u; } break; }
    case 9u: { std::uint16_t a[20]; auto const k = vp_any<std::uint8_t>("count"); vp_assume(k <= 20u); want = 2u * k <= left; ok = i.readArray(a, k);
        if (ok && want) { vp_check(std::memcmp(a, p, 2u * k) == 0, "array read"); used = 2u * k; } break; }
    case 10u: { unsigned char a[20]; std::size_t const k = vp_choose(20u, "count"); want = k <= left; ok = i.readBytes(a, k);
        if (ok && want) { vp_check(std::memcmp(a, p, k) == 0, "bytes read"); used = k; } break; }
    case 11u: { auto const k = vp_any<std::size_t>("pos"); want = k < n; ok = i.seek(k);
        vp_check(ok == want, "seeking succeeds exactly for the positions in the message");
        vp_check(i.getOffset() == (want ? k : off), "seeking goes there, or nowhere");
        if (want) { vp_concretize(k); } return; }
    case 12u: { Triple a[8]; std::size_t const k = vp_choose(8u, "count"); want = 3u * k <= left; ok = i.readArray(a, k);
        if (ok && want) { vp_check(std::memcmp(a, p, 3u * k) == 0, "array read"); used = 3u * k; } break; }
    default: { std::uint8_t v = 0u; want = left >= 1u; ok = i.readSize<std::uint8_t>(v); if (ok && want) { vp_check(v == p[0], "size read"); used = 1u; } break; }
    }
    vp_check(ok == want, "a read succeeds exactly when its bytes are there");
    vp_check(i.getOffset() == off + used, "a read goes on by the bytes read, a failed one by none");
    vp_check(i.getRemainingSize() == n - i.getOffset() && i.getPtr() == d + i.getOffset() && i.getData() == d && i.getSize() == n, "position, rest and size agree");
}
#endif

int main() {
#ifdef WRITE
    {
        vp_leak_mark();
        {
            OutgoingNetworkMessage m;
            vp_check(m.size == 0u && m.data == nullptr && m.getOffset() == 0u, "a new message is empty");
            Bytes b;
            Rec r[VK];
#ifdef OOM
            vp_alloc_may_fail(1);
#endif
            for (unsigned i = 0u; i < VK; ++i) {
#ifdef OOM
                std::size_t const was = b.n; (void) was;
#endif
                try { writeOne(m, b, r[i]); } catch (std::bad_alloc const &) { vp_end(); } // harness strings
            }
#ifdef OOM
            vp_alloc_may_fail(0);
#else
            m.rewind();
            vp_check(m.getOffset() == 0u && m.getRemainingSize() == b.n && m.getPtr() == m.data, "rewinding goes to the start");
            unsigned char copy[200];
            std::memcpy(copy, b.d, b.n);
            IncomingNetworkMessage in(b.n ? copy : nullptr, b.n);
            for (unsigned i = 0u; i < VK; ++i) readOne(in, r[i]);
            vp_check(in.getRemainingSize() == 0u, "reading back ends at the end");
            unsigned char x;
            vp_check(!in.read(x), "nothing is left after reading back");
#endif
            vp_witness("reached");
        }
        vp_leak_check();
    }
#endif
#ifdef READ
    std::size_t const n = vp_choose(VN + 1u, "n");
    unsigned char * const d = n ? new unsigned char[n] : nullptr;
    vp_sym_bytes(d, n, "data");
    {
        IncomingNetworkMessage i(d, n);
        if (n > 0u) { std::size_t const at = vp_choose(2u, "at") * (n / 2u); vp_check(i.seek(at), "seek"); }
        for (unsigned k = 0u; k < VK; ++k) readStep(i, d, n);
        vp_witness("reached");
    }
    delete[] d;
#endif
#ifdef HUGE
    unsigned char const d[8] = {1, 2, 3, 4, 5, 6, 7, 8};
    auto const count = vp_any<std::uint64_t>("count");
    unsigned const what = vp_choose(10u, "what");
    if (what < 5u) {
        IncomingNetworkMessage i(d, 8u);
        bool ok = false; std::size_t sz = 1u;
        struct Big { unsigned char c[24]; } big[1]; std::uint64_t u[1]; Triple t[2]; unsigned char c[8];
        switch (what) {
        case 0u: sz = 1u; ok = i.readArray(c, count); break;
        case 1u: sz = 3u; ok = i.readArray(t, count); break;
        case 2u: sz = 8u; ok = i.readArray(u, count); break;
        case 3u: sz = 24u; ok = i.readArray(big, count); break;
        default: sz = 1u; ok = i.readBytes(c, count); break;
        }
        bool const want = static_cast<unsigned __int128>(count) * sz <= 8u;
        vp_check(ok == want, "an array is read exactly when all of it is there");
        vp_check(i.getOffset() == (want ? count * sz : 0u), "position after reading an array");
    } else {
        OutgoingNetworkMessage m;
        bool const before = vp_choose(2u, "before");
        if (before) m.write(std::uint32_t(0x04030201u));
        vp_assume(count > (1u << 17u));
        struct Big { unsigned char c[24]; };
        bool len = false, mem = false;
        unsigned __int128 need = 0u;
        try {
            switch (what) {
            case 5u: need = count; m.writeBytes(d, count); break;
            case 6u: need = static_cast<unsigned __int128>(count) * 3u; m.writeArray(reinterpret_cast<Triple const *>(d), count); break;
            case 7u: need = static_cast<unsigned __int128>(count) * 24u; m.writeArray(reinterpret_cast<Big const *>(d), count); break;
            case 8u: need = static_cast<unsigned __int128>(count) * 24u + 8u; m.writeSizeAndArray(reinterpret_cast<Big const *>(d), count); break;
            default: need = static_cast<unsigned __int128>(count) + 8u; m.write(reinterpret_cast<char const *>(d), count); break;
            }
        } catch (NetworkMessage::LengthError const &) { len = true; }
        catch (std::bad_alloc const &) { mem = true; }
        need += before ? 4u : 0u;
        vp_check(len || mem, "more than there is memory for is refused");
        vp_check(len == (need > static_cast<unsigned __int128>(~std::size_t(0u))), "a length error is reported exactly when the size exceeds the range of sizes");
        vp_check(m.size == (before ? 4u : 0u) && m.getOffset() == m.size && (!before || std::memcmp(m.data, d, 4u) == 0), "a refused write leaves the message");
        vp_witness("refused");
    }
    vp_witness("reached");
#endif
#ifdef ENDIAN
    auto const u64 = vp_any<std::uint64_t>("u64");
    #define ONE(T) { \
        T const v = static_cast<T>(u64); \
        using U = std::make_unsigned<T>::type; \
        T const be(hostToBigEndian(v)), le(hostToLittleEndian(v)), nn(hostToSharemindNetOrder(v)); \
        unsigned char a[sizeof(T)], b[sizeof(T)], c[sizeof(T)]; \
        std::memcpy(a, &be, sizeof(T)); std::memcpy(b, &le, sizeof(T)); std::memcpy(c, &nn, sizeof(T)); \
        for (unsigned i = 0u; i < sizeof(T); ++i) { \
            unsigned char const want = static_cast<unsigned char>(static_cast<U>(v) >> (8u * i)); \
            vp_check(a[sizeof(T) - 1u - i] == want, "big endian bytes of " #T); \
            vp_check(b[i] == want, "little endian bytes of " #T); \
            vp_check(c[i] == want, "the byte order of messages is little endian, " #T); \
        } \
        vp_check(bigEndianToHost(be) == v && littleEndianToHost(le) == v && sharemindNetToHostOrder(nn) == v, "converting back gives the value, " #T); \
        struct Tag {}; using S = StrongType<T, Tag>; \
        vp_check(hostToBigEndian(S(v)).get() == be && hostToLittleEndian(S(v)).get() == le && hostToSharemindNetOrder(S(v)).get() == nn, "strong types convert as their values, " #T); \
        vp_check(bigEndianToHost(S(be)).get() == v && littleEndianToHost(S(le)).get() == v && sharemindNetToHostOrder(S(nn)).get() == v, "strong types convert back, " #T); \
    }
    ONE(std::int8_t) ONE(std::int16_t) ONE(std::int32_t) ONE(std::int64_t)
    ONE(std::uint8_t) ONE(std::uint16_t) ONE(std::uint32_t) ONE(std::uint64_t)
    vp_witness("reached");
#endif
    vp_end();
}
