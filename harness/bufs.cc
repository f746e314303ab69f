/* P26: byte buffers and byte order */
#include <crefl/model.h>
#include <crefl/buf.h>
#include "mc.h"
#include "huge.h"

extern "C" { int endian_c_check(unsigned long long x, char *why, size_t n); int endian_gen_check(unsigned long long x, char *why, size_t n); }

/* reference: octets and a cursor */
struct RefBuf { std::vector<uint8_t> m; size_t cur = 0; };
struct Pair { crefl_buf *b; RefBuf r; };

static const int NOPS0 = 24;
static uint64_t pattern(int salt) { uint64_t x = 0; for (int i = 0; i < 8; i++) x |= (uint64_t)(uint8_t)(0x81 + salt * 29 + i * 17) << (8 * i); return x; }

static std::string opname(int op, size_t cap)
{
    static const char *n[] = { "w8", "w16", "w32", "w64", "wb0", "wb1", "wb2", "wb3", "wb9", "wbhuge", "r8", "r16", "r32", "r64", "rb0", "rb1", "rb2", "rb3", "rb9", "rbhuge", "reset", "remaining", "seek-far", "seek-max" };
    return op < NOPS0 ? n[op] : mc::fmt("seek%d of %zu", op - NOPS0, cap);
}
static bool writes(int op) { return op < 10; }

/* apply op to the real buffer and to the reference; false when they differ */
static bool apply(Pair &p, int op, int salt)
{
    crefl_buf *b = p.b; RefBuf &r = p.r; size_t cap = r.m.size();
    auto fits = [&](size_t n) { return r.cur <= cap && n <= cap - r.cur; };
    uint64_t v = pattern(salt); size_t ret = 0, n = 0; bool ok = true;
    static const size_t bl[] = { 0, 1, 2, 3, 9, ~(size_t)0 };
    if (op < 4) {
        n = (size_t)1 << op;
        ret = op == 0 ? crefl_buf_write_i8(b, (int8_t)v) : op == 1 ? crefl_buf_write_i16(b, (int16_t)v) : op == 2 ? crefl_buf_write_i32(b, (int32_t)v) : crefl_buf_write_i64(b, (int64_t)v);
        if (fits(n)) { for (size_t i = 0; i < n; i++) r.m[r.cur + i] = v >> (8 * i); r.cur += n; } else n = 0;
        ok = ret == n;
    } else if (op < 10) {
        n = bl[op - 4]; char s[9]; for (int i = 0; i < 9; i++) s[i] = (char)(salt * 31 + i * 7 + 3);
        ret = crefl_buf_write_bytes(b, s, n);
        if (fits(n)) { for (size_t i = 0; i < n; i++) r.m[r.cur + i] = s[i]; r.cur += n; } else n = 0;
        ok = ret == n;
    } else if (op < 14) {
        n = (size_t)1 << (op - 10); uint64_t x = 0x1122334455667788ull;
        if (op == 10) ret = crefl_buf_read_i8(b, (int8_t*)&x); else if (op == 11) ret = crefl_buf_read_i16(b, (int16_t*)&x); else if (op == 12) ret = crefl_buf_read_i32(b, (int32_t*)&x); else ret = crefl_buf_read_i64(b, (int64_t*)&x);
        uint64_t want = 0x1122334455667788ull;
        if (fits(n)) { want = n == 8 ? 0 : want >> (8 * n) << (8 * n); for (size_t i = 0; i < n; i++) want |= (uint64_t)r.m[r.cur + i] << (8 * i); r.cur += n; } else n = 0;
        ok = ret == n && x == want;
    } else if (op < 20) {
        n = bl[op - 14]; char s[9]; memset(s, 0x3e, 9);
        ret = crefl_buf_read_bytes(b, s, n);
        size_t k = 0;
        if (fits(n)) { k = n; for (size_t i = 0; i < n; i++) ok = ok && (uint8_t)s[i] == r.m[r.cur + i]; r.cur += n; } else n = 0;
        for (size_t i = k; i < 9; i++) ok = ok && s[i] == 0x3e;
        ok = ok && ret == n;
    } else if (op == 20) { crefl_buf_reset(b); r.cur = 0; }
    else if (op == 21) { }
    else { size_t to = op == 22 ? cap + 5 : op == 23 ? ~(size_t)0 : op - NOPS0; crefl_buf_seek(b, to); r.cur = to; }
    if (b->data_offset != r.cur || crefl_buf_offset(b) != r.cur || crefl_buf_data(b) != b->data || b->data_size != cap) ok = false;
    crefl_span s = crefl_buf_remaining(b);
    if (s.length != (r.cur < cap ? cap - r.cur : 0)) ok = false;
    if (r.cur <= cap && s.data != b->data + r.cur) ok = false;
    if (cap && memcmp(b->data, r.m.data(), cap)) ok = false;
    mc::op();
    return ok;
}

static void sequences(size_t cap, int first, int depth)
{
    const int nops = NOPS0 + (int)cap + 1;
    crefl_buf *b = crefl_buf_new(cap);
    for (size_t i = 0; i < cap; i++) if (b->data[i] != 0) mc::fail("a new buffer of %zu is not zero", cap);
    std::vector<int> seq(depth); seq[0] = first;
    size_t tot = 1; for (int i = 1; i < depth; i++) tot *= nops;
    for (size_t x = 0; x < tot; x++) {
        size_t y = x; for (int i = 1; i < depth; i++) { seq[i] = y % nops; y /= nops; }
        Pair p; p.b = b; p.r.m.resize(cap); b->data_offset = 0; b->data_size = cap;
        for (size_t i = 0; i < cap; i++) p.r.m[i] = b->data[i] = (char)(0xd0 + i);
        mc::sub(cap, x);
        for (int i = 0; i < depth; i++) if (!apply(p, seq[i], i + 1)) {
            std::string s; for (int j = 0; j <= i; j++) s += opname(seq[j], cap) + " ";
            mc::fail("capacity %zu: after %s: real cursor %zu, reference %zu", cap, s.c_str(), b->data_offset, p.r.cur); break;
        }
        mc::state();
    }
    crefl_buf_destroy(b);
}

static void values16()
{
    crefl_buf *b = crefl_buf_new(16);
    for (uint32_t w = 0; w < 65536; w++) for (size_t off = 0; off < 3; off++) {
        mc::sub(w, off); crefl_buf_seek(b, off);
        size_t a = off == 2 ? crefl_buf_write_unchecked_i16(b, (int16_t)w) : crefl_buf_write_i16(b, (int16_t)w);
        if (a != 2 || (uint8_t)b->data[off] != (w & 255) || (uint8_t)b->data[off + 1] != (w >> 8)) mc::fail("16-bit value %x stored as %02x %02x", w, (uint8_t)b->data[off], (uint8_t)b->data[off + 1]);
        int16_t r = 0; crefl_buf_seek(b, off); a = off == 1 ? crefl_buf_read_unchecked_i16(b, &r) : crefl_buf_read_i16(b, &r);
        if (a != 2 || (uint16_t)r != w || crefl_buf_offset(b) != off + 2) mc::fail("16-bit value %x read as %x", w, (uint16_t)r);
        mc::op(2); mc::state();
        if (w < 256) { crefl_buf_seek(b, off); int8_t c = 0; a = off ? crefl_buf_write_i8(b, (int8_t)w) : crefl_buf_write_unchecked_i8(b, (int8_t)w); crefl_buf_seek(b, off); size_t a2 = off ? crefl_buf_read_i8(b, &c) : crefl_buf_read_unchecked_i8(b, &c);
            if (a != 1 || a2 != 1 || (uint8_t)c != w || crefl_buf_offset(b) != off + 1) mc::fail("octet %x read as %x", w, (uint8_t)c); mc::op(2); }
    }
    crefl_buf_destroy(b);
}

static void value64(crefl_buf *b, uint64_t w, size_t off)
{
    for (int wide = 0; wide < 2; wide++) {
        size_t n = wide ? 8 : 4; bool un = off & 1;
        crefl_buf_seek(b, off);
        size_t a = wide ? (un ? crefl_buf_write_unchecked_i64(b, (int64_t)w) : crefl_buf_write_i64(b, (int64_t)w)) : (un ? crefl_buf_write_unchecked_i32(b, (int32_t)w) : crefl_buf_write_i32(b, (int32_t)w));
        bool ok = a == n; for (size_t i = 0; i < n; i++) ok = ok && (uint8_t)b->data[off + i] == (uint8_t)(w >> (8 * i));
        if (!ok) mc::fail("%zu-octet value %llx stored as %s", n, (unsigned long long)w, mc::hex(b->data + off, n).c_str());
        crefl_buf_seek(b, off); int64_t x = 0; int32_t y = 0;
        a = wide ? (un ? crefl_buf_read_unchecked_i64(b, &x) : crefl_buf_read_i64(b, &x)) : (un ? crefl_buf_read_unchecked_i32(b, &y) : crefl_buf_read_i32(b, &y));
        if (a != n || (wide ? (uint64_t)x != w : (uint32_t)y != (uint32_t)w) || crefl_buf_offset(b) != off + n) mc::fail("%zu-octet value %llx read back differently", n, (unsigned long long)w);
        mc::op(2); mc::state();
    }
}

static void dump(size_t n, size_t cap)
{
    crefl_buf *b = crefl_buf_new(cap);
    for (size_t i = 0; i < n; i++) { uint8_t c = (uint8_t)(i * 37 + n * 11 + 0x7e); crefl_buf_write_bytes(b, (char*)&c, 1); }
    fflush(stdout);
    char *mem = nullptr; size_t len = 0; FILE *save = stdout; stdout = open_memstream(&mem, &len);
    crefl_buf_dump(b);
    fclose(stdout); stdout = save; mc::op(); mc::state();
    std::vector<int> seen; std::string t(mem, len); free(mem);
    for (size_t p = 0; p < t.size();) {
        size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
        std::string l = t.substr(p, e - p); p = e + 1;
        std::vector<int> row; for (size_t q = 0; (q = l.find("0x", q)) != std::string::npos; q += 2) row.push_back((int)strtoul(l.c_str() + q + 2, nullptr, 16));
        if (row.empty()) continue;
        if (row.size() > 16) mc::fail("dump of %zu octets: a row with %zu", n, row.size());
        std::reverse(row.begin(), row.end()); seen.insert(seen.end(), row.begin(), row.end());
    }
    size_t rows = 0; for (size_t q = 0; (q = t.find(": ", q)) != std::string::npos; q++, rows++) if (q < 4 || strtoul(t.c_str() + q - 4, nullptr, 16) != (rows * 16 & 0xffff)) mc::fail("dump of %zu octets: row %zu is labelled %.4s", n, rows, t.c_str() + (q < 4 ? 0 : q - 4));
    if (rows != (n + 15) / 16) mc::fail("dump of %zu octets has %zu rows", n, rows);
    bool ok = seen.size() == n; for (size_t i = 0; ok && i < n; i++) ok = seen[i] == (uint8_t)b->data[i];
    if (!ok) mc::fail("dump of %zu octets shows %zu, or others", n, seen.size());
    for (size_t cap2 = 0; cap2 <= 16; cap2++) { char *m = (char*)malloc(cap2); memset(m, 0x55, cap2); crefl_format_byte(m, cap2, (uint8_t)n); free(m); mc::op(); }
    crefl_buf_destroy(b);
}

static uint64_t swap(uint64_t x, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r |= ((x >> (8 * i)) & 255) << (8 * (n - 1 - i)); return r; }
template <typename T> static void endian_t(uint64_t w, const char *nm)
{
    typedef typename std::make_unsigned<T>::type U; const int n = sizeof(T);
    T x = (T)w; U s = (U)swap((U)x, n);
    if ((U)htobe<T>(x) != s || (U)betoh<T>(x) != s || (U)htole<T>(x) != (U)x || (U)letoh<T>(x) != (U)x) mc::fail("%s conversion of %llx", nm, (unsigned long long)w);
    mc::op(4);
}
static void endian_all(uint64_t w)
{
    if (be16((uint16_t)w) != (uint16_t)swap(w & 0xffff, 2) || le16((uint16_t)w) != (uint16_t)w || bswap16((uint16_t)w) != (uint16_t)swap(w & 0xffff, 2)) mc::fail("16-bit conversion of %llx", (unsigned long long)w);
    if (be32((uint32_t)w) != (uint32_t)swap((uint32_t)w, 4) || le32((uint32_t)w) != (uint32_t)w || bswap32((uint32_t)w) != (uint32_t)swap((uint32_t)w, 4)) mc::fail("32-bit conversion of %llx", (unsigned long long)w);
    if (be64(w) != swap(w, 8) || le64(w) != w || bswap64(w) != swap(w, 8)) mc::fail("64-bit conversion of %llx", (unsigned long long)w);
    if (le8((uint8_t)w) != (uint8_t)w || be8((uint8_t)w) != (uint8_t)w) mc::fail("8-bit conversion of %llx", (unsigned long long)w);
    if (htobe16((uint16_t)w) != be16((uint16_t)w) || htole16((uint16_t)w) != le16((uint16_t)w) || be16toh((uint16_t)w) != be16((uint16_t)w) || le16toh((uint16_t)w) != (uint16_t)w) mc::fail("host 16 %llx", (unsigned long long)w);
    if (htobe32((uint32_t)w) != be32((uint32_t)w) || htole32((uint32_t)w) != le32((uint32_t)w) || be32toh((uint32_t)w) != be32((uint32_t)w) || le32toh((uint32_t)w) != (uint32_t)w) mc::fail("host 32 %llx", (unsigned long long)w);
    if (htobe64(w) != be64(w) || htole64(w) != w || be64toh(w) != be64(w) || le64toh(w) != w) mc::fail("host 64 %llx", (unsigned long long)w);
    endian_t<short>(w, "short"); endian_t<unsigned short>(w, "unsigned short"); endian_t<int>(w, "int"); endian_t<unsigned>(w, "unsigned");
    endian_t<long>(w, "long"); endian_t<unsigned long>(w, "unsigned long"); endian_t<long long>(w, "long long"); endian_t<unsigned long long>(w, "unsigned long long");
    char why[100];
    if (endian_c_check(w, why, sizeof why)) mc::fail("from C: %s of %llx", why, (unsigned long long)w);
    if (endian_gen_check(w, why, sizeof why)) mc::fail("portable forms: %s of %llx", why, (unsigned long long)w);
    mc::op(60); mc::state();
}

/* positions and lengths that do not fit 31 and 32 bits */
static void huge(crefl_buf *b, size_t cap)
{
    std::vector<size_t> at; for (size_t m : { (size_t)1 << 31, (size_t)1 << 32, cap }) for (int d = -9; d <= 9; d++) if (m + d <= cap) at.push_back(m + d);
    auto is = [&](size_t ret, size_t n, size_t cur, const char *what, size_t from) { mc::op(); if (ret != n || b->data_offset != cur || crefl_buf_offset(b) != cur) mc::fail("capacity %zu: %s at %zu returns %zu (expected %zu), position %zu (expected %zu)", cap, what, from, ret, n, b->data_offset, cur); };
    MC_CHECK(b->data_size == cap && crefl_buf_data(b) == b->data, "capacity %zu: %zu", cap, (size_t)b->data_size);
    for (size_t o : at) for (size_t w : { 1, 2, 4, 8 }) {
        mc::sub(o, w);
        uint64_t v = pattern(o), x = 0; bool fit = w <= cap - o; uint8_t old[24], now[24]; size_t lo = o < 8 ? 0 : o - 8, n = std::min<size_t>(24, cap - lo);
        memcpy(old, b->data + lo, n);
        crefl_buf_seek(b, o); crefl_span s = crefl_buf_remaining(b);
        MC_CHECK(s.length == cap - o && s.data == b->data + o, "capacity %zu: %zu remain at %zu", cap, (size_t)s.length, o);
        is(w == 1 ? crefl_buf_write_i8(b, v) : w == 2 ? crefl_buf_write_i16(b, v) : w == 4 ? crefl_buf_write_i32(b, v) : crefl_buf_write_i64(b, v), fit ? w : 0, fit ? o + w : o, "write", o);
        if (fit) memcpy(old + (o - lo), &v, w);
        memcpy(now, b->data + lo, n);
        MC_CHECK(!memcmp(old, now, n), "capacity %zu: %zu octets written at %zu are stored elsewhere", cap, w, o);
        crefl_buf_seek(b, o);
        is(w == 1 ? crefl_buf_read_i8(b, (int8_t*)&x) : w == 2 ? crefl_buf_read_i16(b, (int16_t*)&x) : w == 4 ? crefl_buf_read_i32(b, (int32_t*)&x) : crefl_buf_read_i64(b, (int64_t*)&x), fit ? w : 0, fit ? o + w : o, "read", o);
        MC_CHECK(x == (fit ? w == 8 ? v : v & ((1ull << w * 8) - 1) : 0), "capacity %zu: %zu octets at %zu read as %llx", cap, w, o, (unsigned long long)x);
    }
    Huge m(cap + 16, 0x33);
    for (size_t o : { (size_t)0, (size_t)5, (size_t)24, cap - ((size_t)1 << 31), cap - 10, cap }) for (size_t len : { (size_t)9, (size_t)1 << 31, ((size_t)1 << 31) + 3, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 1, cap - o, cap - o + 1, ~(size_t)0 - o + 1, ~(size_t)0 }) {
        if (o < 24 && len > 100 && len <= cap - o && !mc::thorough && o != 5) continue;
        mc::sub(o, len);
        bool fit = len <= cap - o;
        crefl_buf_seek(b, o); is(crefl_buf_write_bytes(b, (const char*)m.p, len), fit ? len : 0, fit ? o + len : o, "write of octets", o);
        crefl_buf_seek(b, o); is(crefl_buf_read_bytes(b, (char*)m.p, len), fit ? len : 0, fit ? o + len : o, "read of octets", o);
    }
}

void mc_explore()
{
    const int depth = mc::thorough ? 4 : 3;
    for (size_t cap = 0; cap <= 12; cap++) for (int f = 0; f < NOPS0 + (int)cap + 1; f++)
        if (mc::begin("sequences capacity %zu first %s", cap, opname(f, cap).c_str())) for (int d = 1; d <= depth; d++) sequences(cap, f, d);
    /* writers and readers only, deeper */
    for (size_t cap = 6; cap <= 17; cap += 1) for (int f = 0; f < 8; f++)
        if (mc::begin("deep capacity %zu first %d", cap, f)) {
            static const int ops[] = { 0, 1, 2, 3, 6, 11, 13, 20 };
            crefl_buf *b = crefl_buf_new(cap);
            const int D = mc::thorough ? 7 : 6; size_t tot = 1; for (int i = 1; i < D; i++) tot *= 8;
            for (size_t x = 0; x < tot; x++) {
                Pair p; p.b = b; p.r.m.assign(cap, 0); memset(b->data, 0, cap); b->data_offset = 0; mc::sub(x);
                size_t y = x; bool ok = apply(p, ops[f], 0);
                for (int i = 1; i < D && ok; i++) { ok = apply(p, ops[y & 7], i); y >>= 3; }
                if (!ok) mc::fail("capacity %zu first %d sequence %zo differs", cap, f, x);
                mc::state();
            }
            crefl_buf_destroy(b);
        }
    /* two buffers in turn stay independent */
    for (size_t c1 = 0; c1 <= 9; c1++) for (size_t c2 = 0; c2 <= 9; c2 += 3) if (mc::begin("two buffers %zu %zu", c1, c2)) {
        Pair p, q; p.b = crefl_buf_new(c1); q.b = crefl_buf_new(c2);
        static const int ops[] = { 0, 1, 2, 3, 7, 10, 12, 15, 20, 23 };
        for (int x = 0; x < 10000; x++) {
            p.r = RefBuf(); q.r = RefBuf(); p.r.m.assign(c1, 0); q.r.m.assign(c2, 0); memset(p.b->data, 0, c1); memset(q.b->data, 0, c2); p.b->data_offset = q.b->data_offset = 0;
            int y = x; mc::sub(x);
            for (int i = 0; i < 4; i++, y /= 10) { Pair &t = i & 1 ? q : p; if (!apply(t, ops[y % 10], i) || memcmp(p.b->data, p.r.m.data(), c1) || memcmp(q.b->data, q.r.m.data(), c2) || p.b->data_offset != p.r.cur || q.b->data_offset != q.r.cur) { mc::fail("two buffers of %zu and %zu, sequence %d", c1, c2, x); break; } }
            mc::state();
        }
        crefl_buf_destroy(p.b); crefl_buf_destroy(q.b);
    }
    if (mc::begin("huge own")) { Huge h(((size_t)1 << 32) + 24); crefl_buf b; memset(&b, 0, sizeof b); b.data = (char*)h.p; b.data_size = h.n; huge(&b, h.n); }
    if (mc::begin("huge new")) { size_t n = ((size_t)1 << 32) + 24; crefl_buf *b = crefl_buf_new(n); MC_CHECK(b->data_size == n && b->data_offset == 0 && !b->data[n - 1] && !b->data[1ull << 32] && !b->data[1ull << 31], "a new buffer of %zu holds %zu", n, (size_t)b->data_size); b->data[n - 1] = 1; crefl_buf_destroy(b); }
    if (mc::begin("16-bit values")) values16();
    static const uint8_t al[] = { 0x00, 0x01, 0x7f, 0x80, 0xff };
    for (size_t off = 0; off < 9; off++) if (mc::begin("wide values at %zu", off)) {
        crefl_buf *b = crefl_buf_new(24);
        for (int x = 0; x < 390625; x += mc::thorough ? 1 : 3) { uint64_t w = 0; int y = x; for (int i = 0; i < 8; i++) { w = w << 8 | al[y % 5]; y /= 5; } mc::sub(w); value64(b, w, off); }
        crefl_buf_destroy(b);
    }
    for (size_t n = 0; n <= 70; n++) if (mc::begin("dump %zu", n)) { dump(n, n); dump(n, n + 3); }
    for (size_t n : { 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131073 }) if (mc::begin("dump %zu", n)) dump(n, n + 1);
    for (int sh = 0; sh <= 48; sh += 8) if (mc::begin("byte order window %d", sh)) for (uint64_t w = 0; w < 65536; w++) { mc::sub(w); endian_all(w << sh | (sh & 8 ? 0x1122334455667788ull & ~(0xffffull << sh) : 0)); }
    if (mc::begin("byte order patterns")) for (int x = 0; x < 390625; x++) { uint64_t w = 0; int y = x; for (int i = 0; i < 8; i++) { w = w << 8 | al[y % 5]; y /= 5; } mc::sub(w); endian_all(w); }
}
