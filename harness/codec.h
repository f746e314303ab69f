/*
 * codec.h - reference models of every ASN.1, vf128, LEB128 and VLU codec.
 *
 * written from X.690, docs/vf128.md and the format comments, with plain
 * arithmetic on byte vectors; deliberately shares nothing with the library.
 */
#pragma once

#include <cmath>
#include <crefl/model.h>
#include <crefl/buf.h>
#include <crefl/asn1.h>
#include "mc.h"

typedef std::vector<uint8_t> bytes;
typedef unsigned __int128 u128;

/* outcome of a decode */
struct Res {
    int err = 0;                /* 0 or -1 */
    uint64_t v[20] = { 0 };     /* value, canonical words */
    size_t n = 0;               /* words used */
    size_t pos = 0;             /* position after */
};

/* what the reference says about an input */
enum Kind { OK, ERR, ANY };     /* ANY: may fail, but a success must be this value */
struct Ref {
    Kind kind = ERR;
    uint64_t v[20] = { 0 };
    size_t n = 0;
    size_t used = 0;            /* bytes consumed on success */
    uint64_t alt = 0; bool has_alt = false;   /* second permitted value of v[0] */
};

static inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline uint32_t fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static inline float bitsf(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
/* all NaNs are one value */
static inline uint64_t canon_d(double d) { return d != d ? 0x7ff8000000000000ull : dbits(d); }
static inline uint64_t canon_f(float d) { return d != d ? 0x7fc00000u : fbits(d); }

static inline int msb(uint64_t x) { int n = -1; while (x) { n++; x >>= 1; } return n; }
static inline int msb128(u128 x) { int n = -1; while (x) { n++; x >>= 1; } return n; }

static inline Ref ref_err() { return Ref(); }
static inline Ref ref1(Kind k, uint64_t v, size_t used) { Ref r; r.kind = k; r.v[0] = v; r.n = 1; r.used = used; return r; }
static inline void weaken(Ref &r, Kind k) { if (r.kind == OK && k == ANY) r.kind = ANY; else if (k == ERR) r.kind = ERR; }

/* ------------------------------------------------------------- encoders */

static bytes enc_base128(uint64_t v)
{
    bytes b; b.insert(b.begin(), v & 0x7f); v >>= 7;
    while (v) { b.insert(b.begin(), 0x80 | (v & 0x7f)); v >>= 7; }
    return b;
}
static bytes enc_ident(unsigned cls, unsigned cons, uint64_t num)
{
    bytes b; uint8_t lead = (cls << 6) | (cons << 5);
    if (num < 31) { b.push_back(lead | num); return b; }
    b.push_back(lead | 31);
    bytes t = enc_base128(num); b.insert(b.end(), t.begin(), t.end());
    return b;
}
static bytes enc_uint(uint64_t v)
{
    bytes b; do { b.insert(b.begin(), v & 0xff); v >>= 8; } while (v);
    return b;
}
static bytes enc_sint(int64_t v)
{
    bytes b;
    for (int i = 7; i >= 0; i--) b.push_back((uint64_t)v >> (i * 8));
    while (b.size() > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80))) b.erase(b.begin());
    return b;
}
static bytes rev(bytes b) { std::reverse(b.begin(), b.end()); return b; }
static bytes enc_length(uint64_t v)
{
    if (v < 0x80) return bytes{(uint8_t)v};
    bytes b = enc_uint(v); b.insert(b.begin(), 0x80 | b.size());
    return b;
}
static bytes cat(bytes a, const bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static bytes enc_tlv(unsigned tag, const bytes &c) { return cat(cat(enc_ident(0, 0, tag), enc_length(c.size())), c); }

/* X.690 REAL as crefl writes it: base 2, no scale, odd mantissa, plus zero as mantissa zero */
static bytes enc_real(double d)
{
    uint64_t u = dbits(d), m = u & ((1ull << 52) - 1); int e = (u >> 52) & 0x7ff; bool s = u >> 63;
    if (e == 0x7ff) return bytes{(uint8_t)(m ? 0x42 : s ? 0x41 : 0x40)};
    if (e == 0 && m == 0) return s ? bytes{0x43} : bytes{0x80, 0, 0};
    int64_t x = e ? e - 1075 : -1074; if (e) m |= 1ull << 52;
    while (!(m & 1)) { m >>= 1; x++; }
    bytes xe = enc_sint(x), b{(uint8_t)(0x80 | (s ? 0x40 : 0) | (xe.size() - 1))};
    return cat(cat(b, xe), enc_uint(m));
}
static bytes enc_oid(const uint64_t *a, size_t n)
{
    bytes b = enc_base128(a[0] * 40 + a[1]);
    for (size_t i = 2; i < n; i++) b = cat(b, enc_base128(a[i]));
    return b;
}
static bytes enc_leb(uint64_t v)
{
    bytes b; while (v > 0x7f) { b.push_back(0x80 | (v & 0x7f)); v >>= 7; } b.push_back(v);
    return b;
}
static bytes enc_vlu(uint64_t v)
{
    size_t n = 1; while (n < 8 && (v >> (7 * n))) n++;
    u128 w = ((u128)v << n) | ((1ull << (n - 1)) - 1);
    bytes b; for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(w >> (8 * i)));
    return b;
}

/* the set of shortest vf128 encodings of sign * man * 2^(exp - msb(man)), man odd */
static bytes vf_inline(double d, bool &yes)
{
    yes = true;
    bool s = std::signbit(d); double a = std::fabs(d);
    if (d != d) return bytes{(uint8_t)((s ? 0x40 : 0) | 0x38)};
    if (a == HUGE_VAL) return bytes{(uint8_t)((s ? 0x40 : 0) | 0x30)};
    for (int c = 0; c < 0x30; c++) {
        double x = c < 0x10 ? c / 16.0 : c < 0x20 ? 1 + (c & 15) / 16.0 : 2 * (1 + (c & 15) / 16.0);
        if (a == x) return bytes{(uint8_t)((s ? 0x40 : 0) | c)};
    }
    yes = false; return bytes();
}
static size_t slen(int64_t v) { return enc_sint(v).size(); }
/* shortest length, over all encodings of the value the document defines */
static size_t vf_shortest(bool s, int64_t exp, uint64_t man)
{
    (void)s;
    while (!(man & 1)) man >>= 1;
    size_t a = man == 1 ? 1 + slen(exp) : 1 + slen(exp) + (msb(man) / 8 + 1);
    if (exp < 0 && exp >= -8) {
        int bits = msb(man) + 1 + (int)(-exp - 1);
        size_t b = 1 + (bits + 7) / 8;
        if (b < a) a = b;
    }
    return a;
}

/* ------------------------------------------------------------- decoders (p[0..n), declared len) */

static Ref dec_base128(const uint8_t *p, size_t n)
{
    if (n == 0 || p[0] == 0x80) return ref_err();
    uint64_t v = 0;
    for (size_t i = 0; i < n && i < 8; i++) {
        v = v << 7 | (p[i] & 0x7f);
        if (!(p[i] & 0x80)) return ref1(OK, v, i + 1);
    }
    return ref_err();
}
static Ref dec_ident(const uint8_t *p, size_t n)
{
    if (n == 0) return ref_err();
    Ref r; r.kind = OK; r.n = 3; r.v[0] = p[0] & 31; r.v[1] = (p[0] >> 5) & 1; r.v[2] = p[0] >> 6; r.used = 1;
    if (r.v[0] == 31) {
        Ref t = dec_base128(p + 1, n - 1);
        if (t.kind == ERR || t.v[0] < 31) return ref_err();
        r.v[0] = t.v[0]; r.used += t.used;
    }
    return r;
}
static Ref dec_length(const uint8_t *p, size_t n)
{
    if (n == 0) return ref_err();
    if (p[0] < 0x80) return ref1(OK, p[0], 1);
    size_t k = p[0] & 0x7f;
    if (k == 0 || k > 8 || n < 1 + k) return ref_err();
    uint64_t v = 0; for (size_t i = 0; i < k; i++) v = v << 8 | p[1 + i];
    return ref1(enc_length(v).size() == 1 + k ? OK : ANY, v, 1 + k);
}
static Ref dec_bool(const uint8_t *p, size_t n, size_t len) { if (len != 1 || n < 1) return ref_err(); return ref1(OK, p[0] != 0, 1); }
static Ref dec_u64(const uint8_t *p, size_t n, size_t len)
{
    if (len < 1 || len > 8 || n < len) return ref_err();
    uint64_t v = 0; for (size_t i = 0; i < len; i++) v = v << 8 | p[i];
    return ref1(OK, v, len);
}
static uint64_t sx(uint64_t v, size_t len) { if (len < 8 && (v >> (len * 8 - 1)) & 1) v |= ~0ull << (len * 8); return v; }
static Ref dec_s64(const uint8_t *p, size_t n, size_t len) { Ref r = dec_u64(p, n, len); if (r.kind == OK) r.v[0] = sx(r.v[0], len); return r; }
static Ref dec_le_u64(const uint8_t *p, size_t n, size_t len)
{
    if (len < 1 || len > 8 || n < len) return ref_err();
    uint64_t v = 0; for (size_t i = 0; i < len; i++) v |= (uint64_t)p[i] << (8 * i);
    return ref1(OK, v, len);
}
static Ref dec_le_s64(const uint8_t *p, size_t n, size_t len) { Ref r = dec_le_u64(p, n, len); if (r.kind == OK) r.v[0] = sx(r.v[0], len); return r; }

static Ref dec_real(const uint8_t *p, size_t n, size_t len)
{
    if (len == 0) return ref1(ANY, 0, 0);
    if (n < 1) return ref_err();
    uint8_t b = p[0];
    if ((b >> 6) == 1) {
        if (len != 1) return ref_err();
        if (b == 0x40) return ref1(OK, 0x7ff0000000000000ull, 1);
        if (b == 0x41) return ref1(OK, 0xfff0000000000000ull, 1);
        if (b == 0x42) return ref1(OK, 0x7ff8000000000000ull, 1);
        if (b == 0x43) return ref1(OK, 0x8000000000000000ull, 1);
        return ref_err();
    }
    if (!(b & 0x80)) return ref_err();
    int base = (b >> 4) & 3; if (base == 3) return ref_err();
    int mul = base == 0 ? 1 : base == 1 ? 3 : 4, f = (b >> 2) & 3;
    size_t xl = (b & 3) + 1, h = 1;
    if (xl == 4) { if (n < 2 || len < 2) return ref_err(); xl = p[1]; h = 2; }
    if (xl == 0 || len < h + xl + 1 || n < h + xl) return ref_err();
    size_t ml = len - h - xl;
    if (ml > n - h - xl) return ref_err();
    if (xl > 8 || ml > 8) {
        /* a reader may refuse these, but if it reads them the value must be right */
        bool neg = p[h] & 0x80; size_t skip = 0;
        while (xl - skip > 8 && p[h + skip] == (neg ? 0xff : 0) && ((p[h + skip + 1] & 0x80) != 0) == neg) skip++;
        size_t mskip = 0; while (ml - mskip > 8 && p[h + xl + mskip] == 0) mskip++;
        if (xl - skip > 8 || ml - mskip > 8) { Ref r = ref1(ANY, 0, len); r.n = 99; return r; }
    }
    __int128 x = (int8_t)p[h];
    for (size_t i = 1; i < xl; i++) x = x * 256 + p[h + i];
    uint64_t m = 0; for (size_t i = 0; i < ml; i++) m = m << 8 | p[h + xl + i];
    Kind k = (xl > 8 || ml > 8) ? ANY : OK;
    if (xl > 1 && ((p[h] == 0 && p[h+1] < 0x80) || (p[h] == 0xff && p[h+1] >= 0x80))) k = ANY; /* 8.5.6.4: longer than needed */
    uint64_t s = b & 0x40 ? 1ull << 63 : 0;
    if (m == 0) return ref1(s || x != 0 ? ANY : k, s, len);
    if (x > 100000 || x < -100000) return ref_err();
    int64_t e = (int64_t)x * mul + f;
    while (!(m & 1)) { m >>= 1; e++; }
    int64_t top = e + msb(m);
    if (top > 1023 || top < -1075) return ref_err();
    if (top == -1075) { Ref r = ref1(ANY, s | 1, len); return r; }
    if (e >= -1074 && msb(m) < 53) return ref1(k, s | dbits(std::ldexp((double)m, (int)e)), len);
    /* inexact: either neighbour, or refused */
    int64_t ulp = top - 52 < -1074 ? -1074 : top - 52;
    uint64_t t = m >> (ulp - e);
    Ref r = ref1(ANY, s | dbits(std::ldexp((double)t, (int)ulp)), len);
    r.alt = s | dbits(std::ldexp((double)(t + 1), (int)ulp)); r.has_alt = true;
    return r;
}
static Ref dec_oid(const uint8_t *p, size_t n, size_t len)
{
    if (len == 0 || len > n) return ref_err();
    Ref r; r.kind = OK; size_t o = 0;
    while (o < len) {
        Ref c = dec_base128(p + o, len - o);
        if (c.kind == ERR) return ref_err();
        o += c.used;
        if (r.n == 0) {
            uint64_t x = c.v[0] < 40 ? 0 : c.v[0] < 80 ? 1 : 2;
            r.v[0] = x; r.v[1] = c.v[0] - 40 * x; r.n = 2;
        } else {
            if (r.n == 15) return ref_err();
            r.v[r.n++] = c.v[0];
        }
    }
    r.used = len; return r;
}
/* v: full length, then the bytes copied (at most cap, at most 16), packed two words */
static Ref dec_octets(const uint8_t *p, size_t n, size_t len, size_t cap)
{
    if (len > n) return ref_err();
    Ref r; r.kind = OK; r.n = 3; r.v[0] = len; r.used = len;
    for (size_t i = 0; i < len && i < cap && i < 16; i++) r.v[1 + i / 8] |= (uint64_t)p[i] << (8 * (i & 7));
    return r;
}
static Ref dec_null(const uint8_t *, size_t, size_t len) { if (len) return ref_err(); Ref r; r.kind = OK; return r; }

/* bits of a double or float nearest below in magnitude to man * 2^(exp - msb(man)) */
static uint64_t vf_assemble(bool s, int64_t exp, u128 man, bool single)
{
    const int mant = single ? 23 : 52, bias = single ? 127 : 1023;
    uint64_t sign = s ? (single ? 1ull << 31 : 1ull << 63) : 0;
    if (exp > bias) return sign | (single ? 0x7f800000ull : 0x7ff0000000000000ull);
    int w = msb128(man);
    int64_t lsb = exp - w;                                   /* weight of bit 0 */
    int64_t ulp = exp - mant < 1 - bias - mant ? 1 - bias - mant : exp - mant;
    u128 t;
    int64_t sh = ulp - lsb;
    if (sh >= 128) t = 0; else if (sh >= 0) t = man >> sh; else t = man << -sh;
    uint64_t m = (uint64_t)t;
    if (exp < 1 - bias) return sign | m;
    return sign | (uint64_t)(exp + bias) << mant | (m & ((1ull << mant) - 1));
}
static Ref dec_vf(const uint8_t *p, size_t n, bool single)
{
    if (n < 1) return ref_err();
    uint8_t h = p[0]; bool s = h & 0x40; int el = (h >> 4) & 3, ml = h & 15;
    if (!(h & 0x80)) {
        if (el == 3) return ref1(OK, ml ? (single ? 0x7fc00000ull : 0x7ff8000000000000ull) : vf_assemble(s, 99999, 1, single), 1);
        if (el == 0 && ml == 0) return ref1(OK, vf_assemble(s, -99999, 1, single), 1);
        int m = el ? 16 + ml : ml, e = el == 2 ? 1 : 0;
        return ref1(OK, vf_assemble(s, msb(m) - 4 + e, m, single), 1);
    }
    if (el == 0 && ml == 0) return ref_err();
    if (n < (size_t)(1 + el + ml)) return ref_err();
    int64_t e = 0; u128 m = 0;
    for (int i = el - 1; i >= 0; i--) e = (e << 8) | p[1 + i];
    if (el && (p[el] & 0x80)) e -= (int64_t)1 << (8 * el);
    for (int i = ml - 1; i >= 0; i--) m = (m << 8) | p[1 + el + i];
    if (ml == 0) m = 1;
    if (m == 0) return ref_err();
    if (el == 0) { int tz = 0; while (!((m >> tz) & 1)) tz++; e = -tz - 1; }
    return ref1(OK, vf_assemble(s, e, m, single), 1 + el + ml);
}
static Ref dec_leb(const uint8_t *p, size_t n)
{
    uint64_t v = 0;
    for (size_t i = 0; i < n && i < 8; i++) {
        v |= (uint64_t)(p[i] & 0x7f) << (7 * i);
        if (!(p[i] & 0x80)) return ref1(i > 0 && p[i] == 0 ? ANY : OK, v, i + 1);
    }
    return ref_err();
}
static Ref dec_vlu(const uint8_t *p, size_t n)
{
    if (n < 1) return ref_err();
    size_t k = 1; while (k <= 8 && (p[0] >> (k - 1)) & 1) k++;
    if (k > 8 || n < k) return ref_err();
    u128 w = 0; for (size_t i = 0; i < k; i++) w |= (u128)p[i] << (8 * i);
    uint64_t v = (uint64_t)(w >> k);
    return ref1(enc_vlu(v).size() == k ? OK : ANY, v, k);
}
template <class F> static Ref dec_der(const uint8_t *p, size_t n, unsigned tag, F content)
{
    Ref i = dec_ident(p, n);
    if (i.kind == ERR || i.v[0] != tag || i.v[1] || i.v[2]) return ref_err();
    Ref l = dec_length(p + i.used, n - i.used);
    if (l.kind == ERR) return ref_err();
    size_t o = i.used + l.used;
    Ref c = content(p + o, n - o, (size_t)l.v[0]);
    c.used += o; weaken(c, l.kind);
    return c;
}

/* ------------------------------------------------------------- the real decoders */

struct Dec {
    const char *name;
    bool takes_len;
    int byval;                  /* index of the by-value twin in the table, or -1 */
    Res (*run)(crefl_buf *b, size_t len);
    Ref (*ref)(const uint8_t *p, size_t n, size_t len);
};

#define RES1(E, V) Res r; r.err = (E) ? -1 : 0; r.v[0] = (V); r.n = 1; r.pos = b->data_offset; return r

template <size_t CAP> static Res run_octets(crefl_buf *b, size_t len, bool der)
{
    static uint8_t *str = (uint8_t*)malloc(CAP ? CAP : 1);
    memset(str, 0, CAP);
    asn1_string o; o.count = CAP; o.str = CAP ? str : nullptr;
    Res r; r.err = (der ? crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &o) : crefl_asn1_ber_octets_read(b, len, &o)) ? -1 : 0;
    r.pos = b->data_offset;
    if (!r.err) { r.n = 3; r.v[0] = o.count; for (size_t i = 0; i < CAP && i < 16; i++) r.v[1 + i / 8] |= (uint64_t)str[i] << (8 * (i & 7)); }
    return r;
}
static Res run_oid(crefl_buf *b, size_t len, bool der)
{
    static asn1_oid *o = (asn1_oid*)malloc(sizeof(asn1_oid));
    memset(o, 0xa5, sizeof *o);
    Res r; r.err = (der ? crefl_asn1_der_oid_read(b, asn1_tag_object_identifier, o) : crefl_asn1_ber_oid_read(b, len, o)) ? -1 : 0;
    r.pos = b->data_offset;
    if (!r.err) { r.n = o->count; for (size_t i = 0; i < o->count && i < 15; i++) r.v[i] = o->oid[i]; }
    return r;
}

#define BY(NAME, T, CALL, CANON) [](crefl_buf *b, size_t len) { (void)len; T x; memset(&x, 0xee, sizeof x); int e = CALL; RES1(e, e ? 0 : (uint64_t)CANON(x)); }
#define VAL(CALL, CANON) [](crefl_buf *b, size_t len) { (void)len; auto x = CALL; RES1(x.error, x.error ? 0 : (uint64_t)CANON(x.value)); }
#define R0(F) [](const uint8_t *p, size_t n, size_t) { return F(p, n); }
#define RL(F) [](const uint8_t *p, size_t n, size_t len) { return F(p, n, len); }
#define RD(TAG, F) [](const uint8_t *p, size_t n, size_t) { return dec_der(p, n, TAG, [](const uint8_t *q, size_t m, size_t l) { return F(q, m, l); }); }
#define ID(x) (x)

static Ref ref_oct0(const uint8_t *p, size_t n, size_t l) { return dec_octets(p, n, l, 0); }
static Ref ref_oct2(const uint8_t *p, size_t n, size_t l) { return dec_octets(p, n, l, 2); }
static Ref ref_oct16(const uint8_t *p, size_t n, size_t l) { return dec_octets(p, n, l, 16); }
static Ref ref_vf64(const uint8_t *p, size_t n) { return dec_vf(p, n, false); }
static Ref ref_vf32(const uint8_t *p, size_t n) { return dec_vf(p, n, true); }

static const Dec decoders[] = {
    /* 0 */ { "tag", false, -1, BY(, u64, crefl_asn1_ber_tag_read(b, &x), ID), R0(dec_base128) },
    /* 1 */ { "ident", false, -1, [](crefl_buf *b, size_t) { asn1_id x; memset(&x, 0xee, sizeof x); Res r; r.err = crefl_asn1_ber_ident_read(b, &x) ? -1 : 0; r.pos = b->data_offset;
                if (!r.err) { r.n = 3; r.v[0] = x._identifier; r.v[1] = x._constructed; r.v[2] = x._class; } return r; }, R0(dec_ident) },
    /* 2 */ { "length", false, -1, BY(, u64, crefl_asn1_ber_length_read(b, &x), ID), R0(dec_length) },
    /* 3 */ { "bool", true, -1, [](crefl_buf *b, size_t len) { bool x = false; int e = crefl_asn1_ber_boolean_read(b, len, &x); RES1(e, e ? 0 : (x ? 1 : 0)); }, RL(dec_bool) },
    /* 4 */ { "u64", true, 5, BY(, u64, crefl_asn1_ber_integer_u64_read(b, len, &x), ID), RL(dec_u64) },
    /* 5 */ { "u64_byval", true, -1, VAL(crefl_asn1_ber_integer_u64_read_byval(b, len), ID), RL(dec_u64) },
    /* 6 */ { "s64", true, 7, BY(, s64, crefl_asn1_ber_integer_s64_read(b, len, &x), ID), RL(dec_s64) },
    /* 7 */ { "s64_byval", true, -1, VAL(crefl_asn1_ber_integer_s64_read_byval(b, len), ID), RL(dec_s64) },
    /* 8 */ { "le_u64", true, 9, BY(, u64, crefl_le_ber_integer_u64_read(b, len, &x), ID), RL(dec_le_u64) },
    /* 9 */ { "le_u64_byval", true, -1, VAL(crefl_le_ber_integer_u64_read_byval(b, len), ID), RL(dec_le_u64) },
    /* 10 */ { "le_s64", true, 11, BY(, s64, crefl_le_ber_integer_s64_read(b, len, &x), ID), RL(dec_le_s64) },
    /* 11 */ { "le_s64_byval", true, -1, VAL(crefl_le_ber_integer_s64_read_byval(b, len), ID), RL(dec_le_s64) },
    /* 12 */ { "real", true, 13, BY(, double, crefl_asn1_ber_real_f64_read(b, len, &x), canon_d), RL(dec_real) },
    /* 13 */ { "real_byval", true, -1, VAL(crefl_asn1_ber_real_f64_read_byval(b, len), canon_d), RL(dec_real) },
    /* 14 */ { "oid", true, -1, [](crefl_buf *b, size_t len) { return run_oid(b, len, false); }, RL(dec_oid) },
    /* 15 */ { "octets0", true, -1, [](crefl_buf *b, size_t len) { return run_octets<0>(b, len, false); }, RL(ref_oct0) },
    /* 16 */ { "octets2", true, -1, [](crefl_buf *b, size_t len) { return run_octets<2>(b, len, false); }, RL(ref_oct2) },
    /* 17 */ { "octets16", true, -1, [](crefl_buf *b, size_t len) { return run_octets<16>(b, len, false); }, RL(ref_oct16) },
    /* 18 */ { "null", true, -1, [](crefl_buf *b, size_t len) { Res r; r.err = crefl_asn1_ber_null_read(b, len) ? -1 : 0; r.pos = b->data_offset; return r; }, RL(dec_null) },
    /* 19 */ { "vf64", false, 20, BY(, double, crefl_vf_f64_read(b, &x), canon_d), R0(ref_vf64) },
    /* 20 */ { "vf64_byval", false, -1, VAL(crefl_vf_f64_read_byval(b), canon_d), R0(ref_vf64) },
    /* 21 */ { "vf32", false, 22, BY(, float, crefl_vf_f32_read(b, &x), canon_f), R0(ref_vf32) },
    /* 22 */ { "vf32_byval", false, -1, VAL(crefl_vf_f32_read_byval(b), canon_f), R0(ref_vf32) },
    /* 23 */ { "leb", false, 24, BY(, u64, crefl_leb_u64_read(b, &x), ID), R0(dec_leb) },
    /* 24 */ { "leb_byval", false, -1, VAL(crefl_leb_u64_read_byval(b), ID), R0(dec_leb) },
    /* 25 */ { "vlu", false, 26, BY(, u64, crefl_vlu_u64_read(b, &x), ID), R0(dec_vlu) },
    /* 26 */ { "vlu_byval", false, -1, VAL(crefl_vlu_u64_read_byval(b), ID), R0(dec_vlu) },
    /* 27 */ { "der_bool", false, -1, [](crefl_buf *b, size_t) { bool x = false; int e = crefl_asn1_der_boolean_read(b, asn1_tag_boolean, &x); RES1(e, e ? 0 : (x ? 1 : 0)); }, RD(1, dec_bool) },
    /* 28 */ { "der_u64", false, 29, BY(, u64, crefl_asn1_der_integer_u64_read(b, asn1_tag_integer, &x), ID), RD(2, dec_u64) },
    /* 29 */ { "der_u64_byval", false, -1, VAL(crefl_asn1_der_integer_u64_read_byval(b, asn1_tag_integer), ID), RD(2, dec_u64) },
    /* 30 */ { "der_s64", false, 31, BY(, s64, crefl_asn1_der_integer_s64_read(b, asn1_tag_integer, &x), ID), RD(2, dec_s64) },
    /* 31 */ { "der_s64_byval", false, -1, VAL(crefl_asn1_der_integer_s64_read_byval(b, asn1_tag_integer), ID), RD(2, dec_s64) },
    /* 32 */ { "der_real", false, 33, BY(, double, crefl_asn1_der_real_f64_read(b, asn1_tag_real, &x), canon_d), RD(9, dec_real) },
    /* 33 */ { "der_real_byval", false, -1, VAL(crefl_asn1_der_real_f64_read_byval(b, asn1_tag_real), canon_d), RD(9, dec_real) },
    /* 34 */ { "der_oid", false, -1, [](crefl_buf *b, size_t len) { return run_oid(b, len, true); }, RD(6, dec_oid) },
    /* 35 */ { "der_octets0", false, -1, [](crefl_buf *b, size_t len) { return run_octets<0>(b, len, true); }, RD(4, ref_oct0) },
    /* 36 */ { "der_octets2", false, -1, [](crefl_buf *b, size_t len) { return run_octets<2>(b, len, true); }, RD(4, ref_oct2) },
    /* 37 */ { "der_octets16", false, -1, [](crefl_buf *b, size_t len) { return run_octets<16>(b, len, true); }, RD(4, ref_oct16) },
    /* 38 */ { "der_null", false, -1, [](crefl_buf *b, size_t) { Res r; r.err = crefl_asn1_der_null_read(b, asn1_tag_null) ? -1 : 0; r.pos = b->data_offset; return r; }, RD(5, dec_null) },
};
enum { ndecoders = sizeof(decoders) / sizeof(decoders[0]) };

static inline const Dec *decoder(const char *name)
{
    for (auto &d : decoders) if (!strcmp(d.name, name)) return &d;
    abort();
}

/* a buffer whose memory ends exactly where the content does */
struct Place {
    std::vector<uint8_t*> mem;
    crefl_buf buf;
    crefl_buf *at(const uint8_t *p, size_t n, size_t lead = 0)
    {
        size_t t = n + lead;
        while (mem.size() <= t) mem.push_back(nullptr);
        if (!mem[t]) mem[t] = (uint8_t*)malloc(t);
        memset(mem[t], 0x5a, lead);
        memcpy(mem[t] + lead, p, n);
        buf.data = (char*)mem[t]; buf.data_offset = lead; buf.data_size = t;
        return &buf;
    }
};

/* decode and compare with the reference; returns the result */
static Res check_decode(const Dec &d, Place &pl, const uint8_t *p, size_t n, size_t len, size_t lead = 0)
{
    crefl_buf *b = pl.at(p, n, lead);
    Res r = d.run(b, len);
    mc::op();
    Ref f = d.ref(p, n, len);
    auto in = [&]() { return mc::fmt("%s(%s%s) at %zu", d.name, mc::hex(p, n).c_str(), d.takes_len ? mc::fmt(", len %zu", len).c_str() : "", lead); };
    if (r.pos > lead + n) { mc::fail("%s: position %zu past the end %zu", in().c_str(), r.pos, lead + n); return r; }
    if (memcmp(b->data + lead, p, n) != 0) mc::fail("%s: input modified", in().c_str());
    if (r.err == 0) {
        if (f.kind == ERR) { mc::fail("%s: accepted with value %llx, an error is required", in().c_str(), (unsigned long long)r.v[0]); return r; }
        if (f.n == 99) return r;
        bool same = r.n == f.n;
        for (size_t i = 0; same && i < f.n; i++) same = r.v[i] == f.v[i] || (i == 0 && f.has_alt && r.v[0] == f.alt);
        if (!same) mc::fail("%s: value %llx (%zu words), expected %llx (%zu words)", in().c_str(), (unsigned long long)r.v[0], r.n, (unsigned long long)f.v[0], f.n);
        if (r.pos != lead + f.used) mc::fail("%s: consumed %zu bytes, expected %zu", in().c_str(), r.pos - lead, f.used);
    } else {
        if (f.kind == OK) mc::fail("%s: refused, expected value %llx", in().c_str(), (unsigned long long)f.v[0]);
    }
    return r;
}

/* ------------------------------------------------------------- the real encoders */

struct Val {
    uint64_t u = 0;             /* integer, or bits of a float */
    unsigned cls = 0, cons = 0;
    bytes str;
    std::vector<uint64_t> arcs;
};

static asn1_oid mk_oid(const Val &v)
{
    asn1_oid o; memset(&o, 0xa5, sizeof o); o.count = v.arcs.size();
    for (size_t i = 0; i < v.arcs.size() && i < 15; i++) o.oid[i] = v.arcs[i];
    return o;
}
static asn1_id mk_id(const Val &v)
{
    asn1_id i; memset(&i, 0, sizeof i); i._identifier = v.u; i._constructed = v.cons; i._class = v.cls; return i;
}
static asn1_string mk_str(const Val &v) { asn1_string s; s.count = v.str.size(); s.str = (u8*)v.str.data(); return s; }

enum Domain { D_TAG, D_IDENT, D_U64, D_BOOL, D_F64, D_F32, D_U56, D_OID, D_OCT, D_NULL };

struct Enc {
    const char *name;
    Domain dom;
    int byval;                              /* by-value twin, or -1 */
    const char *dec;                        /* the decoder that reads it back */
    int (*run)(crefl_buf *b, const Val &v);
    bool (*model)(const Val &v, bytes &out);/* false: must be refused */
    size_t (*len)(const Val &v);            /* announced length of the content, or null */
    size_t (*mlen)(const Val &v);           /* model of it */
};

static bool m_tag(const Val &v, bytes &o) { if (v.u >> 56) return false; o = enc_base128(v.u); return true; }
static bool m_ident(const Val &v, bytes &o) { o = enc_ident(v.cls, v.cons, v.u); return true; }
static bool m_length(const Val &v, bytes &o) { o = enc_length(v.u); return true; }
static bool m_bool(const Val &v, bytes &o) { o = bytes{(uint8_t)(v.u ? 0xff : 0)}; return true; }
static bool m_u64(const Val &v, bytes &o) { o = enc_uint(v.u); return true; }
static bool m_s64(const Val &v, bytes &o) { o = enc_sint((int64_t)v.u); return true; }
static bool m_leu(const Val &v, bytes &o) { o = rev(enc_uint(v.u)); return true; }
static bool m_les(const Val &v, bytes &o) { o = rev(enc_sint((int64_t)v.u)); return true; }
static bool m_real(const Val &v, bytes &o) { o = enc_real(bitsd(v.u)); return true; }
static bool m_oid(const Val &v, bytes &o) { o = enc_oid(v.arcs.data(), v.arcs.size()); return true; }
static bool m_oct(const Val &v, bytes &o) { o = v.str; return true; }
static bool m_null(const Val &, bytes &o) { o.clear(); return true; }
static bool m_leb(const Val &v, bytes &o) { if (v.u >> 56) return false; o = enc_leb(v.u); return true; }
static bool m_vlu(const Val &v, bytes &o) { if (v.u >> 56) return false; o = enc_vlu(v.u); return true; }
template <unsigned T, bool (*M)(const Val &, bytes &)> static bool m_der(const Val &v, bytes &o) { bytes c; if (!M(v, c)) return false; o = enc_tlv(T, c); return true; }
template <bool (*M)(const Val &, bytes &)> static size_t ml(const Val &v) { bytes o; M(v, o); return o.size(); }

#define RUN(E) [](crefl_buf *b, const Val &v) -> int { (void)v; return E; }
#define LEN(E) [](const Val &v) -> size_t { (void)v; return E; }
#define X const u64 x = v.u; (void)x;
#define PV(T, C) [](crefl_buf *b, const Val &v) -> int { T x; memcpy(&x, &v.u, sizeof x); return C; }
#define PL(T, C) [](const Val &v) -> size_t { T x; memcpy(&x, &v.u, sizeof x); return C; }

static const Enc encoders[] = {
    /* 0 */ { "tag", D_TAG, -1, "tag", PV(u64, crefl_asn1_ber_tag_write(b, x)), m_tag, PL(u64, crefl_asn1_ber_tag_length(x)), ml<m_tag> },
    /* 1 */ { "ident", D_IDENT, -1, "ident", RUN(crefl_asn1_ber_ident_write(b, mk_id(v))), m_ident, LEN(crefl_asn1_ber_ident_length(mk_id(v))), ml<m_ident> },
    /* 2 */ { "length", D_U64, -1, "length", PV(u64, crefl_asn1_ber_length_write(b, x)), m_length, PL(u64, crefl_asn1_ber_length_length(x)), ml<m_length> },
    /* 3 */ { "bool", D_BOOL, -1, "bool", [](crefl_buf *b, const Val &v) { bool x = v.u; return crefl_asn1_ber_boolean_write(b, 1, &x); }, nullptr, [](const Val &v) { bool x = v.u; return crefl_asn1_ber_boolean_length(&x); }, ml<m_bool> },
    /* 4 */ { "u64", D_U64, 5, "u64", PV(u64, crefl_asn1_ber_integer_u64_write(b, crefl_asn1_ber_integer_u64_length(&x), &x)), m_u64, PL(u64, crefl_asn1_ber_integer_u64_length(&x)), ml<m_u64> },
    /* 5 */ { "u64_byval", D_U64, -1, "u64", PV(u64, crefl_asn1_ber_integer_u64_write_byval(b, crefl_asn1_ber_integer_u64_length_byval(x), x)), m_u64, PL(u64, crefl_asn1_ber_integer_u64_length_byval(x)), ml<m_u64> },
    /* 6 */ { "s64", D_U64, 7, "s64", PV(s64, crefl_asn1_ber_integer_s64_write(b, crefl_asn1_ber_integer_s64_length(&x), &x)), m_s64, PL(s64, crefl_asn1_ber_integer_s64_length(&x)), ml<m_s64> },
    /* 7 */ { "s64_byval", D_U64, -1, "s64", PV(s64, crefl_asn1_ber_integer_s64_write_byval(b, crefl_asn1_ber_integer_s64_length_byval(x), x)), m_s64, PL(s64, crefl_asn1_ber_integer_s64_length_byval(x)), ml<m_s64> },
    /* 8 */ { "le_u64", D_U64, 9, "le_u64", PV(u64, crefl_le_ber_integer_u64_write(b, crefl_le_ber_integer_u64_length(&x), &x)), m_leu, PL(u64, crefl_le_ber_integer_u64_length(&x)), ml<m_leu> },
    /* 9 */ { "le_u64_byval", D_U64, -1, "le_u64", PV(u64, crefl_le_ber_integer_u64_write_byval(b, crefl_le_ber_integer_u64_length_byval(x), x)), m_leu, PL(u64, crefl_le_ber_integer_u64_length_byval(x)), ml<m_leu> },
    /* 10 */ { "le_s64", D_U64, 11, "le_s64", PV(s64, crefl_le_ber_integer_s64_write(b, crefl_le_ber_integer_s64_length(&x), &x)), m_les, PL(s64, crefl_le_ber_integer_s64_length(&x)), ml<m_les> },
    /* 11 */ { "le_s64_byval", D_U64, -1, "le_s64", PV(s64, crefl_le_ber_integer_s64_write_byval(b, crefl_le_ber_integer_s64_length_byval(x), x)), m_les, PL(s64, crefl_le_ber_integer_s64_length_byval(x)), ml<m_les> },
    /* 12 */ { "real", D_F64, 13, "real", PV(double, crefl_asn1_ber_real_f64_write(b, crefl_asn1_ber_real_f64_length(&x), &x)), m_real, PL(double, crefl_asn1_ber_real_f64_length(&x)), ml<m_real> },
    /* 13 */ { "real_byval", D_F64, -1, "real", PV(double, crefl_asn1_ber_real_f64_write_byval(b, crefl_asn1_ber_real_f64_length_byval(x), x)), m_real, PL(double, crefl_asn1_ber_real_f64_length_byval(x)), ml<m_real> },
    /* 14 */ { "oid", D_OID, -1, "oid", [](crefl_buf *b, const Val &v) { asn1_oid o = mk_oid(v); return crefl_asn1_ber_oid_write(b, crefl_asn1_ber_oid_length(&o), &o); }, m_oid, [](const Val &v) { asn1_oid o = mk_oid(v); return crefl_asn1_ber_oid_length(&o); }, ml<m_oid> },
    /* 15 */ { "octets", D_OCT, -1, "octets16", [](crefl_buf *b, const Val &v) { asn1_string o = mk_str(v); return crefl_asn1_ber_octets_write(b, crefl_asn1_ber_octets_length(&o), &o); }, m_oct, [](const Val &v) { asn1_string o = mk_str(v); return crefl_asn1_ber_octets_length(&o); }, ml<m_oct> },
    /* 16 */ { "null", D_NULL, -1, "null", RUN(crefl_asn1_ber_null_write(b, 0)), m_null, LEN(crefl_asn1_ber_null_length()), ml<m_null> },
    /* 17 */ { "vf64", D_F64, 18, "vf64", PV(double, crefl_vf_f64_write(b, &x)), nullptr, nullptr, nullptr },
    /* 18 */ { "vf64_byval", D_F64, -1, "vf64", PV(double, crefl_vf_f64_write_byval(b, x)), nullptr, nullptr, nullptr },
    /* 19 */ { "vf32", D_F32, 20, "vf32", PV(float, crefl_vf_f32_write(b, &x)), nullptr, nullptr, nullptr },
    /* 20 */ { "vf32_byval", D_F32, -1, "vf32", PV(float, crefl_vf_f32_write_byval(b, x)), nullptr, nullptr, nullptr },
    /* 21 */ { "leb", D_U56, 22, "leb", PV(u64, crefl_leb_u64_write(b, &x)), m_leb, nullptr, nullptr },
    /* 22 */ { "leb_byval", D_U56, -1, "leb", PV(u64, crefl_leb_u64_write_byval(b, x)), m_leb, nullptr, nullptr },
    /* 23 */ { "vlu", D_U56, 24, "vlu", PV(u64, crefl_vlu_u64_write(b, &x)), m_vlu, nullptr, nullptr },
    /* 24 */ { "vlu_byval", D_U56, -1, "vlu", PV(u64, crefl_vlu_u64_write_byval(b, x)), m_vlu, nullptr, nullptr },
    /* 25 */ { "der_bool", D_BOOL, -1, "der_bool", [](crefl_buf *b, const Val &v) { bool x = v.u; return crefl_asn1_der_boolean_write(b, asn1_tag_boolean, &x); }, m_der<1, m_bool>, nullptr, nullptr },
    /* 26 */ { "der_u64", D_U64, 27, "der_u64", PV(u64, crefl_asn1_der_integer_u64_write(b, asn1_tag_integer, &x)), m_der<2, m_u64>, nullptr, nullptr },
    /* 27 */ { "der_u64_byval", D_U64, -1, "der_u64", PV(u64, crefl_asn1_der_integer_u64_write_byval(b, asn1_tag_integer, x)), m_der<2, m_u64>, nullptr, nullptr },
    /* 28 */ { "der_s64", D_U64, 29, "der_s64", PV(s64, crefl_asn1_der_integer_s64_write(b, asn1_tag_integer, &x)), m_der<2, m_s64>, nullptr, nullptr },
    /* 29 */ { "der_s64_byval", D_U64, -1, "der_s64", PV(s64, crefl_asn1_der_integer_s64_write_byval(b, asn1_tag_integer, x)), m_der<2, m_s64>, nullptr, nullptr },
    /* 30 */ { "der_real", D_F64, 31, "der_real", PV(double, crefl_asn1_der_real_f64_write(b, asn1_tag_real, &x)), m_der<9, m_real>, nullptr, nullptr },
    /* 31 */ { "der_real_byval", D_F64, -1, "der_real", PV(double, crefl_asn1_der_real_f64_write_byval(b, asn1_tag_real, x)), m_der<9, m_real>, nullptr, nullptr },
    /* 32 */ { "der_oid", D_OID, -1, "der_oid", [](crefl_buf *b, const Val &v) { asn1_oid o = mk_oid(v); return crefl_asn1_der_oid_write(b, asn1_tag_object_identifier, &o); }, m_der<6, m_oid>, nullptr, nullptr },
    /* 33 */ { "der_octets", D_OCT, -1, "der_octets16", [](crefl_buf *b, const Val &v) { asn1_string o = mk_str(v); return crefl_asn1_der_octets_write(b, asn1_tag_octet_string, &o); }, m_der<4, m_oct>, nullptr, nullptr },
    /* 34 */ { "der_null", D_NULL, -1, "der_null", RUN(crefl_asn1_der_null_write(b, asn1_tag_null)), m_der<5, m_null>, nullptr, nullptr },
};
enum { nencoders = sizeof(encoders) / sizeof(encoders[0]) };
static inline const Enc *encoder(const char *name)
{
    for (auto &e : encoders) if (!strcmp(e.name, name)) return &e;
    abort();
}

static std::string show(const Enc &e, const Val &v)
{
    std::string s = e.name; s += "(";
    if (e.dom == D_OCT) s += mc::fmt("%zu octets", v.str.size());
    else if (e.dom == D_OID) { for (size_t i = 0; i < v.arcs.size(); i++) s += mc::fmt("%s%llu", i ? "." : "", (unsigned long long)v.arcs[i]); }
    else if (e.dom == D_IDENT) s += mc::fmt("class %u cons %u number 0x%llx", v.cls, v.cons, (unsigned long long)v.u);
    else s += mc::fmt("0x%llx", (unsigned long long)v.u);
    return s + ")";
}

/* encoding is one the documents define for this value, in shortest form */
static bool enc_ok(const Enc &e, const Val &v, const bytes &got, std::string &why)
{
    bytes m;
    if (e.model) {
        if (!e.model(v, m)) { why = "a value that does not fit was accepted"; return false; }
        if (got != m) { why = "wrote " + mc::hex(got.data(), got.size()) + ", expected " + mc::hex(m.data(), m.size()); return false; }
        return true;
    }
    if (e.dom == D_BOOL) { /* BER: any non-zero octet is true */
        if (got.size() != 1 || (got[0] != 0) != (v.u != 0)) { why = "wrote " + mc::hex(got.data(), got.size()); return false; }
        return true;
    }
    bool single = e.dom == D_F32;
    uint32_t u32v = (uint32_t)v.u;
    double d = single ? (double)bitsf(u32v) : bitsd(v.u);
    bool inl; m = vf_inline(d, inl);
    if (inl) {
        if (d != d) { if (got.size() == 1 && (got[0] & 0xbf) == 0x38) return true; }
        if (got != m) { why = "wrote " + mc::hex(got.data(), got.size()) + ", expected " + mc::hex(m.data(), m.size()); return false; }
        return true;
    }
    uint64_t u = dbits(d), man = u & ((1ull << 52) - 1); int64_t ex = (u >> 52) & 0x7ff;
    if (ex) { man |= 1ull << 52; ex -= 1023; } else { ex = -1074 + msb(man); }
    size_t want = vf_shortest(u >> 63, ex, man);
    if (got.size() != want) { why = mc::fmt("wrote %zu bytes (%s), shortest form has %zu", got.size(), mc::hex(got.data(), got.size()).c_str(), want); return false; }
    for (int sgl = 0; sgl < (single ? 2 : 1); sgl++) {
        Ref r = dec_vf(got.data(), got.size(), sgl);
        uint64_t w = sgl ? canon_f(bitsf(u32v)) : canon_d(d);
        if (r.kind != OK || r.used != got.size() || r.v[0] != w) { why = "wrote " + mc::hex(got.data(), got.size()) + mc::fmt(", which the format defines as %llx", (unsigned long long)r.v[0]); return false; }
    }
    return true;
}

/* value words the decoder should report for v */
static void enc_words(const Enc &e, const Val &v, uint64_t *w, size_t &n)
{
    n = 1; w[0] = v.u;
    switch (e.dom) {
    case D_IDENT: n = 3; w[1] = v.cons; w[2] = v.cls; break;
    case D_BOOL: w[0] = v.u != 0; break;
    case D_F64: w[0] = canon_d(bitsd(v.u)); break;
    case D_F32: w[0] = canon_f(bitsf((uint32_t)v.u)); break;
    case D_OID: n = v.arcs.size(); for (size_t i = 0; i < n; i++) w[i] = v.arcs[i]; break;
    case D_OCT: n = 3; w[0] = v.str.size(); w[1] = w[2] = 0; for (size_t i = 0; i < v.str.size() && i < 16; i++) w[1 + i / 8] |= (uint64_t)v.str[i] << (8 * (i & 7)); break;
    case D_NULL: n = 0; break;
    default: break;
    }
}

/* write v into a roomy buffer, check bytes and announced length, read back from an exact buffer */
static bool check_roundtrip(const Enc &e, const Val &v, Place &pl, bytes *out = nullptr, size_t lead = 0)
{
    static std::vector<uint8_t> mem;
    size_t room = lead + 64 + v.str.size() + 10 * v.arcs.size();
    if (mem.size() != room) mem.assign(room, 0);
    memset(mem.data(), 0x6b, std::min(room, lead + 40));
    crefl_buf b; b.data = (char*)mem.data(); b.data_offset = lead; b.data_size = room;
    int err = e.run(&b, v);
    mc::op();
    bytes m;
    bool fits = e.model ? e.model(v, m) : true;
    if (err) {
        if (fits) mc::fail("%s: refused", show(e, v).c_str());
        return false;
    }
    bytes got(mem.begin() + lead, mem.begin() + std::min(b.data_offset, room));
    std::string why;
    if (!enc_ok(e, v, got, why)) { mc::fail("%s: %s", show(e, v).c_str(), why.c_str()); return false; }
    if (e.len) {
        size_t l = e.len(v), w = e.mlen(v);
        if (l != w) mc::fail("%s: announced length %zu, written %zu", show(e, v).c_str(), l, w);
    }
    const Dec *d = decoder(e.dec);
    crefl_buf *rb = pl.at(got.data(), got.size(), lead);
    Res r = d->run(rb, got.size());
    mc::op();
    uint64_t w[20]; size_t n; enc_words(e, v, w, n);
    bool same = !r.err && r.n == n && r.pos == lead + got.size();
    for (size_t i = 0; same && i < n; i++) same = r.v[i] == w[i];
    if (!same) mc::fail("%s: bytes %s read back by %s as %s %llx (%zu words), position %zu of %zu", show(e, v).c_str(), mc::hex(got.data(), got.size()).c_str(),
        d->name, r.err ? "error" : "value", (unsigned long long)r.v[0], r.n, r.pos - lead, got.size());
    if (out) *out = got;
    return same;
}

/* interesting 64-bit words: around powers of two, runs of ones, and complements */
static std::vector<uint64_t> edge_words(int near, bool runs)
{
    std::set<uint64_t> s;
    for (int i = 0; i <= 64; i++) {
        uint64_t p = i == 64 ? 0 : 1ull << i;
        for (int d = -near; d <= near; d++) { s.insert(p + d); s.insert(~(p + d)); s.insert(0 - (p + d)); }
    }
    if (runs) for (int i = 0; i < 64; i++) for (int j = i; j < 64; j++) {
        uint64_t r = (j - i == 63 ? ~0ull : ((1ull << (j - i + 1)) - 1)) << i;
        s.insert(r); s.insert(~r);
    }
    return std::vector<uint64_t>(s.begin(), s.end());
}
