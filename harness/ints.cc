/* P12: integers in both byte orders */
#include "codec.h"

void mc_explore()
{
    static Place pl;
    auto words = edge_words(mc::thorough ? 300 : 40, true);
    auto near = edge_words(2, false);
    const uint64_t dense = mc::thorough ? 1ull << 24 : 1ull << 16, blk = 1 << 12;
    static const char *encs[] = { "u64", "u64_byval", "s64", "s64_byval", "le_u64", "le_u64_byval", "le_s64", "le_s64_byval",
        "der_u64", "der_u64_byval", "der_s64", "der_s64_byval" };
    for (const char *nm : encs) {
        const Enc &e = *encoder(nm);
        auto one = [&](uint64_t u, size_t lead = 0) { Val v; v.u = u; mc::sub(u); check_roundtrip(e, v, pl, nullptr, lead); mc::state(); };
        for (uint64_t base = 0; base < dense; base += blk) {
            if (!mc::begin("%s dense block %llx", nm, (unsigned long long)base)) continue;
            for (uint64_t i = base; i < base + blk; i++) { one(i); one(~i); }
        }
        for (int top = 16; top < 64; top += 8) for (int lo = 0; lo < 2; lo++) for (int hi = 0; hi < 2; hi++) {
            if (!mc::begin("%s window %d %d %d", nm, top, lo, hi)) continue;
            for (uint64_t w = 0; w < 65536; w++)
                one(w << (top - 8) | (lo ? (1ull << (top - 8)) - 1 : 0) | (hi && top < 56 ? ~0ull << (top + 8) : 0));
        }
        if (mc::begin("%s edges", nm)) for (uint64_t w : words) one(w);
        if (mc::begin("%s position", nm)) for (uint64_t w : near) for (size_t lead = 1; lead < 10; lead++) one(w, lead);
    }
    static const uint8_t al[] = { 0x00, 0x01, 0x7f, 0x80, 0xff };
    for (const char *nm : encs) {
        const Dec &d = *decoder(nm);
        const size_t maxn = mc::thorough ? 10 : 9;
        for (int b0 = 0; b0 < 256; b0++) {
            if (!mc::begin("%s decode first %02x", nm, b0)) continue;
            uint8_t p[16] = { (uint8_t)b0 };
            for (size_t len = 0; len < 3; len++) { check_decode(d, pl, p, 0, len); check_decode(d, pl, p, 1, len); check_decode(d, pl, p, 1, len, 3); }
            for (int b1 = 0; b1 < 256; b1++) {
                p[1] = b1; mc::sub(b1); mc::state();
                for (size_t len = 1; len < 4; len++) check_decode(d, pl, p, 2, len);
                if (mc::thorough) for (int b2 = 0; b2 < 256; b2++) { p[2] = b2; check_decode(d, pl, p, 3, 3); mc::state(); }
            }
        }
        /* content over boundary octets, longer than needed, longer than the input, longer than fits */
        for (size_t n = 3; n <= maxn; n++) for (int a : al) for (int b : al) {
            if (!mc::begin("%s decode octets n=%zu %02x %02x", nm, n, a, b)) continue;
            uint8_t p[16]; p[0] = a; p[1] = b;
            size_t k = std::min<size_t>(n - 2, mc::thorough ? 7 : 4), tot = 1;
            for (size_t i = 0; i < k; i++) tot *= 5;
            for (size_t x = 0; x < tot; x++) {
                size_t y = x;
                for (size_t i = 2; i < n; i++) p[i] = i - 2 < k ? al[y % 5] : p[i - 3], y /= 5;
                mc::sub(x); mc::state();
                for (size_t len : { n - 1, n, n + 1 }) check_decode(d, pl, p, n, len);
            }
        }
        if (mc::begin("%s decode huge length", nm)) {
            uint8_t p[12]; memset(p, 1, 12);
            for (size_t n = 0; n <= 12; n++) for (uint64_t len : words) { mc::sub(n, len); check_decode(d, pl, p, n, len, n & 3); }
        }
    }
    /* content writers with the length given: any that holds the value keeps it, others write nothing */
    struct W { const char *name; bool s; std::function<int(crefl_buf*, size_t, uint64_t)> w; std::function<int(crefl_buf*, size_t, uint64_t*)> r; };
    #define PTR(p,t) [](crefl_buf *b, size_t n, uint64_t u) { t v = (t)u; return p##_write(b, n, &v); }, [](crefl_buf *b, size_t n, uint64_t *u) { t v = 7; int rc = p##_read(b, n, &v); *u = v; return rc; }
    #define VAL(p,t) [](crefl_buf *b, size_t n, uint64_t u) { return p##_write_byval(b, n, (t)u); }, [](crefl_buf *b, size_t n, uint64_t *u) { auto r = p##_read_byval(b, n); *u = (uint64_t)r.value; return (int)r.error; }
    W ws[] = { { "ber u64", false, PTR(crefl_asn1_ber_integer_u64, u64) }, { "ber u64 byval", false, VAL(crefl_asn1_ber_integer_u64, u64) },
               { "ber s64", true, PTR(crefl_asn1_ber_integer_s64, s64) }, { "ber s64 byval", true, VAL(crefl_asn1_ber_integer_s64, s64) },
               { "le u64", false, PTR(crefl_le_ber_integer_u64, u64) }, { "le u64 byval", false, VAL(crefl_le_ber_integer_u64, u64) },
               { "le s64", true, PTR(crefl_le_ber_integer_s64, s64) }, { "le s64 byval", true, VAL(crefl_le_ber_integer_s64, s64) } };
    for (auto &w : ws) {
        if (!mc::begin("%s given length", w.name)) continue;
        std::vector<size_t> lens; for (size_t n = 0; n <= 20; n++) lens.push_back(n);
        for (size_t n : { (size_t)64, (size_t)255, (size_t)256, (size_t)1 << 32, ((size_t)1 << 32) + 4, ~(size_t)0, ~(size_t)0 - 3, (size_t)1 << 61 }) lens.push_back(n);
        for (uint64_t u : words) for (size_t n : lens) {
            mc::sub(u, n); mc::op(); mc::state();
            uint8_t m[64]; memset(m, 0xa5, sizeof m); crefl_buf b; b.data = (char*)m; b.data_offset = 3; b.data_size = 40;
            int rc = w.w(&b, n, u);
            bool fits = n >= 1 && n <= 8;
            size_t end = fits ? 3 + n : 3;
            bool out = false; for (size_t i = 0; i < sizeof m; i++) if ((i < 3 || i >= end) && m[i] != 0xa5) out = true;
            if (out || b.data_offset != end || (rc < 0) == fits) { mc::fail("%s of %llx in %zu octets: returns %d, cursor at %zu%s", w.name, (unsigned long long)u, n, rc, b.data_offset, out ? ", writes elsewhere" : ""); break; }
            if (!fits) continue;
            uint64_t lim = u; bool holds = n == 8 || (w.s ? (int64_t)u >= -(1ll << (n * 8 - 1)) && (int64_t)u < 1ll << (n * 8 - 1) : lim >> n * 8 == 0);
            uint64_t got = 0; b.data_offset = 3; rc = w.r(&b, n, &got);
            if (holds && (rc < 0 || got != u || b.data_offset != end)) { mc::fail("%s: %llx written in %zu octets reads as %llx (%d)", w.name, (unsigned long long)u, n, (unsigned long long)got, rc); break; }
        }
    }
}
