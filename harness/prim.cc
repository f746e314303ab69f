/* P16: booleans, null and octet strings */
#include "codec.h"
#include "huge.h"

/* strings whose length does not fit 31 and 32 bits */
static void hugestring(bool der, size_t n)
{
    Huge from(n), out(n + 40), into(n + 16, 0x77);
    memset(from.p, 0x21, 999); memset(from.p + n - 999, 0x42, 999);
    asn1_string s; s.count = n; s.str = from.p;
    MC_CHECK(crefl_asn1_ber_octets_length(&s) == n, "%zu octets: announced length %zu", n, crefl_asn1_ber_octets_length(&s));
    crefl_buf b; memset(&b, 0, sizeof b); b.data = (char*)out.p; b.data_size = n + 40;
    int err = der ? crefl_asn1_der_octets_write(&b, asn1_tag_octet_string, &s) : crefl_asn1_ber_octets_write(&b, n, &s);
    size_t hdr = !der ? 0 : n >> 32 ? 7 : 6;
    MC_CHECK(!err && b.data_offset == hdr + n, "%zu octets written: %d, position %zu", n, err, b.data_offset);
    if (der) { bytes h { 4, (uint8_t)(0x80 | (hdr - 2)) }; for (size_t i = hdr - 2; i--; ) h.push_back(n >> 8 * i); MC_CHECK(!memcmp(out.p, h.data(), hdr), "%zu octets: header differs", n); }
    MC_CHECK(out.p[hdr] == 0x21 && out.p[hdr + 998] == 0x21 && out.p[hdr + 999] == 0x5a && out.p[hdr + n - 1000] == 0x5a && out.p[hdr + n - 1] == 0x42 && out.p[hdr + n - 999] == 0x42, "%zu octets: content differs", n);
    for (size_t cap : { n + 9, n, n - 1, (size_t)0 }) {
        asn1_string o; o.count = cap; o.str = cap ? into.p : nullptr; size_t k = std::min(cap, n);
        memset(into.p, 0x77, 2000); memset(into.p + n - 2000, 0x77, 2016); b.data_offset = 0; mc::sub(cap); mc::op();
        err = der ? crefl_asn1_der_octets_read(&b, asn1_tag_octet_string, &o) : crefl_asn1_ber_octets_read(&b, n, &o);
        MC_CHECK(!err && o.count == n && b.data_offset == hdr + n, "%zu octets into %zu: %d, length %llu, position %zu", n, cap, err, (unsigned long long)o.count, b.data_offset);
        if (cap) MC_CHECK(into.p[0] == 0x21 && into.p[999] == 0x5a && into.p[n - 999] == 0x42 && into.p[k - 1] == 0x42 && into.p[k] == 0x77, "%zu octets into %zu: content differs", n, cap);
    }
    /* one octet missing */
    b.data_size = hdr + n - 1; b.data_offset = 0;
    asn1_string o; o.count = n; o.str = into.p;
    MC_CHECK((der ? crefl_asn1_der_octets_read(&b, asn1_tag_octet_string, &o) : crefl_asn1_ber_octets_read(&b, n, &o)) != 0, "%zu octets without the last: accepted", n);
    mc::state();
}

void mc_explore()
{
    static Place pl;
    if (mc::begin("bool and null values")) for (const char *nm : { "bool", "der_bool", "null", "der_null" }) for (int u = 0; u < 2; u++) for (size_t lead = 0; lead < 4; lead++) {
        Val v; v.u = u; mc::sub(u, lead); check_roundtrip(*encoder(nm), v, pl, nullptr, lead); mc::state();
    }
    for (const char *nm : { "octets", "der_octets" }) {
        const Enc &e = *encoder(nm);
        const size_t max = mc::thorough ? 2100 : 300;
        for (size_t n = 0; n <= max; n++) {
            if (!mc::begin("%s length %zu", nm, n)) continue;
            for (int pat = 0; pat < 4; pat++) for (size_t lead = 0; lead < 2; lead++) {
                Val v; v.str.resize(n); for (size_t i = 0; i < n; i++) v.str[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? i * 7 + 1 : i >> 8 ^ 0x80 ^ i;
                mc::sub(pat, lead); check_roundtrip(e, v, pl, nullptr, lead); mc::state();
                /* whole content into a buffer of every interesting capacity, memory exact */
                bytes m; e.model(v, m);
                for (size_t cap : { (size_t)0, (size_t)1, n / 2, n ? n - 1 : 0, n, n + 1, n + 40 }) {
                    uint8_t *mem = (uint8_t*)malloc(cap); memset(mem, 0x77, cap);
                    asn1_string o; o.count = cap; o.str = cap ? mem : nullptr;
                    crefl_buf *b = pl.at(m.data(), m.size(), lead);
                    int err = e.name[0] == 'd' ? crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &o) : crefl_asn1_ber_octets_read(b, n, &o);
                    mc::op();
                    size_t k = std::min(cap, n);
                    if (err) mc::fail("%zu octets into a string of %zu: refused", n, cap);
                    else {
                        if (o.count != n) mc::fail("%zu octets into a string of %zu: reported length %llu", n, cap, (unsigned long long)o.count);
                        if (k && memcmp(mem, v.str.data(), k)) mc::fail("%zu octets into a string of %zu: content differs", n, cap);
                        for (size_t i = k; i < cap; i++) if (mem[i] != 0x77) { mc::fail("%zu octets into a string of %zu: octet %zu touched", n, cap, i); break; }
                        if (b->data_offset != lead + m.size()) mc::fail("%zu octets: position %zu", n, b->data_offset);
                    }
                    free(mem);
                }
                /* content that ends early */
                size_t hdr = m.size() - n;
                for (size_t cut = 0; cut < m.size(); cut += (m.size() > 40 && cut > 20 && cut + 20 < m.size() ? 17 : 1)) {
                    uint8_t mem[16]; memset(mem, 0x77, 16); asn1_string o; o.count = 16; o.str = mem;
                    crefl_buf *b = pl.at(m.data(), cut, lead);
                    int err = e.name[0] == 'd' ? crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &o) : crefl_asn1_ber_octets_read(b, n, &o);
                    mc::op(); (void)hdr;
                    if (!err) mc::fail("%zu octets cut to %zu: accepted", n, cut);
                    if (b->data_offset > b->data_size) mc::fail("position past the end");
                }
            }
        }
        for (size_t n : { (size_t)65534, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)1 << 20 }) if (mc::begin("%s long %zu", nm, n)) {
            Val v; v.str.resize(n); for (size_t i = 0; i < n; i++) v.str[i] = i * 31 >> 3;
            check_roundtrip(e, v, pl); mc::state();
        }
    }
    for (int der = 0; der < 2; der++) for (size_t n : { (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 5000 })
        if (mc::begin("huge %d %zu", der, n)) hugestring(der, n);
    for (const char *nm : { "bool", "null", "octets0", "octets2", "octets16", "der_bool", "der_null", "der_octets0", "der_octets2", "der_octets16" }) {
        const Dec &d = *decoder(nm);
        for (int b0 = 0; b0 < 256; b0++) {
            if (!mc::begin("%s decode first %02x", nm, b0)) continue;
            uint8_t p[24]; p[0] = b0; memset(p + 1, 0x41, 23);
            auto chk = [&](size_t n, size_t len) { check_decode(d, pl, p, n, len, n & 1); mc::state(); };
            for (uint64_t len : { 0ull, 1ull, 2ull, 0x80ull, 1ull << 32, ~0ull }) { chk(0, len); chk(1, len); }
            for (int b1 = 0; b1 < 256; b1++) {
                p[1] = b1; mc::sub(b1);
                for (uint64_t len : { 0ull, 1ull, 2ull, 3ull, 4ull, 17ull, 1ull << 32, ~0ull }) for (size_t n : { (size_t)2, (size_t)4, (size_t)20 }) chk(n, len);
                if (!d.takes_len) for (int b2 = 0; b2 < 256; b2++) { p[2] = b2; chk(3, 0); if (mc::thorough || ((b0 & 0xe0) == 0 && (b1 >= 0x80 || b1 == 1) && (b1 < 0x90 || b1 == 0xff))) for (int c : { 0, 1, 0xff }) { p[3] = c; chk(4, 0); chk(20, 0); } p[3] = 0x41; }
                p[2] = 0x41;
            }
        }
    }
}
