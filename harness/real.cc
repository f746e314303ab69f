/* P13: ASN.1 REAL */
#include "codec.h"

static uint64_t dbl(bool s, int e, uint64_t m) { return (uint64_t)s << 63 | (uint64_t)e << 52 | m; }

void mc_explore()
{
    static Place pl;
    std::vector<uint64_t> mans;
    {
        std::set<uint64_t> s;
        const uint64_t M = (1ull << 52) - 1;
        for (int i = 0; i <= 52; i++) for (int j = 0; j <= i; j++) {
            s.insert(((i < 52 ? 1ull << i : 0) | (j < 52 ? 1ull << j : 0)) & M);
            s.insert((((1ull << (i - j)) - 1) << j) & M);
            s.insert(~(1ull << i | 1ull << j) & M);
        }
        for (uint64_t b = 0; b < (mc::thorough ? 4096 : 256); b++) { s.insert(b); s.insert(b << 44); s.insert(b << 20); s.insert(M - b); s.insert((b << 44 | 1) & M); }
        s.erase(s.lower_bound(M + 1), s.end());
        mans.assign(s.begin(), s.end());
    }
    static const char *encs[] = { "real", "real_byval", "der_real", "der_real_byval" };
    for (const char *nm : encs) {
        const Enc &e = *encoder(nm);
        bool full = mc::thorough || !strcmp(nm, "real");
        for (int ex = 0; ex < 2048; ex++) {
            if (!full && !(ex < 70 || ex > 2040 || (ex % 61) == 0 || (ex > 1000 && ex < 1100) || ((ex - 1023 - 52) & 127) < 3)) continue;
            if (!mc::begin("%s exponent %d", nm, ex)) continue;
            bool dense = mc::thorough || ex < 2 || ex > 2045 || ((ex - 1075) & 127) < 2 || ex == 1023 || ex == 1075;
            size_t step = dense ? 1 : 7;
            for (size_t i = ex % step; i < mans.size(); i += step) for (int s = 0; s < 2; s++) {
                Val v; v.u = dbl(s, ex, mans[i]); mc::sub(v.u);
                check_roundtrip(e, v, pl, nullptr, i % 3 == 2 ? 2 : 0); mc::state();
            }
        }
    }
    /* decoding: every header, exponent form and length, with small and boundary contents */
    static const uint8_t al[] = { 0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0xfe, 0xff };
    for (const char *nm : encs) {
        const Dec &d = *decoder(nm);
        bool der = !strncmp(nm, "der", 3);
        auto chk = [&](const uint8_t *p, size_t n, size_t len) {
            uint8_t q[40];
            if (!der) { check_decode(d, pl, p, n, len, n & 1); return; }
            if (len > 100) return;
            q[0] = 9; q[1] = (uint8_t)len; memcpy(q + 2, p, n); check_decode(d, pl, q, n + 2, 0, n & 1);
        };
        for (int h = 0; h < 256; h++) {
            if (!mc::begin("%s decode header %02x", nm, h)) continue;
            uint8_t p[32]; p[0] = h;
            for (size_t len = 0; len < 4; len++) { chk(p, 0, len); chk(p, 1, len); }
            for (int a = 0; a < 256; a++) {
                p[1] = a; for (size_t len = 1; len < 4; len++) chk(p, 2, len);
                for (int b = 0; b < 256; b++) {
                    if (!mc::thorough && nm[4] && (a & 7) > 1 && (a & 7) < 6 && (b & 15) > 1 && (b & 15) < 14) continue;
                    p[2] = b; mc::sub(a, b); chk(p, 3, 3); chk(p, 3, 4); mc::state();
                    if (mc::thorough || ((h & 0x83) == 0x81 && (h & 0xc) != 8)) for (uint8_t c : al) { p[3] = c; chk(p, 4, 4); mc::state(); }
                    if ((h & 0x83) >= 0x82) for (int c : { 1, 3, 255 }) for (int e : { 1, 5 }) { p[3] = c; p[4] = e; chk(p, 5, 5); p[3] = e; p[4] = c; chk(p, 5, 5); mc::state(); }
                }
            }
        }
        for (int h = 0x80; h < 256; h++) for (size_t n = 4; n <= 9; n++) {
            if (!mc::begin("%s decode octets header %02x n=%zu", nm, h, n)) continue;
            uint8_t p[40]; p[0] = h;
            size_t k = std::min<size_t>(n - 1, mc::thorough ? 6 : 3), tot = 1; for (size_t i = 0; i < k; i++) tot *= 8;
            for (size_t x = 0; x < tot; x++) {
                if (!mc::thorough && nm[4] && (x & 7) && (x & 7) != 5) continue;
                size_t y = x; for (size_t i = 1; i < n; i++) { p[i] = i <= k ? al[y & 7] : p[i - k]; y >>= 3; }
                mc::sub(x); mc::state(); chk(p, n, n); chk(p, n, n - 1);
                if ((x & 7) == 1) chk(p, n, n + 1);
            }
        }
        /* every exponent a double can have, against mantissas of every width, base and scale */
        for (int base = 0; base < 3; base++) for (int f = 0; f < 4; f++) for (int xl = 1; xl <= 4; xl++) {
            if (!mc::begin("%s decode values base %d scale %d exponent octets %d", nm, base, f, xl)) continue;
            int mul = base == 0 ? 1 : base == 1 ? 3 : 4, R = 1200 / mul + 20;
            for (int x = -R; x <= R; x += (mc::thorough || std::abs(x) > 1000 / mul ? 1 : 7)) {
                if (xl == 1 && (x < -128 || x > 127)) continue;
                for (int w = 0; w < 64; w += (mc::thorough ? 1 : 3)) for (int z = 0; z < 3; z++) {
                    uint64_t m = z == 0 ? 1ull << w : z == 1 ? (w == 63 ? ~0ull : (2ull << w) - 1) : 1ull << w | 1;
                    for (int s = 0; s < 2; s++) {
                        uint8_t p[40]; size_t n = 0;
                        p[n++] = 0x80 | s << 6 | base << 4 | f << 2 | (xl - 1);
                        if (xl == 4) p[n++] = 4;
                        for (int i = xl - 1; i >= 0; i--) p[n++] = (uint8_t)(x >> (8 * i));
                        bytes mb = enc_uint(m); if (z == 2 && (w & 3) == 0 && mb.size() < 8) mb.insert(mb.begin(), 0);
                        memcpy(p + n, mb.data(), mb.size()); n += mb.size();
                        mc::sub(x, m, s); chk(p, n, n); mc::state();
                    }
                }
            }
        }
        if (mc::begin("%s decode huge", nm)) {
            uint8_t p[40]; memset(p, 1, sizeof p);
            for (size_t n = 0; n <= 24; n++) for (int h : { 0x80, 0x81, 0x82, 0x83 }) for (int l = 0; l < 256; l++)
                for (uint64_t len : { (uint64_t)n, (uint64_t)n - 1, (uint64_t)n + 1, (uint64_t)1 << 32, (uint64_t)-1, (uint64_t)-3 }) { p[0] = h; p[1] = l; mc::sub(n, h << 8 | l, len); chk(p, n, len); }
            /* wide exponents and mantissas with redundant octets */
            for (int xl = 4; xl <= 12; xl++) for (int ml = 1; ml <= 12; ml++) for (int neg = 0; neg < 2; neg++) for (int f : { 0, 1, 0xff, 0x7f, 0x80 }) {
                size_t n = 0; p[n++] = 0x83; p[n++] = xl; for (int i = 0; i < xl; i++) p[n++] = i == xl - 1 ? f : neg ? 0xff : 0;
                for (int i = 0; i < ml; i++) p[n++] = i == ml - 1 ? 5 : 0;
                mc::sub(xl, ml, neg << 8 | f); chk(p, n, n);
            }
        }
    }
}
