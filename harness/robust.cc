/* P19: every decoder on every short input and hostile length */
#include "codec.h"

void mc_explore()
{
    static Place pl;
    static const uint8_t al[] = { 0x00, 0x01, 0x02, 0x06, 0x1f, 0x3f, 0x7f, 0x80, 0x81, 0x83, 0x88, 0xbf, 0xc1, 0xf7, 0xff };
    const uint64_t hostile[] = { 8, 9, 15, 16, 127, 255, 1ull << 31, 1ull << 32, 1ull << 61, 1ull << 63, ~0ull - 1, ~0ull };
    for (auto &d : decoders) {
        auto run = [&](const uint8_t *p, size_t n, size_t lead) {
            if (!d.takes_len) { check_decode(d, pl, p, n, 0, lead); mc::state(); return; }
            for (size_t len = 0; len <= n + 2; len++) { check_decode(d, pl, p, n, len, lead); mc::state(); }
        };
        if (mc::begin("%s empty", d.name)) { uint8_t p[1]; run(p, 0, 0); run(p, 0, 3); if (d.takes_len) for (uint64_t l : hostile) check_decode(d, pl, p, 0, l); }
        for (int b0 = 0; b0 < 256; b0++) {
            if (!mc::begin("%s first %02x", d.name, b0)) continue;
            uint8_t p[64]; p[0] = b0; run(p, 1, 0); run(p, 1, 3);
            if (d.takes_len) for (uint64_t l : hostile) { mc::sub(l); check_decode(d, pl, p, 1, l); check_decode(d, pl, p, 1, l, 3); }
            for (int b1 = 0; b1 < 256; b1++) {
                p[1] = b1; mc::sub(b1); run(p, 2, 0);
                if ((b1 & 15) == 1) run(p, 2, 3);
                if (d.takes_len && (b1 % 17) == 0) for (uint64_t l : hostile) { mc::sub(b1, l); check_decode(d, pl, p, 2, l); }
                if (mc::thorough) for (int b2 = 0; b2 < 256; b2++) { p[2] = b2; run(p, 3, 0); }
            }
        }
        for (size_t n = 3; n <= (mc::thorough ? 6 : 5); n++) for (uint8_t a : al) {
            if (!mc::begin("%s boundary octets n=%zu first %02x", d.name, n, a)) continue;
            uint8_t p[16]; p[0] = a; size_t k = n - 1, tot = 1;
            if (!mc::thorough && n == 5) k = 3;
            for (size_t i = 0; i < k; i++) tot *= 15;
            for (size_t x = 0; x < tot; x++) { size_t y = x; for (size_t i = 1; i < n; i++) { p[i] = i <= k ? al[y % 15] : p[i - 2]; y /= 15; } mc::sub(x);
                if (n <= 3) run(p, n, n & 1);
                else { check_decode(d, pl, p, n, n, 0); mc::state(); if (d.takes_len && (x & 3) == 0) { check_decode(d, pl, p, n, n + 1, 1); check_decode(d, pl, p, n, n - 1, 0); } } }
        }
        for (uint8_t a : al) {
            if (!mc::begin("%s runs first %02x", d.name, a)) continue;
            uint8_t p[512];
            for (size_t n : { 8, 9, 10, 11, 16, 17, 18, 20, 33, 64, 127, 128, 129, 130, 260 }) for (uint8_t b : al) for (uint8_t fill : al) for (uint8_t last : { 0x00, 0x01, 0x80, 0xff }) {
                memset(p, fill, n); p[0] = a; p[1] = b; p[n - 1] = last; mc::sub(n, b << 16 | fill << 8 | last);
                check_decode(d, pl, p, n, n, n & 3); mc::state();
                if (d.takes_len && last == 1) for (uint64_t l : hostile) check_decode(d, pl, p, n, l);
                if (!d.takes_len && last == 1) { /* tagged: declared lengths in every form against this content */
                    p[0] = a; for (int k = 1; k <= 8 && (size_t)k + 2 < n; k++) { p[1] = 0x80 | k; for (int i = 0; i < k; i++) p[2 + i] = fill; check_decode(d, pl, p, n, 0); for (int i = 0; i < k; i++) p[2 + i] = i == k - 1 ? b : 0; check_decode(d, pl, p, n, 0); }
                }
            }
        }
        /* tagged: correct identifier, every long form length of every value of interest */
        if (!strncmp(d.name, "der_", 4) && mc::begin("%s declared lengths", d.name)) {
            static const int tags[] = { 1, 2, 9, 6, 4, 5 };
            for (int tag : tags) for (size_t body = 0; body < 20; body++) for (uint64_t l : edge_words(mc::thorough ? 20 : 3, false)) for (int form = 0; form <= 8; form++) {
                uint8_t p[64]; size_t n = 0; p[n++] = tag;
                if (form == 0) { if (l > 127) continue; p[n++] = l; } else { p[n++] = 0x80 | form; for (int i = form - 1; i >= 0; i--) p[n++] = l >> (8 * i); }
                for (size_t i = 0; i < body; i++) p[n++] = i == 0 ? 0x80 : 1;
                mc::sub(tag, body << 8 | form, l); check_decode(d, pl, p, n, 0); mc::state();
            }
        }
    }
}
