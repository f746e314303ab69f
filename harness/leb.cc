/* P18: LEB128 and VLU */
#include "codec.h"

void mc_explore()
{
    static Place pl;
    auto words = edge_words(mc::thorough ? 600 : 60, true);
    const uint64_t dense = mc::thorough ? 1ull << 26 : 1ull << 21, blk = 1 << 14;
    static const char *encs[] = { "leb", "leb_byval", "vlu", "vlu_byval" };
    for (const char *nm : encs) {
        const Enc &e = *encoder(nm);
        auto one = [&](uint64_t u, size_t lead = 0) { Val v; v.u = u; mc::sub(u); check_roundtrip(e, v, pl, nullptr, lead); mc::state(); };
        for (uint64_t base = 0; base < dense; base += blk) {
            if (!mc::begin("%s dense block %llx", nm, (unsigned long long)base)) continue;
            for (uint64_t i = base; i < base + blk; i++) one(i);
        }
        for (int sh = 0; sh <= 48; sh += (mc::thorough ? 1 : 7)) for (int lo = 0; lo < 2; lo++) {
            if (!mc::begin("%s window %d %d", nm, sh, lo)) continue;
            for (uint64_t w = 0; w < 65536; w++) one(w << sh | (lo ? (1ull << sh) - 1 : 0));
        }
        if (mc::begin("%s edges", nm)) for (uint64_t w : words) for (size_t lead = 0; lead < 4; lead++) one(w, lead);
        const Dec &d = *decoder(nm);
        for (int b0 = 0; b0 < 256; b0++) {
            if (!mc::begin("%s decode first %02x", nm, b0)) continue;
            uint8_t p[16] = { (uint8_t)b0 };
            check_decode(d, pl, p, 0, 0); check_decode(d, pl, p, 1, 0); check_decode(d, pl, p, 0, 0, 2);
            for (int b1 = 0; b1 < 256; b1++) {
                p[1] = b1; check_decode(d, pl, p, 2, 0);
                for (int b2 = 0; b2 < 256; b2++) { p[2] = b2; mc::sub(b1, b2); check_decode(d, pl, p, 3, 0); mc::state(); }
            }
            static const uint8_t al[] = { 0x00, 0x01, 0x7f, 0x80, 0x81, 0xff };
            for (size_t n = 4; n <= 12; n++) for (uint8_t fill : al) for (uint8_t last : al) for (uint8_t mid : al) for (size_t cut = 1; cut < n; cut++) {
                memset(p, fill, n); p[0] = b0; p[cut] = last; p[n / 2] = mid;
                mc::sub(n, fill << 16 | last << 8 | mid, cut); check_decode(d, pl, p, n, 0, n & 1); mc::state();
            }
        }
    }
}
