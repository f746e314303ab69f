/* P11: tags, identifiers and lengths */
#include "codec.h"

void mc_explore()
{
    static Place pl;
    auto words = edge_words(mc::thorough ? 300 : 20, true);
    auto near = edge_words(3, true);
    const uint64_t dense = mc::thorough ? 1ull << 25 : 1ull << 21, blk = 1 << 13;
    auto roundtrip = [&](const Enc &e, const Val &v) { check_roundtrip(e, v, pl); };

    for (const char *nm : { "tag", "length", "ident" }) {
        const Enc &e = *encoder(nm);
        for (uint64_t base = 0; base < dense; base += blk) {
            if (!mc::begin("%s dense block %llx", nm, (unsigned long long)base)) continue;
            for (uint64_t i = base; i < base + blk; i++) {
                Val v; v.u = i; v.cls = (i ^ (i >> 2)) & 3; v.cons = (i >> 1) & 1;
                mc::sub(i); roundtrip(e, v); mc::state();
            }
        }
        for (int top = 8; top < 64; top += 8) {
            /* every byte pattern in two neighbouring octets, at every septet and octet boundary */
            for (int lo = 0; lo < 2; lo++) {
                if (!mc::begin("%s window %d %d", nm, top, lo)) continue;
                for (uint64_t w = 0; w < 65536; w++) {
                    Val v; v.u = (w << (top - 8)) | (lo ? (1ull << (top - 8)) - 1 : 0);
                    if (e.dom == D_IDENT) v.u &= (1ull << 56) - 1;
                    v.cls = w & 3; v.cons = (w >> 7) & 1;
                    mc::sub(w); roundtrip(e, v); mc::state();
                }
            }
        }
        if (mc::begin("%s edges", nm))
            for (uint64_t w : words) {
                Val v; v.u = e.dom == D_IDENT ? w & ((1ull << 56) - 1) : w;
                for (v.cls = 0; v.cls < (e.dom == D_IDENT ? 4 : 1); v.cls++)
                    for (v.cons = 0; v.cons < (e.dom == D_IDENT ? 2 : 1); v.cons++) { mc::sub(w, v.cls, v.cons); roundtrip(e, v); mc::state(); }
            }
        if (mc::begin("%s position", nm))
            for (uint64_t w : near) for (size_t lead = 1; lead < 4; lead++) {
                Val v; v.u = e.dom == D_IDENT ? w & ((1ull << 56) - 1) : w; v.cls = 2; v.cons = 1;
                mc::sub(w, lead); check_roundtrip(e, v, pl, nullptr, lead);
            }
    }

    /* decoding: every short string, and long forms */
    for (const char *nm : { "tag", "length", "ident" }) {
        const Dec &d = *decoder(nm);
        for (int b0 = 0; b0 < 256; b0++) {
            if (!mc::begin("%s decode first %02x", nm, b0)) continue;
            uint8_t p[16]; p[0] = b0;
            check_decode(d, pl, p, 0, 0); check_decode(d, pl, p, 1, 0); check_decode(d, pl, p, 1, 0, 2);
            for (int b1 = 0; b1 < 256; b1++) {
                p[1] = b1; check_decode(d, pl, p, 2, 0);
                if (mc::thorough || b0 >= 0x1f)
                    for (int b2 = 0; b2 < 256; b2++) { p[2] = b2; mc::sub(b1, b2); check_decode(d, pl, p, 3, 0); mc::state(); }
            }
            static const uint8_t al[] = { 0x00, 0x01, 0x7f, 0x80, 0x81, 0xff };
            for (size_t n = 4; n <= 14; n++)
                for (uint8_t fill : al) for (uint8_t second : al) for (uint8_t last : al) for (size_t cut = 1; cut <= n; cut++) {
                    memset(p, fill, n); p[0] = b0; p[1] = second; p[cut] = last;
                    mc::sub(n, fill << 16 | second << 8 | last, cut);
                    check_decode(d, pl, p, n, 0); mc::state();
                }
        }
    }
}
