/* P17: vf128 floating point */
#include "codec.h"

void mc_explore()
{
    static Place pl;
    /* crossing precisions: a value written in one precision and read in the other */
    auto cross = [&](const bytes &b) {
        for (const char *nm : { "vf64", "vf32", "vf64_byval", "vf32_byval" }) check_decode(*decoder(nm), pl, b.data(), b.size(), 0);
    };
    std::set<uint64_t> ms;
    const uint64_t M = (1ull << 52) - 1;
    for (int i = 0; i <= 52; i++) for (int j = 0; j <= i; j++) {
        ms.insert(((i < 52 ? 1ull << i : 0) | (j < 52 ? 1ull << j : 0)) & M);
        ms.insert((((1ull << (i - j)) - 1) << j) & M);
        ms.insert(~(1ull << i | 1ull << j) & M);
    }
    for (uint64_t b = 0; b < (mc::thorough ? 4096 : 512); b++) { ms.insert(b << 43 & M); ms.insert(b); ms.insert(b << 20); }
    std::vector<uint64_t> mans(ms.begin(), ms.end());
    for (const char *nm : { "vf64", "vf64_byval" }) {
        const Enc &e = *encoder(nm);
        for (int ex = 0; ex < 2048; ex++) {
            bool low = ex < 2 || ex > 2045 || (ex >= 1010 && ex <= 1030) || ex == 1023 - 126 || ex == 1023 - 127 || ex == 1023 - 149 || ex == 1023 + 127 || ex == 1023 + 128;
            bool full = mc::thorough || (nm[4] == 0 && low);
            if (!full && nm[4] && !low && ex % 31) continue;
            if (!mc::begin("%s exponent %d", nm, ex)) continue;
            size_t step = full ? 1 : 17;
            for (size_t i = ex % step; i < mans.size(); i += step) for (int s = 0; s < 2; s++) {
                Val v; v.u = (uint64_t)s << 63 | (uint64_t)ex << 52 | mans[i]; mc::sub(v.u);
                bytes b; check_roundtrip(e, v, pl, &b, i & 1); mc::state();
                if (b.size()) cross(b);
            }
        }
    }
    for (const char *nm : { "vf32", "vf32_byval" }) {
        const Enc &e = *encoder(nm);
        for (int ex = 0; ex < 256; ex++) for (int part = 0; part < 4; part++) {
            bool low = ex < 2 || ex > 253 || (ex >= 115 && ex <= 131);
            if (!mc::begin("%s exponent %d part %d", nm, ex, part)) continue;
            uint32_t step = mc::thorough ? 1 : low && nm[4] == 0 ? 61 : 2039;
            auto one = [&](uint32_t m) {
                for (int s = 0; s < 2; s++) {
                    Val v; v.u = (uint32_t)s << 31 | (uint32_t)ex << 23 | m; mc::sub(v.u);
                    bytes b; check_roundtrip(e, v, pl, &b); mc::state();
                    if (b.size() && (m & 15) == 1) cross(b);
                }
            };
            for (uint32_t m = part << 21; m < (uint32_t)(part + 1) << 21; m += step) one(m);
            if (part == 0) for (int i = 0; i <= 23; i++) for (int j = 0; j <= i; j++) {
                one(((1u << i) | (1u << j)) & 0x7fffff); one((((1u << (i - j)) - 1) << j) & 0x7fffff); one(~(1u << i | 1u << j) & 0x7fffff);
            }
        }
    }
    /* decoding */
    static const uint8_t al[] = { 0x00, 0x01, 0x7f, 0x80, 0x81, 0xff };
    for (const char *nm : { "vf64", "vf32", "vf64_byval", "vf32_byval" }) {
        const Dec &d = *decoder(nm);
        for (int h = 0; h < 256; h++) {
            if (!mc::begin("%s decode header %02x", nm, h)) continue;
            uint8_t p[32] = { (uint8_t)h };
            check_decode(d, pl, p, 0, 0); check_decode(d, pl, p, 1, 0); check_decode(d, pl, p, 1, 0, 3);
            for (int a = 0; a < 256; a++) {
                p[1] = a; check_decode(d, pl, p, 2, 0); mc::state();
                for (int b = 0; b < 256; b++) { p[2] = b; mc::sub(a, b); check_decode(d, pl, p, 3, 0); mc::state();
                    if ((h & 0x80) && (h & 0x30) && ((h & 15) == 1 || (h & 15) == 2)) for (uint8_t c : al) for (uint8_t g : { 0x01, 0x80, 0xff }) { p[3] = c; p[4] = g; check_decode(d, pl, p, 5, 0); mc::state(); } }
            }
            if (!(h & 0x80)) continue;
            size_t need = 1 + ((h >> 4) & 3) + (h & 15);
            for (uint8_t x : al) for (uint8_t y : al) for (uint8_t z : al) for (uint8_t fill : al) for (size_t n = need > 3 ? need - 2 : 1; n <= need + 1; n++) {
                memset(p, fill, sizeof p); p[0] = h; p[1] = x; p[2] = y; if (need >= 4) p[need - 1] = z;
                mc::sub(x << 16 | y << 8 | z, fill, n); check_decode(d, pl, p, n, 0, n & 1); mc::state();
            }
            /* every double-scale exponent for this header */
            int el = (h >> 4) & 3, mlen = h & 15;
            if (el >= 1) for (int e = -1300; e <= 1300; e += (mc::thorough ? 1 : (mlen > 8 ? 17 : 5))) {
                if (el == 1 && (e < -128 || e > 127)) continue;
                for (int pat = 0; pat < 5; pat++) {
                    for (int i = 0; i < el; i++) p[1 + i] = (uint8_t)(e >> (8 * i));
                    for (int i = 0; i < mlen; i++) p[1 + el + i] = pat == 0 ? 0xff : pat == 1 ? (i == 0) : pat == 2 ? (i == mlen - 1) : pat == 3 ? 0xa5 : (i == 0 || i == mlen - 1 ? 0x81 : 0);
                    mc::sub(e, pat); check_decode(d, pl, p, need, 0); mc::state();
                }
            }
        }
    }
}
