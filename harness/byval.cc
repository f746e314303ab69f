/* P21: by-value forms equal by-pointer forms */
#include "codec.h"

static void pair_decode(const Dec &a, const Dec &b, Place &pa, Place &pb, const uint8_t *p, size_t n, size_t len, size_t lead)
{
    crefl_buf *x = pa.at(p, n, lead); Res r = a.run(x, len);
    crefl_buf *y = pb.at(p, n, lead); Res s = b.run(y, len);
    mc::op(2); mc::state();
    if (r.err != s.err || (!r.err && (r.n != s.n || r.v[0] != s.v[0] || r.pos != s.pos)))
        mc::fail("%s(%s, len %zu): %s %llx at %zu, but %s: %s %llx at %zu", a.name, mc::hex(p, n).c_str(), len, r.err ? "error" : "value", (unsigned long long)r.v[0], r.pos - lead, b.name, s.err ? "error" : "value", (unsigned long long)s.v[0], s.pos - lead);
}

static void pair_encode(const Enc &a, const Enc &b, const Val &v)
{
    static uint8_t m[64], k[64];
    for (size_t cap = 0; cap <= 24; cap += cap < 14 ? 1 : 10) {
        memset(m, 0x3d, sizeof m); memset(k, 0x3d, sizeof k);
        crefl_buf x, y; x.data = (char*)m; y.data = (char*)k; x.data_offset = y.data_offset = 1; x.data_size = y.data_size = 1 + cap;
        int r = a.run(&x, v), s = b.run(&y, v); mc::op(2); mc::state();
        if (!!r != !!s || (!r && (x.data_offset != y.data_offset || memcmp(m, k, sizeof m))))
            mc::fail("%s with room %zu: %d %s, by value %d %s", show(a, v).c_str(), cap, r, mc::hex(m + 1, cap).c_str(), s, mc::hex(k + 1, cap).c_str());
    }
    if (a.len && b.len && a.len(v) != b.len(v)) mc::fail("%s: announced length %zu, by value %zu", show(a, v).c_str(), a.len(v), b.len(v));
}

void mc_explore()
{
    static Place pa, pb;
    static const uint8_t al[] = { 0x00, 0x01, 0x02, 0x03, 0x09, 0x7f, 0x80, 0x81, 0x82, 0x90, 0xc3, 0xff };
    for (auto &d : decoders) {
        if (d.byval < 0) continue;
        const Dec &b = decoders[d.byval];
        for (int b0 = 0; b0 < 256; b0++) {
            if (!mc::begin("%s first %02x", d.name, b0)) continue;
            uint8_t p[40]; p[0] = b0;
            for (size_t len = 0; len < 4; len++) { pair_decode(d, b, pa, pb, p, 0, len, 0); pair_decode(d, b, pa, pb, p, 1, len, 2); }
            for (int b1 = 0; b1 < 256; b1++) {
                p[1] = b1; mc::sub(b1);
                for (size_t len = d.takes_len ? 0 : 2; len <= (d.takes_len ? 4 : 2); len++) pair_decode(d, b, pa, pb, p, 2, len, 0);
                for (int i = 0; i < (mc::thorough ? 256 : 12); i++) { p[2] = mc::thorough ? i : al[i]; pair_decode(d, b, pa, pb, p, 3, 3, 0);
                    for (uint8_t c : al) { p[3] = c; pair_decode(d, b, pa, pb, p, 4, 4, 0); if (i < 12 && (mc::thorough || (b1 & 3) == 3)) for (uint8_t e : al) { p[4] = e; p[5] = c; pair_decode(d, b, pa, pb, p, 6, 6, 0); } } }
            }
            for (size_t n : { 7, 8, 9, 10, 12, 17, 20 }) for (uint8_t f : al) for (uint8_t g : al) for (size_t len : { n - 1, n, n + 1, (size_t)1 << 33, ~(size_t)0 }) { memset(p, f, n); p[0] = b0; p[1] = g; mc::sub(n, f << 8 | g, len); pair_decode(d, b, pa, pb, p, n, len, 1); }
        }
    }
    auto words = edge_words(mc::thorough ? 64 : 8, true);
    for (auto &e : encoders) {
        if (e.byval < 0) continue;
        const Enc &b = encoders[e.byval];
        std::vector<uint64_t> vals;
        if (e.dom == D_F64) for (int ex = 0; ex < 2048; ex += ex < 3 || ex > 2040 || (ex > 1000 && ex < 1050) ? 1 : mc::thorough ? 1 : 23) for (int s = 0; s < 2; s++) for (int i = 0; i <= 52; i++) for (int j = 0; j < 3; j++) {
            uint64_t m = j == 0 ? (1ull << i) : j == 1 ? (1ull << i) - 1 : ~((1ull << i) - 1); vals.push_back((uint64_t)s << 63 | (uint64_t)ex << 52 | (m & ((1ull << 52) - 1))); }
        else if (e.dom == D_F32) for (int ex = 0; ex < 256; ex++) for (int s = 0; s < 2; s++) for (int i = 0; i <= 23; i++) for (int j = 0; j < 3; j++) {
            uint32_t m = j == 0 ? (1u << i) : j == 1 ? (1u << i) - 1 : ~((1u << i) - 1); vals.push_back((uint32_t)s << 31 | (uint32_t)ex << 23 | (m & 0x7fffff)); }
        else { vals = words; for (uint64_t i = 0; i < 70000; i++) { vals.push_back(i); if (i % 16 == 0) vals.push_back(~i); } }
        for (size_t base = 0; base < vals.size(); base += 512) {
            if (!mc::begin("%s values %zu", e.name, base)) continue;
            for (size_t k = base; k < vals.size() && k < base + 512; k++) { Val v; v.u = vals[k]; mc::sub(v.u); pair_encode(e, b, v); }
        }
    }
}
