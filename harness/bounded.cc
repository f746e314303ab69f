/* P20: every encoder against every capacity: whole and right, or an error, and nothing outside */
#include "codec.h"

static std::vector<Val> domain(const Enc &e)
{
    std::vector<Val> r; Val v;
    auto words = edge_words(mc::thorough ? 3 : 1, mc::thorough);
    switch (e.dom) {
    case D_TAG: case D_U64: case D_U56: for (uint64_t w : words) { v.u = w; r.push_back(v); } break;
    case D_IDENT: for (uint64_t w : words) if (!(w >> 56)) for (v.cls = 0; v.cls < 4; v.cls++) for (v.cons = 0; v.cons < 2; v.cons++) { v.u = w; r.push_back(v); } break;
    case D_BOOL: for (v.u = 0; v.u < 2; v.u++) r.push_back(v); break;
    case D_F64: for (int ex : { 0, 1, 1022 - 130, 1022 - 8, 1019, 1020, 1021, 1022, 1023, 1024, 1026, 1030, 1075, 1200, 2046, 2047 }) for (int s = 0; s < 2; s++) for (int i = 0; i <= 52; i++) for (int j = 0; j < 3; j++) {
            uint64_t m = j == 0 ? (1ull << i) : j == 1 ? (1ull << i) - 1 : ~((1ull << i) - 1); v.u = (uint64_t)s << 63 | (uint64_t)ex << 52 | (m & ((1ull << 52) - 1)); r.push_back(v); } break;
    case D_F32: for (int ex : { 0, 1, 100, 118, 119, 120, 123, 124, 125, 126, 127, 128, 135, 200, 254, 255 }) for (int s = 0; s < 2; s++) for (int i = 0; i <= 23; i++) for (int j = 0; j < 3; j++) {
            uint32_t m = j == 0 ? (1u << i) : j == 1 ? (1u << i) - 1 : ~((1u << i) - 1); v.u = (uint32_t)s << 31 | (uint32_t)ex << 23 | (m & 0x7fffff); r.push_back(v); } break;
    case D_OID: for (size_t n = 2; n <= 15; n++) for (uint64_t a : { 0ull, 39ull, 128ull, 16384ull, (1ull << 56) - 1 }) for (uint64_t f = 0; f < 3; f++) { v.arcs.assign(n, a); v.arcs[0] = f; v.arcs[1] = f == 2 ? std::min<uint64_t>(a, (1ull << 56) - 100) : a % 40; r.push_back(v); } break;
    case D_OCT: for (size_t n : { 0, 1, 2, 7, 15, 16, 17, 100, 126, 127, 128, 129, 255, 256, 257 }) { v.str.assign(n, 0x3c); for (size_t i = 0; i < n; i++) v.str[i] = i * 5 + 1; r.push_back(v); } break;
    case D_NULL: r.push_back(v); break;
    }
    return r;
}

static void one(const Enc &e, const Val &v, size_t cap, size_t off, const bytes *want)
{
    static std::map<size_t, uint8_t*> pool;
    uint8_t *&m = pool[cap]; if (!m) m = (uint8_t*)malloc(cap);
    for (size_t i = 0; i < cap; i++) m[i] = 0xc3 ^ i;
    crefl_buf b; b.data = (char*)m; b.data_offset = off; b.data_size = cap;
    int err = e.run(&b, v); mc::op(); mc::state();
    for (size_t i = 0; i < off && i < cap; i++) if (m[i] != (uint8_t)(0xc3 ^ i)) { mc::fail("%s at %zu of %zu: octet %zu before it changed", show(e, v).c_str(), off, cap, i); break; }
    if (err) { if (want && off <= cap && cap - off >= want->size()) mc::fail("%s at %zu of %zu: refused though it fits", show(e, v).c_str(), off, cap); return; }
    if (!want) { mc::fail("%s at %zu of %zu: accepted", show(e, v).c_str(), off, cap); return; }
    if (off > cap || cap - off < want->size()) { mc::fail("%s at %zu of %zu: reported written, needs %zu", show(e, v).c_str(), off, cap, want->size()); return; }
    if (b.data_offset != off + want->size()) { mc::fail("%s at %zu of %zu: position %zu, expected %zu", show(e, v).c_str(), off, cap, b.data_offset, off + want->size()); return; }
    if (memcmp(m + off, want->data(), want->size())) mc::fail("%s at %zu of %zu: wrote %s, expected %s", show(e, v).c_str(), off, cap, mc::hex(m + off, want->size()).c_str(), mc::hex(want->data(), want->size()).c_str());
    for (size_t i = off + want->size(); i < cap; i++) if (m[i] != (uint8_t)(0xc3 ^ i)) { mc::fail("%s at %zu of %zu: octet %zu after it changed", show(e, v).c_str(), off, cap, i); break; }
}

void mc_explore()
{
    for (auto &e : encoders) {
        auto dom = domain(e);
        for (size_t base = 0; base < dom.size(); base += 8) {
            if (!mc::begin("%s values %zu", e.name, base)) continue;
            for (size_t k = base; k < dom.size() && k < base + 8; k++) {
                const Val &v = dom[k];
                /* with room to spare: this is what every capacity must give */
                static uint8_t big[1024]; memset(big, 0, sizeof big);
                crefl_buf b; b.data = (char*)big; b.data_offset = 0; b.data_size = sizeof big;
                int err = e.run(&b, v); mc::op();
                bytes got(big, big + (b.data_offset < sizeof big ? b.data_offset : 0));
                bytes model; bool has = true;
                if (e.model) has = e.model(v, model);
                std::string why;
                if (!err && !enc_ok(e, v, got, why)) { mc::fail("%s: %s", show(e, v).c_str(), why.c_str()); continue; }
                if (err && has) { mc::fail("%s refused with room to spare", show(e, v).c_str()); continue; }
                const bytes *want = err ? nullptr : &got;
                size_t need = err ? 20 : got.size();
                for (size_t off : { (size_t)0, (size_t)1, (size_t)3 }) for (size_t room = 0; room <= need + 2; room++) {
                    if (need > 40 && room > 20 && room + 20 < need && room % 13) continue;
                    mc::sub(k, off, room); one(e, v, off + room, off, want);
                }
                if (need) for (size_t cap : { (size_t)0, (size_t)1, (size_t)5 }) for (size_t past : { (size_t)0, (size_t)1, (size_t)9, (size_t)1 << 40, ~(size_t)0 - 3 - cap, ~(size_t)0 - cap }) { mc::sub(k, cap, past); one(e, v, cap, cap + past, want); }
            }
        }
    }
    /* identifiers with too many or too few components */
    if (mc::begin("oid component counts")) for (const char *nm : { "oid", "der_oid" }) for (size_t n : { (size_t)0, (size_t)1, (size_t)16, (size_t)17, (size_t)100, (size_t)1 << 20, ~(size_t)0 }) {
        const Enc &e = *encoder(nm);
        uint8_t *m = (uint8_t*)malloc(64); memset(m, 0x11, 64);
        asn1_oid *o = (asn1_oid*)malloc(sizeof *o); o->count = n; for (auto &x : o->oid) x = 1;
        crefl_buf b; b.data = (char*)m; b.data_offset = 0; b.data_size = 64;
        size_t l = crefl_asn1_ber_oid_length(o); mc::sub(n, l);
        int err = e.name[0] == 'd' ? crefl_asn1_der_oid_write(&b, asn1_tag_object_identifier, o) : crefl_asn1_ber_oid_write(&b, l, o);
        mc::op(2); mc::state();
        if (n > 15 && !err) mc::fail("%s with %zu components accepted", nm, n);
        if (b.data_offset > 64) mc::fail("%s with %zu components: position past the end", nm, n);
        free(m); free(o);
    }
}
