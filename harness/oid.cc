/* P14: object identifiers, octets and text */
#include "codec.h"

typedef std::vector<uint64_t> Arcs;
static const uint64_t MAXARC = (1ull << 56) - 1;

static std::string text(const Arcs &a)
{
    std::string s; for (size_t i = 0; i < a.size(); i++) s += mc::fmt(i ? ".%llu" : "%llu", (unsigned long long)a[i]);
    return s;
}

/* text of exactly n chars, no terminator, memory exact */
static void check_parse(const char *p, size_t n)
{
    static std::vector<char*> mem;
    while (mem.size() <= n) mem.push_back((char*)malloc(mem.size()));
    if (n) memcpy(mem[n], p, n);
    static asn1_oid *o = (asn1_oid*)malloc(sizeof *o);
    memset(o, 0xa5, sizeof *o);
    int r = crefl_asn1_oid_from_string(o, mem[n], n);
    mc::op();
    /* reference */
    Arcs a; bool bad = false, loose = false;
    if (n) {
        std::string cur; 
        for (size_t i = 0; i <= n && !bad; i++) {
            if (i == n || p[i] == '.') {
                if (cur.empty()) { bad = true; break; }
                if (cur.size() > 1 && cur[0] == '0') loose = true;
                size_t z = cur.find_first_not_of('0'); std::string d = z == std::string::npos ? "0" : cur.substr(z);
                if (d.size() > 18) { bad = true; break; }
                uint64_t v = strtoull(d.c_str(), nullptr, 10);
                if (v > MAXARC) { bad = true; break; }
                a.push_back(v); cur.clear();
            } else if (p[i] >= '0' && p[i] <= '9') cur += p[i];
            else bad = true;
        }
        if (a.size() > asn1_oid_comp_max) bad = true;
    }
    std::string q(p, n);
    if (bad) { if (r == 0) mc::fail("text \"%s\" accepted as %llu arcs", q.c_str(), (unsigned long long)o->count); return; }
    if (r != 0) { if (!loose) mc::fail("text \"%s\" refused", q.c_str()); return; }
    if (o->count != a.size()) { mc::fail("text \"%s\": %llu arcs, expected %zu", q.c_str(), (unsigned long long)o->count, a.size()); return; }
    for (size_t i = 0; i < a.size(); i++) if (o->oid[i] != a[i]) { mc::fail("text \"%s\": arc %zu is %llu, expected %llu", q.c_str(), i, (unsigned long long)o->oid[i], (unsigned long long)a[i]); break; }
}

static void check_format(const Arcs &a, bool caps)
{
    std::string t = text(a);
    Val v; v.arcs = a; asn1_oid o = mk_oid(v);
    size_t n = 12345; n = 0;
    int r = crefl_asn1_oid_to_string(nullptr, &n, &o);
    mc::op();
    if (r || n != t.size()) mc::fail("%s: length query gives %d, %zu", t.c_str(), r, n);
    for (size_t cap = caps ? 0 : t.size() + 1; cap <= t.size() + 2; cap++) {
        static std::vector<char*> mem; while (mem.size() <= cap) mem.push_back((char*)malloc(mem.size()));
        char *m = mem[cap]; memset(m, 0x77, cap);
        n = cap; mc::sub(cap);
        r = crefl_asn1_oid_to_string(m, &n, &o);
        mc::op();
        if (r || n != t.size()) mc::fail("%s into %zu chars: gives %d, length %zu", t.c_str(), cap, r, n);
        if (!cap) continue;
        size_t k = 0; while (k < cap && m[k]) k++;
        if (k == cap) { mc::fail("%s into %zu chars: not terminated", t.c_str(), cap); continue; }
        if (cap > t.size() ? t != m : t.compare(0, k, m) != 0) mc::fail("%s into %zu chars: text is %s", t.c_str(), cap, m);
    }
    check_parse(t.data(), t.size());
}

void mc_explore()
{
    static Place pl;
    const Enc &ber = *encoder("oid"), &der = *encoder("der_oid");
    std::vector<uint64_t> vals; {
        std::set<uint64_t> s; for (int k = 0; k <= 56; k += 7) for (int d = -1; d <= 1; d++) s.insert((1ull << k) + d);
        for (uint64_t x : { 2ull, 39ull, 40ull, 47ull, 79ull, 80ull, 999ull, 1000ull, 113549ull, 9999999999999999ull }) s.insert(x);
        for (uint64_t x : s) if (x <= MAXARC) vals.push_back(x);
    }
    static const uint64_t few[] = { 0, 1, 39, 127, 128, 16383, 16384, MAXARC };
    auto both = [&](const Arcs &a, bool caps = false) {
        Val v; v.arcs = a; mc::state();
        check_roundtrip(ber, v, pl, nullptr, a.size() & 1); check_roundtrip(der, v, pl);
        check_format(a, caps);
    };
    /* two arcs: every valid pair over small values and boundaries */
    for (uint64_t x = 0; x < 3; x++) if (mc::begin("pairs under %llu", (unsigned long long)x)) {
        for (uint64_t y = 0; y < (x < 2 ? 40 : 20000); y++) { mc::sub(y); both({ x, y }, y < 40); }
        if (x == 2) for (uint64_t y : vals) if (y <= MAXARC - 80) both({ x, y }, true);
        if (x == 2) for (uint64_t y = MAXARC - 85; y <= MAXARC - 80; y++) both({ x, y }, true);
    }
    for (uint64_t x = 0; x < 3; x++) for (uint64_t y : { 0ull, 1ull, 39ull, 40ull, 47ull, 48ull, 999ull }) {
        if (x < 2 && y > 39) continue;
        if (mc::begin("triples under %llu.%llu", (unsigned long long)x, (unsigned long long)y)) for (uint64_t z : vals) both({ x, y, z }, true);
        if (mc::begin("quadruples under %llu.%llu", (unsigned long long)x, (unsigned long long)y)) for (uint64_t z : vals) for (uint64_t w : vals) both({ x, y, z, w });
    }
    /* every count, every arc position holding every boundary value */
    for (size_t n = 2; n <= 15; n++) for (int bg = 0; bg < 8; bg++) {
        if (!mc::begin("count %zu background %d", n, bg)) continue;
        for (size_t pos = 2; pos <= n; pos++) for (uint64_t z : vals) {
            Arcs a(n, few[bg]); a[0] = pos % 3; a[1] = a[0] == 2 ? std::min(few[bg], MAXARC - 80) : few[bg] % 40; if (pos < n) a[pos] = z;
            mc::sub(pos, z); both(a, z == 128);
        }
    }
    if (mc::thorough) for (uint64_t p : few) for (uint64_t q : few) {
        if (!mc::begin("quintuples %llx %llx", (unsigned long long)p, (unsigned long long)q)) continue;
        for (uint64_t r : few) for (uint64_t s : few) for (uint64_t t : few) for (uint64_t x = 0; x < 3; x++) { mc::sub(r, s, t); both({ x, 39, p, q, r, s, t }); }
    }

    /* texts: every string over the alphabet up to a length */
    static const char al[] = { '0', '1', '9', '.', 'a', ' ', '-', '\0', '/', ':' };
    const size_t maxl = mc::thorough ? 7 : 6;
    if (mc::begin("text empty")) check_parse("", 0);
    for (size_t n = 1; n <= maxl; n++) for (int c0 = 0; c0 < 10; c0++) {
        if (!mc::begin("texts of length %zu starting %d", n, c0)) continue;
        char s[16]; s[0] = al[c0]; size_t tot = 1; for (size_t i = 1; i < n; i++) tot *= 10;
        for (size_t x = 0; x < tot; x++) { size_t y = x; for (size_t i = 1; i < n; i++) { s[i] = al[y % 10]; y /= 10; } mc::sub(x); mc::state(); check_parse(s, n); }
    }
    if (mc::begin("single characters in every place")) for (const char *base : { "1.2.840.113549", "0.0", "2.999.1" }) for (size_t i = 0; i <= strlen(base); i++) for (int c = 0; c < 256; c++) {
        std::string s = base; mc::sub(i, c);
        std::string t = s; t.insert(t.begin() + i, (char)c); check_parse(t.data(), t.size()); mc::state();
        if (i < s.size()) { t = s; t[i] = (char)c; check_parse(t.data(), t.size()); t.erase(i, 1); check_parse(t.data(), t.size()); mc::state(2); }
    }
    if (mc::begin("arc counts and sizes in text")) {
        for (size_t n = 1; n <= 40; n++) for (const char *arc : { "0", "1", "72057594037927935", "72057594037927936", "128" }) for (int trail = 0; trail < 3; trail++) {
            std::string s; for (size_t i = 0; i < n; i++) { if (i) s += "."; s += arc; } if (trail) s += std::string(trail, '.');
            mc::sub(n, trail); check_parse(s.data(), s.size()); mc::state();
        }
        for (const char *s : { "1.2.72057594037927934", "1.2.72057594037927935", "1.2.72057594037927936", "1.2.99999999999999999", "1.2.720575940379279350", "1.2.18446744073709551615", "1.2.18446744073709551616", "1.2.18446744073709551617",
            "1.2.36893488147419103233", "1.2.340282366920938463463374607431768211457", "1.2.184467440737095516160000", "18446744073709551617.1", "72057594037927936" }) { check_parse(s, strlen(s)); mc::state(); }
    }
    /* octets */
    static const uint8_t ob[] = { 0x00, 0x27, 0x28, 0x4f, 0x50, 0x7f, 0x80, 0x81, 0xff };
    for (const char *nm : { "oid", "der_oid" }) {
        const Dec &d = *decoder(nm); bool tagged = nm[0] == 'd';
        auto chk = [&](const uint8_t *p, size_t n, size_t len) {
            uint8_t q[64]; mc::state();
            if (!tagged) { check_decode(d, pl, p, n, len, n & 1); return; }
            if (len > 100) return;
            q[0] = 6; q[1] = (uint8_t)len; memcpy(q + 2, p, n); check_decode(d, pl, q, n + 2, 0, n & 1);
        };
        for (int b0 = 0; b0 < 256; b0++) {
            if (!mc::begin("%s octets first %02x", nm, b0)) continue;
            uint8_t p[64]; p[0] = b0; chk(p, 0, 0); chk(p, 0, 1); chk(p, 1, 0); chk(p, 1, 1); chk(p, 1, 2);
            for (int b1 = 0; b1 < 256; b1++) { p[1] = b1; chk(p, 2, 2); chk(p, 2, 1); chk(p, 2, 3);
                if (mc::thorough || (b0 & 0x3f) >= 0x27) for (int b2 = 0; b2 < 256; b2++) { p[2] = b2; mc::sub(b1, b2); chk(p, 3, 3); } }
            for (size_t n = 4; n <= 6; n++) { size_t k = mc::thorough ? n - 1 : std::min<size_t>(n - 1, 4), tot = 1; for (size_t i = 0; i < k; i++) tot *= 9;
                if (!mc::thorough && (b0 & 7) != 7 && (b0 & 7) != 0) tot /= 9;
                for (size_t x = 0; x < tot; x++) { size_t y = x; for (size_t i = 1; i < n; i++) { p[i] = ob[y % 9]; y /= 9; } mc::sub(n, x); chk(p, n, n); } }
        }
        if (mc::begin("%s long octets", nm)) for (uint8_t fill : ob) for (size_t n = 1; n <= 40; n++) for (size_t cut = 0; cut <= n; cut++) for (uint8_t c : ob) for (uint8_t last : { 0x01, 0x7f, 0x81 }) {
            uint8_t p[64]; memset(p, fill, n); if (cut < n) p[cut] = c; p[n - 1] = last; mc::sub(fill << 16 | c << 8 | last, n, cut); chk(p, n, n); if (n > 1) chk(p, n, n - 1);
        }
        if (mc::begin("%s huge length", nm)) for (uint64_t len : edge_words(2, false)) { uint8_t p[64]; memset(p, 1, 64); for (size_t n = 0; n < 20; n++) { mc::sub(n, len); chk(p, n, len); } }
    }
}
