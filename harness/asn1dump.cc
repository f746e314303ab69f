/* P25: the ASN.1 dump tool shows the structure of any file it is given */
#define TR_FAULTS
#include <crefl/model.h>
#include <crefl/oid.h>
#include "toolrun.h"
using namespace tr;
typedef std::string S;

static const char *uni[32] = { "reserved", "boolean", "integer", "bit_string", "octet_string", "null", "object_identifier", "object_descriptor", "external", "real", "enumerated", "embedded_pdv", "utf8_string", "relative_oid", "reserved_14", "reserved_15", "sequence", "set", "numeric_string", "printable_string", "t61_string", "reserved_21", "ia5_string", "utc_time", "generalized_time", "graphic_string", "iso646_string", "general_string", "utf32_string", "reserved_29", "utf16_string", "reserved_31" };

/* ---- reference reader: what the tool has to print, and whether it has to succeed */
enum V { BAD, GOOD, EITHER };
struct Ref {
    const S &b; S text; size_t lines = 0; V v = GOOD;
    Ref(const S &b) : b(b) {}
    bool stop(V x) { v = x; return false; }
    static S pad(S s, size_t n) { if (s.size() < n) s.append(n - s.size(), ' '); return s; }
    static S lpad(S s, size_t n) { return s.size() < n ? S(n - s.size(), ' ') + s : s; }
    uint8_t at(size_t i) const { return (uint8_t)b[i]; }
    bool oid(size_t p, size_t n, S &dots)
    {
        std::vector<uint64_t> a; size_t i = p, e = p + n; bool many = false;
        while (i < e) {
            uint64_t x = 0; int k = 0; if (at(i) == 0x80) return stop(BAD);
            for (;; i++) { if (i == e) return stop(BAD); x = x << 7 | (at(i) & 0x7f); if (++k > 8) many = true; if (!(at(i) & 0x80)) { i++; break; } }
            if (a.empty()) { uint64_t r = x < 40 ? 0 : x < 80 ? 1 : 2; a.push_back(r); a.push_back(x - 40 * r); } else a.push_back(x);
        }
        if (a.empty()) return stop(BAD);
        if (many || a.size() > 15) return stop(EITHER);
        for (auto x : a) dots += (dots.empty() ? "" : ".") + std::to_string(x);
        return true;
    }
    /* one element; false when the walk ends here */
    bool element(size_t &o, size_t limit, int depth)
    {
        size_t p = o; if (p >= limit) return stop(BAD);
        uint8_t f = at(p++); int cls = f >> 6; bool cons = f & 0x20; uint64_t tag = f & 0x1f;
        if (tag == 31) {
            tag = 0; int k = 0;
            for (;;) { if (p >= limit) return stop(p >= b.size() || limit == b.size() ? BAD : BAD); uint8_t c = at(p++); if (!k && c == 0x80) return stop(BAD); tag = tag << 7 | (c & 0x7f); if (++k > 8) return stop(EITHER); if (!(c & 0x80)) break; }
            if (tag < 31) return stop(EITHER);
        }
        if (p >= limit) return stop(BAD);
        uint64_t n = at(p++);
        if (n & 0x80) {
            int k = n & 0x7f; n = 0;
            if (k == 0 || k == 127) return stop(BAD);
            if (p + k > limit) return stop(BAD);
            if (k > 8) return stop(EITHER);
            for (int i = 0; i < k; i++) n = n << 8 | at(p++);
        }
        if (n > limit - p) return stop(BAD);
        S nm = cls ? mc::fmt("%s[%llu]", cls == 1 ? "application" : cls == 2 ? "context" : "private", (unsigned long long)tag) : tag < 32 ? uni[tag] : "<unknown>";
        S line = "[" + lpad(std::to_string(p), 5) + ";" + pad(std::to_string(n), 5) + "]" + S(2 * depth, ' ') + "|-" + (cons ? '*' : ' ') + pad(nm, 20), un(depth < 15 ? 2 * (15 - depth) : 0, ' ');
        size_t e = p + n;
        if (cls == 0 && (tag == 16 || tag == 17)) {
            put(line + "\n");
            if (!cons) return stop(BAD);
            if (depth >= 128) return stop(EITHER);
            while (p < e) if (!element(p, e, depth + 1)) return false;
        } else if (cls == 0 && tag == 6) {
            S d; if (!oid(p, n, d)) return false;
            put(line + un + crefl_asn1_oid_desc(b.data() + p, n) + " (" + d + ")\n");
        } else if (cls == 0 && (tag == 9 || tag == 2 || tag == 3)) {
            S h; for (size_t i = p; i < e; i++) h += mc::fmt(i == p ? "%02x" : ",%02x", at(i));
            put(line + un + "{" + h + "}\n");
        } else if (cls == 0 && (tag == 19 || tag == 23)) {
            S s = b.substr(p, n); if (s.find('\0') != S::npos) odd = true;
            put(line + un + "\"" + s + "\"\n");
        } else put(line + "\n");
        o = e; return true;
    }
    bool odd = false;   /* a string whose text is not printable as it is */
    void put(const S &s) { text += s; lines++; }
    void walk() { size_t o = 0; do if (!element(o, b.size(), 0)) return; while (o < b.size()); }
};

static const char *exe; static uint64_t seen;

static void file(const S &b, const char *ex = nullptr)
{
    static S p = path("file.ber");
    put(p, b);
    Ref m(b); m.walk();
    Res r = run({ "--dump", p }, Opt(), ex); mc::state();
    S w = "file " + (b.size() <= 24 ? mc::hex(b.data(), b.size()) : mc::hex(b.data(), 20) + mc::fmt("... (%zu)", b.size()));
    if (broke(r, w)) return;
    if (m.v == BAD && r.ok()) mc::fail("%s: not well formed, and the tool exits 0", w.c_str());
    if (m.v == GOOD && !r.ok()) mc::fail("%s: well formed, and the tool exits %d", w.c_str(), WEXITSTATUS(r.st));
    if (m.v == GOOD && r.ok() && !m.odd && r.out != m.text) {
        size_t k = 0, st = 0; while (k < r.out.size() && k < m.text.size() && r.out[k] == m.text[k]) { if (r.out[k] == '\n') st = k + 1; k++; }
        mc::fail("%s: prints |%s|, expected |%s|", w.c_str(), r.out.substr(st, std::min(r.out.find('\n', st) - st, (size_t)90)).c_str(), m.text.substr(st, std::min(m.text.find('\n', st) - st, (size_t)90)).c_str());
    }
    if (++seen % 64 == 0) { S again; if (!slurp(p, again) || again != b) mc::fail("%s: the tool changed the file", w.c_str()); }
}

/* ---- encodings */
static S ident(int cls, bool cons, uint64_t tag)
{
    S s; uint8_t f = cls << 6 | (cons ? 0x20 : 0);
    if (tag < 31) return S(1, (char)(f | tag));
    s += (char)(f | 31); S t; do { t.insert(t.begin(), (char)((tag & 0x7f) | (t.empty() ? 0 : 0x80))); tag >>= 7; } while (tag);
    return s + t;
}
/* form 0 shortest, else that many length octets */
static S len(uint64_t n, int form = 0)
{
    if (!form && n < 128) return S(1, (char)n);
    if (!form) { form = 1; while (form < 8 && n >> 8 * form) form++; }
    S s(1, (char)(0x80 | form)); for (int i = form; i--;) s += (char)(n >> 8 * i);
    return s;
}
static S el(int cls, bool cons, uint64_t tag, const S &body, int form = 0) { return ident(cls, cons, tag) + len(body.size(), form) + body; }
static S seq(const S &b, int form = 0) { return el(0, true, 16, b, form); }
static S set(const S &b, int form = 0) { return el(0, true, 17, b, form); }

static std::vector<S> leaves()
{
    std::vector<S> v;
    auto add = [&](int c, bool k, uint64_t t, const S &b, int f = 0) { v.push_back(el(c, k, t, b, f)); };
    add(0, 0, 2, S("\x05", 1)); add(0, 0, 5, ""); add(0, 0, 1, "\xff"); add(0, 0, 6, S("\x2a\x86\x48\x86\xf7\x0d", 6)); add(0, 0, 19, "US"); add(0, 0, 4, "octet"); add(2, 1, 0, el(0, 0, 2, "\x02")); add(0, 0, 3, S("\0\x01", 2));
    add(0, 0, 6, S("\x88\x37\x03", 3)); add(0, 0, 23, "220101000000Z"); add(0, 0, 9, S("\x80\x01\x03", 3)); add(0, 0, 9, ""); add(0, 0, 2, ""); add(0, 0, 2, S(130, 'i'), 0); add(0, 0, 2, "x", 3); add(0, 0, 5, "", 8);
    add(1, 0, 30, "app"); add(3, 1, 31, "private"); add(2, 0, 1ull << 21, ""); add(0, 0, 31, ""); add(0, 0, 200, "u"); add(0, 1, 2, "cons"); add(0, 1, 19, "cons"); add(0, 0, 12, "utf8"); add(0, 0, 10, "\x01"); add(0, 0, 0, ""); add(2, 0, 3, S(200, 'c'));
    add(0, 0, 6, S("\0", 1)); add(0, 0, 6, S("\x55\x04\x06", 3)); add(0, 0, 6, S("\x2b\xff\xff\xff\xff\xff\xff\xff\x7f", 9)); add(0, 0, 19, ""); add(0, 0, 19, S(400, 'p')); add(1, 0, (1ull << 56) - 1, "m"); add(0, 0, 30, "\x01\x02"); add(0, 0, 24, "20220101000000Z");
    return v;
}

void mc_explore()
{
    const bool T = mc::thorough;
    exe = *mc::data ? mc::data : nullptr;
    auto L = leaves();
    if (mc::begin("the program")) for (auto &x : L) { file(x, exe); file(seq(x + set(x)), exe); }

    /* trees: every leaf, every pair, every shape of few nodes */
    for (size_t i = 0; i < L.size(); i++) {
        if (mc::begin("leaf %zu", i)) { file(L[i]); file(seq(L[i])); file(set(L[i])); file(set(seq(L[i]))); file(seq(L[i] + L[i] + L[i])); for (int f = 1; f <= 8; f++) { file(seq(L[i], f)); file(seq(set(L[i], f), 9 - f)); } }
        if (mc::begin("pairs %zu", i)) for (size_t j = 0; j < L.size(); j++) { mc::sub(j); file(L[i] + L[j]); file(seq(L[i] + L[j])); file(seq(L[i]) + set(L[j])); file(seq(set(L[i]) + L[j])); if (T) for (size_t k = 0; k < L.size(); k++) { file(seq(L[i] + set(L[j] + L[k]))); file(L[i] + seq(L[j]) + L[k]); } }
        if (mc::begin("cut leaf %zu", i)) { S t = seq(L[3] + set(L[i] + L[0]) + L[i]); for (size_t k = 0; k < t.size(); k++) { mc::sub(k); file(t.substr(0, k)); } }
    }
    /* all forests of at most n nodes: a node is a leaf kind, a sequence or a set */
    {
        std::vector<std::vector<S>> forest(1, std::vector<S>{ "" });
        const std::vector<S> few{ L[0], L[1], L[3], L[4], L[6] };
        for (int n = 1; n <= (T ? 5 : 4); n++) {
            std::vector<S> f;
            /* the first tree has k nodes, the rest n - k */
            for (int k = 1; k <= n; k++) {
                std::vector<S> tree; if (k == 1) tree = few;
                for (auto &in : forest[k - 1]) { tree.push_back(seq(in)); tree.push_back(set(in, k % 3)); }
                for (auto &t : tree) for (auto &r : forest[n - k]) f.push_back(t + r);
            }
            forest.push_back(f);
        }
        for (size_t n = 1; n < forest.size(); n++) for (size_t b = 0; b < forest[n].size(); b += 50) if (mc::begin("forest %zu.%zu", n, b)) for (size_t k = b; k < b + 50 && k < forest[n].size(); k++) { mc::sub(k); file(forest[n][k]); }
        /* every octet of small forests replaced, removed, doubled; every truncation */
        static const uint8_t al[] = { 0x00, 0x01, 0x02, 0x03, 0x05, 0x06, 0x10, 0x11, 0x1f, 0x30, 0x31, 0x3f, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xa0, 0xbf, 0xfe, 0xff };
        for (int n = 2; n <= 3; n++) for (size_t k = 0; k < forest[n].size(); k += T ? 1 : n == 2 ? 3 : 61) if (mc::begin("damaged forest %d.%zu", n, k)) {
            const S &s = forest[n][k];
            for (size_t p = 0; p < s.size(); p++) { mc::sub(p); file(s.substr(0, p)); file(s.substr(0, p) + s.substr(p + 1)); file(s.substr(0, p) + s[p] + s.substr(p)); for (uint8_t c : al) { S t = s; t[p] = (char)c; mc::sub(p, c); file(t); } for (int d : { -1, 1 }) { S t = s; t[p] += d; file(t); } }
        }
    }
    /* short files */
    if (mc::begin("empty file")) { file(""); file("", exe); }
    static const uint8_t two[] = { 0x00, 0x01, 0x02, 0x03, 0x1e, 0x1f, 0x20, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x88, 0x89, 0xfe, 0xff };
    for (int a = 0; a < 256; a++) if (mc::begin("short files, first %02x", a)) {
        file(S(1, (char)a));
        for (int b = 0; b < 256; b++) { bool in = false; for (uint8_t x : two) in |= x == b; if (!T && !in) continue; char s[3] = { (char)a, (char)b, 0 }; mc::sub(b); file(S(s, 2)); if (in && (T || (a & 0x1f) == 0x1f || (a & 0x1f) == 0x10 || (a & 0x1f) == 6)) for (uint8_t c : two) { s[2] = (char)c; mc::sub(b, c); file(S(s, 3)); } }
    }
    /* lengths: every form and claim against what is there */
    for (int form = 0; form <= 10; form++) if (mc::begin("length form %d", form)) for (uint64_t have : { 0, 1, 2, 127, 128, 129, 255, 256, 300 }) for (int d : { -2, -1, 0, 1, 2, 100 }) for (S id : { ident(0, 0, 2), ident(0, 1, 16), ident(2, 0, 3), ident(0, 0, 19), ident(0, 0, 6) }) {
        uint64_t n = have + d; S body(have, 'x'); if (id == ident(0, 1, 16)) { body = ""; for (uint64_t k = 0; k + 2 <= have; k += 2) body += S("\x05\x00", 2); if (have % 2) body = have > 2 ? body.substr(2) + S("\x02\x01x", 3) : body; }
        mc::sub(have, d + 5);
        S l; if (form == 0) { if (n >= 128) continue; l = len(n); } else if (form <= 8) l = len(n, form); else { l = S(1, (char)(0x80 | form)); l += S(form - 8, 0); l += len(n, 8).substr(1); }
        file(id + l + body); file(seq(id + l + body)); file(seq(id + l + body) + L[0]); 
    }
    for (int bit = 0; bit < 64; bit++) if (mc::begin("huge length %d", bit)) for (uint64_t n : { 1ull << bit, (1ull << bit) - 1, ~0ull << bit, ~0ull >> bit }) for (S id : { ident(0, 0, 2), ident(0, 1, 16), ident(2, 1, 3), ident(0, 0, 19), ident(0, 0, 6) }) { mc::sub(n); file(id + len(n, 8) + "abc"); file(seq(id + len(n, 8) + "abc")); file(L[0] + set(id + len(n - 20, 8)) + L[0]); }
    for (int k = 0; k <= 10; k++) if (mc::begin("tag of %d octets", k)) for (int cls = 0; cls < 4; cls++) for (int fill : { 0x80, 0x81, 0xff }) for (int last : { 0x00, 0x01, 0x1e, 0x1f, 0x7f, 0x80 }) { S s(1, (char)(cls << 6 | 31)); if (k) s += S(k - 1, (char)fill) + (char)last; file(s + S("\x01x", 2)); file(seq(s + S("\x00", 1))); file(s); }
    for (int b = 0; b < 56; b++) if (mc::begin("tag bit %d", b)) for (int cls = 0; cls < 4; cls++) for (uint64_t t : { 1ull << b, (1ull << b) - 1, (1ull << b) + 1 }) { file(el(cls, 0, t, t == 16 || t == 17 || t == 6 ? "" : "z")); file(el(cls, 1, t, "")); }

    /* nesting */
    for (int d = 1; d <= (T ? 400 : 140); d++) if (mc::begin("nesting %d", d)) for (int leaf = 0; leaf < 3; leaf++) { S s = leaf == 0 ? "" : leaf == 1 ? L[3] : L[1] + L[4]; for (int k = 0; k < d; k++) s = k % 3 == leaf ? set(s) : seq(s); file(s); if (d > 120 && d < 135) { file(s + L[0]); file(L[0] + s + s); file(s.substr(0, s.size() - 1)); } }
    for (int d : { 1000, 5000, 20000, 60000 }) if (mc::begin("nesting %d", d)) {
        S s; s.reserve(6 * d); std::vector<S> heads; size_t n = 0; for (int k = 0; k < d; k++) { heads.push_back(S(1, (char)0x30) + len(n)); n += heads.back().size(); } for (int k = d; k--;) s += heads[k];
        file(s); file(s + L[0]); S u; for (int k = 0; k < d; k++) u += S("\x30\x80", 2); file(u); u.clear(); for (int k = 0; k < d; k++) u += S("\x30\x7f", 2); file(u); file(S(d, 0x30)); file(S(d, (char)0xbf)); file(S(d, (char)0x80)); file(S(d, (char)0xff));
    }
    /* an element that is wrong, at every depth, with and without good ones around it; the enclosing elements are right */
    {
        const std::vector<S> bad { S("\x02", 1), S("\x02\x01", 2), S("\x02\x05x", 3), S("\x30\x02\x02\x01", 4), S("\x10\x00", 2), S("\x11\x02\x05\x00", 4), S("\x30\x80", 2), S("\x02\xff" "x", 3), S("\x06\x00", 2), S("\x06\x01\x80", 3), S("\x06\x02\x2a\x86", 4), S("\x1f", 1), S("\x1f\x80\x01\x00", 4), S("\x1f\xff\xff", 3), S("\x13\x03" "ab", 4), S("\x31\x03\x06\x01\x80", 5) };
        for (int d = 1; d <= 120; d += d < 20 || T ? 1 : 20) if (mc::begin("wrong at depth %d", d)) for (size_t i = 0; i < bad.size(); i++) for (int about = 0; about < 4; about++) {
            mc::sub(i, about); S s = bad[i];
            for (int k = 0; k < d; k++) { if (about & 1) s = L[1] + s; if (about & 2) s += L[2]; s = (k + i) % 2 ? set(s) : seq(s); }
            file(s); if (about == 3) file(L[0] + s + L[1]);
        }
    }
    /* sizes */
    for (size_t n : { 126, 127, 128, 129, 254, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 200000 }) if (mc::begin("contents of %zu", n)) for (int t : { 2, 3, 4, 9, 12, 19, 23 }) { S s = el(0, 0, t, S(n, 'q')); file(s); file(seq(s + L[0])); file(s.substr(0, s.size() - 1)); }
    if (mc::begin("many elements")) { S s; for (int k = 0; k < 3000; k++) s += L[k % L.size()]; file(s); file(seq(s)); s.clear(); for (int k = 0; k < 20000; k++) s += L[1]; file(s); file(set(s)); }
    for (int n : { 65534, 65535, 65536, 65537, 140000 }) if (mc::begin("many elements %d", n)) { S s; for (int k = 0; k < n; k++) s += L[k % 5 ? 1 : 3]; file(s); file(seq(s)); file(seq(seq(s) + L[1]) + L[3]); }

    /* object identifiers */
    for (size_t n = 0; n <= 20; n++) if (mc::begin("identifier of %zu octets", n)) for (int fill : { 0x00, 0x01, 0x7f, 0x80, 0x81, 0xff }) for (int last : { 0x00, 0x27, 0x28, 0x4f, 0x50, 0x7f, 0x80, 0xff }) for (int first : { 0x00, 0x27, 0x28, 0x50, 0x7f, 0x80, 0x81, 0xff }) { S o(n, (char)fill); if (n) { o[0] = (char)first; o[n - 1] = (char)last; } file(el(0, 0, 6, o)); }
    for (int arcs = 1; arcs <= 17; arcs++) if (mc::begin("identifier of %d numbers", arcs)) for (int oct = 1; oct <= 9; oct++) for (int lead : { 0x81, 0xff }) for (int last : { 0x00, 0x7f }) for (int odd = 0; odd <= arcs; odd++) {
        S o; for (int k = 1; k < std::max(arcs, 2); k++) { if (k == odd) { o += (char)0x01; continue; } for (int i = 1; i < oct; i++) o += i == 1 ? (char)lead : (char)0xff; o += (char)last; }
        file(el(0, 0, 6, o));
    }
    {
        std::vector<S> reg; FILE *f = fopen((S(mc::repo) + "/data/oids.txt").c_str(), "r"); char line[4096];
        while (f && fgets(line, sizeof line, f)) { S o; char *eq = strchr(line, '='); if (!eq) continue; for (char *p = eq; (p = strstr(p, "\\x")); p += 2) o += (char)strtoul(S(p + 2, 2).c_str(), nullptr, 16); if (o.size()) reg.push_back(o); }
        if (f) fclose(f);
        for (size_t b = 0; b < reg.size(); b += 100) if (mc::begin("registered identifiers %zu", b)) { S s; for (size_t k = b; k < b + 100 && k < reg.size(); k++) s += el(0, 0, 6, reg[k]); file(s); file(seq(s)); }
    }
    /* strings of every character; those with a zero octet only have to be survived */
    for (int t : { 19, 23 }) if (mc::begin("characters %d", t)) for (int c = 0; c < 256; c++) { mc::sub(c); file(el(0, 0, t, S("a") + (char)c + "b")); file(seq(el(0, 0, t, S(1, (char)c)) + L[0])); }

    /* files that cannot be read, output that cannot be written, wrong command lines */
    mkdir(path("dir").c_str(), 0755); put(path("ok.ber"), seq(L[0] + L[3])); S big; for (int k = 0; k < 400; k++) big += L[3]; put(path("big.ber"), big);
    if (mc::begin("unreadable")) for (const char *e : { (const char*)nullptr, exe }) for (S p : { path("missing"), path("dir"), path("ok.ber/x"), S(""), S("/"), S("/dev/null"), path(S(300, 'n')) }) { Res r = run({ "--dump", p }, Opt(), e); if (!broke(r, p) && r.ok()) mc::fail("dumping %s exits 0", p.c_str()); mc::state(); }
    if (mc::begin("wrong command lines")) {
        S ok = path("ok.ber");
        for (auto &a : std::vector<std::vector<S>>{ {}, { ok }, { "--dump" }, { "--dumpx", ok }, { "--dum", ok }, { "dump", ok }, { "", ok }, { ok, "--dump" }, { "--dump", ok, ok }, { "--dump", ok, "" }, { ok, ok, ok } }) { Res r = run(a); refused(r, tr::show(a)); mc::state(); }
    }
    for (const char *fn : { "ok.ber", "big.ber" }) {
        S p = path(fn), whole; 
        if (mc::begin("output of %s", fn)) {
            for (const char *to : { "/dev/full", "-" }) for (const char *e : { (const char*)nullptr, exe }) { Opt o; o.to = to; Res r = run({ "--dump", p }, o, e); refused(r, S("dump > ") + to); mc::state(); }
            whole = run({ "--dump", p }).out;
            for (size_t k = 0; k <= whole.size() + 1; k += k < 300 || k + 300 > whole.size() || T ? 1 : 97) { mc::sub(k); Opt o; o.limit = k; Res r = run({ "--dump", p }, o); S w = mc::fmt("room for %zu of %zu bytes", k, whole.size()); mc::state(); if (k < whole.size()) refused(r, w); else if (!broke(r, w) && (!r.ok() || r.out != whole)) mc::fail("%s: exits %d", w.c_str(), WEXITSTATUS(r.st)); }
        }
        if (mc::begin("calls for %s", fn)) { whole = run({ "--dump", p }).out; for (int how = 0; how < 4; how++) for (int k = 0; k < 2000; k += k < 60 || T ? 1 : 37) { mc::sub(how, k); Opt o; o.at = k; o.how = how; Res r = run({ "--dump", p }, o); S w = mc::fmt("call %d (%s) fails, way %d", k, r.hit.c_str(), how); mc::state(); if (broke(r, w)) continue; if (r.ok() && r.out != whole) mc::fail("%s: exits 0 with %zu of %zu bytes", w.c_str(), r.out.size(), whole.size()); if (!r.ok() && r.hit.empty()) mc::fail("%s: exits %d", w.c_str(), WEXITSTATUS(r.st)); if (r.hit.empty()) break; } }
    }
}
