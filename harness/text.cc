/* P27: formatted text and names of any length */
#include "graphs.h"
#include <crefl/dump.h>
#include "capture.h"
#include <cstdarg>
#include <crefl/util.h>
using namespace gr;

static std::string viav(const char *f, ...) { va_list a; va_start(a, f); std::string s = string_vprintf(f, a); va_end(a); return s; }

/* what the C library makes of it, in a buffer that is large enough */
static std::string ref(const char *f, ...)
{
    va_list a; va_start(a, f); char *p = nullptr; int n = vasprintf(&p, f, a); va_end(a);
    std::string s(p, n); free(p); return s;
}

#define SHAPE(...) do { std::string w = ref(__VA_ARGS__), x = string_printf(__VA_ARGS__), y = viav(__VA_ARGS__); mc::op(2); mc::state(); \
    if (x != w) mc::fail("string_printf %s: %zu characters, expected %zu", #__VA_ARGS__, x.size(), w.size()); \
    if (y != w) mc::fail("string_vprintf %s: %zu characters, expected %zu", #__VA_ARGS__, y.size(), w.size()); } while (0)

static std::string word(int len) { std::string s; for (int i = 0; i < len; i++) s += "abcdefghijklmnopqrstuvwxyz_0123456789"[i % 37]; return s; }

static void shapes(int len)
{
    std::string s = word(len); const char *p = s.c_str(); int h = len / 2;
    SHAPE("%s", p); SHAPE("%.*s%s", h, p, p + h); SHAPE("%*d", len, 42); SHAPE("%-*d|", len, -7); SHAPE("%0*llx", len, 0xabcdefull); SHAPE("%.*f", len, 1.0 / 3); SHAPE("%s%d%s%s", p, 1, "", p); SHAPE("x%sy%%z%c", p, 0); SHAPE("%c%s", 0, p); SHAPE("%s(\"%s\")", "struct", p);
    SHAPE("%.*s%c%c", h, p, 0, 0); SHAPE("%s%llu%lld%x%g", p, ~0ull, -1ll, 255, 0.5);
}

/* names of a length through every consumer */
static void consumers(int len)
{
    std::string nm = word(len), other = nm; if (len) other[len - 1] = '!';
    G g; int s = g.add(_decl_source, "a.h"), t = g.add(_decl_struct, nm), f = g.add(_decl_field, nm), u = g.add(_decl_struct, other), v = g.add(_decl_struct, nm + "y"), w = g.add(_decl_typedef, nm), at = g.add(_decl_attribute, nm), va = g.add(_decl_value, nm);
    g.kid(s, t); g.kid(t, f); g.kid(s, u); g.kid(s, v); g.kid(s, w); g.n[f].link = -b_int; g.n[w].link = t; g.n[t].attrs.push_back(at); g.n[at].link = va;
    int in = g.add(_decl_union, nm); g.kid(t, in); int inf = g.add(_decl_field, "z"); g.kid(in, inf); g.n[inf].link = -b_byte;
    std::vector<decl_id> id; decl_db *db = build(g, id);
    for (int i : { t, f, w, at, va, in }) if (nm != crefl_decl_name(crefl_lookup(db, id[i]))) mc::fail("name of %d characters does not read back", len);
    decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db);
    auto fqn = [&](int i) { return std::string(crefl_entry_fqn(crefl_entry_ref(ix, crefl_lookup(db, id[i])))); };
    if (fqn(t) != nm || fqn(v) != nm + "y" || fqn(w) != nm || fqn(u) != other) mc::fail("qualified name of %d characters", len);
    if (len && (fqn(f) != nm + "::" + nm || fqn(in) != nm + "::" + nm || fqn(inf) != nm + "::" + nm + "::z")) mc::fail("qualified names of members, %d characters", len);
    mc::op(3);
    std::set<std::string> hs; for (int i : { t, u, v, w }) hs.insert(hash_of(ix, db, id[i]));
    if (hs.size() != 4 - (len == 0 ? 1 : 0)) { if (len) mc::fail("hashes do not tell names of %d characters apart", len); }
    decl_index *i2 = crefl_index_new(); crefl_index_scan(i2, db);
    for (size_t i = 1; i < g.n.size(); i++) if (hash_of(ix, db, id[i]) != hash_of(i2, db, id[i])) mc::fail("hash is not stable");
    crefl_index_destroy(i2);
    std::string im(crefl_db_size(db), 0);
    if (crefl_db_write_mem(db, (uint8_t*)&im[0], im.size())) mc::fail("save");
    decl_db *l = crefl_db_new();
    if (crefl_db_read_mem(l, (uint8_t*)im.data(), im.size())) mc::fail("saved image with a name of %d characters does not load", len);
    else if (!(Snap(l) == Snap(db))) mc::fail("name of %d characters changed by saving", len);
    for (int f = 0; f < 8; f++) {
        crefl_db_set_dump_fmt((crefl_db_dump_fmt)f);
        std::string out = mc::capture([&] { crefl_db_dump(db); });
        size_t rows = std::count(out.begin(), out.end(), '\n');
        if (rows != 3 + g.n.size() - 1 || out.find('\0') != std::string::npos) mc::fail("dump with names of %d characters has %zu lines", len, rows);
        std::string head = out.substr(0, out.find('\n')); size_t w = head.size(), cut = 0, pos = 0;
        /* columns keep their width: each line has as many characters as the header */
        for (size_t e; (e = out.find('\n', pos)) != std::string::npos; pos = e + 1) { cut = 0; for (size_t k = pos; k < e; k++) if ((out[k] & 0xc0) == 0x80) cut++; if (e - pos - cut != w) { mc::fail("dump line of %zu characters, header has %zu", e - pos - cut, w); break; } }
        size_t keep = std::min<size_t>(len, f < 4 ? 14 : 27);
        if (len && out.find(" " + nm.substr(0, keep)) == std::string::npos) mc::fail("dump lacks the name of %d characters", len);
    }
    decl_db *m = crefl_db_new(), *srcs[1] = { db };
    crefl_link_merge(m, ("/some/where/" + nm).c_str(), srcs, 1);
    if (nm != crefl_decl_name(crefl_root(m))) mc::fail("merged archive is not named by its base name of %d characters", len);
    bool found = false; for (size_t i = 0; i < m->decl_offset; i++) found |= crefl_is_union(crefl_lookup(m, i)) && nm == crefl_decl_name(crefl_lookup(m, i));
    if (!found) mc::fail("merge lost the name of %d characters", len);
    crefl_index_destroy(ix); crefl_db_destroy(db); crefl_db_destroy(l); crefl_db_destroy(m);
}

void mc_explore()
{
    const bool T = mc::thorough;
    mc::capture_init();
    for (int len = 0; len <= (T ? 5000 : 1300); len++) if (mc::begin("format %d", len)) shapes(len);
    for (int len : { 4095, 4096, 8191, 8192, 65535, 65536, 1 << 20 }) if (mc::begin("format %d", len)) shapes(len);
    for (int len = 0; len <= (T ? 2100 : 600); len++) if (mc::begin("names %d", len)) consumers(len);
    for (int len : { 1023, 1024, 4095, 4096, 65535, 65536 }) if (mc::begin("names %d", len)) consumers(len);
    if (mc::begin("no arguments")) { SHAPE("%s", ""); SHAPE("%%"); SHAPE("abc%s", ""); }
    /* base names: every short string */
    const char al[] = "a./\\b";
    for (int n = 0; n <= (T ? 9 : 7); n++) if (mc::begin("base name %d", n)) {
        int tot = 1; for (int i = 0; i < n; i++) tot *= 5;
        for (int x = 0; x < tot; x++) { std::string s; int v = x; for (int i = 0; i < n; i++) { s += al[v % 5]; v /= 5; } mc::sub(x); mc::op(); mc::state(); size_t k = s.size(); while (k && s[k - 1] != '/' && s[k - 1] != '\\') k--; if (crefl_basename(s) != s.substr(k)) mc::fail("base name of %s is %s", s.c_str(), crefl_basename(s).c_str()); }
    }
    for (int len = 0; len < 600; len += 7) if (mc::begin("long base name %d", len)) for (int d = 0; d < 300; d += 3) { std::string s = std::string(d, 'd') + "/" + word(len); if (crefl_basename(s) != word(len)) mc::fail("base name of a long path"); }
}
