/* P24: a dump shows every declaration with its true fields */
#include "corpus.h"
#include <crefl/dump.h>
#include "capture.h"
using namespace gr;

static const crefl_db_dump_fmt fmts[] = { crefl_db_dump_std, crefl_db_dump_fqn, crefl_db_dump_sum, crefl_db_dump_all, crefl_db_dump_ext, crefl_db_dump_ext_fqn, crefl_db_dump_ext_sum, crefl_db_dump_ext_all };
struct Col { const char *n; size_t w; };
static std::vector<Col> cols(int f)
{
    bool x = f >= 4;
    std::vector<Col> c{ { "id", 5 }, { "attr", 5 }, { "next", 5 }, { "link", 5 }, { "type", 10 }, { "name", x ? 28u : 15u }, { "props", x ? 25u : 15u }, { "detail", x ? 30u : 20u } };
    if (f % 4 >= 2) c.push_back({ "hash", 57 });
    if (f % 4 == 1 || f % 4 == 3) c.push_back({ "fqn", x ? 30u : 23u });
    return c;
}
static std::string pad(std::string s, size_t w, char c = ' ') { if (s.size() < w) return s + std::string(w - s.size(), c); return s.substr(0, w - 1) + "\xe2\x80\xa6"; }
static const char *tagn[] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias" };
static const struct { u32 p; const char *n; } pn[] = { { 1 << 10, "const" }, { 1 << 11, "volatile" }, { 1 << 12, "restrict" }, { 1 << 13, "static" }, { 1 << 14, "extern_c" }, { 1 << 15, "inline" }, { 1 << 16, "noreturn" }, { 1 << 17, "local" }, { 1 << 18, "global" }, { 1 << 19, "weak" }, { 1 << 20, "default" }, { 1 << 21, "hidden" }, { 1 << 22, "in" }, { 1 << 23, "out" }, { 1 << 24, "vla" } };

static std::string nameof(decl_db *db, decl_id i) { return db->name + db->decl[i]._name; }
static std::string tname(u32 t) { return t < 19 ? tagn[t] : "<unknown>"; }

static std::string row(decl_db *db, decl_index *ix, decl_id i, int f)
{
    const decl_node &n = db->decl[i];
    std::string s, props, name = nameof(db, i);
    if (n._tag != _decl_none) for (auto &p : pn) if (n._props & p.p) props += (props.empty() ? "" : ",") + std::string(p.n);
    std::string q;
    switch (n._tag) {
    case _decl_set: case _decl_enum: case _decl_pointer: case _decl_intrinsic: q = "width=" + std::to_string(n._quantity); break;
    case _decl_array: q = "size=" + std::to_string(n._quantity); break;
    case _decl_constant: case _decl_value: q = "value=" + std::to_string(n._quantity); break;
    case _decl_function: q = mc::fmt("addr=0x%llx", n._quantity); break;
    case _decl_field: if (n._props & _decl_bitfield) q = "width=" + std::to_string(n._quantity); break;
    }
    if (q.size()) props += (props.empty() ? "" : ",") + q;
    std::string ln = nameof(db, n._link), detail = tname(db->decl[n._link]._tag) + "(\"" + (ln.empty() ? "anonymous" : ln) + "\")";
    decl_id named = n._tag == _decl_alias ? n._link : i;
    for (auto &c : cols(f)) {
        std::string k = c.n, v;
        if (k == "id") v = std::to_string(i); else if (k == "attr") v = std::to_string(n._attr); else if (k == "next") v = std::to_string(n._next); else if (k == "link") v = std::to_string(n._link);
        else if (k == "type") v = tname(n._tag); else if (k == "name") v = n._name ? name : "(anonymous)"; else if (k == "props") v = props; else if (k == "detail") v = detail;
        else if (k == "hash") v = mc::hex(crefl_entry_ptr(crefl_entry_ref(ix, crefl_lookup(db, i)))->hash.sum, sizeof(decl_hash));
        else v = tname(db->decl[named]._tag) + " " + crefl_entry_fqn(crefl_entry_ref(ix, crefl_lookup(db, named)));
        s += pad(v, c.w);
    }
    return s + "\n";
}
static std::string names(int f) { std::string s; for (auto &c : cols(f)) s += pad(c.n, c.w); return s + "\n"; }
static std::string lines(int f) { std::string s; for (auto &c : cols(f)) s += pad("", c.w, '-'); return s + "\n"; }

static std::string expect(decl_db *db, int f)
{
    decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db);
    std::string s = names(f) + lines(f);
    for (size_t i = db->root_element; i < db->decl_offset; i++) s += row(db, ix, i, f);
    crefl_index_destroy(ix);
    return s + lines(f);
}

static void differ(const std::string &got, const std::string &want, int f, const char *what)
{
    if (got == want) return;
    size_t k = 0, ln = 0, st = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) { if (got[k] == '\n') { ln++; st = k + 1; } k++; }
    mc::fail("%s: format %d: line %zu is |%s|, expected |%s|", what, f, ln, got.substr(st, got.find('\n', st) - st).c_str(), want.substr(st, want.find('\n', st) - st).c_str());
}

static std::string dump(decl_db *db) { mc::op(); return mc::capture([&] { crefl_db_dump(db); }); }

static void all(decl_db *db, const char *what, bool rows = false)
{
    Snap before(db);
    for (int f = 0; f < 8; f++) {
        crefl_db_set_dump_fmt(fmts[f]);
        differ(dump(db), expect(db, f), f, what);
        mc::state();
        if (rows) {
            decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db);
            for (size_t i = db->root_element; i < db->decl_offset; i++) {
                mc::op();
                differ(mc::capture([&] { crefl_db_dump_row(db, crefl_lookup(db, i)); }), row(db, ix, i, f), f, "single row");
            }
            crefl_index_destroy(ix);
            differ(mc::capture([&] { crefl_db_header_names(); crefl_db_header_lines(); }), names(f) + lines(f), f, "header");
        }
    }
    std::string st = mc::capture([&] { crefl_db_dump_stats(db); });
    size_t du = db->decl_offset - db->decl_builtin, nu = db->name_offset - db->name_builtin;
    std::string want = mc::fmt("decl.builtin %zu bytes (%zu records)\ndecl.user    %zu bytes (%zu records)\nname.builtin %zu bytes\nname.user    %zu bytes\nfile.size    %zu bytes\n", 32 * db->decl_builtin, db->decl_builtin, 32 * du, du, db->name_builtin, nu, 20 + 32 * du + nu);
    differ(st, want, -1, "statistics");
    if (20 + 32 * du + nu != crefl_db_size(db)) mc::fail("reported size");
    if (!(Snap(db) == before)) mc::fail("%s: dumping changed the database", what);
}

static decl_db *one(const std::vector<N> &v)
{
    /* a source with these declarations as children */
    G g; int s = g.add(_decl_source, "a.h");
    for (auto &n : v) { g.n.push_back(n); g.kid(s, g.n.size() - 1); }
    std::vector<decl_id> id; return build(g, id);
}
static N node(u32 tag, u32 props, u64 q, const std::string &name, int link = 0) { N n; n.tag = tag; n.props = props; n.qty = q; n.name = name; n.link = link; return n; }
static bool kids(u32 t) { return container(t); }

void mc_explore()
{
    const bool T = mc::thorough;
    mc::capture_init();
    { auto im = corpus(); for (size_t i = 0; i < im.size(); i++) if (mc::begin("image %s", im[i].name.c_str())) {
        decl_db *db = load(im[i]); if (db->root_element) all(db, "image", T || im[i].b.size() < 4000); crefl_db_destroy(db);
        decl_db *a = load(im[i]), *b = load(im[(i + 1) % im.size()]), *in[3] = { a, b, a }, *m = crefl_db_new();
        if (a->root_element && b->root_element && a->decl_offset + b->decl_offset < 1000) { crefl_link_merge(m, "m.refl", in, 3); all(m, "merged images", false); }
        for (auto d : { a, b, m }) crefl_db_destroy(d);
    } }
    for (auto &v : sources(2)) if (mc::begin("source %s", show(v).c_str())) {
        std::vector<decl_id> id; decl_db *db = build(source(v), id); all(db, "source", v.size() < 2 || T);
        decl_db *in[2] = { db, db }, *m = crefl_db_new(); crefl_link_merge(m, "m.refl", in, 2);
        all(m, "merged", v.size() < 2); crefl_db_destroy(m); crefl_db_destroy(db);
    }
    /* the first declaration shown is any of them, the empty one of every database included, or lies past the last */
    { auto rs = sources(1); for (size_t i = 0; i < rs.size(); i += T ? 1 : 7) if (mc::begin("from %zu", i)) {
        std::vector<decl_id> id; decl_db *db = build(source(rs[i]), id);
        for (size_t k = 0; k <= db->decl_offset; k++) { mc::sub(k); db->root_element = k; all(db, "from", k % 9 == 0); }
        crefl_db_destroy(db);
    } }
    if (mc::begin("from the built-in ones")) { decl_db *db = crefl_db_new(); crefl_db_defaults(db); all(db, "built-in", true); crefl_db_destroy(db); db = crefl_db_new(); all(db, "empty", true); crefl_db_destroy(db); }
    /* kinds by properties, alone and in pairs and in runs */
    for (u32 t = 0; t < 19; t++) if (mc::begin("properties %u", t)) {
        for (int a = 0; a < 32; a++) {
            std::vector<N> v; for (int b = a; b < 32; b++) { mc::sub(a, b); v.push_back(node(t, 1u << a | 1u << b, a * b, "p", kids(t) ? 0 : -b_int)); v.push_back(node(t, ((1u << b) - 1) & ~((1u << a) - 1), ~0ull, "r", kids(t) ? 0 : -b_double)); }
            decl_db *db = one(v); all(db, "properties"); crefl_db_destroy(db);
        }
    }
    for (u32 t = 0; t < 19; t++) if (mc::begin("quantities %u", t)) {
        std::vector<N> v; for (int b = 0; b < 64; b++) { v.push_back(node(t, b % 3 ? 0 : _decl_bitfield, 1ull << b, "q", kids(t) ? 0 : -b_int)); v.push_back(node(t, b % 2 ? _decl_bitfield : 0, ~0ull >> b, "q", kids(t) ? 0 : -b_int)); }
        for (u64 x = 1, i = 0; i < 20; i++, x *= 10) { v.push_back(node(t, 0, x, "q")); v.push_back(node(t, _decl_bitfield, x - 1, "q")); }
        decl_db *db = one(v); all(db, "quantities"); crefl_db_destroy(db);
    }
    /* names across the columns, of the declaration and of what it refers to */
    for (int len = 0; len <= (T ? 1200 : 320); len++) if (mc::begin("name %d", len)) {
        G g; int s = g.add(_decl_source, len % 3 ? "a.h" : std::string(len, 's')); std::string nm; for (int i = 0; i < len; i++) nm += "abcdefghijklmnopqrstuvwxyz_0123456789"[i % 37];
        for (u32 t = 1; t < 19; t++) { int k = g.add(t, nm, t % 2 ? _decl_const : 0, t); g.kid(s, k); int f = g.add(_decl_field, t % 2 ? nm : ""); g.n[f].link = k; g.kid(s, f); if (kids(t)) { int c = g.add(_decl_constant, nm); g.kid(k, c); } }
        std::vector<decl_id> id; decl_db *db = build(g, id); all(db, "names", len < 64 && len % 5 == 0); crefl_db_destroy(db);
    }
    for (const char *nm : { "%s", "%n%d", "%", "a b", "\xc3\xa9t\xc3\xa9", "a\tb", "(anonymous)", "anonymous", "x\"y" }) if (mc::begin("name %s", nm)) { decl_db *db = one({ node(_decl_struct, 0, 0, nm), node(_decl_typedef, _decl_const, 0, nm, 2), node(_decl_constant, 0, 7, nm, 3) }); all(db, "odd name", true); crefl_db_destroy(db); }
    /* numbers across the columns */
    if (mc::begin("many")) {
        decl_db *db = crefl_db_new(); crefl_db_defaults(db); db->root_element = db->decl_offset;
        for (int i = 0; i < 100300; i++) { decl_ref r = crefl_decl_new(db, i ? _decl_typedef : _decl_struct); decl_node *p = crefl_decl_ptr(r); p->_link = i ? b_int : 0; (void)p; }
        for (decl_id x : { 9u, 10u, 99u, 100u, 999u, 1000u, 9999u, 10000u, 99999u, 100000u }) { decl_node *p = db->decl + x + 30; p->_tag = _decl_none; p->_next = x; p->_link = x; p->_attr = x - 1; }
        for (int f : { 0, 7 }) { crefl_db_set_dump_fmt(fmts[f]); differ(dump(db), expect(db, f), f, "many declarations"); }
        crefl_db_destroy(db);
    }
    /* sequences of formats and databases: nothing carries over */
    auto ss = sources(1);
    for (int f = 0; f < 8; f++) for (int h = 0; h < 8; h++) if (mc::begin("sequence %d %d", f, h)) for (size_t i = 0; i < ss.size(); i += 5) for (size_t j = 0; j < ss.size(); j += 3) {
        mc::sub(i, j);
        std::vector<decl_id> id; decl_db *a = build(source(ss[i]), id), *b = build(source(ss[j], "b.h"), id);
        decl_index *ix = crefl_index_new(); crefl_index_scan(ix, b);
        crefl_db_set_dump_fmt(fmts[f]);
        differ(dump(a), expect(a, f), f, "first"); differ(dump(b), expect(b, f), f, "second, same format");
        crefl_db_set_dump_fmt(fmts[h]);
        differ(mc::capture([&] { crefl_db_dump_row(b, crefl_lookup(b, b->decl_offset - 1)); }), row(b, ix, b->decl_offset - 1, h), h, "row in between");
        differ(dump(a), expect(a, h), h, "third"); differ(dump(b), expect(b, h), h, "fourth");
        decl_ref r = crefl_decl_new(a, _decl_struct); decl_id n = crefl_name_new(a, "late"); crefl_decl_ptr(r)->_name = n; crefl_decl_ptr(crefl_lookup(a, a->decl_offset - 2))->_props |= _decl_weak;
        differ(dump(a), expect(a, h), h, "after a change");
        crefl_index_destroy(ix); crefl_db_destroy(a); crefl_db_destroy(b);
    }
}
