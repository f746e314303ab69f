/* P01: a saved reflection database loads back as the same graph */
#include "corpus.h"
using namespace gr;

static void put32(std::string &s, u32 v) { for (int i = 0; i < 4; i++) s += (char)(v >> 8 * i); }
static void put64(std::string &s, u64 v) { for (int i = 0; i < 8; i++) s += (char)(v >> 8 * i); }

/* the documented layout, from the database alone */
static std::string image_of(const decl_db *db)
{
    std::string s = "crefl000";
    put32(s, db->decl_offset - db->decl_builtin); put32(s, db->name_offset - db->name_builtin); put32(s, db->root_element);
    for (size_t i = db->decl_builtin; i < db->decl_offset; i++) {
        const decl_node &n = db->decl[i];
        put32(s, n._tag); put32(s, n._props); put32(s, n._name); put32(s, n._next); put32(s, n._link); put32(s, n._attr); put64(s, n._quantity);
    }
    s.append(db->name + db->name_builtin, db->name_offset - db->name_builtin);
    return s;
}

static std::string save(decl_db *db, const char *what)
{
    size_t n = crefl_db_size(db);
    uint8_t *b = (uint8_t*)malloc(n);
    memset(b, 0x5a, n);
    Snap before(db);
    int r = crefl_db_write_mem(db, b, n);
    mc::op(2);
    std::string s((char*)b, n);
    free(b);
    MC_CHECK(r == 0, "%s: saving into a buffer of the reported size fails", what);
    MC_CHECK(Snap(db) == before, "%s: saving changed the database", what);
    return s;
}

static decl_db *load(const std::string &s, const char *what)
{
    decl_db *db = crefl_db_new();
    uint8_t *b = (uint8_t*)malloc(s.size());
    memcpy(b, s.data(), s.size());
    int r = crefl_db_read_mem(db, b, s.size());
    mc::op();
    MC_CHECK(memcmp(b, s.data(), s.size()) == 0, "%s: loading changed the input", what);
    memset(b, 0xee, s.size());
    free(b);
    if (r != 0) { mc::fail("%s: a saved image of %zu bytes does not load", what, s.size()); crefl_db_destroy(db); return nullptr; }
    return db;
}

static void same(decl_db *a, decl_db *b, const char *what)
{
    if (a->decl_offset != b->decl_offset) { mc::fail("%s: %zu declarations saved, %zu loaded", what, a->decl_offset, b->decl_offset); return; }
    MC_CHECK(crefl_decl_idx(crefl_root(a)) == crefl_decl_idx(crefl_root(b)), "%s: root differs", what);
    for (size_t i = 0; i < a->decl_offset; i++) {
        decl_ref x = crefl_lookup(a, i), y = crefl_lookup(b, i);
        bool ok = crefl_decl_tag(x) == crefl_decl_tag(y) && crefl_decl_props(x) == crefl_decl_props(y) && crefl_decl_qty(x) == crefl_decl_qty(y)
            && crefl_decl_idx(crefl_decl_next(x)) == crefl_decl_idx(crefl_decl_next(y)) && crefl_decl_idx(crefl_decl_link(x)) == crefl_decl_idx(crefl_decl_link(y))
            && crefl_decl_idx(crefl_decl_attr(x)) == crefl_decl_idx(crefl_decl_attr(y)) && crefl_decl_has_name(x) == crefl_decl_has_name(y)
            && strcmp(crefl_decl_name(x), crefl_decl_name(y)) == 0;
        if (!ok) { mc::fail("%s: declaration %zu differs after loading", what, i); return; }
    }
    mc::state();
}

static uint64_t writes;

static void full(decl_db *db, const char *what, bool caps, bool file)
{
    std::string want = image_of(db), s = save(db, what);
    MC_CHECK(crefl_db_size(db) == want.size(), "%s: reported size %zu, layout needs %zu", what, crefl_db_size(db), want.size());
    if (s != want) {
        size_t k = 0; while (k < s.size() && k < want.size() && s[k] == want[k]) k++;
        mc::fail("%s: image differs from the documented layout at byte %zu of %zu", what, k, want.size());
    }
    MC_CHECK(crefl_db_magic(s.data()) == 0, "%s: magic of the image is not recognised", what);
    decl_db *l = load(s, what);
    if (!l) return;
    same(db, l, what);
    std::string again = save(l, what);
    MC_CHECK(again == s, "%s: saving the loaded graph gives other bytes", what);
    if (caps) {
        for (size_t c = 0; c <= s.size() + 3; c++) {
            mc::sub(c);
            uint8_t *b = (uint8_t*)malloc(c ? c : 1);
            memset(b, 0xa5, c ? c : 1);
            int r = crefl_db_write_mem(db, b, c);
            mc::op();
            if (c < s.size()) MC_CHECK(r != 0, "%s: saving %zu bytes into %zu reports success", what, s.size(), c);
            else {
                MC_CHECK(r == 0, "%s: saving into %zu bytes fails", what, c);
                MC_CHECK(memcmp(b, s.data(), s.size()) == 0, "%s: image depends on capacity", what);
                for (size_t k = s.size(); k < c; k++) MC_CHECK(b[k] == 0xa5, "%s: byte %zu beyond the image written", what, k);
            }
            free(b);
        }
    }
    if (file) {
        std::string p = mc::fmt("%s/f%d.refl", mc::workdir, (int)(writes++ % 3)), q = mc::fmt("%s/g.refl", mc::workdir);
        int r = crefl_db_write_file(db, p.c_str());
        mc::op(2);
        MC_CHECK(r == 0, "%s: saving to a file fails", what);
        std::string got; char buf[65536]; size_t k;
        FILE *f = fopen(p.c_str(), "rb");
        if (f) { while ((k = fread(buf, 1, sizeof buf, f)) > 0) got.append(buf, k); fclose(f); }
        MC_CHECK(got == want, "%s: the file holds %zu bytes that differ from the image of %zu", what, got.size(), want.size());
        decl_db *m = crefl_db_new();
        if (crefl_db_read_file(m, p.c_str()) != 0) mc::fail("%s: the saved file does not load", what);
        else { same(db, m, what); MC_CHECK(save(m, what) == s, "%s: saving the graph loaded from a file gives other bytes", what); }
        crefl_db_destroy(m);
    }
    crefl_db_destroy(l);
}

static decl_db *fresh() { decl_db *db = crefl_db_new(); crefl_db_defaults(db); return db; }

/* n nodes, every reference pattern, written straight into the store */
static void raw(int n, uint64_t code, int payload, bool three, bool caps)
{
    decl_db *db = fresh();
    std::vector<decl_id> ids, nm;
    for (int i = 0; i < n; i++) {
        ids.push_back(crefl_decl_idx(crefl_decl_new(db, (payload * 5 + i * 7) % 19)));
        nm.push_back(i == 1 && payload % 3 == 1 ? nm[0] : crefl_name_new(db, payload % 2 ? (i ? "bb" : "a") : ""));
    }
    db->root_element = ids[0];
    int k = n + 2;
    static const u64 qs[] = { 0, 1, ~0ull, 1ull << 63, 0x0123456789abcdefull, 64 };
    for (int i = 0; i < n; i++) {
        decl_node *p = crefl_decl_ptr(crefl_lookup(db, ids[i]));
        p->_name = nm[i]; if (payload == 4 && i == 0) p->_name = 1;
        p->_props = payload & 1 ? ~0u >> i : 1u << (payload + 9 * i);
        p->_quantity = qs[(payload + i) % 6];
        auto ref = [&]() -> decl_id { int d = code % k; code /= k; return d == 0 ? 0 : d == 1 ? b_int : ids[d - 2]; };
        p->_next = ref(); p->_link = ref(); if (three) p->_attr = ref();
    }
    full(db, "raw", caps, code == 0 && payload == 0);
    crefl_db_destroy(db);
}

static void field_values()
{
    uint64_t c = 0;
    for (int where = 0; where < 2; where++)
    for (int f = 0; f < 4; f++) for (int b = 0; b < 64; b++) for (int inv = 0; inv < 3; inv++) {
        if (f != 2 && b >= 32) continue;
        if (f == 0 && b > 18) continue;
        mc::sub(c++);
        decl_db *db = fresh();
        decl_ref r = crefl_decl_new(db, _decl_source), t = crefl_decl_new(db, _decl_struct);
        db->root_element = crefl_decl_idx(r);
        decl_node *p = crefl_decl_ptr(where ? t : r);
        u64 v = inv == 0 ? 1ull << b : inv == 1 ? ~(1ull << b) : (1ull << b) - 1;
        if (f == 0) p->_tag = b; else if (f == 1) p->_props = (u32)v; else if (f == 2) p->_quantity = v;
        else { std::string s(inv == 0 ? b : inv == 1 ? b + 40 : 500 + b, (char)('a' + b % 26)); decl_id n = crefl_name_new(db, s.c_str()); crefl_decl_ptr(where ? t : r)->_name = n; }
        full(db, "field", false, false);
        crefl_db_destroy(db);
    }
}

/* n declarations in a chain with names of a length */
static decl_db *sized(int n, int len, decl_db *db = nullptr)
{
    if (!db) db = fresh();
    decl_id last = 0;
    for (int i = 0; i < n; i++) {
        decl_ref r = crefl_decl_new(db, i == 0 && !db->root_element ? _decl_source : 1 + i % 15);
        decl_id nm = crefl_name_new(db, len ? (std::string(len, 'a' + i % 26) + mc::fmt("%d", i)).c_str() : "");
        decl_node *p = crefl_decl_ptr(r);
        p->_name = nm; p->_quantity = i * 0x9e3779b97f4a7c15ull; p->_props = i; p->_link = last; p->_attr = last / 2;
        if (last) crefl_decl_ptr(crefl_lookup(db, last))->_next = crefl_decl_idx(r);
        last = crefl_decl_idx(r);
        if (!db->root_element) db->root_element = last;
    }
    return db;
}

static void generations(int a, int la, int b, int lb, int gens)
{
    decl_db *db = sized(a, la);
    for (int g = 0; g < gens; g++) {
        std::string s = save(db, "generation");
        decl_db *l = load(s, "generation");
        if (!l) break;
        same(db, l, "generation");
        sized(b, lb, l); sized(b, lb, db);
        same(db, l, "extended after loading");
        full(l, "extended after loading", false, false);
        crefl_db_destroy(db); db = l;
    }
    crefl_db_destroy(db);
}

void mc_explore()
{
    const bool T = mc::thorough;
    { auto all = corpus(); for (auto &i : all) if (mc::begin("image %s", i.name.c_str())) {
        decl_db *db = gr::load(i);
        if (db->root_element) {
            if (save(db, "image") != std::string(i.b.begin(), i.b.end())) mc::fail("an image of the plug-in saves as other octets");
            full(db, "image", i.b.size() < 2000, true);
            decl_db *l = gr::load(i); sized(3, 9, l); sized(3, 9, db); same(db, l, "extended"); full(l, "extended", false, false); crefl_db_destroy(l);
        }
        crefl_db_destroy(db);
    } }
    /* one and two nodes with all their references, three nodes with next and link */
    for (int p = 0; p < 6; p++) {
        for (int x = 0; x < 27; x++) if (mc::begin("raw 1 %d %d", p, x)) raw(1, x, p, true, true);
        for (int x = 0; x < 4096; x += 16) if (mc::begin("raw 2 %d %d", p, x)) for (int y = x; y < x + 16; y++) { mc::sub(y); raw(2, y, p, true, y % 61 == 0); }
    }
    for (int p = 0; p < (T ? 6 : 1); p++)
        for (int x = 0; x < 15625; x += 125) if (mc::begin("raw 3 %d %d", p, x)) for (int y = x; y < x + 125; y++) { mc::sub(y); raw(3, y, p + 1, false, false); }
    if (T) for (int x = 0; x < 1953125; x += 5000) if (mc::begin("raw 3a %d", x)) for (int y = x; y < x + 5000 && y < 1953125; y++) { mc::sub(y); raw(3, y, 3, true, false); }
    if (mc::begin("field values")) field_values();
    /* counts and name sizes across growth */
    for (int n = 1; n <= (T ? 1100 : 300); n += 1) if (mc::begin("count %d", n)) for (int len : { 0, 1, 3, 30 }) { decl_db *db = sized(n, len); full(db, "count", n <= 8, n % 16 < 2); crefl_db_destroy(db); }
    for (int n : { 511, 512, 513, 1001, 1002, 1023, 1024, 1025, 2047, 2048, 4073, 4074, 4075, 4096, 8192, 20000, 65511, 65512, 65513, 65534, 65535, 65536, 65537, 131072, 131073 }) if (mc::begin("count %d", n)) { decl_db *db = sized(n, 5); full(db, "count", false, true); crefl_db_destroy(db); }
    for (int len = 1; len <= (T ? 5000 : 1100); len++) if (mc::begin("name %d", len)) for (int n : { 1, 2, 5 }) { decl_db *db = sized(n, len); full(db, "name", false, len % 32 < 2); crefl_db_destroy(db); }
    for (int len : { 4095, 4096, 65534, 65535, 65536, 1 << 20 }) if (mc::begin("name %d", len)) { decl_db *db = sized(2, len); full(db, "name", false, true); crefl_db_destroy(db); }
    /* catalogue graphs, every capacity, through files, and merged archives */
    for (auto &v : sources(2)) if (mc::begin("source %s", show(v).c_str())) {
        std::vector<decl_id> id; decl_db *db = build(source(v), id);
        full(db, "source", v.size() < 2, true);
        decl_db *in[2] = { db, db }, *m = crefl_db_new();
        crefl_link_merge(m, "m.refl", in, 2);
        full(m, "merged", false, false);
        crefl_db_destroy(m); crefl_db_destroy(db);
    }
    /* extended after loading: every remainder of both stores */
    for (int a = 1; a <= (T ? 140 : 48); a++) for (int la : { 0, 1, 7, 31 }) if (mc::begin("generations %d %d", a, la))
        for (int b : { 1, 2, 9, 33 }) for (int lb : { 0, 2, 40 }) { mc::sub(b, lb); generations(a, la, b, lb, 2); }
    if (mc::begin("generations deep")) generations(1, 3, 1, 5, 40);
}
