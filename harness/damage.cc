/* P02: damaged reflection images are rejected and leave the database alone */
#include "corpus.h"
using namespace gr;

static u32 get32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static void put32(std::string &s, size_t o, u32 v) { for (int i = 0; i < 4; i++) s[o + i] = (char)(v >> 8 * i); }

static u32 nb_decl, nb_name;      /* sizes of the builtin part */

/* 0: must fail, 1: must load, 2: may do either */
static int verdict(const std::string &s)
{
    const uint8_t *p = (const uint8_t*)s.data();
    if (s.size() < 20 || memcmp(p, "crefl000", 8)) return 0;
    u64 cnt = get32(p + 8), nsz = get32(p + 12), root = get32(p + 16);
    if (20 + cnt * 32 + nsz > s.size()) return 0;
    if (nsz && p[20 + cnt * 32 + nsz - 1]) return 0;
    for (u64 i = 0; i < cnt; i++) {
        const uint8_t *n = p + 20 + 32 * i;
        if (get32(n + 8) >= nb_name + nsz) return 0;
        for (int k = 12; k <= 20; k += 4) if (get32(n + k) >= nb_decl + cnt) return 0;
    }
    if (cnt && root >= nb_decl + cnt) return 0;
    if (cnt == 0) return 2;
    if (root != nb_decl) return 2;
    return s.size() == 20 + cnt * 32 + nsz ? 1 : 2;
}

static volatile u64 sink;

/* every accessor of every declaration */
static void walk(decl_db *db)
{
    for (size_t i = 0; i < db->decl_offset; i++) {
        decl_ref d = crefl_lookup(db, i);
        sink += strlen(crefl_decl_name(d)) + crefl_decl_has_name(d) + crefl_decl_tag(d) + crefl_decl_props(d) + crefl_decl_qty(d) + strlen(crefl_tag_name(crefl_decl_tag(d)));
        for (decl_ref r : { crefl_decl_next(d), crefl_decl_link(d), crefl_decl_attr(d), crefl_typedef_type(d), crefl_field_type(d), crefl_array_type(d), crefl_pointer_type(d), crefl_constant_type(d), crefl_param_type(d) })
            sink += crefl_decl_tag(r) + strlen(crefl_decl_name(r));
        sink += crefl_array_count(d) + crefl_constant_value(d).ux + (uintptr_t)crefl_function_addr(d);
    }
    sink += crefl_decl_tag(crefl_root(db));
}

static std::string good;          /* a well-formed image */

static void one(const std::string &s, const char *what, int target = 0, bool after = false)
{
    int v = verdict(s);
    decl_db *db = crefl_db_new();
    if (target) {
        /* a database that is already in use */
        crefl_db_defaults(db);
        decl_ref r = crefl_decl_new(db, _decl_source);
        decl_id n = crefl_name_new(db, "mine"); crefl_decl_ptr(r)->_name = n;
        db->root_element = crefl_decl_idx(r);
    }
    Snap before(db);
    uint8_t *b = (uint8_t*)malloc(s.size() ? s.size() : 1);
    memcpy(b, s.data(), s.size());
    if (s.empty()) { free(b); b = (uint8_t*)malloc(0); }
    int r = crefl_db_read_mem(db, b, s.size());
    mc::op(); mc::state();
    if (memcmp(b, s.data(), s.size())) mc::fail("%s: loading changed the input", what);
    free(b);
    if (r != 0) {
        if (v == 1 && !target) mc::fail("%s: a well-formed image is rejected", what);
        if (!(Snap(db) == before)) mc::fail("%s: a failed load changed the database", what);
        walk(db);
        if (after) {
            decl_ref n = crefl_decl_new(db, _decl_union); { decl_node *q = crefl_decl_ptr(n); if (q->_tag != _decl_union || q->_props || q->_name || q->_next || q->_link || q->_attr || q->_quantity) mc::fail("%s: a declaration added after a failed load is not empty", what); }
            decl_id nm = crefl_name_new(db, "later"); crefl_decl_ptr(n)->_name = nm;
            if (crefl_decl_idx(n) != before.d.size() || strcmp(crefl_decl_name(n), "later")) mc::fail("%s: the database cannot be extended after a failed load", what);
        } else if (!target) {
            if (crefl_db_read_mem(db, (const uint8_t*)good.data(), good.size()) != 0) mc::fail("%s: a good image does not load after the failed one", what);
            else {
                decl_db *f = crefl_db_new(); crefl_db_read_mem(f, (const uint8_t*)good.data(), good.size());
                if (!(Snap(f) == Snap(db))) mc::fail("%s: a good image loads differently after the failed one", what);
                crefl_db_destroy(f);
            }
        }
    } else if (v == 0) {
        mc::fail("%s: accepted: count %u, names %u, root %u, %zu bytes", what, s.size() >= 20 ? get32((uint8_t*)&s[8]) : 0, s.size() >= 20 ? get32((uint8_t*)&s[12]) : 0, s.size() >= 20 ? get32((uint8_t*)&s[16]) : 0, s.size());
    } else {
        u64 cnt = get32((uint8_t*)&s[8]), nsz = get32((uint8_t*)&s[12]);
        if (cnt && !target) {
            bool ok = db->decl_offset == nb_decl + cnt && db->name_offset == nb_name + nsz && crefl_decl_idx(crefl_root(db)) < db->decl_offset;
            ok = ok && memcmp(db->name + nb_name, &s[20 + 32 * cnt], nsz) == 0;
            for (u64 i = 0; ok && i < cnt; i++) {
                const decl_node &n = db->decl[nb_decl + i]; const uint8_t *p = (const uint8_t*)&s[20 + 32 * i];
                ok = n._tag == get32(p) && n._props == get32(p + 4) && n._name == get32(p + 8) && n._next == get32(p + 12) && n._link == get32(p + 16) && n._attr == get32(p + 20) && n._quantity == (get32(p + 24) | (u64)get32(p + 28) << 32);
            }
            if (!ok) mc::fail("%s: loaded graph differs from the image", what);
        }
        if (target && cnt) mc::fail("%s: an image loads into a database that is in use", what);
        walk(db);
    }
    crefl_db_destroy(db);
    mc::quiet();
}

static std::vector<u32> interesting(u32 v, u32 cnt, u32 nsz, bool bits)
{
    std::vector<u32> r{ 0, 1, 2, nb_decl - 1, nb_decl, nb_decl + 1, nb_decl + cnt - 1, nb_decl + cnt, nb_decl + cnt + 1, cnt, cnt - 1, cnt + 1, nb_name - 1, nb_name, nb_name + nsz - 1, nb_name + nsz, nb_name + nsz + 1, nsz, nsz - 1, nsz + 1, v - 1, v + 1, v * 2, 31, 32, 33, 255, 256, 65535, 65536,
        0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x07ffffff, 0x08000000, 0x08000001, 0x10000000, 0xf8000000, 0u - nb_decl, 0u - nb_decl + 1, 0u - nb_name, 0u - 20, 0u - 32, 0u - cnt * 32 };
    if (bits) for (int b = 0; b < 32; b++) r.push_back(v ^ 1u << b);
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}

static std::string image(const std::vector<int> &sn)
{
    std::vector<decl_id> id; decl_db *db = build(source(sn), id);
    std::string s(crefl_db_size(db), 0);
    crefl_db_write_mem(db, (uint8_t*)&s[0], s.size());
    crefl_db_destroy(db);
    return s;
}

static std::string bare(int n, bool names)
{
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    for (int i = 0; i < n; i++) { decl_ref r = crefl_decl_new(db, i ? _decl_struct : _decl_source); if (!i) db->root_element = crefl_decl_idx(r); if (names) { decl_id m = crefl_name_new(db, i ? "bb" : "a"); crefl_decl_ptr(r)->_name = m; } }
    std::string s(crefl_db_size(db), 0);
    crefl_db_write_mem(db, (uint8_t*)&s[0], s.size());
    crefl_db_destroy(db);
    return s;
}

static void truncations(const std::string &s, bool file)
{
    for (size_t n = 0; n < s.size(); n++) { mc::sub(n); one(s.substr(0, n), "truncated", 0, n % 2); if (n % 7 == 0) one(s.substr(0, n), "truncated, database in use", 1); }
    for (size_t n = 1; n < 50; n++) { mc::sub(s.size() + n); one(s + std::string(n, (char)(n % 3 ? 0 : 'x')), "trailing bytes"); }
    if (!file) return;
    std::string p = mc::fmt("%s/t.refl", mc::workdir);
    for (size_t n = 0; n <= s.size(); n++) {
        mc::sub(n, 1);
        FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, n, f); fclose(f);
        decl_db *db = crefl_db_new(); Snap b(db);
        int r = crefl_db_read_file(db, p.c_str());
        mc::op();
        if ((r == 0) != (n == s.size())) mc::fail("file of %zu of %zu bytes: load %s", n, s.size(), r ? "fails" : "succeeds");
        if (r != 0 && !(Snap(db) == b)) mc::fail("failed file load changed the database");
        crefl_db_destroy(db); mc::quiet();
    }
}

static void fields(const std::string &s)
{
    u32 cnt = get32((uint8_t*)&s[8]), nsz = get32((uint8_t*)&s[12]);
    std::vector<size_t> at{ 0, 4, 8, 12, 16 };
    for (u32 i = 0; i < cnt; i++) for (int k = 0; k < 32; k += 4) at.push_back(20 + 32 * i + k);
    for (size_t o : at) for (u32 v : interesting(get32((uint8_t*)&s[o]), cnt, nsz, true)) {
        mc::sub(o, v); std::string t = s; put32(t, o, v); one(t, "field", 0, v & 1); if (v % 5 == 0) one(t, "field, database in use", 1);
    }
}

static void bytes(const std::string &s, int step)
{
    for (size_t o = 0; o < s.size(); o++) for (int v = 0; v < 256; v += (o < 20 ? 1 : step)) { mc::sub(o, v); std::string t = s; t[o] = v; one(t, "byte"); }
    for (size_t o = 0; o < s.size(); o++) { mc::sub(o, 256); std::string t = s; t.erase(o, 1); one(t, "byte removed"); t = s; t.insert(o, 1, 0); one(t, "byte inserted"); t = s; for (size_t k = o; k < t.size(); k++) t[k] = 0; one(t, "zeros from here"); t = s; for (size_t k = o; k < t.size(); k++) t[k] = (char)0xff; one(t, "ones from here"); }
}

/* header fields together, with the bytes that are there */
static void headers(const std::string &s)
{
    u32 cnt = get32((uint8_t*)&s[8]), nsz = get32((uint8_t*)&s[12]);
    std::vector<u32> c = interesting(cnt, cnt, nsz, false), n = interesting(nsz, cnt, nsz, false);
    for (u32 x = 0; x <= cnt + 2; x++) for (u32 y = 0; y <= nsz + 70; y++) { c.push_back(x); if (x == 0) n.push_back(y); }
    for (u32 x : c) { u64 l = (u64)x * 32; n.push_back((u32)(0u - l)); n.push_back((u32)(s.size() - 20 - l)); n.push_back((u32)(s.size() - 19 - l)); }
    std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
    std::sort(n.begin(), n.end()); n.erase(std::unique(n.begin(), n.end()), n.end());
    for (u32 x : c) for (u32 y : n) {
        mc::sub(x, y); std::string t = s; put32(t, 8, x); put32(t, 12, y); one(t, "header");
        for (u32 r : { 0u, 1u, nb_decl - 1, nb_decl + 1, nb_decl + x, ~0u }) if ((x + y + r) % 3 == 0) { put32(t, 16, r); one(t, "header and root"); }
    }
}

/* two fields at once */
static void pairs(const std::string &s)
{
    u32 cnt = get32((uint8_t*)&s[8]), nsz = get32((uint8_t*)&s[12]);
    std::vector<size_t> at;
    for (u32 i = 0; i < cnt; i++) for (int k = 8; k < 24; k += 4) at.push_back(20 + 32 * i + k);
    std::vector<u32> v{ 0, 1, nb_decl, nb_decl + cnt - 1, nb_decl + cnt, nb_name + nsz - 1, nb_name + nsz, ~0u };
    for (size_t a = 0; a < at.size(); a++) for (size_t b = a + 1; b < at.size(); b++) for (u32 x : v) for (u32 y : v) { mc::sub(at[a] << 16 | at[b], x, y); std::string t = s; put32(t, at[a], x); put32(t, at[b], y); one(t, "two fields"); }
    /* a field with a header count that would make it right */
    for (size_t a : at) for (int d = -3; d <= 3; d++) for (int e = -3; e <= 3; e++) { mc::sub(a, d + 8, e + 8); std::string t = s; put32(t, 8, cnt + d); put32(t, 12, nsz + e); put32(t, a, nb_decl + cnt + d); one(t, "field and header"); put32(t, a, nb_name + nsz + e); one(t, "name and header"); put32(t, a, nb_decl + cnt + d - 1); one(t, "field and header, inside"); }
}

/* a lost tail and a header that was adjusted to it, or not */
static void cut_header(const std::string &s)
{
    u32 cnt = get32((uint8_t*)&s[8]), nsz = get32((uint8_t*)&s[12]);
    for (u32 c = 0; c <= cnt; c++) for (size_t n = 20; n <= s.size(); n++) {
        mc::sub(c, n); std::string t = s.substr(0, n); put32(t, 8, c);
        one(t, "cut");
        u64 rest = n - 20;
        if (rest >= 32 * c) { put32(t, 12, (u32)(rest - 32 * c)); one(t, "cut, name size set"); put32(t, 12, (u32)(rest - 32 * c + 1)); one(t, "cut, name size one more"); }
        else { put32(t, 12, (u32)(rest - 32 * c)); one(t, "cut, name size wrapped"); }
    }
    (void)nsz;
}

void mc_explore()
{
    const bool T = mc::thorough;
    { decl_db *db = crefl_db_new(); crefl_db_defaults(db); nb_decl = db->decl_builtin; nb_name = db->name_builtin; crefl_db_destroy(db); }
    good = image({ 1, 9, 17 });
    std::vector<std::pair<std::string, std::string>> im;
    im.push_back({ "bare1", bare(1, false) }); im.push_back({ "named1", bare(1, true) }); im.push_back({ "bare2", bare(2, false) }); im.push_back({ "named2", bare(2, true) }); im.push_back({ "bare3", bare(3, true) });
    for (auto &v : sources(1)) im.push_back({ "source " + show(v), image(v) });
    for (auto &v : sources(2)) if (v.size() == 2 && (T || (v[0] * 23 + v[1]) % 29 == 0)) im.push_back({ "source " + show(v), image(v) });
    im.push_back({ "bare40", bare(40, true) });
    { size_t k = 0; for (auto &i : corpus()) if (i.b.size() < (T ? 4000u : 900u) && (T || k++ % 3 == 0)) im.push_back({ "image " + i.name, std::string(i.b.begin(), i.b.end()) }); }
    for (auto &i : im) {
        const std::string &s = i.second; const char *k = i.first.c_str();
        bool small = s.size() < 250;
        if (mc::begin("good %s", k)) { one(s, "undamaged"); one(s, "undamaged, database in use", 1); }
        if (mc::begin("truncated %s", k)) truncations(s, small);
        if (mc::begin("fields %s", k)) fields(s);
        if (mc::begin("bytes %s", k)) bytes(s, T || small ? 1 : 17);
        if ((small || T) && mc::begin("headers %s", k)) headers(s);
        if (s.size() < (T ? 400 : 120) && mc::begin("pairs %s", k)) pairs(s);
        if ((small || T) && mc::begin("cut %s", k)) cut_header(s);
    }
    /* short inputs of any content */
    if (mc::begin("short")) {
        for (int n = 0; n <= 60; n++) for (int v = 0; v < 256; v += n < 2 ? 1 : 15) { mc::sub(n, v); one(std::string(n, (char)v), "constant bytes"); if (n >= 8) { std::string t(n, (char)v); memcpy(&t[0], "crefl000", 8); one(t, "magic and constant bytes"); } }
        for (int v = 0; v < 65536; v++) { mc::sub(v); char c[2] = { (char)v, (char)(v >> 8) }; one(std::string(c, 2), "two bytes"); }
    }
}
