/* P06: list and scalar queries */
#include "graphs.h"
using namespace gr;

static bool is_type(u32 t) { return t == _decl_typedef || t == _decl_intrinsic || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_array || t == _decl_pointer || t == _decl_qualifier; }
struct Q { const char *name; int (*f)(decl_ref, decl_ref *, size_t *); u32 parent; std::function<bool(u32)> match; };
static const std::vector<Q> &qs()
{
    static std::vector<Q> v{
        { "enum_constants", crefl_enum_constants, _decl_enum, [](u32 t) { return t == _decl_constant; } },
        { "set_constants", crefl_set_constants, _decl_set, [](u32 t) { return t == _decl_constant; } },
        { "struct_fields", crefl_struct_fields, _decl_struct, [](u32 t) { return t == _decl_field; } },
        { "union_fields", crefl_union_fields, _decl_union, [](u32 t) { return t == _decl_field; } },
        { "function_params", crefl_function_params, _decl_function, [](u32 t) { return t == _decl_param; } },
        { "source_decls", crefl_source_decls, _decl_source, [](u32) { return true; } },
        { "source_types", crefl_source_types, _decl_source, is_type },
        { "source_fields", crefl_source_fields, _decl_source, [](u32 t) { return t == _decl_field; } },
        { "source_functions", crefl_source_functions, _decl_source, [](u32 t) { return t == _decl_function; } },
        { "archive_sources", crefl_archive_sources, _decl_archive, [](u32 t) { return t == _decl_source; } },
    };
    return v;
}

static const size_t junk = 0x5a5a5a5a5a5a5a5aull;

static void call(const Q &q, decl_db *db, decl_id p, const std::vector<decl_id> &kid, size_t cap, int mode)
{
    /* mode 0: both, 1: no array, 2: no size, 3: neither */
    u32 pt = crefl_decl_tag(crefl_lookup(db, p));
    std::vector<decl_id> want;
    for (decl_id k : kid) if (q.match(crefl_decl_tag(crefl_lookup(db, k)))) want.push_back(k);
    decl_ref *r = (decl_ref*)malloc(cap * sizeof(decl_ref) + (cap ? 0 : 1));
    for (size_t i = 0; i < cap; i++) r[i] = decl_ref{ (decl_db*)junk, junk };
    size_t s = cap;
    int rc = q.f(crefl_lookup(db, p), mode & 1 ? nullptr : r, mode & 2 ? nullptr : &s);
    mc::op();
    if (pt != q.parent) {
        if (rc == 0) mc::fail("%s of a %s succeeds", q.name, crefl_tag_name(pt));
        if (s != cap) mc::fail("%s of a %s changes the size", q.name, crefl_tag_name(pt));
        for (size_t i = 0; i < cap; i++) if (r[i].db != (decl_db*)junk || r[i].decl_idx != junk) mc::fail("%s of a %s writes to the array", q.name, crefl_tag_name(pt));
    } else {
        if (rc != 0) mc::fail("%s fails (%d)", q.name, rc);
        if (!(mode & 2) && s != want.size()) mc::fail("%s reports %zu of %zu", q.name, s, want.size());
        size_t n = mode ? 0 : std::min(cap, want.size());
        for (size_t i = 0; i < n; i++) if (r[i].db != db || r[i].decl_idx != want[i]) mc::fail("%s: element %zu is %zu, expected %u", q.name, i, r[i].decl_idx, want[i]);
        for (size_t i = n; i < cap; i++) if (r[i].db != (decl_db*)junk || r[i].decl_idx != junk) mc::fail("%s: element %zu of %zu touched", q.name, i, n);
    }
    free(r);
}

static decl_db *list(const std::vector<int> &tags, u32 parent, std::vector<decl_id> &kid, decl_id &p)
{
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    p = crefl_decl_idx(crefl_decl_new(db, parent));
    db->root_element = p;
    decl_id last = 0; kid.clear();
    for (int t : tags) {
        decl_id k = crefl_decl_idx(crefl_decl_new(db, t));
        if (last) crefl_decl_ptr(crefl_lookup(db, last))->_next = k; else crefl_decl_ptr(crefl_lookup(db, p))->_link = k;
        kid.push_back(last = k);
    }
    return db;
}

static void lists(const std::vector<int> &tags, bool all_parents)
{
    std::vector<decl_id> kid; decl_id p;
    decl_db *db = list(tags, 0, kid, p);
    Snap *before = nullptr;
    for (auto &q : qs()) {
        crefl_decl_ptr(crefl_lookup(db, p))->_tag = q.parent;
        before = new Snap(db);
        for (size_t cap = 0; cap <= tags.size() + 1; cap++) call(q, db, p, kid, cap, 0);
        call(q, db, p, kid, 2, 1); call(q, db, p, kid, 2, 2); call(q, db, p, kid, 0, 3); call(q, db, p, kid, 0, 1);
        if (!(Snap(db) == *before)) mc::fail("%s changes the database", q.name);
        delete before;
        if (all_parents) for (u32 t = 0; t <= 20; t++) { crefl_decl_ptr(crefl_lookup(db, p))->_tag = t; if (t != q.parent) { call(q, db, p, kid, 3, 0); call(q, db, p, kid, 0, 3); } }
    }
    mc::state();
    crefl_db_destroy(db);
}

/* lists of many: no count may be cut to 16 bits */
static void biglist(size_t n, int mix)
{
    int core[] = { _decl_constant, _decl_field, _decl_param, _decl_source, _decl_function, _decl_struct, _decl_alias };
    std::vector<int> t; for (size_t i = 0; i < n; i++) t.push_back(core[mix == 6 ? i % 7 : i % 1000 ? mix : (mix + 1) % 7]);
    std::vector<decl_id> kid; decl_id p;
    decl_db *db = list(t, 0, kid, p);
    for (auto &q : qs()) {
        crefl_decl_ptr(crefl_lookup(db, p))->_tag = q.parent;
        for (size_t cap : { (size_t)0, (size_t)1, n & 0xffff, n - 1, n, n + 1 }) call(q, db, p, kid, cap, 0);
        call(q, db, p, kid, 0, 1); call(q, db, p, kid, n, 2);
    }
    mc::state();
    crefl_db_destroy(db);
}

static void scalars(u32 tag, u64 qty, u32 props, int link)
{
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    decl_ref o = crefl_decl_new(db, _decl_struct);
    decl_ref r = crefl_decl_new(db, tag);
    decl_id n = crefl_name_new(db, "name");
    decl_node *p = crefl_decl_ptr(r);
    p->_quantity = qty; p->_props = props; p->_next = b_byte; p->_attr = b_short; p->_name = n; p->_link = link == 0 ? 0 : link == 1 ? b_int : crefl_decl_idx(o);
    db->root_element = crefl_decl_idx(r);
    Snap before(db);
    struct P { const char *n; int (*f)(decl_ref); u32 t; } ps[] = {
        { "none", crefl_is_none, _decl_none }, { "intrinsic", crefl_is_intrinsic, _decl_intrinsic }, { "typedef", crefl_is_typedef, _decl_typedef }, { "set", crefl_is_set, _decl_set }, { "enum", crefl_is_enum, _decl_enum },
        { "struct", crefl_is_struct, _decl_struct }, { "union", crefl_is_union, _decl_union }, { "field", crefl_is_field, _decl_field }, { "array", crefl_is_array, _decl_array }, { "pointer", crefl_is_pointer, _decl_pointer },
        { "constant", crefl_is_constant, _decl_constant }, { "function", crefl_is_function, _decl_function }, { "param", crefl_is_param, _decl_param }, { "attribute", crefl_is_attribute, _decl_attribute }, { "value", crefl_is_value, _decl_value },
        { "archive", crefl_is_archive, _decl_archive }, { "source", crefl_is_source, _decl_source }, { "alias", crefl_is_alias, _decl_alias } };
    for (auto &x : ps) {
        if (!!x.f(r) != (tag == x.t)) mc::fail("is_%s of kind %u is wrong", x.n, tag);
        if (std::string(crefl_tag_name(x.t)) != x.n) mc::fail("name of kind %u is %s", x.t, crefl_tag_name(x.t));
    }
    if (std::string(crefl_tag_name(_decl_qualifier)) != "qualifier") mc::fail("name of kind qualifier");
    if (!crefl_is_any(r)) mc::fail("is_any"); if (!!crefl_is_type(r) != is_type(tag)) mc::fail("is_type of kind %u", tag);
    if (crefl_decl_tag(r) != tag || crefl_decl_props(r) != props || crefl_decl_qty(r) != qty || crefl_decl_idx(crefl_decl_next(r)) != b_byte || crefl_decl_idx(crefl_decl_attr(r)) != b_short || crefl_decl_idx(crefl_decl_link(r)) != p->_link) mc::fail("stored value of kind %u", tag);
    if (strcmp(crefl_decl_name(r), "name") || !crefl_decl_has_name(r)) mc::fail("name");
    if (crefl_decl_idx(crefl_root(db)) != crefl_decl_idx(r) || crefl_root(db).db != db || crefl_decl_idx(crefl_decl_void(r)) != 0 || crefl_decl_void(r).db != db || crefl_decl_ptr(r) != &db->decl[crefl_decl_idx(r)]) mc::fail("root, void or pointer");
    struct A { const char *n; decl_ref (*f)(decl_ref); u32 t; } as[] = { { "typedef", crefl_typedef_type, _decl_typedef }, { "field", crefl_field_type, _decl_field }, { "array", crefl_array_type, _decl_array }, { "pointer", crefl_pointer_type, _decl_pointer }, { "constant", crefl_constant_type, _decl_constant }, { "param", crefl_param_type, _decl_param } };
    for (auto &x : as) { decl_ref q = x.f(r); if (q.db != db || crefl_decl_idx(q) != (tag == x.t ? p->_link : 0)) mc::fail("%s_type of kind %u is %zu", x.n, tag, crefl_decl_idx(q)); }
    decl_raw v = crefl_constant_value(r);
    u64 want = tag == _decl_constant ? qty : 0;
    if (v.ux != want || v.sx != (s64)want || v.ub[0] != (u8)want || v.ud[1] != (u32)(want >> 32) || v.sw[1] != (s16)(want >> 16)) mc::fail("constant_value of kind %u is %llx", tag, v.ux);
    if ((u64)(uintptr_t)crefl_function_addr(r) != (tag == _decl_function ? qty : 0)) mc::fail("function_addr of kind %u", tag);
    if (crefl_array_count(r) != (tag == _decl_array ? qty : 0)) mc::fail("array_count of kind %u", tag);
    if (tag != _decl_intrinsic && crefl_intrinsic_width(r)) mc::fail("intrinsic_width of kind %u", tag);
    if (tag != _decl_struct && crefl_struct_width(r)) mc::fail("struct_width of kind %u", tag);
    if (tag != _decl_union && crefl_union_width(r)) mc::fail("union_width of kind %u", tag);
    if (tag != _decl_pointer && crefl_pointer_width(r)) mc::fail("pointer_width of kind %u", tag);
    mc::op(40); mc::state();
    if (!(Snap(db) == before)) mc::fail("a query changed the database");
    crefl_db_destroy(db);
}

static void lookup(bool user)
{
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    if (user) {
        crefl_decl_new(db, _decl_source);
        decl_ref f = crefl_decl_new(db, _decl_field); crefl_decl_ptr(f)->_width = 24; crefl_decl_ptr(f)->_props = _decl_uint;
        decl_ref r = crefl_decl_new(db, _decl_intrinsic); crefl_decl_ptr(r)->_width = 24; crefl_decl_ptr(r)->_props = _decl_uint;
        r = crefl_decl_new(db, _decl_intrinsic); crefl_decl_ptr(r)->_width = 32; crefl_decl_ptr(r)->_props = _decl_sint;
    }
    static const struct { u32 props; size_t w; const char *n; } known[] = { { _decl_uint, 8, "ubyte" }, { _decl_sint, 8, "byte" }, { _decl_uint, 16, "ushort" }, { _decl_sint, 16, "short" }, { _decl_uint, 32, "uint" }, { _decl_sint, 32, "int" }, { _decl_uint, 64, "ulong" }, { _decl_sint, 64, "long" }, { _decl_uint, 128, "ucent" }, { _decl_sint, 128, "cent" },
        { _decl_float, 16, "half" }, { _decl_float, 32, "float" }, { _decl_float, 64, "double" }, { _decl_float, 128, "quad" }, { _decl_cfloat, 32, "chalf" }, { _decl_cfloat, 64, "cfloat" }, { _decl_cfloat, 128, "cdouble" }, { _decl_cfloat, 256, "cquad" }, { _decl_sint, 1, "bool" }, { _decl_uint, 1, "bit" }, { _decl_void, 0, "void" } };
    for (auto &k : known) { decl_ref r = crefl_intrinsic(db, k.props, k.w); mc::op(); if (!crefl_is_intrinsic(r) || strcmp(crefl_decl_name(r), k.n)) mc::fail("builtin %x of %zu bits is %s, expected %s", k.props, k.w, crefl_decl_name(r), k.n); }
    std::vector<size_t> w; for (size_t i = 0; i <= 300; i++) w.push_back(i); for (size_t i : { 512ul, 1ul << 31, 1ul << 32, (1ul << 32) + 32, ~0ul }) w.push_back(i);
    for (u32 p = 0; p < 1024; p++) for (size_t x : w) {
        if (p >= 512 && x > 130) continue;
        u32 props = p < 512 ? p : (p & 255) | 1u << (9 + (p >> 8) * 5);
        decl_ref r = crefl_intrinsic(db, props, x); mc::op();
        size_t want = 0;
        for (size_t i = 1; i < db->decl_offset && !want; i++) if (db->decl[i]._tag == _decl_intrinsic && db->decl[i]._width == x && (db->decl[i]._props & props) == props) want = i;
        if (r.db != db || crefl_decl_idx(r) != want) mc::fail("lookup of %x, %zu bits gives %zu, expected %zu", props, x, crefl_decl_idx(r), want);
    }
    crefl_db_destroy(db);
}

void mc_explore()
{
    const bool T = mc::thorough;
    for (int a = -1; a < 19; a++) if (mc::begin("lists %d", a)) {
        if (a < 0) { lists({}, true); continue; }
        lists({ a }, true);
        for (int b = 0; b < 19; b++) { mc::sub(b); lists({ a, b }, true); for (int c = 0; c < 19; c++) { mc::sub(b, c); lists({ a, b, c }, T || (a + b + c) % 7 == 0); if (T) for (int d = 0; d < 19; d++) { mc::sub(b, c, d); lists({ a, b, c, d }, false); } } }
    }
    int core[] = { _decl_constant, _decl_field, _decl_param, _decl_source, _decl_function, _decl_struct, _decl_alias };
    for (int n = 4; n <= (T ? 7 : 5); n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 7; int blk = tot / 16 + 1; for (int x = 0; x < tot; x += blk) if (mc::begin("mixed %d %d", n, x)) for (int y = x; y < x + blk && y < tot; y++) { std::vector<int> t; int v = y; for (int i = 0; i < n; i++) { t.push_back(core[v % 7]); v /= 7; } mc::sub(y); lists(t, false); } }
    for (int n : { 16, 31, 32, 33, 64, 100, 300 }) for (int k = 0; k < 7; k++) if (mc::begin("long %d %d", n, k)) { std::vector<int> t; for (int i = 0; i < n; i++) t.push_back(core[k == 6 ? i % 7 : i % 3 == k % 3 ? core[0] == 0 ? 0 : k : (k + 1) % 7]); lists(t, false); }
    for (size_t n : { 32767ul, 32768ul, 32769ul, 65535ul, 65536ul, 65537ul, 131072ul, 200001ul }) for (int m = 0; m < 7; m++) if (mc::begin("many %zu %d", n, m)) biglist(n, m);
    for (u32 tag = 0; tag <= 22; tag++) if (mc::begin("scalars %u", tag)) {
        u32 t = tag < 20 ? tag : tag == 20 ? 31 : tag == 21 ? 255 : ~0u;
        for (int b = -1; b < 64; b++) for (int l = 0; l < 3; l++) scalars(t, b < 0 ? 0 : 1ull << b, b < 0 ? 0 : 1u << (b % 32), l);
        for (u64 q : { ~0ull, 0x123456789abcdef0ull, 0x8000000000000001ull, 0xffffffff00000000ull }) scalars(t, q, ~0u, 2);
    }
    for (int u = 0; u < 2; u++) if (mc::begin("builtin lookup %d", u)) lookup(u);
}
