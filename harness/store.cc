/* P05: adding never disturbs what is stored; databases and indexes are independent */
#include "graphs.h"
#include <crefl/dump.h>
using namespace gr;

struct Rec { decl_id id; u32 tag, props; u64 qty; decl_id name, next, link, attr; };
/* what one database is expected to hold */
struct Model {
    decl_db *db; std::vector<Rec> d; std::vector<std::pair<decl_id, std::string>> names; u64 n = 0; u32 salt;
    std::unordered_set<decl_id> ids;   /* of d */
    size_t base;
    Model(u32 salt, bool defaults = true) : salt(salt) { db = crefl_db_new(); if (defaults) crefl_db_defaults(db); take(); }
    ~Model() { crefl_db_destroy(db); }
    void take()
    {
        /* learn what is there already */
        d.clear();
        base = db->decl_offset;
        for (size_t i = 0; i < base; i++) { decl_ref r = crefl_lookup(db, i); d.push_back({ (decl_id)i, crefl_decl_tag(r), crefl_decl_props(r), crefl_decl_qty(r), crefl_decl_ptr(r)->_name, crefl_decl_idx(crefl_decl_next(r)) ? (decl_id)crefl_decl_idx(crefl_decl_next(r)) : 0, (decl_id)crefl_decl_idx(crefl_decl_link(r)), (decl_id)crefl_decl_idx(crefl_decl_attr(r)) }); if (crefl_decl_has_name(r)) names.push_back({ crefl_decl_ptr(r)->_name, crefl_decl_name(r) }); }
    }
    void decl(u32 tag)
    {
        decl_ref r = crefl_decl_new(db, tag);
        mc::op();
        if (r.db != db) mc::fail("new declaration in another database");
        if (ids.size() != d.size()) { ids.clear(); for (auto &x : d) ids.insert(x.id); }
        if (!ids.insert(crefl_decl_idx(r)).second) { mc::fail("new declaration reuses number %u", (unsigned)crefl_decl_idx(r)); return; }
        decl_node *p = crefl_decl_ptr(r);
        if (p->_tag != tag || p->_props || p->_name || p->_next || p->_link || p->_attr || p->_quantity) mc::fail("new declaration %zu does not start empty: tag %u props %u name %u next %u link %u attr %u qty %llu", crefl_decl_idx(r), p->_tag, p->_props, p->_name, p->_next, p->_link, p->_attr, p->_quantity);
        if (crefl_decl_idx(crefl_lookup(db, crefl_decl_idx(r))) != crefl_decl_idx(r)) mc::fail("lookup");
        n++;
        u64 q = (n * 2 + salt) * 0x9e3779b97f4a7c15ull;
        Rec x{ (decl_id)crefl_decl_idx(r), tag, (u32)(q >> 32), q, names.empty() ? 0 : names.back().first, (decl_id)n, (decl_id)(n * 3), (decl_id)(n * 5 + salt) };
        p->_props = x.props; p->_quantity = q; p->_name = x.name; p->_next = x.next; p->_link = x.link; p->_attr = x.attr;
        d.push_back(x);
    }
    void name(const std::string &s)
    {
        decl_id i = crefl_name_new(db, s.c_str());
        mc::op();
        names.push_back({ i, s });
    }
    void check(const char *what, bool all = true)
    {
        size_t lo = all || d.size() < 60 ? 0 : d.size() - 40;
        for (size_t k = lo; k < d.size(); k++) {
            const Rec &x = d[k]; decl_ref r = crefl_lookup(db, x.id); decl_node *p = crefl_decl_ptr(r);
            if (p->_tag != x.tag || p->_props != x.props || p->_quantity != x.qty || p->_name != x.name || p->_next != x.next || p->_link != x.link || p->_attr != x.attr) { mc::fail("%s: declaration %u changed", what, x.id); return; }
        }
        lo = all || names.size() < 60 ? 0 : names.size() - 40;
        for (size_t k = lo; k < names.size(); k++) if (names[k].second != db->name + names[k].first) { mc::fail("%s: name %zu (%zu characters) changed", what, k, names[k].second.size()); return; }
        if (db->name[0]) mc::fail("%s: the empty name is not empty", what);
        mc::state();
    }
};

/* names of the database's own table, or the ends of them, given again as names, also where the table has to grow for them */
static void again(int first, int which, bool index)
{
    Model m(1, false); decl_index *ix = crefl_index_new();
    std::vector<std::pair<decl_id, std::string>> in;
    auto text = [&](decl_id i) -> const char * { return (index ? ix->name : m.db->name) + i; };
    auto add = [&](const char *p, const std::string &s) {
        decl_id i = index ? crefl_entry_name_new(ix, p) : crefl_name_new(m.db, p); mc::op(); in.push_back({ i, s });
        for (auto &x : in) if (x.second != text(x.first)) { mc::fail("%s: name %zu of %zu reads back as \"%.40s\", not \"%.40s\"", index ? "index" : "database", (size_t)(&x - &in[0]), in.size(), text(x.first), x.second.c_str()); break; }
        mc::state();
    };
    std::string s; for (int i = 0; i < first; i++) s += (char)('a' + i % 26);
    add(s.c_str(), s);
    for (int n = 0; n < 8; n++) {
        auto x = in[which & 1 ? 0 : in.size() - 1]; size_t skip = which & 2 ? std::min<size_t>(n + 1, x.second.size() - 1) : 0;
        add(text(x.first) + skip, x.second.substr(skip));
        if (which & 4) m.decl(1 + n % 18);
    }
    crefl_index_destroy(ix);
}

static std::string nm(int len, int k) { std::string s(len, (char)('a' + k % 26)); if (len > 2) s[len - 1] = (char)('A' + k % 23); return s; }

/* operations on two databases */
static void run(const std::vector<int> &ops, bool defaults)
{
    Model a(1, defaults), b(2, defaults); int k = 0;
    Model *m[2] = { &a, &b };
    for (int o : ops) {
        Model &x = *m[o & 1]; k++;
        Snap other(m[!(o & 1)]->db);
        switch (o >> 1) {
        case 0: x.decl(1 + k % 18); break;
        case 1: x.name(""); break;
        case 2: x.name(nm(1 + k, k)); break;
        case 3: x.name(nm(29 + k, k)); break;
        case 4: for (int i = 0; i < 11; i++) x.decl(1 + (k + i) % 18); break;
        case 5: x.name(nm(300, k)); break;
        case 6: {
            /* an index over this database grows and is dropped */
            decl_index *ix = crefl_index_new(); Snap s(x.db);
            for (auto &r : x.d) crefl_entry_ref(ix, crefl_lookup(x.db, r.id));
            for (auto &n : x.names) crefl_entry_name_new(ix, n.second.c_str());
            crefl_index_destroy(ix);
            if (!(Snap(x.db) == s)) mc::fail("an index changed its database");
            break; }
        case 7: {
            /* save, damage, load elsewhere */
            std::string s(crefl_db_size(x.db), 0); crefl_db_write_mem(x.db, (uint8_t*)&s[0], s.size());
            decl_db *t = crefl_db_new(); s.resize(s.size() / 2); crefl_db_read_mem(t, (uint8_t*)s.data(), s.size()); crefl_db_destroy(t);
            Snap before(x.db); crefl_db_read_mem(x.db, (uint8_t*)s.data(), s.size());
            if (!(Snap(x.db) == before)) mc::fail("failed load changed the database");
            break; }
        }
        if (!(Snap(m[!(o & 1)]->db) == other)) mc::fail("operation %d on one database changed the other", o);
        a.check("sequence"); b.check("sequence");
    }
    mc::quiet();
}

static void sequences(int depth, int nops, int first, bool defaults)
{
    std::vector<int> o(depth, 0);
    for (int i = 0; i < depth; i++) o[i] = 0;
    /* enumerate all with o[0] = first */
    o[0] = first; uint64_t c = 0;
    for (;;) {
        mc::sub(c++); run(o, defaults);
        int i = depth - 1;
        while (i > 0 && ++o[i] == nops) o[i--] = 0;
        if (i == 0) break;
    }
}

/* many declarations and names, checked in full at each growth */
static void grow(int kind, int step)
{
    Model m(kind, kind % 2);
    for (int i = 0; i < (step ? 3000 : 140000); i++) {
        size_t cap = m.db->decl_size, nc = m.db->name_size;
        if (kind < 2) m.decl(i % 19); else if (kind < 4) m.name(nm(step, i)); else { m.name(nm(i % (step + 1), i)); m.decl(i % 19); }
        m.check("growth", i < 300 || cap != m.db->decl_size || nc != m.db->name_size || (i < 3000 && i % 256 == 0) || (i & 0xffff) < 2);
    }
    m.check("growth");
}

/* a great many declarations, each with its own value and some with a name */
static void millions(size_t n)
{
    decl_db *db = crefl_db_new();
    std::vector<size_t> id(n); std::map<size_t, decl_id> name;
    for (size_t i = 0; i < n; i++) {
        decl_ref d = crefl_decl_new(db, 1 + i % 18);
        id[i] = crefl_decl_idx(d);
        if (i && id[i] != id[i-1] + 1 && id[i] <= id[i-1]) mc::fail("declaration %zu has place %zu, after %zu", i, id[i], id[i-1]);
        crefl_decl_ptr(d)->_link = (decl_id)(i * 2654435761u);
        if (i % 97 == 0) crefl_decl_ptr(d)->_name = name[i] = crefl_name_new(db, ("n" + std::to_string(i)).c_str());
    }
    for (size_t i = 0; i < n; i++) {
        decl_ref d = crefl_lookup(db, id[i]);
        if (crefl_decl_idx(d) != id[i] || crefl_decl_tag(d) != 1 + i % 18 || crefl_decl_idx(crefl_decl_link(d)) != (decl_id)(i * 2654435761u)) { mc::fail("declaration %zu of %zu reads back with place %zu kind %u", i, n, (size_t)crefl_decl_idx(d), (unsigned)crefl_decl_tag(d)); break; }
        auto j = name.find(i);
        if (crefl_decl_has_name(d) != (j != name.end()) || (j != name.end() && "n" + std::to_string(i) != crefl_decl_name(d))) { mc::fail("declaration %zu of %zu reads back with name %.40s", i, n, crefl_decl_name(d)); break; }
    }
    mc::op(2 * n);
    crefl_db_destroy(db);
}

/* a fresh store filled to a size, then one name of a length */
static void edge(int pre, int len)
{
    Model m(1, false);
    if (pre) m.name(nm(pre, 1));
    m.name(nm(len, 2)); m.name(nm(1, 3)); m.name(nm(len, 4)); m.decl(1);
    m.check("name length");
}

/* load an image of a size, add to what was loaded */
static void loaded(int n, int len, int add, int alen)
{
    Model s(3);
    for (int i = 0; i < n; i++) { if (len) s.name(nm(len, i)); s.decl(i ? 1 + i % 15 : _decl_source); }
    for (size_t i = s.base; i < s.d.size(); i++) { Rec &x = s.d[i]; decl_node *p = crefl_decl_ptr(crefl_lookup(s.db, x.id)); x.next = p->_next = i + 1 < s.d.size() ? s.d[i + 1].id : 0; x.link = p->_link = s.d[i / 2].id; x.attr = p->_attr = 0; }
    s.db->root_element = s.d[s.base].id;
    std::string im(crefl_db_size(s.db), 0);
    crefl_db_write_mem(s.db, (uint8_t*)&im[0], im.size());
    Model t(4, false);
    t.names.clear();
    if (crefl_db_read_mem(t.db, (uint8_t*)im.data(), im.size()) != 0) { mc::fail("saved image of %d does not load", n); return; }
    t.names = s.names; t.take();
    if (t.d.size() != s.d.size()) mc::fail("loaded %zu of %zu", t.d.size(), s.d.size());
    for (int i = 0; i < add; i++) { if (alen) t.name(nm(alen, i)); t.decl(1 + i % 18); t.check("extended after loading"); s.check("source of the image", false); }
    s.check("source of the image");
}

/* indexes: entries and names stay put while they grow, and do not affect each other */
static void indexes(int step)
{
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    decl_index *ix[2] = { crefl_index_new(), crefl_index_new() };
    std::map<size_t, u32> put[2]; std::vector<std::pair<decl_id, std::string>> nn[2];
    for (int k = 0; k < 400; k++) for (int w = 0; w < 2; w++) {
        size_t i = (size_t)k * step + w;
        decl_entry_ref er = crefl_entry_ref(ix[w], decl_ref{ db, i });
        mc::op();
        decl_entry *e = crefl_entry_ptr(er);
        if (put[w].count(i) == 0) for (size_t b = 0; b < sizeof(*e); b++) if (((char*)e)[b]) { mc::fail("new index entry %zu is not empty", i); break; }
        memset(e, (k * 7 + w + 1) & 0xff, sizeof *e); put[w][i] = (k * 7 + w + 1) & 0xff;
        std::string s = nm((k * step) % 67, k + w);
        decl_id id = crefl_entry_name_new(ix[w], s.c_str()); nn[w].push_back({ id, s });
        if (k % 8 == 0 || k < 80) for (int v = 0; v < 2; v++) {
            for (auto &p : put[v]) { decl_entry *q = crefl_entry_ptr(crefl_entry_ref(ix[v], decl_ref{ db, p.first })); for (size_t b = 0; b < sizeof(*q); b++) if (((uint8_t*)q)[b] != p.second) { mc::fail("index entry %zu changed", p.first); break; } }
            for (auto &p : nn[v]) if (p.second != ix[v]->name + p.first) mc::fail("index name of %zu characters changed", p.second.size());
        }
        mc::state();
    }
    crefl_index_destroy(ix[0]); crefl_index_destroy(ix[1]); crefl_db_destroy(db);
}

/* work on one database (index, merge, dump, layout, save) while others exist */
static void workers(int op1, int op2, const std::vector<int> &x, const std::vector<int> &y)
{
    std::vector<decl_id> ia, ib;
    decl_db *a = build(source(x), ia), *b = build(source(y, "b.h"), ib), *m = nullptr;
    decl_index *ixa = crefl_index_new(), *ixb = crefl_index_new();
    crefl_index_scan(ixa, a);
    std::string ha = hash_of(ixa, a, a->root_element);
    Snap sa(a), sb(b);
    for (int o : { op1, op2 }) switch (o) {
        case 0: crefl_index_scan(ixb, b); break;
        case 1: { decl_db *in[2] = { a, b }; if (m) crefl_db_destroy(m); m = crefl_db_new(); crefl_link_merge(m, "m", in, 2); break; }
        case 2: crefl_db_dump(b); break;
        case 3: for (size_t i = 0; i < b->decl_offset; i++) crefl_type_width(crefl_lookup(b, i)); break;
        case 4: { std::string s(crefl_db_size(b), 0); crefl_db_write_mem(b, (uint8_t*)&s[0], s.size()); decl_db *t = crefl_db_new(); crefl_db_read_mem(t, (uint8_t*)s.data(), s.size()); decl_ref r = crefl_decl_new(t, _decl_union); crefl_decl_ptr(r)->_name = 1; crefl_db_destroy(t); break; }
        case 5: { decl_db *t = crefl_db_new(); crefl_db_defaults(t); for (int i = 0; i < 50; i++) { crefl_decl_new(t, 5); crefl_name_new(t, "foreign"); } crefl_db_destroy(t); break; }
    }
    mc::op(2);
    if (!(Snap(a) == sa) || !(Snap(b) == sb)) mc::fail("operations %d,%d changed a database", op1, op2);
    if (hash_of(ixa, a, a->root_element) != ha) mc::fail("operations %d,%d changed an index", op1, op2);
    decl_index *again = crefl_index_new(); crefl_index_scan(again, a);
    if (hash_of(again, a, a->root_element) != ha) mc::fail("operations %d,%d changed later hashes", op1, op2);
    crefl_index_destroy(again); crefl_index_destroy(ixa); crefl_index_destroy(ixb);
    if (m) crefl_db_destroy(m); crefl_db_destroy(a); crefl_db_destroy(b);
    mc::state(); mc::quiet();
}

void mc_explore()
{
    const bool T = mc::thorough;
    for (int def = 0; def < 2; def++) {
        for (int f = 0; f < 16; f++) for (int d = 1; d <= 3; d++) if (mc::begin("sequence %d %d %d", def, d, f)) sequences(d, 16, f, def);
        for (int f = 0; f < 10; f++) for (int d = 4; d <= (T ? 6 : 4); d++) if (mc::begin("sequence %d %d %d", def, d, f)) sequences(d, d > 4 ? 10 : 12, f, def);
    }
    for (int k = 0; k < 5; k++) for (int step : { 0, 1, 2, 5, 13, 31, 64 }) if (k > 1 || !step) if (mc::begin("grow %d %d", k, step)) grow(k, step);
    for (int len = 0; len <= (T ? 4200 : 1100); len++) if (mc::begin("name length %d", len)) for (int pre = 0; pre < 70; pre++) { mc::sub(pre); edge(pre, len); }
    for (int len : { 4095, 4096, 65535, 65536, 1 << 20 }) if (mc::begin("name length %d", len)) for (int pre : { 0, 1, 30, 31, 32 }) edge(pre, len);
    for (int n = 1; n <= (T ? 150 : 80); n++) if (mc::begin("loaded %d", n)) for (int len : { 0, 1, 5, 29, 130 }) for (int add : { 1, 5, 40 }) for (int al : { 0, 1, 33, 400 }) { mc::sub(len, add, al); loaded(n, len, add, al); }
    for (int first = 1; first <= (T ? 600 : 160); first++) if (mc::begin("own name %d", first)) for (int which = 0; which < 8; which++) for (int ix = 0; ix < 2; ix++) { mc::sub(which, ix); again(first, which, ix); }
    for (size_t n : { size_t(1) << 16, (size_t(1) << 20) + 3, (size_t(1) << 21) + 3 }) if (mc::begin("%zu declarations", n)) millions(T ? n * 2 : n);
    for (int step : { 1, 2, 3, 7, 16, 31, 32, 33, 64, 100, 1000 }) if (mc::begin("index %d", step)) indexes(step);
    auto ss = sources(1);
    for (size_t i = 0; i < ss.size(); i++) if (mc::begin("workers %zu", i)) for (size_t j = 0; j < ss.size(); j++) for (int p = 0; p < 6; p++) for (int q = 0; q < (T ? 6 : 2); q++) { mc::sub(j, p, q); workers(p, T ? q : (p + q * 2 + (int)j) % 6, ss[i], ss[j]); }
}
