/* P09: merging preserves every source and shares identical types */
#include "corpus.h"
using namespace gr;

static decl_id resolve(decl_db *m, decl_id i)
{
    for (int k = 0; m->decl[i]._tag == _decl_alias; k++) { i = m->decl[i]._link; if (k > 50) { mc::fail("aliases go round"); return 0; } }
    return i;
}
static const char *nm(decl_db *d, decl_id i) { return d->name + d->decl[i]._name; }

/* the graphs below a (input) and b (merged) are the same, following aliases */
struct Bisim {
    decl_db *x, *m; std::set<std::pair<decl_id, decl_id>> seen; bool ok = true; std::string where;
    std::vector<std::pair<decl_id, decl_id>> todo;
    void bad(const char *what, decl_id a, decl_id b) { if (ok) where = mc::fmt("%s: %s %s (%u) became %s %s (%u)", what, crefl_tag_name(x->decl[a]._tag), nm(x, a), a, crefl_tag_name(m->decl[b]._tag), nm(m, b), b); ok = false; }
    bool go(decl_id a, decl_id b) { todo.push_back({ a, b }); while (ok && todo.size()) { auto p = todo.back(); todo.pop_back(); pair(p.first, p.second); } return ok; }
    void pair(decl_id a, decl_id b)
    {
        a = resolve(x, a); b = resolve(m, b);
        if (!seen.insert({ a, b }).second) return;
        if (a >= x->decl_offset || b >= m->decl_offset) { ok = false; where = "reference out of range"; return; }
        const decl_node &p = x->decl[a], &q = m->decl[b];
        if (p._tag == _decl_intrinsic && a < x->decl_builtin) { if (a != b) bad("builtin type", a, b); return; }
        if (p._tag != q._tag) return bad("kind", a, b);
        if (strcmp(nm(x, a), nm(m, b))) return bad("name", a, b);
        if (p._props != q._props) return bad("properties", a, b);
        if (p._quantity != q._quantity) return bad("quantity", a, b);
        list(p._attr, q._attr, a, b, "attributes");
        if (container(p._tag)) list(p._link, q._link, a, b, "children");
        else {
            if (!p._link != !q._link) return bad("reference", a, b);
            if (p._link) {
                if (m->decl[q._link]._tag == _decl_alias) return bad("reference leads to an alias", a, b);
                todo.push_back({ p._link, q._link });
            }
        }
    }
    void list(decl_id c, decl_id d, decl_id a, decl_id b, const char *what)
    {
        for (size_t n = 0; c || d; n++) {
            if (!c != !d) return bad(mc::fmt("%s, number %zu", what, n).c_str(), a, b);
            if (n > x->decl_offset) return bad("endless list", a, b);
            todo.push_back({ c, d }); c = x->decl[c]._next; d = m->decl[d]._next;
        }
    }
};

static void collect(decl_db *x, decl_id i, std::set<decl_id> &seen)
{
    std::vector<decl_id> st{ i };
    while (st.size()) {
        decl_id k = st.back(); st.pop_back();
        if (!k || !seen.insert(k).second) continue;
        const decl_node &n = x->decl[k];
        for (decl_id a = n._attr; a; a = x->decl[a]._next) st.push_back(a);
        if (container(n._tag)) for (decl_id c = n._link; c; c = x->decl[c]._next) st.push_back(c);
        else st.push_back(n._link);
    }
}

static size_t offsets(decl_db *d, decl_id i, std::vector<size_t> &o) { size_t s = 64; o.assign(64, 0); if (crefl_struct_fields_offsets(crefl_lookup(d, i), nullptr, o.data(), &s)) s = 0; return s; }

static std::string bytes(decl_db *m) { std::string s(crefl_db_size(m), 0); crefl_db_write_mem(m, (uint8_t*)&s[0], s.size()); return s; }

static void check(std::vector<decl_db*> in, const std::string &name, const char *what, bool share = true)
{
    std::vector<Snap> before; for (auto d : in) before.push_back(Snap(d));
    decl_db *m = crefl_db_new();
    int rc = crefl_link_merge(m, name.c_str(), in.data(), in.size());
    mc::op(); mc::state();
    if (rc != 0) mc::fail("%s: merge fails", what);
    for (size_t i = 0; i < in.size(); i++) if (!(Snap(in[i]) == before[i])) mc::fail("%s: input %zu changed", what, i);
    decl_id root = m->root_element;
    size_t sl = name.find_last_of('/'); std::string base = sl == std::string::npos ? name : name.substr(sl + 1);
    if (m->decl[root]._tag != _decl_archive || base != nm(m, root)) mc::fail("%s: root is %s %s", what, crefl_tag_name(m->decl[root]._tag), nm(m, root));
    for (size_t i = 0; i < m->decl_offset; i++) { const decl_node &n = m->decl[i]; if (n._next >= m->decl_offset || n._link >= m->decl_offset || n._attr >= m->decl_offset || n._name >= m->name_offset) { mc::fail("%s: declaration %zu refers outside", what, i); return; } }
    size_t k = 0; bool all = true;
    for (decl_id s = m->decl[root]._link; s; s = m->decl[s]._next, k++) {
        if (k >= in.size()) { mc::fail("%s: more than %zu sources", what, in.size()); break; }
        Bisim b{ in[k], m };
        if (!b.go(in[k]->root_element, s)) { all = false; mc::fail("%s: source %zu: %s", what, k, b.where.c_str()); }
        /* layout of every pair that corresponds */
        else for (auto &p : b.seen) {
            decl_id u = p.first, v = p.second; u32 t = in[k]->decl[u]._tag;
            if (t == _decl_struct || t == _decl_union || t == _decl_array || t == _decl_typedef || t == _decl_enum || t == _decl_set || t == _decl_qualifier) if (crefl_type_width(crefl_lookup(in[k], u)) != crefl_type_width(crefl_lookup(m, v))) mc::fail("%s: width of %s changed", what, nm(m, v));
            if (t == _decl_struct) { std::vector<size_t> o, q; if (offsets(in[k], u, o) != offsets(m, v, q) || o != q) mc::fail("%s: layout of %s changed", what, nm(m, v)); }
        }
    }
    if (k != in.size()) mc::fail("%s: %zu of %zu sources", what, k, in.size());
    size_t ns = 0, want = 0; for (auto d : in) want += d->decl[d->root_element]._tag == _decl_source;
    if (crefl_archive_sources(crefl_lookup(m, root), nullptr, &ns) || ns != want) mc::fail("%s: archive lists %zu of %zu sources", what, ns, want);
    if (share && all) {
        /* one declaration for each distinct content */
        std::set<std::string> hs; size_t got = 0;
        for (auto d : in) { decl_index *ix = crefl_index_new(); crefl_index_scan(ix, d); std::set<decl_id> r; collect(d, d->root_element, r); for (decl_id i : r) if (shared_kind(d->decl[i]._tag)) hs.insert(hash_of(ix, d, i)); crefl_index_destroy(ix); }
        for (size_t i = m->decl_builtin; i < m->decl_offset; i++) got += shared_kind(m->decl[i]._tag);
        if (got != hs.size()) mc::fail("%s: %zu structures, unions, enumerations, sets and functions stored, %zu distinct", what, got, hs.size());
    }
    /* usable like any other database */
    std::string im = bytes(m);
    decl_db *l = crefl_db_new();
    if (crefl_db_read_mem(l, (uint8_t*)im.data(), im.size())) mc::fail("%s: merged image does not load", what);
    else if (!(Snap(l) == Snap(m))) mc::fail("%s: merged image loads differently", what);
    decl_index *ix = crefl_index_new(), *iy = crefl_index_new();
    Snap sm(m); crefl_index_scan(ix, m); crefl_index_scan(iy, l);
    if (!(Snap(m) == sm)) mc::fail("%s: indexing changed the merged database", what);
    std::set<decl_id> r; collect(m, root, r);
    for (decl_id i : r) { if (!crefl_entry_is_valid(crefl_entry_ref(ix, crefl_lookup(m, i)))) { mc::fail("%s: merged declaration %u is not indexed", what, i); break; } if (hash_of(ix, m, i) != hash_of(iy, l, i)) { mc::fail("%s: index of the loaded archive differs", what); break; } }
    crefl_index_destroy(ix); crefl_index_destroy(iy);
    crefl_db_destroy(l); crefl_db_destroy(m);
    mc::quiet();
}

static decl_db *mk(const std::vector<int> &v, const char *name = "a.h") { std::vector<decl_id> id; return build(source(v, name), id); }
static void tuple(const std::vector<std::vector<int>> &t)
{
    std::vector<decl_db*> in; const char *names[] = { "a.h", "b.h", "a.h", "c.h" };
    for (size_t i = 0; i < t.size(); i++) in.push_back(mk(t[i], names[i % 4]));
    check(in, t.size() % 2 ? "all.refl" : "/tmp/x/all.refl", "tuple");
    for (auto d : in) crefl_db_destroy(d);
}

/* a source beside the same with one change */
static void changed(const G &g)
{
    uint64_t c = 0;
    std::vector<decl_id> id; decl_db *a = build(g, id);
    auto go = [&](const G &m, const char *what) { mc::sub(c++); std::vector<decl_id> i2; decl_db *b = build(m, i2); check({ a, b }, "m", what); check({ b, a }, "m", what); crefl_db_destroy(b); };
    for (size_t i = 2; i < g.n.size(); i++) {
        G m = g; N &x = m.n[i]; const N o = g.n[i];
        for (int b : { 0, 9, 10, 13, 24, 31 }) { x.props = o.props ^ (1u << b); go(m, "properties"); } x.props = o.props;
        for (int b : { 0, 1, 31, 32, 63 }) { x.qty = o.qty ^ (1ull << b); go(m, "quantity"); } x.qty = o.qty;
        for (std::string s : { std::string(""), o.name + "x", std::string("S"), std::string("zz") }) { x.name = s; go(m, "name"); } x.name = o.name;
        for (u32 t : { _decl_struct, _decl_union, _decl_enum, _decl_set, _decl_function }) if (container(o.tag)) { x.tag = t; go(m, "kind"); } x.tag = o.tag;
        for (auto l : { &N::kids, &N::attrs }) { auto w = o.*l; auto &v = x.*l; for (size_t k = 0; k < w.size(); k++) { v = w; v.erase(v.begin() + k); go(m, "removed"); if (k + 1 < w.size()) { v = w; std::swap(v[k], v[k + 1]); go(m, "reordered"); } } v = w; }
        { G m2 = g; int at = m2.add(_decl_attribute, "extra"); m2.n[i].attrs.push_back(at); go(m2, "attribute"); int v = m2.add(_decl_value, "", 0, 1); m2.n[at].link = v; go(m2, "attribute value"); int a2 = m2.add(_decl_attribute, "second"); m2.n[i].attrs.push_back(a2); go(m2, "two attributes"); std::rotate(m2.n[i].attrs.begin(), m2.n[i].attrs.end() - 1, m2.n[i].attrs.end()); go(m2, "attribute order"); }
        if (!container(o.tag)) { for (int b : { b_void, b_int, b_long, b_double }) { x.link = -b; go(m, "type"); } x.link = 0; go(m, "no type"); }
        else { G m2 = g; int f = m2.add(_decl_field, "extra"); m2.n[f].link = -b_int; m2.n[i].kids.push_back(f); go(m2, "added"); }
    }
    crefl_db_destroy(a);
}

static void many(int n, int m, int dup)
{
    /* n distinct structures, every dup-th twice; a second source with m of them in reverse */
    auto one = [&](int lo, int hi, bool rev, const char *name) {
        Ctx c; c.src = c.g.add(_decl_source, name);
        for (int k = lo; k < hi; k++) { int i = rev ? hi - 1 - (k - lo) : k; for (int d = 0; d <= (i % dup == 0); d++) { int s = decl(c, i % 3 ? _decl_struct : _decl_union, mc::fmt("S%d", i)); field(c, s, "x", -1 - i % 22); field(c, s, "p", wrap(c, _decl_pointer, s, 0, 64)); if (i > lo && !rev) field(c, s, "q", wrap(c, _decl_pointer, ref(c, mc::fmt("S%d", i - 1)), 0, 64)); } }
        std::vector<decl_id> id; return build(c.g, id);
    };
    decl_db *a = one(0, n, false, "a.h"), *b = one(0, m, true, "b.h"), *d = one(n / 2, n, false, "c.h");
    check({ a, b, d, a }, "many", "many");
    check({ d, a, b }, "many", "many");
    for (auto x : { a, b, d }) crefl_db_destroy(x);
}

/* B is the same text in both sources but leads to different A */
static void mutual(int order)
{
    auto mk = [&](bool extra, const char *name) {
        Ctx c; c.src = c.g.add(_decl_source, name);
        int A = decl(c, _decl_struct, "A"), B = decl(c, _decl_struct, "B");
        field(c, A, "b", wrap(c, _decl_pointer, B, 0, 64)); if (extra) field(c, A, "x", -b_int);
        field(c, B, "a", wrap(c, _decl_pointer, A, 0, 64)); field(c, B, "y", -b_int);
        std::vector<decl_id> id; return build(c.g, id);
    };
    decl_db *a = mk(order, "a.h"), *b = mk(!order, "b.h");
    check({ a, b }, "m", "mutual", false);
    crefl_db_destroy(a); crefl_db_destroy(b);
}

/* structures that each point to the next one, which is declared after it */
static void chain(int n, bool oracle)
{
    Ctx c; c.src = c.g.add(_decl_source, "a.h");
    std::vector<int> s;
    for (int i = 0; i < n; i++) s.push_back(decl(c, _decl_struct, mc::fmt("s%d", i)));
    for (int i = 0; i + 1 < n; i++) field(c, s[i], "next", wrap(c, _decl_pointer, s[i + 1], 0, 64));
    field(c, s[n - 1], "end", -b_int);
    std::vector<decl_id> id; decl_db *a = build(c.g, id);
    if (oracle) check({ a, a }, "chain", "chain");
    else {
        decl_db *m = crefl_db_new(), *in[1] = { a };
        crefl_link_merge(m, "m", in, 1);
        if (m->decl_offset + 1 < a->decl_offset) mc::fail("chain of %d: %zu declarations became %zu", n, a->decl_offset, m->decl_offset);
        crefl_db_destroy(m);
    }
    crefl_db_destroy(a);
}

/* images of the compiler plug-in: alone, twice, beside each other, three in turn */
static void images(const std::vector<Img> &all, size_t i)
{
    const bool T = mc::thorough;
    auto big = [&](size_t k) { return all[k].b.size() > 6000; };
    decl_db *a = load(all[i]);
    if (!a->root_element) { crefl_db_destroy(a); return; }
    check({ a }, "m", "alone"); check({ a, a }, "m", "twice");
    for (size_t j = 0; j < all.size(); j++) {
        if (j == i || (!T && big(i) && (i + j) % 4) || (!T && !big(i) && big(j) && (i + j) % 8)) continue;
        mc::sub(j);
        decl_db *b = load(all[j]);
        if (b->root_element) {
            check({ a, b }, "m", "two");
            if (!big(i) && !big(j) && (i * 7 + j) % (T ? 3 : 11) == 0) for (size_t k = i % 5; k < all.size(); k += 5) if (!big(k)) { decl_db *c = load(all[k]); if (c->root_element) check({ a, b, c, b }, "m", "three"); crefl_db_destroy(c); }
        }
        crefl_db_destroy(b);
    }
    crefl_db_destroy(a);
}

void mc_explore()
{
    const bool T = mc::thorough;
    { auto all = corpus(); for (size_t i = 0; i < all.size(); i++) if (mc::begin("images %s", all[i].name.c_str())) images(all, i); }
    auto s1 = sources(1), s2 = sources(2);
    for (auto &a : s2) if (mc::begin("one %s", show(a).c_str())) tuple({ a });
    for (auto &a : s1) for (auto &b : s1) if (mc::begin("two %s %s", show(a).c_str(), show(b).c_str())) tuple({ a, b });
    for (auto &a : s1) for (auto &b : s1) if (mc::begin("three %s %s", show(a).c_str(), show(b).c_str())) for (auto &c : s1) { mc::sub(c.size() ? c[0] : 99); tuple({ a, b, c }); }
    for (auto &a : s2) if (a.size() == 2 && mc::begin("pairs %s", show(a).c_str())) {
        for (auto &b : s1) { mc::sub(b.size() ? b[0] : 99); tuple({ a, b }); tuple({ b, a }); }
        tuple({ a, a }); tuple({ a, { a[1], a[0] } });
        if (T) for (auto &b : s2) { tuple({ a, b }); }
    }
    if (T) for (auto &a : sources(3)) if (a.size() == 3 && mc::begin("triple %s", show(a).c_str())) { tuple({ a, { a[2], a[1], a[0] } }); tuple({ a, { a[1] } }); }
    for (auto &a : s1) if (mc::begin("changed %s", show(a).c_str())) changed(source(a));
    for (auto &a : s2) if (a.size() == 2 && (T || (a[0] * 5 + a[1]) % 11 == 0)) if (mc::begin("changed %s", show(a).c_str())) changed(source(a));
    /* the same database several times, archives of archives */
    for (auto &a : s1) for (auto &b : s1) if (mc::begin("again %s %s", show(a).c_str(), show(b).c_str())) {
        decl_db *x = mk(a), *y = mk(b, "b.h"), *in[2] = { x, y }, *m = crefl_db_new();
        check({ x, y, x, x, y }, "again", "repeated");
        crefl_link_merge(m, "inner", in, 2);
        check({ m }, "outer", "archive of an archive", false); check({ m, x }, "outer", "archive and source", false); check({ y, m, m }, "outer", "source and archives", false);
        crefl_db_destroy(m); crefl_db_destroy(x); crefl_db_destroy(y);
    }
    for (int n : { 1, 2, 3, 7, 8, 13, 25, 26, 51, 52, 100, 101, 200, 409, 410, 820, 1700, 3300 }) if (mc::begin("many %d", n)) { many(n, n, 5); many(n, n / 2 + 1, 2); }
    for (int n : { 16000, 22000 }) if (mc::begin("many %d", n)) many(n, n / 2, 5);
    for (int n = 1; n <= (T ? 300 : 40); n++) if (mc::begin("arguments %d", n)) { std::vector<decl_db*> in; for (int i = 0; i < n; i++) in.push_back(mk({ i % 23, (i * 7) % 23 }, mc::fmt("s%d.h", i).c_str())); check(in, "args", "many sources"); for (auto d : in) crefl_db_destroy(d); }
    for (int o = 0; o < 2; o++) if (mc::begin("mutual recursion %d", o)) mutual(o);
    for (int n : { 2, 3, 10, 100, 500 }) if (mc::begin("chain %d", n)) chain(n, n <= 200);
    if (mc::begin("deep chain 200000")) chain(200000, false);
}
