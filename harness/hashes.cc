/* P08: type hashes stand for content and nothing else */
#include "corpus.h"
using namespace gr;

static std::unordered_map<int, std::string> by_sig;
static std::unordered_map<std::string, int> by_hash;

static void check(int sig, const std::string &h, const char *what, int i, const N &x)
{
    mc::state();
    auto a = by_sig.find(sig);
    if (a == by_sig.end()) {
        auto b = by_hash.find(h);
        if (b != by_hash.end() && b->second != sig) mc::fail("%s: node %d (%s %s): different content, same hash", what, i, crefl_tag_name(x.tag), x.name.c_str());
        by_sig[sig] = h; by_hash[h] = sig;
    } else if (a->second != h) mc::fail("%s: node %d (%s %s): same content, another hash", what, i, crefl_tag_name(x.tag), x.name.c_str());
}

/* nodes that the root leads to */
static void reach(const G &g, int i, std::vector<char> &r)
{
    if (i <= 0 || r[i]) return;
    r[i] = 1;
    for (int k : g.n[i].kids) reach(g, k, r);
    for (int k : g.n[i].attrs) reach(g, k, r);
    if (!container(g.n[i].tag)) reach(g, g.n[i].link, r);
}

static void names(const G &g, int i, int p, std::string prefix, std::vector<std::string> &fq, std::vector<char> &has)
{
    const N &x = g.n[i];
    /* array and pointer nodes are not declarations; their place has no name of its own */
    bool top = p == 0 || g.n[p].tag == _decl_source || g.n[p].tag == _decl_archive;
    std::string f = top ? x.name : x.name.empty() ? prefix : prefix.empty() ? x.name : prefix + "::" + x.name;
    if (i == 1) f = x.name;
    /* the name of an unnamed top-level declaration, and of what it contains, is left open */
    fq[i] = f; has[i] = i == 1 || (f.size() && !(prefix.empty() && !top));
    if (container(x.tag)) for (int k : x.kids) names(g, k, i, f, fq, has);
}

static std::vector<std::string> one(const G &g, const char *what, const std::vector<int> *order = nullptr, bool deep = true, decl_db *db = nullptr, std::vector<decl_id> id = {})
{
    if (!db) db = build(g, id, order);
    decl_index *ix = crefl_index_new();
    Snap before(db);
    crefl_index_scan(ix, db);
    mc::op(g.n.size());
    if (!(Snap(db) == before)) mc::fail("%s: indexing changed the database", what);
    Sig sig(g); sig.of(1);
    std::vector<char> r(g.n.size(), 0); reach(g, 1, r);
    std::vector<std::string> hs(g.n.size());
    for (size_t i = 1; i < g.n.size(); i++) if (r[i]) {
        hs[i] = hash_of(ix, db, id[i]);
        if (!crefl_entry_is_valid(crefl_entry_ref(ix, crefl_lookup(db, id[i])))) mc::fail("%s: node %zu not indexed", what, i);
        check(sig.of(i), hs[i], what, i, g.n[i]);
    }
    std::vector<std::string> fq(g.n.size()); std::vector<char> has(g.n.size(), 0);
    names(g, 1, 0, "", fq, has);
    for (size_t i = 1; i < g.n.size(); i++) if (has[i] && g.n[i].tag != _decl_array && g.n[i].tag != _decl_pointer) {
        const char *f = crefl_entry_fqn(crefl_entry_ref(ix, crefl_lookup(db, id[i])));
        if (fq[i] != f) mc::fail("%s: node %zu (%s %s) is named %s, expected %s", what, i, crefl_tag_name(g.n[i].tag), g.n[i].name.c_str(), f, fq[i].c_str());
    }
    if (deep) {
        /* again into the same index, into a second one, and after another database */
        decl_index *i2 = crefl_index_new();
        crefl_index_scan(ix, db); crefl_index_scan(i2, db);
        for (size_t i = 1; i < g.n.size(); i++) if (r[i]) {
            if (hash_of(ix, db, id[i]) != hs[i]) mc::fail("%s: second scan changed the hash of node %zu", what, i);
            if (hash_of(i2, db, id[i]) != hs[i]) mc::fail("%s: another index gives another hash for node %zu", what, i);
        }
        crefl_index_destroy(i2);
    }
    crefl_index_destroy(ix); crefl_db_destroy(db);
    return hs;
}

static void same(const G &g, const std::vector<std::string> &a, const std::vector<std::string> &b, const char *what)
{
    for (size_t i = 1; i < g.n.size(); i++) if (a[i] != b[i]) { mc::fail("%s: hash of node %zu (%s %s) depends on where declarations are stored", what, i, crefl_tag_name(g.n[i].tag), g.n[i].name.c_str()); return; }
}

static void renumber(const G &g, bool full)
{
    auto base = one(g, "base", nullptr, false);
    size_t n = g.n.size() - 1;
    std::vector<int> o(n); for (size_t i = 0; i < n; i++) o[i] = i + 1;
    if (n <= 5 && full) {
        do same(g, base, one(g, "permuted", &o, false), "permuted"); while (std::next_permutation(o.begin(), o.end()));
        return;
    }
    auto p = o; std::reverse(p.begin(), p.end()); same(g, base, one(g, "reversed", &p, false), "reversed");
    for (size_t k = 1; k < n; k++) { p = o; std::rotate(p.begin(), p.begin() + k, p.end()); same(g, base, one(g, "rotated", &p, false), "rotated"); }
    for (size_t k = 0; k + 1 < n; k++) { p = o; std::swap(p[k], p[k + 1]); same(g, base, one(g, "swapped", &p, false), "swapped"); }
}

/* every single change of content */
static void mutate(const G &g)
{
    uint64_t k = 0;
    auto go = [&](const G &m, const char *what) { mc::sub(k++); one(m, what, nullptr, false); };
    for (size_t i = 1; i < g.n.size(); i++) {
        G m = g; N &x = m.n[i]; const N &o = g.n[i];
        for (int b = 0; b < 32; b++) { x.props = o.props ^ (1u << b); go(m, "props"); }
        x.props = o.props;
        for (int b = 0; b < 64; b++) { x.qty = o.qty ^ (1ull << b); go(m, "quantity"); }
        x.qty = o.qty;
        for (std::string s : { std::string(""), o.name + "x", std::string("q") + o.name, o.name.size() ? o.name.substr(1) : std::string("zz"), std::string(300, 'n'), o.name + "::", std::string(";P=") + o.name }) { x.name = s; go(m, "name"); }
        x.name = o.name;
        for (u32 t = _decl_intrinsic; t <= _decl_source; t++) if (container(t) == container(o.tag)) { x.tag = t; go(m, "kind"); }
        x.tag = o.tag;
        for (auto l : { &N::kids, &N::attrs }) {
            auto &v = x.*l; auto w = o.*l;
            for (size_t a = 0; a < w.size(); a++) { v = w; v.erase(v.begin() + a); go(m, "removed"); }
            for (size_t a = 0; a + 1 < w.size(); a++) { v = w; std::swap(v[a], v[a + 1]); go(m, "reordered"); }
            v = w;
        }
        { G m2 = g; int a = m2.add(_decl_attribute, "extra"); m2.n[i].attrs.push_back(a); go(m2, "attribute"); int v = m2.add(_decl_value, "", 0, 1); m2.n[a].link = v; go(m2, "attribute value"); std::rotate(m2.n[i].attrs.begin(), m2.n[i].attrs.end() - 1, m2.n[i].attrs.end()); go(m2, "first attribute"); }
        if (!container(o.tag)) {
            for (int b = 0; b < b_end; b++) { x.link = -b; go(m, "link"); }
            for (int t : { _decl_pointer, _decl_array, _decl_qualifier, _decl_typedef }) { G m2 = g; int w = m2.add(t); m2.n[w].link = o.link; m2.n[i].link = w; go(m2, "wrapped"); }
            x.link = o.link;
        } else {
            G m2 = g; int f = m2.add(_decl_field, "extra"); m2.n[f].link = -b_int; m2.n[i].kids.push_back(f); go(m2, "added"); std::rotate(m2.n[i].kids.begin(), m2.n[i].kids.end() - 1, m2.n[i].kids.end()); go(m2, "added first");
        }
    }
}

/* two structures that refer to each other, declared in either order */
static void mutual(int order, int kind)
{
    G g; int s = g.add(_decl_source, "a.h"), A = g.add(kind ? _decl_union : _decl_struct, "A"), B = g.add(_decl_struct, "B");
    if (order) { g.kid(s, B); g.kid(s, A); } else { g.kid(s, A); g.kid(s, B); }
    auto ptr = [&](int p, const char *nm, int t) { int f = g.add(_decl_field, nm), q = g.add(_decl_pointer, "", 0, 64); g.kid(p, f); g.n[f].link = q; g.n[q].link = t; };
    ptr(A, "b", B); ptr(B, "a", A);
    std::vector<decl_id> id; decl_db *db = build(g, id); decl_index *ix = crefl_index_new();
    crefl_index_scan(ix, db);
    static std::map<int, std::string> ha[2], hb[2];
    std::string a = hash_of(ix, db, id[A]), b = hash_of(ix, db, id[B]);
    ha[order][kind] = a; hb[order][kind] = b;
    auto &o = ha[!order]; auto &p = hb[!order];
    if (o.count(kind) && (o[kind] != a || p[kind] != b)) mc::fail("the hashes of A and B depend on which of them is declared first");
    crefl_index_destroy(ix); crefl_db_destroy(db);
}

/* structures that each point to the next one, which is declared after it */
static void chain(int n, bool oracle)
{
    Ctx c; c.src = c.g.add(_decl_source, "a.h");
    std::vector<int> s;
    for (int i = 0; i < n; i++) s.push_back(decl(c, _decl_struct, mc::fmt("s%d", i).c_str()));
    for (int i = 0; i + 1 < n; i++) field(c, s[i], "next", wrap(c, _decl_pointer, s[i + 1], 0, 64));
    field(c, s[n - 1], "end", -b_int);
    if (oracle) { one(c.g, "chain"); return; }
    std::vector<decl_id> id; decl_db *db = build(c.g, id); decl_index *ix = crefl_index_new();
    crefl_index_scan(ix, db);
    for (int i = 1; i < n; i++) if (hash_of(ix, db, id[s[i]]) == hash_of(ix, db, id[s[i - 1]])) mc::fail("chain of %d: different content, same hash", n);
    crefl_index_destroy(ix); crefl_db_destroy(db);
}

/* names that differ in one character only, wherever it is and however long they are */
static void longname(size_t len, const std::vector<size_t> &at)
{
    Ctx c; c.src = c.g.add(_decl_source, "a.h");
    std::vector<std::string> nm { std::string(len, 'n') };
    for (size_t p : at) { nm.push_back(nm[0]); nm.back()[p] = 'm'; }
    nm.push_back(nm[0] + "n"); nm.push_back(nm[0] + "m");
    int k = 0;
    for (auto &s : nm) {
        for (u32 t : { _decl_struct, _decl_union, _decl_typedef }) { int d = decl(c, t, s, 0, 0, false); if (t == _decl_typedef) c.g.n[d].link = -b_int; }
        int d = decl(c, _decl_struct, mc::fmt("s%d", k), 0, 0, false); field(c, d, s, -b_int);
        d = decl(c, _decl_enum, mc::fmt("e%d", k), 0, 32, false); c.g.kid(d, wrap(c, _decl_constant, -b_int, 0, 1, s));
        func(c, mc::fmt("f%d", k), 0, -b_int, { { s, -b_int } });
        d = decl(c, _decl_struct, "A", 0, 0, false); attr(c, d, s);
        d = decl(c, _decl_struct, "A", 0, 0, false); attr(c, d, "value", 1, s);
        k++;
    }
    one(c.g, "long name", nullptr, false);
}

/* an image of the compiler plug-in: as it is, rebuilt in other orders, with every change */
static void image(const Img &i, bool changes)
{
    decl_db *db = load(i);
    if (!db->root_element) { crefl_db_destroy(db); return; }
    std::vector<decl_id> id;
    G g = graph(db, id);
    auto a = one(g, "image", nullptr, true, db, id);
    size_t n = g.n.size() - 1;
    std::vector<int> o(n); for (size_t k = 0; k < n; k++) o[k] = k + 1;
    same(g, a, one(g, "rebuilt", &o, false), "rebuilt");
    std::reverse(o.begin(), o.end()); same(g, a, one(g, "reversed", &o, false), "reversed");
    for (size_t k : { (size_t)1, n / 3, n / 2, n - 1 }) if (k < n) { std::rotate(o.begin(), o.begin() + k, o.end()); same(g, a, one(g, "rotated", &o, false), "rotated"); }
    if (changes) mutate(g);
}

void mc_explore()
{
    mc::max_viol = 100;
    { auto all = corpus(); for (size_t k = 0; k < all.size(); k++) if (mc::begin("image %s", all[k].name.c_str())) image(all[k], all[k].b.size() < 3000 && (mc::thorough || k % 3 == 0)); }
    for (auto &v : sources(mc::thorough ? 3 : 2))
        if (mc::begin("source %s", show(v).c_str())) one(source(v), "source");
    for (auto &v : sources(1)) if (mc::begin("renumber %s", show(v).c_str())) renumber(source(v), true);
    for (auto &v : sources(2)) if (v.size() == 2 && mc::begin("renumber %s", show(v).c_str())) renumber(source(v), mc::thorough);
    for (auto &v : sources(1)) if (mc::begin("change %s", show(v).c_str())) mutate(source(v));
    for (auto &v : sources(2)) if (v.size() == 2 && (mc::thorough || (v[0] * 7 + v[1]) % 5 == 0)) if (mc::begin("change %s", show(v).c_str())) mutate(source(v));
    for (size_t n = 1; n <= 300; n++) if (mc::begin("name length %zu", n)) longname(n, { 0, n / 2, n - 1 });
    for (size_t e = 9; e <= (mc::thorough ? 18 : 16); e++) for (int d = -2; d <= 2; d++) { size_t n = ((size_t)1 << e) + d; if (mc::begin("name length %zu", n)) longname(n, { 0, 254, 255, 256, n / 2, n - 1 }); }
    if (mc::begin("names that differ in one place")) { std::vector<size_t> at; for (size_t i = 0; i < 1100; i++) at.push_back(i); longname(1100, at); }
    for (int kind = 0; kind < 2; kind++) if (mc::begin("mutual recursion %d", kind)) { mutual(0, kind); mutual(1, kind); }
    for (int n : { 2, 3, 10, 100, 1000 }) if (mc::begin("chain %d", n)) chain(n, n <= 300);
    if (mc::begin("deep chain 200000")) chain(200000, false);
    for (int depth : { 1, 2, 10, 100, 1000, 5000 }) {
        if (mc::begin("pointer depth %d", depth)) { Ctx c; c.src = c.g.add(_decl_source, "a.h"); int s = decl(c, _decl_struct, "S"); int t = s; for (int i = 0; i < depth; i++) t = wrap(c, i % 2 ? _decl_pointer : _decl_array, t, 0, i); field(c, s, "f", t); one(c.g, "deep"); }
        if (mc::begin("list length %d", depth)) { Ctx c; c.src = c.g.add(_decl_source, "a.h"); int s = decl(c, _decl_struct, "S"); for (int i = 0; i < depth; i++) field(c, s, mc::fmt("f%d", i), -b_int); one(c.g, "long"); }
        if (depth == 5000) for (int n : { 65534, 65535, 65536, 65537, 70000 }) if (mc::begin("list length %d", n)) { Ctx c; c.src = c.g.add(_decl_source, "a.h"); int s = decl(c, _decl_struct, "S"); for (int i = 0; i < n; i++) field(c, s, mc::fmt("f%d", i), -b_int); one(c.g, "long"); }
        if (depth == 5000) for (int n : { 65500, 65537, 70000 }) if (mc::begin("sources of %d", n)) { Ctx c; c.src = c.g.add(_decl_source, "a.h"); for (int i = 0; i < n; i++) { int s = decl(c, _decl_struct, mc::fmt("S%d", i / 2 * 2)); field(c, s, mc::fmt("f%d", i / 2), -b_int); } one(c.g, "wide"); }
        if (mc::begin("nesting %d", depth)) { Ctx c; c.src = c.g.add(_decl_source, "a.h"); int p = c.src; for (int i = 0; i < std::min(depth, 400); i++) p = c.g.kid(p, c.g.add(_decl_struct, mc::fmt("s%d", i))); one(c.g, "nested"); }
    }
}
