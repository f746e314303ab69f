/* small declaration graphs: an abstract form, a builder through the public
 * API, and a catalogue of sources that several properties enumerate */
#pragma once
#include <crefl/model.h>
#include <crefl/db.h>
#include <crefl/link.h>
#include "mc.h"

namespace gr {

struct N {
    u32 tag = 0, props = 0;
    std::string name;
    u64 qty = 0;
    std::vector<int> kids, attrs;   /* lists, by node number */
    int link = 0;                   /* >0 node, <0 builtin -index, 0 nothing */
};

struct G {
    std::vector<N> n;               /* n[0] unused, n[1] is the source */
    G() : n(1) {}
    int add(u32 tag, const std::string &name = "", u32 props = 0, u64 qty = 0) { n.push_back(N()); N &x = n.back(); x.tag = tag; x.name = name; x.props = props; x.qty = qty; return n.size() - 1; }
    int kid(int p, int c) { n[p].kids.push_back(c); return c; }
};

inline bool container(u32 t)
{
    return t == _decl_archive || t == _decl_source || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_function;
}
/* kinds that a merge stores once */
inline bool shared_kind(u32 t) { return t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_function; }

/* indices of the builtin types, in the order the library defines them */
enum { b_void = 1, b_bool, b_bit, b_sign, b_ubyte, b_byte, b_ushort, b_short, b_uint, b_int, b_ulong, b_long, b_ucent, b_cent, b_half, b_float, b_double, b_quad, b_chalf, b_cfloat, b_cdouble, b_cquad, b_end };

/* build through the API; order gives the creation order (node numbers), id the resulting indices */
inline decl_db *build(const G &g, std::vector<decl_id> &id, const std::vector<int> *order = nullptr, decl_db *db = nullptr)
{
    if (!db) { db = crefl_db_new(); crefl_db_defaults(db); }
    id.assign(g.n.size(), 0);
    for (size_t k = 1; k < g.n.size(); k++) {
        int i = order ? (*order)[k - 1] : (int)k;
        const N &x = g.n[i];
        decl_ref r = crefl_decl_new(db, x.tag);
        id[i] = crefl_decl_idx(r);
        decl_id nm = crefl_name_new(db, x.name.c_str());
        decl_node *p = crefl_decl_ptr(r);
        p->_name = nm; p->_props = x.props; p->_quantity = x.qty;
    }
    auto chain = [&](const std::vector<int> &l) -> decl_id {
        for (size_t k = 0; k + 1 < l.size(); k++) crefl_decl_ptr(crefl_lookup(db, id[l[k]]))->_next = id[l[k + 1]];
        return l.empty() ? 0 : id[l[0]];
    };
    for (size_t i = 1; i < g.n.size(); i++) {
        const N &x = g.n[i];
        decl_id lk = x.kids.empty() ? (x.link > 0 ? id[x.link] : (decl_id)-x.link) : chain(x.kids);
        decl_id at = chain(x.attrs);
        decl_node *p = crefl_decl_ptr(crefl_lookup(db, id[i]));
        p->_link = lk; p->_attr = at;
    }
    db->root_element = id[1];
    return db;
}

/* content signature of a node: what a type hash has to stand for.  A reference
 * to a declaration whose signature is under way counts by kind and name. */
inline std::map<std::string, int> sig_intern;
struct Sig {
    const G &g; std::vector<int> memo; std::vector<char> busy;
    Sig(const G &g) : g(g), memo(g.n.size(), -1), busy(g.n.size(), 0) {}
    static int intern(const std::string &s) { auto it = sig_intern.find(s); if (it != sig_intern.end()) return it->second; int k = sig_intern.size(); sig_intern[s] = k; return k; }
    int of(int i)
    {
        if (memo[i] >= 0) return memo[i];
        busy[i] = 1;
        const N &x = g.n[i];
        std::string s = mc::fmt("%u|%zu:", x.tag, x.name.size()) + x.name + mc::fmt("|%u|%llu|A", x.props, (unsigned long long)x.qty);
        for (int a : x.attrs) s += mc::fmt(",%d", of(a));
        s += "|L";
        if (container(x.tag)) for (int k : x.kids) s += mc::fmt(",%d", of(k));
        else if (x.link < 0) s += mc::fmt("b%d", -x.link);
        else if (x.link > 0) {
            if (busy[x.link] && memo[x.link] < 0) s += mc::fmt("@%u:", g.n[x.link].tag) + g.n[x.link].name;
            else s += mc::fmt("=%d", of(x.link));
        }
        return memo[i] = intern(s);
    }
};

/* ---- catalogue of declarations */
struct Ctx { G g; std::map<std::string, int> tag; int src; };

inline int intr(Ctx &, int b) { return -b; }
inline int wrap(Ctx &c, u32 tag, int link, u32 props = 0, u64 qty = 0, const std::string &name = "")
{
    int i = c.g.add(tag, name, props, qty); c.g.n[i].link = link; return i;
}
inline int field(Ctx &c, int p, const std::string &name, int type, u32 props = 0, u64 qty = 0)
{
    int i = wrap(c, _decl_field, type, props, qty, name); c.g.kid(p, i); return i;
}
inline int attr(Ctx &c, int d, const std::string &name, int kind = 0, const std::string &s = "", u64 v = 0)
{
    int a = c.g.add(_decl_attribute, name);
    if (kind) { int x = c.g.add(_decl_value, s, 0, v); c.g.n[a].link = x; }
    c.g.n[d].attrs.push_back(a);
    return a;
}
/* the declaration "struct S" (or union, ...) of the source, or void */
inline int ref(Ctx &c, const std::string &t) { auto it = c.tag.find(t); return it == c.tag.end() ? -b_void : it->second; }
inline int decl(Ctx &c, u32 tag, const std::string &name, u32 props = 0, u64 qty = 0, bool def = true)
{
    int i = c.g.add(tag, name, props, qty); c.g.kid(c.src, i);
    if (def && name.size() && (tag == _decl_struct || tag == _decl_union || tag == _decl_enum || tag == _decl_set)) c.tag[name] = i;
    return i;
}
inline int func(Ctx &c, const std::string &name, u32 props, int ret, std::vector<std::pair<std::string, int>> ps)
{
    int f = decl(c, _decl_function, name, props);
    c.g.kid(f, wrap(c, _decl_param, ret, _decl_out));
    for (auto &p : ps) c.g.kid(f, wrap(c, _decl_param, p.second, 0, 0, p.first));
    return f;
}

typedef std::function<void(Ctx &)> Snip;
inline const std::vector<Snip> &snippets()
{
    static std::vector<Snip> v;
    if (v.size()) return v;
    v.push_back([](Ctx &c) { int s = decl(c, _decl_struct, "S"); field(c, s, "x", -b_int); });
    v.push_back([](Ctx &c) { int s = decl(c, _decl_struct, "S"); field(c, s, "x", -b_int); field(c, s, "y", -b_byte); });
    v.push_back([](Ctx &c) { decl(c, _decl_struct, "S", 0, 0, false); });
    v.push_back([](Ctx &c) { int s = decl(c, _decl_struct, "S"); field(c, s, "n", wrap(c, _decl_pointer, s, 0, 64, "*S")); field(c, s, "x", -b_int); });
    v.push_back([](Ctx &c) { int s = decl(c, _decl_union, "S"); field(c, s, "x", -b_int); field(c, s, "y", -b_byte); });
    v.push_back([](Ctx &c) { int s = decl(c, _decl_enum, "E", 0, 32); for (int k = 0; k < 2; k++) c.g.kid(s, wrap(c, _decl_constant, -b_uint, 0, k, k ? "b" : "a")); });
    v.push_back([](Ctx &c) { int s = decl(c, _decl_enum, "E", 0, 32); for (int k = 0; k < 2; k++) c.g.kid(s, wrap(c, _decl_constant, -b_int, 0, k ? ~0ull : 0, k ? "b" : "a")); });
    v.push_back([](Ctx &c) { int s = decl(c, _decl_set, "E", 0, 8); for (int k = 0; k < 2; k++) c.g.kid(s, wrap(c, _decl_constant, -b_ubyte, 0, 1 << k, k ? "b" : "a")); });
    v.push_back([](Ctx &c) { int t = decl(c, _decl_typedef, "T"); c.g.n[t].link = ref(c, "S"); });
    v.push_back([](Ctx &c) { int t = decl(c, _decl_typedef, "T"); int p = wrap(c, _decl_pointer, ref(c, "S"), 0, 64, "*S"); c.g.n[t].link = p; });
    v.push_back([](Ctx &c) { int t = decl(c, _decl_typedef, "T"); c.g.n[t].link = -b_int; });
    v.push_back([](Ctx &c) { func(c, "f", _decl_global, -b_void, { { "a", -b_int } }); });
    v.push_back([](Ctx &c) { func(c, "f", _decl_global, ref(c, "S"), { { "a", wrap(c, _decl_pointer, ref(c, "S"), 0, 64, "*S") }, { "", ref(c, "E") } }); });
    v.push_back([](Ctx &c) { int f = decl(c, _decl_field, "v", _decl_static); c.g.n[f].link = ref(c, "S"); });
    v.push_back([](Ctx &c) { int f = decl(c, _decl_field, "v"); int q = wrap(c, _decl_qualifier, -b_int, _decl_const, 0, "const_int"); c.g.n[f].link = wrap(c, _decl_array, q, 0, 3, "[3]const_int"); });
    v.push_back([](Ctx &c) { int o = decl(c, _decl_struct, "O"); int i = c.g.add(_decl_struct, "S"); c.g.kid(o, i); field(c, i, "x", -b_int); c.tag["S"] = i; field(c, o, "i", i); });
    v.push_back([](Ctx &c) { int s = c.g.add(_decl_struct, ""); c.g.kid(c.src, s); field(c, s, "x", -b_int); int f = decl(c, _decl_field, "w"); c.g.n[f].link = s; });
    v.push_back([](Ctx &c) { int s = decl(c, _decl_struct, "S"); attr(c, s, "packed"); attr(c, s, "annotate", 1, "one"); attr(c, s, "aligned", 2, "", 8); int f = field(c, s, "x", -b_int); attr(c, f, "annotate", 1, "two"); attr(c, f, "unused"); });
    v.push_back([](Ctx &c) { int s = decl(c, _decl_struct, "S"); attr(c, s, "packed"); attr(c, s, "annotate", 1, "one"); attr(c, s, "aligned", 2, "", 16); int f = field(c, s, "x", -b_int); attr(c, f, "annotate", 1, "two"); attr(c, f, "unused"); });
    v.push_back([](Ctx &c) { int s = decl(c, _decl_struct, "S"); field(c, s, "x", -b_uint, _decl_bitfield, 3); field(c, s, "", -b_uint, _decl_bitfield, 0); field(c, s, "y", ref(c, "E"), _decl_bitfield, 7); });
    v.push_back([](Ctx &c) { int e = decl(c, _decl_struct, "Z"); (void)e; });
    v.push_back([](Ctx &c) { int f = func(c, "f", _decl_extern_c | _decl_global, -b_int, {}); attr(c, f, "pure"); attr(c, f, "deprecated"); });
    /* refers to S before the source declares it, when a later snippet does */
    v.push_back([](Ctx &c) { int o = decl(c, _decl_struct, "O"); field(c, o, "p", wrap(c, _decl_pointer, ref(c, "S"), 0, 64, "*S")); field(c, o, "e", ref(c, "E")); });
    return v;
}

inline G source(const std::vector<int> &sn, const std::string &name = "a.h")
{
    /* two passes, so that early references find later declarations */
    Ctx c; std::map<std::string, int> tags;
    for (int pass = 0; pass < 2; pass++) {
        c = Ctx(); if (pass) c.tag = tags;
        c.src = c.g.add(_decl_source, name);
        for (int s : sn) snippets()[s](c);
        tags = c.tag;
    }
    return c.g;
}

/* all sources of up to k declarations out of the catalogue */
inline std::vector<std::vector<int>> sources(int k, int limit = 1000)
{
    int m = std::min<int>(limit, snippets().size());
    std::vector<std::vector<int>> all{ {} }, cur{ {} };
    for (int d = 0; d < k; d++) {
        std::vector<std::vector<int>> nx;
        for (auto &c : cur) for (int s = 0; s < m; s++) { auto x = c; x.push_back(s); nx.push_back(x); }
        all.insert(all.end(), nx.begin(), nx.end()); cur = nx;
    }
    return all;
}

inline std::string show(const std::vector<int> &v) { std::string s; for (int x : v) s += mc::fmt(s.empty() ? "%d" : ".%d", x); return s.empty() ? "-" : s; }

/* a copy of everything a database holds */
struct Snap {
    std::vector<decl_node> d; std::string names; size_t nb, db_; decl_id root;
    Snap(const decl_db *db) : d(db->decl, db->decl + db->decl_offset), names(db->name, db->name_offset), nb(db->name_builtin), db_(db->decl_builtin), root(db->root_element) {}
    bool operator==(const Snap &o) const
    {
        return d.size() == o.d.size() && names == o.names && nb == o.nb && db_ == o.db_ && root == o.root && memcmp(d.data(), o.d.data(), d.size() * sizeof(decl_node)) == 0;
    }
};

inline std::string hash_of(decl_index *ix, decl_db *db, decl_id i) { return std::string((const char*)crefl_entry_ptr(crefl_entry_ref(ix, crefl_lookup(db, i)))->hash.sum, sizeof(decl_hash)); }

} // namespace gr
