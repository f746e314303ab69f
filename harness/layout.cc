/* P07: reported widths, offsets and totals beside the ones the C compiler gave,
 * for graphs built through the API and graphs the plug-in made of the same text */
#include "mc.h"
#include <crefl/model.h>
#include <crefl/db.h>
#include "layout_space.h"

using namespace mc;

struct Lay { long size = -1; std::vector<long> off; };
static std::map<long, Lay> load(size_t c)
{
    std::map<long, Lay> r;
    FILE *f = fopen(fmt("%s/r%zu", data, c).c_str(), "r");
    if (!f) { fprintf(stderr, "no layout data\n"); _exit(95); }
    char *line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        char *p = line; long id = strtol(p, &p, 10); Lay l; l.size = strtol(p, &p, 10);
        for (;;) { char *q; long v = strtol(p, &q, 10); if (q == p) break; l.off.push_back(v); p = q; }
        r[id] = l;
    }
    free(line); fclose(f);
    return r;
}

/* ---- build through the API */
struct Builder {
    decl_db *db; bool listed; std::map<ly::Ty*, decl_id> done; std::map<std::string, decl_id> enums;
    decl_node *at(decl_id i) { return crefl_decl_ptr(crefl_lookup(db, i)); }
    decl_id node(decl_tag tag, const std::string &name, u64 qty = 0, decl_set props = 0)
    {
        decl_id i = crefl_decl_idx(crefl_decl_new(db, tag));
        decl_id n = crefl_name_new(db, name.c_str());
        at(i)->_name = n; at(i)->_quantity = qty; at(i)->_props = props;
        return i;
    }
    decl_id type(ly::T t)
    {
        auto it = done.find(t.get());
        if (it != done.end()) return it->second;
        decl_id i = 0, l = 0;
        switch (t->k) {
        case ly::B: return t->b;
        case ly::E: { auto e = enums.find(t->name); i = e != enums.end() ? e->second : node(_decl_enum, t->name, t->b); enums[t->name] = i; break; }
        case ly::P: l = type(t->to); i = node(_decl_pointer, "*", 64); at(i)->_link = l; break;
        case ly::A: l = type(t->to); i = node(_decl_array, "[]", t->n); at(i)->_link = l; break;
        case ly::FLEX: l = type(t->to); i = node(_decl_array, "[]", 0); at(i)->_link = l; break;
        case ly::Q: l = type(t->to); i = node(_decl_qualifier, t->name, 0, t->name == "const" ? _decl_const : t->name == "volatile" ? _decl_volatile : _decl_restrict); at(i)->_link = l; break;
        case ly::TD: l = type(t->to); i = node(_decl_typedef, t->name); at(i)->_link = l; break;
        case ly::S: case ly::U: i = rec(t, t->name); break;
        }
        done[t.get()] = i;
        return i;
    }
    decl_id rec(ly::T t, const std::string &name)
    {
        decl_id s = node(t->k == ly::S ? _decl_struct : _decl_union, name), last = 0;
        auto add = [&](decl_id i) { if (last) at(last)->_next = i; else at(s)->_link = i; last = i; };
        for (auto &m : t->m) {
            bool fresh = !done.count(m.t.get());
            decl_id ty = type(m.t);
            if (listed && fresh && (m.t->k == ly::S || m.t->k == ly::U)) add(ty);
            decl_id f = node(_decl_field, m.name, m.bw >= 0 ? m.bw : 0, m.bw >= 0 ? _decl_bitfield : 0);
            at(f)->_link = ty; add(f);
        }
        return s;
    }
};

static void compare(decl_db *db, decl_ref d, ly::T t, const Lay &want, bool caps)
{
    size_t n = t->m.size();
    op();
    if ((long)crefl_type_width(d) != want.size) { fail("%s: width %zu, compiler says %ld", ly::decl(t, "").c_str(), crefl_type_width(d), want.size); return; }
    if (t->k == ly::U) { if ((long)crefl_union_width(d) != want.size) fail("%s: union width %zu, compiler says %ld", ly::decl(t, "").c_str(), crefl_union_width(d), want.size); return; }
    if ((long)crefl_struct_width(d) != want.size) { fail("%s: structure width %zu, compiler says %ld", ly::decl(t, "").c_str(), crefl_struct_width(d), want.size); return; }
    /* the fields, as the list has them */
    std::vector<decl_id> fl;
    for (decl_ref c = crefl_decl_link(d); crefl_decl_idx(c); c = crefl_decl_next(c)) if (crefl_is_field(c)) fl.push_back(crefl_decl_idx(c));
    if (fl.size() != n) { fail("%s: %zu fields recorded, has %zu", ly::decl(t, "").c_str(), fl.size(), n); return; }
    const size_t canary = 0x5a5a5a5a5a5a5a5aull;
    for (size_t cap = caps ? 0 : n + 1; cap <= n + (caps ? 2 : 1); cap++) for (int form = 0; form < (caps ? 4 : 1); form++) {
        std::vector<decl_ref> r(cap, decl_ref{ nullptr, 0x5a5a }); std::vector<size_t> o(cap, canary);
        decl_ref *rp = (decl_ref*)malloc(cap * sizeof(decl_ref)); size_t *ops = (size_t*)malloc(cap * sizeof(size_t));
        for (size_t i = 0; i < cap; i++) { rp[i] = r[i]; ops[i] = canary; }
        size_t cnt = cap; op();
        int rc = crefl_struct_fields_offsets(d, form & 1 ? nullptr : rp, form & 2 ? nullptr : ops, &cnt);
        if (rc != 0) fail("%s: query refused", ly::decl(t, "").c_str());
        size_t want_cnt = n ? n + 1 : 0;
        if (cnt != want_cnt) fail("%s: count %zu, expected %zu", ly::decl(t, "").c_str(), cnt, want_cnt);
        for (size_t i = 0; i < cap; i++) {
            if (!(form & 1)) {
                if (i < n && (rp[i].decl_idx != fl[i] || rp[i].db != db)) fail("%s: entry %zu is declaration %zu, field is %u", ly::decl(t, "").c_str(), i, (size_t)rp[i].decl_idx, fl[i]);
                if (n && i == n && rp[i].decl_idx != 0) fail("%s: trailing entry names declaration %zu", ly::decl(t, "").c_str(), (size_t)rp[i].decl_idx);
                if (i > n && rp[i].decl_idx != 0x5a5a) fail("%s: entry %zu beyond the count written", ly::decl(t, "").c_str(), i);
            }
            if (!(form & 2)) {
                if (i < n && want.off[i] >= 0 && (long)ops[i] != want.off[i]) fail("%s: offset of member %zu is %zu, compiler says %ld", ly::decl(t, "").c_str(), i, ops[i], want.off[i]);
                if (n && i == n && (long)ops[i] != want.size) fail("%s: total %zu, compiler says %ld", ly::decl(t, "").c_str(), ops[i], want.size);
                if (i > n && ops[i] != canary) fail("%s: offset %zu beyond the count written", ly::decl(t, "").c_str(), i);
            }
        }
        free(rp); free(ops);
    }
}

void mc_explore()
{
    auto sp = ly::space(thorough);
    const size_t step = 400;
    for (size_t c = 0; c * step < sp.size(); c++) {
        size_t end = std::min(sp.size(), (c + 1) * step);
        for (int form = 0; form < 3; form++) {
            if (!begin("%s %zu..%zu", form == 0 ? "built" : form == 1 ? "built, inner records listed" : "extracted", c * step, end - 1)) continue;
            auto want = load(c);
            decl_db *db = crefl_db_new();
            if (form < 2) {
                crefl_db_defaults(db);
                Builder b{ db, form == 1 };
                for (size_t i = c * step; i < end; i++) {
                    sub(i);
                    decl_id s = b.rec(sp[i], fmt("S%zu", i)); op();
                    decl_id q = b.node(_decl_qualifier, "const", 0, _decl_const); b.at(q)->_link = s;
                    decl_id td = b.node(_decl_typedef, "t"); b.at(td)->_link = q;
                    decl_id ar = b.node(_decl_array, "[3]", 3); b.at(ar)->_link = td;
                    compare(db, crefl_lookup(db, s), sp[i], want[i], i % 5 == 0 && want[i].off.size() < 40);
                    if ((long)crefl_type_width(crefl_lookup(db, td)) != want[i].size) fail("%s: width through typedef and qualifier differs", ly::decl(sp[i], "").c_str());
                    if ((long)crefl_type_width(crefl_lookup(db, ar)) != want[i].size * 3) fail("%s: width of an array of 3 is %zu", ly::decl(sp[i], "").c_str(), crefl_type_width(crefl_lookup(db, ar)));
                    state();
                }
            } else {
                int rc = crefl_db_read_file(db, fmt("%s/h%zu.refl", data, c).c_str());
                if (rc != 0) { fail("the plug-in's output does not load"); crefl_db_destroy(db); continue; }
                std::map<std::string, decl_id> by;
                for (decl_ref d = crefl_decl_link(crefl_root(db)); crefl_decl_idx(d); d = crefl_decl_next(d))
                    if (crefl_is_struct(d) || crefl_is_union(d)) by[crefl_decl_name(d)] = crefl_decl_idx(d);
                for (size_t i = c * step; i < end; i++) {
                    sub(i);
                    auto it = by.find(fmt("S%zu", i));
                    if (it == by.end()) { fail("%s S%zu not recorded", ly::decl(sp[i], "").c_str(), i); continue; }
                    compare(db, crefl_lookup(db, it->second), sp[i], want[i], i % 16 == 0 && want[i].off.size() < 40);
                    state();
                }
            }
            crefl_db_destroy(db);
        }
    }
}
