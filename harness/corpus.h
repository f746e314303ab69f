/* the images of the corpus that explore/corpus.py makes */
#pragma once
#include "graphs.h"

namespace gr {

struct Img { std::string name; std::vector<uint8_t> b; };
inline std::vector<Img> corpus()
{
    std::vector<Img> v;
    if (!*mc::data) return v;
    FILE *l = fopen(mc::fmt("%s/list", mc::data).c_str(), "r");
    if (!l) { fprintf(stderr, "no corpus\n"); _exit(96); }
    char line[256];
    while (fgets(line, sizeof line, l)) {
        line[strcspn(line, "\n")] = 0;
        Img i; i.name = line;
        FILE *f = fopen(mc::fmt("%s/%zu.refl", mc::data, v.size()).c_str(), "rb");
        if (!f) { fprintf(stderr, "no image %zu\n", v.size()); _exit(96); }
        uint8_t buf[65536]; size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) i.b.insert(i.b.end(), buf, buf + n);
        fclose(f); v.push_back(i);
    }
    fclose(l);
    return v;
}

inline decl_db *load(const Img &i)
{
    decl_db *db = crefl_db_new();
    if (crefl_db_read_mem(db, i.b.data(), i.b.size())) { mc::fail("the image of %s does not load", i.name.c_str()); }
    return db;
}

/* the abstract form of a database: node 1 is the root */
inline G graph(decl_db *db, std::vector<decl_id> &id)
{
    G g; std::vector<int> at(db->decl_offset, 0);
    id.assign(1, 0);
    auto add = [&](decl_id i) { const decl_node &n = db->decl[i]; at[i] = g.add(n._tag, db->name + n._name, n._props, n._quantity); id.push_back(i); };
    add(db->root_element);
    for (decl_id i = db->decl_builtin; i < db->decl_offset; i++) if (i != db->root_element) add(i);
    for (size_t k = 1; k < g.n.size(); k++) {
        const decl_node &n = db->decl[id[k]];
        size_t c = 0;
        for (decl_id a = n._attr; a && c++ < db->decl_offset; a = db->decl[a]._next) g.n[k].attrs.push_back(at[a]);
        c = 0;
        if (container(n._tag)) { for (decl_id a = n._link; a && c++ < db->decl_offset; a = db->decl[a]._next) g.n[k].kids.push_back(at[a]); }
        else g.n[k].link = n._link < db->decl_builtin ? -(int)n._link : at[n._link];
    }
    return g;
}

} // namespace gr
