/* layoutgen DIR [--thorough]: writes the C text of the layout space, in pieces:
 * DIR/hN.h (declarations, also read by the plug-in) and DIR/pN.c (prints the compiler's layout) */
#include "layout_space.h"
#include <cstring>
#include <functional>
using namespace ly;
int main(int argc, char **argv)
{
    bool th = argc > 2 && !strcmp(argv[2], "--thorough");
    auto sp = space(th);
    const size_t step = 400;
    for (size_t c = 0; c * step < sp.size(); c++) {
        std::string dir = argv[1], h, p;
        for (auto &e : enums()) h += std::string("enum ") + e.name + " " + e.body + ";\n";
        std::set<std::string> have;
        std::function<void(T)> td = [&](T t) {
            if (!t) return;
            td(t->to);
            for (auto &m : t->m) td(m.t);
            if (t->k == TD && have.insert(t->name).second) h += "typedef " + decl(t->to, t->name) + ";\n";
        };
        size_t end = std::min(sp.size(), (c + 1) * step);
        p = "#include <stddef.h>\n#include <stdio.h>\n#include \"h" + std::to_string(c) + ".h\"\n#pragma GCC diagnostic ignored \"-Woverflow\"\n";
        std::string tab;
        for (size_t i = c * step; i < end; i++) {
            T t = sp[i]; std::string id = std::to_string(i), tag = (t->k == S ? "struct S" : "union S") + id;
            td(t);
            h += tag + " " + body(t) + ";\n";
            tab += "{ " + id + ", sizeof(" + tag + "), " + std::to_string(t->m.size()) + ", (const struct o[]) {";
            for (auto &m : t->m) {
                if (t->k == U) { tab += " { -1 },"; continue; }
                if (m.bw >= 0) {
                    if (m.name.empty()) tab += " { -1 },";
                    else { p += "static const " + tag + " o" + id + m.name + " = { ." + m.name + " = -1 };\n"; tab += " { 0, &o" + id + m.name + " },"; }
                } else tab += " { (long)offsetof(" + tag + ", " + (m.name.empty() ? m.t->m[0].name : m.name) + ") },";
            }
            tab += " { 0 } } },\n";
        }
        p += "struct o { long off; const void *bit; };\nstatic const struct { long id, size, n; const struct o *o; } tab[] = {\n" + tab + "};\n"
             "int main(void) { for (size_t i = 0; i < sizeof tab / sizeof *tab; i++) {\n"
             "  printf(\"%ld %ld\", tab[i].id, tab[i].size * 8);\n"
             "  for (long j = 0; j < tab[i].n; j++) { const struct o *o = &tab[i].o[j]; long x = o->off < 0 ? -1 : o->off * 8;\n"
             "    if (o->bit) { const unsigned char *b = o->bit; for (x = 0; x < tab[i].size * 8 && !(b[x / 8] >> x % 8 & 1); x++); }\n"
             "    printf(\" %ld\", x); }\n  printf(\"\\n\"); } return 0; }\n";
        FILE *f = fopen((dir + "/h" + std::to_string(c) + ".h").c_str(), "w"); fputs(h.c_str(), f); fclose(f);
        f = fopen((dir + "/p" + std::to_string(c) + ".c").c_str(), "w"); fputs(p.c_str(), f); fclose(f);
    }
    printf("%zu\n", sp.size());
}
