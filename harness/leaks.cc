/* P29: every handle gives back all it took; nothing else takes anything */
#include "graphs.h"
#include <crefl/dump.h>
#include "capture.h"
#include "codec.h"
#include <crefl/oid.h>
#include <dirent.h>
using namespace gr;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }

/* after a first run that may set things up once, further runs leave the heap and the descriptors as they were */
static void steady(const std::string &what, const std::function<void()> &f)
{
    f();
    size_t h0 = heap(); int d0 = fds();
    f();
    size_t h1 = heap(); int d1 = fds();
    f();
    size_t h2 = heap();
    mc::state();
    if (h1 != h0 && h2 != h1) mc::fail("%s: %lld, then %lld octets of memory are not given back", what.c_str(), (long long)(h1 - h0), (long long)(h2 - h1));
    if (d1 != d0) mc::fail("%s: %d file descriptors are not given back", what.c_str(), d1 - d0);
}

static std::string path(const char *n) { return mc::fmt("%s/%s", mc::workdir, n); }
static std::vector<uint8_t> good, shortened, badref, badmagic;
static void put(const char *n, const std::vector<uint8_t> &v) { FILE *f = fopen(path(n).c_str(), "wb"); fwrite(v.data(), 1, v.size(), f); fclose(f); }

static void prepare()
{
    std::vector<decl_id> id;
    decl_db *d = build(source({ 1, 3, 11, 17 }), id);
    good.resize(crefl_db_size(d)); crefl_db_write_mem(d, good.data(), good.size());
    crefl_db_destroy(d);
    shortened = good; shortened.resize(good.size() - 5);
    badref = good; memset(&badref[20 + 24], 0xff, 4);
    badmagic = good; badmagic[2] ^= 1;
    put("good.refl", good); put("short.refl", shortened); put("badref.refl", badref); put("badmagic.refl", badmagic); put("empty.refl", {});
}

/* one database with its index and a source to merge with */
struct St { decl_db *a; decl_index *ix; decl_db *b; };
static const char *opname[] = { "declarations", "names", "long name", "save", "save too small", "save file", "save to nowhere", "load", "load short", "load bad reference",
    "load file", "load bad files", "index again", "own index", "merge", "merge twice", "dump", "dump all", "row", "stats", "queries", "merge nothing" };
enum { NOP = sizeof opname / sizeof *opname };
static void apply(St &s, int op)
{
    mc::op();
    switch (op) {
    case 0: { for (int i = 0; i < 70; i++) { decl_ref r = crefl_decl_new(s.a, _decl_typedef); crefl_decl_ptr(r)->_link = b_int; } break; }
    case 1: for (int i = 0; i < 120; i++) crefl_name_new(s.a, "a name of some length that makes the table grow"); break;
    case 2: { static std::string l(9000, 'x'); crefl_name_new(s.a, l.c_str()); break; }
    case 3: { std::vector<uint8_t> v(crefl_db_size(s.a)); crefl_db_write_mem(s.a, v.data(), v.size()); break; }
    case 4: { std::vector<uint8_t> v(crefl_db_size(s.a) / 2 + 1); crefl_db_write_mem(s.a, v.data(), v.size()); break; }
    case 5: crefl_db_write_file(s.a, path("out.refl").c_str()); break;
    case 6: crefl_db_write_file(s.a, path("no/such/place").c_str()); crefl_db_write_file(s.a, mc::workdir); crefl_db_write_file(s.a, "/dev/full"); break;
    case 7: crefl_db_read_mem(s.a, good.data(), good.size()); break;
    case 8: crefl_db_read_mem(s.a, shortened.data(), shortened.size()); crefl_db_read_mem(s.a, badmagic.data(), badmagic.size()); crefl_db_read_mem(s.a, good.data(), 0); break;
    case 9: crefl_db_read_mem(s.a, badref.data(), badref.size()); break;
    case 10: crefl_db_read_file(s.a, path("good.refl").c_str()); break;
    case 11: for (const char *n : { "short.refl", "badref.refl", "badmagic.refl", "empty.refl", "missing.refl", "." }) crefl_db_read_file(s.a, path(n).c_str()); break;
    case 12: crefl_index_scan(s.ix, s.a); break;
    case 13: { decl_index *i = crefl_index_new(); crefl_index_scan(i, s.a); crefl_entry_name_new(i, "another name"); crefl_index_scan(i, s.b); crefl_index_destroy(i); break; }
    case 14: { decl_db *m = crefl_db_new(); decl_db *in[] = { s.a, s.b }; if (crefl_decl_tag(crefl_root(s.a)) == _decl_source) crefl_link_merge(m, "m.refl", in, 2); crefl_db_destroy(m); break; }
    case 21: { decl_db *m = crefl_db_new(); crefl_link_merge(m, "none.refl", nullptr, 0); decl_db *n = crefl_db_new(), *in[] = { m, s.b }; crefl_link_merge(n, "n.refl", in + 1, 1); crefl_db_destroy(m); crefl_db_destroy(n); break; }
    case 15: { decl_db *m = crefl_db_new(), *n = crefl_db_new(); decl_db *in[] = { s.b, s.b }; crefl_link_merge(m, "m.refl", in, 2); decl_db *in2[] = { m, s.b }; crefl_link_merge(n, "n.refl", in2, 2); crefl_db_destroy(n); crefl_db_destroy(m); break; }
    case 16: crefl_db_set_dump_fmt(crefl_db_dump_std); crefl_db_dump(s.b); break;
    case 17: crefl_db_set_dump_fmt(crefl_db_dump_ext_all); crefl_db_dump(s.b); crefl_db_set_dump_fmt(crefl_db_dump_std); break;
    case 18: crefl_db_set_dump_fmt(crefl_db_dump_all); crefl_db_header_names(); crefl_db_header_lines(); crefl_db_dump_row(s.b, crefl_lookup(s.b, s.b->decl_offset - 1)); crefl_db_set_dump_fmt(crefl_db_dump_std); break;
    case 19: crefl_db_dump_stats(s.b); break;
    case 20: {
        decl_ref r[16]; size_t n = 16; crefl_source_decls(crefl_root(s.b), r, &n);
        for (size_t i = 0; i < n && i < 16; i++) { decl_ref f[8]; size_t k = 8; crefl_struct_fields(r[i], f, &k); k = 8; crefl_function_params(r[i], f, &k); size_t o[8]; k = 8; crefl_struct_fields_offsets(r[i], nullptr, o, &k); crefl_type_width(r[i]); crefl_decl_name(r[i]); }
        crefl_intrinsic(s.b, _decl_sint, 32); break; }
    }
    mc::quiet();
}
/* an image is loaded into a database that holds nothing but the builtin types */
static bool allowed(const std::vector<int> &seq, bool fresh)
{
    bool used = !fresh;
    for (int o : seq) { if (o == 7 || o == 10) { if (used) return false; used = true; } if (o <= 2) used = true; }
    return true;
}

static void sequence(const std::vector<int> &seq, bool fresh)
{
    std::string w; for (int o : seq) w += std::string(w.empty() ? "" : ", ") + opname[o];
    if (fresh) w = "empty database, " + w;
    steady(w, [&] {
        St s; std::vector<decl_id> id;
        s.b = build(source({ 3, 12 }), id);
        if (fresh) { s.a = crefl_db_new(); crefl_db_defaults(s.a); } else s.a = build(source({ 3 }), id);
        s.ix = crefl_index_new();
        for (int o : seq) apply(s, o);
        crefl_index_destroy(s.ix); crefl_db_destroy(s.a); crefl_db_destroy(s.b);
    });
}

void mc_explore()
{
    mc::quiet(); prepare();
    fds();
    /* handles alone, and operations that fail on them */
    if (mc::begin("handles")) {
        for (int k = 0; k < 4; k++) steady("handles", [&] {
            if (k == 0) { decl_db *d = crefl_db_new(); crefl_db_destroy(d); }
            if (k == 1) { decl_index *i = crefl_index_new(); crefl_index_destroy(i); }
            if (k == 2) { crefl_buf *b = crefl_buf_new(17); crefl_buf_write_i8(b, 1); crefl_buf_destroy(b); }
            if (k == 3) { crefl_buf *b = crefl_buf_new(0); crefl_buf_destroy(b); decl_db *d = crefl_db_new(); crefl_db_read_mem(d, badref.data(), badref.size()); crefl_db_destroy(d); }
        });
    }
    for (int fresh = 0; fresh < 2; fresh++) {
        for (int a = 0; a < NOP; a++) {
            if (!mc::begin("operations %s%s", fresh ? "on an empty database, " : "", opname[a])) continue;
            if (allowed({ a }, fresh)) { mc::sub(0); sequence({ a }, fresh); }
            for (int b = 0; b < NOP; b++) {
                if (allowed({ a, b }, fresh)) { mc::sub(1, b); sequence({ a, b }, fresh); }
                if (fresh && !mc::thorough) continue;
                for (int c = 0; c < NOP; c++) if (allowed({ a, b, c }, fresh)) { mc::sub(2, b, c); sequence({ a, b, c }, fresh);
                    if (mc::thorough && !fresh) for (int d = 0; d < NOP; d++) if (allowed({ a, b, c, d }, fresh)) { mc::sub(3, b << 8 | c, d); sequence({ a, b, c, d }, fresh); } }
            }
        }
    }
    /* every source of the catalogue through everything */
    for (auto &sn : sources(2)) {
        if (!mc::begin("source %s", show(sn).c_str())) continue;
        steady("source", [&] {
            std::vector<decl_id> id; decl_db *d = build(source(sn), id), *m = crefl_db_new();
            decl_db *in[] = { d, d };
            crefl_link_merge(m, "m.refl", in, 1 + sn.size() % 2);
            decl_index *i = crefl_index_new(); crefl_index_scan(i, m); crefl_index_destroy(i);
            std::vector<uint8_t> v(crefl_db_size(m)); crefl_db_write_mem(m, v.data(), v.size());
            decl_db *l = crefl_db_new(); crefl_db_defaults(l); crefl_db_read_mem(l, v.data(), v.size());
            for (int f = 0; f < 8; f++) { crefl_db_set_dump_fmt((crefl_db_dump_fmt)f); crefl_db_dump(l); }
            crefl_db_set_dump_fmt(crefl_db_dump_std);
            crefl_db_destroy(l); crefl_db_destroy(m); crefl_db_destroy(d);
        });
        mc::quiet();
    }
    /* sizes: few and many declarations, short and long names, in either order */
    for (int e = 0; e <= (mc::thorough ? 15 : 13); e++) for (int f = 0; f <= 18 && e + f <= 20; f += 3) {
        if (!mc::begin("2^%d declarations with names of 2^%d", e, f)) continue;
        for (int order = 0; order < 3; order++) { mc::sub(order); steady("sizes", [&] {
            auto make = [&](size_t n, size_t len, char c) {
                G g; int s = g.add(_decl_source, std::string("s") + c); for (size_t i = 0; i < n; i++) { int k = g.kid(s, g.add(_decl_struct, mc::fmt("%zu", i) + std::string(len, c))); int t = g.kid(k, g.add(_decl_field, "x")); g.n[t].link = -b_int; }
                std::vector<decl_id> id; return build(g, id);
            };
            decl_db *in[3] = { make((size_t)1 << e, (size_t)1 << f, 'a'), make(1, 1, 'b'), make(2, 3, 'c') }; std::rotate(in, in + order, in + 3);
            decl_db *m = crefl_db_new(); crefl_link_merge(m, "m", in, 3);
            decl_index *i = crefl_index_new(); crefl_index_scan(i, m); crefl_index_destroy(i);
            std::vector<uint8_t> v(crefl_db_size(m)); crefl_db_write_mem(m, v.data(), v.size()); crefl_db_write_file(m, path("big.refl").c_str());
            decl_db *l = crefl_db_new(); crefl_db_read_mem(l, v.data(), v.size()); crefl_db_destroy(l);
            l = crefl_db_new(); crefl_db_read_file(l, path("big.refl").c_str()); decl_ref r[4]; size_t c = 4; crefl_archive_sources(crefl_root(l), r, &c); crefl_db_destroy(l);
            l = crefl_db_new(); crefl_db_read_mem(l, v.data(), v.size() - 1); crefl_db_destroy(l);
            crefl_db_destroy(m); for (auto d : in) crefl_db_destroy(d);
            if (e <= 6) { in[0] = make((size_t)1 << e, (size_t)1 << f, 'a'); for (int k = 0; k < 8; k++) { crefl_db_set_dump_fmt((crefl_db_dump_fmt)k); crefl_db_dump(in[0]); } crefl_db_set_dump_fmt(crefl_db_dump_std); crefl_db_destroy(in[0]); }
        }); }
        mc::quiet();
    }
    /* images damaged at every octet: what a refused load took is given back */
    for (size_t at = 0; at < good.size(); at += 16) {
        if (!mc::begin("damaged image %zu", at)) continue;
        for (size_t k = at; k < at + 16 && k < good.size(); k++) for (int x : { 0x01, 0x80, 0xff }) {
            std::vector<uint8_t> v = good; v[k] ^= x;
            mc::sub(k, x);
            steady("damaged image", [&] { decl_db *d = crefl_db_new(); crefl_db_defaults(d); crefl_db_read_mem(d, v.data(), v.size()); crefl_db_destroy(d); });
            if (x == 0xff) { put("dam.refl", v); steady("damaged image file", [&] { decl_db *d = crefl_db_new(); crefl_db_defaults(d); crefl_db_read_file(d, path("dam.refl").c_str()); crefl_db_destroy(d); }); }
        }
    }
    /* codecs take nothing at all */
    static uint8_t mem[600]; static Place pl;
    for (auto &d : decoders) {
        if (!mc::begin("decoder %s", d.name)) continue;
        for (int b0 = 0; b0 < 256; b0++) for (int b1 = 0; b1 < 256; b1 += mc::thorough ? 1 : 5) for (size_t n : { (size_t)0, (size_t)1, (size_t)2, (size_t)12, (size_t)40 }) for (int sh = 0; sh < 2; sh++) {
            memset(mem, 0x41, sizeof mem); mem[0] = b0; mem[1] = b1;
            crefl_buf b; b.data = (char*)mem; b.data_offset = 0; b.data_size = n;
            auto f = [&] { b.data_offset = 0; d.run(&b, sh ? 1 : n); };
            if (b0 == 0 && b1 == 0 && n == 0) { f(); f(); }
            size_t h = heap(); f(); mc::op(); size_t h1 = heap();
            if (h1 != h) { f(); if (heap() != h1) { mc::sub(b0 << 8 | b1, n, sh); mc::fail("%s of %s keeps %lld octets of memory", d.name, mc::hex(mem, std::min<size_t>(n, 8)).c_str(), (long long)(h1 - h)); } }
            if ((b1 & 63) == 0) mc::sub(b0, b1);
        }
        mc::state();
    }
    for (auto &e : encoders) {
        if (!mc::begin("encoder %s", e.name)) continue;
        Val v;
        auto one = [&](size_t cap) {
            crefl_buf b; b.data = (char*)mem; b.data_size = cap;
            auto f = [&] { b.data_offset = 0; e.run(&b, v); };
            f(); size_t h = heap(); f(); mc::op(); size_t h1 = heap();
            if (h1 != h) { f(); if (heap() != h1) mc::fail("%s keeps %lld octets of memory", show(e, v).c_str(), (long long)(h1 - h)); }
        };
        for (uint64_t w : edge_words(1, false)) {
            v.u = e.dom == D_BOOL ? w & 1 : w; v.cls = w & 3; v.cons = w >> 2 & 1;
            if (e.dom == D_OID) v.arcs.assign(2 + w % 14, w >> 9);
            if (e.dom == D_OCT) v.str.assign(w % 300, 0x55);
            mc::sub(w); for (size_t cap : { (size_t)0, (size_t)1, (size_t)2, (size_t)5, (size_t)9, (size_t)40, (size_t)600 }) one(cap);
        }
        mc::state();
    }
    /* text of identifiers and the registry */
    if (mc::begin("identifier text")) steady("identifier text", [&] {
        for (const char *t : { "1.2.840.113549", "1..2", "x", "", "2.5.4.3.1.1.1.1.1.1.1.1.1.1.1.1.1", "99999999999999999999" }) {
            asn1_oid o; char s[64]; size_t n = sizeof s;
            if (crefl_asn1_oid_from_string(&o, t, strlen(t)) == 0) crefl_asn1_oid_to_string(s, &n, &o);
            mc::op();
        }
    });
}
