/* P30: handles of one's own can be used from any thread, a database can be read from several.
 *
 * Two threads that never wait for each other have, as long as no access of one
 * conflicts with an access of the other, one behaviour up to the order of
 * independent steps.  So for each pair of operations one run under a
 * happens-before race detector decides all interleavings; each pair runs in a
 * process of its own, in which nothing has been used before. */
#include "graphs.h"
#include "codec.h"
#include <crefl/oid.h>
#include <crefl/sha256.h>
#include <crefl/hashmap.h>
#include <pthread.h>
using namespace gr;

struct Dig { uint64_t h = 1469598103934665603ull; void add(const void *p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t*)p)[i]) * 1099511628211ull; } void num(uint64_t v) { add(&v, 8); } void str(const char *s) { add(s, strlen(s) + 1); } };

struct Shared2 { decl_db *db, *db2; };
static Shared2 shr;

static void walk(decl_db *db, Dig &d)
{
    for (size_t i = 1; i < db->decl_offset; i++) {
        decl_ref r = crefl_lookup(db, i);
        d.num(crefl_decl_tag(r)); d.num(crefl_decl_props(r)); d.num(crefl_decl_qty(r)); d.str(crefl_decl_name(r)); d.str(crefl_tag_name(crefl_decl_tag(r)));
        d.num(crefl_decl_has_name(r)); d.num(crefl_decl_idx(crefl_decl_next(r))); d.num(crefl_decl_idx(crefl_decl_link(r)));
        d.num(crefl_type_width(r));
        d.num(crefl_is_struct(r) | crefl_is_union(r) << 1 | crefl_is_enum(r) << 2 | crefl_is_function(r) << 3 | crefl_is_pointer(r) << 4 | crefl_is_array(r) << 5);
        decl_ref l[16]; size_t n, o[16]; int rc; memset(l, 0, sizeof l);
        #define LIST(f) n = 16; rc = f(r, l, &n); d.num(rc); for (size_t k = 0; !rc && k < n && k < 16; k++) d.num(crefl_decl_idx(l[k]));
        LIST(crefl_struct_fields) LIST(crefl_union_fields) LIST(crefl_function_params) LIST(crefl_enum_constants) LIST(crefl_source_decls) LIST(crefl_source_types) LIST(crefl_source_functions)
        #undef LIST
        n = 16; memset(o, 0, sizeof o); rc = crefl_struct_fields_offsets(r, l, o, &n); d.num(rc); for (size_t k = 0; !rc && k < n && k < 16; k++) d.num(o[k]);
        d.num(crefl_decl_idx(crefl_field_type(r))); d.num(crefl_decl_idx(crefl_typedef_type(r))); d.num(crefl_decl_idx(crefl_pointer_type(r))); d.num(crefl_decl_idx(crefl_array_type(r)));
    }
    d.num(crefl_decl_idx(crefl_intrinsic(db, _decl_sint, 32))); d.num(crefl_decl_idx(crefl_intrinsic(db, _decl_float, 64)));
}
static decl_db *mk(std::vector<int> v) { std::vector<decl_id> id; return build(source(v), id); }
static void image(decl_db *db, Dig &d) { std::vector<uint8_t> v(crefl_db_size(db)); d.num(crefl_db_write_mem(db, v.data(), v.size())); d.add(v.data(), v.size()); }
static void index(decl_db *db, Dig &d)
{
    decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db);
    for (size_t i = 1; i < db->decl_offset; i++) { decl_entry_ref e = crefl_entry_ref(ix, crefl_lookup(db, i)); d.num(crefl_entry_is_valid(e)); d.num(crefl_entry_is_marked(e)); d.str(crefl_entry_fqn(e)); d.add(crefl_entry_ptr(e)->hash.sum, sizeof(decl_hash)); }
    crefl_index_destroy(ix);
}

struct Op { std::string name; std::function<uint64_t(int)> f; bool reads_shared = false; };
static std::vector<Op> ops;

static void own(const char *name, std::function<void(int, Dig &)> f) { ops.push_back({ name, [f](int t) { Dig d; f(t, d); return d.h; } }); }
static void reads(const char *name, std::function<void(int, Dig &)> f) { own(name, f); ops.back().reads_shared = true; }

static void define()
{
    own("build", [](int, Dig &d) { decl_db *x = mk({ 1, 4, 5, 11 }); image(x, d); crefl_db_destroy(x); });
    own("grow", [](int, Dig &d) { decl_db *x = crefl_db_new(); crefl_db_defaults(x); for (int i = 0; i < 400; i++) { decl_ref r = crefl_decl_new(x, _decl_typedef); crefl_decl_ptr(r)->_name = crefl_name_new(x, mc::fmt("type%d", i).c_str()); if (!i) x->root_element = crefl_decl_idx(r); } image(x, d); crefl_db_destroy(x); });
    own("query", [](int, Dig &d) { decl_db *x = mk({ 1, 7, 12, 19 }); walk(x, d); crefl_db_destroy(x); });
    own("load", [](int, Dig &d) { decl_db *x = mk({ 3, 12 }), *y = crefl_db_new(); std::vector<uint8_t> v(crefl_db_size(x)); crefl_db_write_mem(x, v.data(), v.size()); d.num(crefl_db_magic(v.data())); d.num(crefl_db_read_mem(y, v.data(), v.size())); walk(y, d); v[30] = 0xff; decl_db *z = crefl_db_new(); d.num(crefl_db_read_mem(z, v.data(), v.size() - 1)); crefl_db_destroy(x); crefl_db_destroy(y); crefl_db_destroy(z); });
    own("file", [](int t, Dig &d) { std::string p = mc::fmt("%s/f%d.refl", mc::workdir, t); decl_db *x = mk({ 3, 11 }), *y = crefl_db_new(); d.num(crefl_db_write_file(x, p.c_str())); d.num(crefl_db_read_file(y, p.c_str())); image(y, d); d.num(crefl_db_read_file(x, mc::fmt("%s/none%d", mc::workdir, t).c_str())); crefl_db_destroy(x); crefl_db_destroy(y); });
    own("index", [](int, Dig &d) { decl_db *x = mk({ 3, 15, 17 }); index(x, d); crefl_db_destroy(x); });
    own("merge", [](int, Dig &d) { decl_db *x = mk({ 3, 12 }), *y = mk({ 3, 5 }), *m = crefl_db_new(); decl_db *in[] = { x, y }; d.num(crefl_link_merge(m, "m.refl", in, 2)); image(m, d); index(m, d); crefl_db_destroy(x); crefl_db_destroy(y); crefl_db_destroy(m); });
    own("sha", [](int, Dig &d) { uint8_t r[32], m[200]; memset(m, 7, 200); for (size_t n : { 0, 3, 64, 150 }) { sha256_ctx c; sha256_init(&c); sha256_update(&c, m, n); sha256_update(&c, m, 50); sha256_final(&c, r); d.add(r, 32); sha224_init(&c); sha224_update(&c, m, n); sha224_final(&c, r); d.add(r, 28); } });
    own("hashmap", [](int, Dig &d) { hashmap<int,int> m; for (int i = 0; i < 60; i++) m[i * 7 % 41] += i; for (int i = 0; i < 20; i++) m.erase(i); hashmap<int,int> c(m); uint64_t s = 0; for (auto &p : c) s += p.first * 1000 + p.second; d.num(s); d.num(c.size()); });
    own("buffer", [](int, Dig &d) { crefl_buf *b = crefl_buf_new(40); crefl_buf_write_i16(b, 0x1234); crefl_buf_write_i32(b, 0x12345678); crefl_buf_write_i64(b, 0x123456789abcdefll); crefl_buf_write_bytes(b, "hello", 5); d.num(crefl_buf_offset(b)); crefl_buf_reset(b); int64_t v = 0; int16_t w = 0; crefl_buf_read_i16(b, &w); crefl_buf_read_i64(b, &v); d.num(v + w); crefl_buf_destroy(b); });
    own("identifier text", [](int, Dig &d) { for (const char *t : { "1.2.840.113549.1", "2.5.4.3", "1..2", "0.9.2342" }) { asn1_oid o; memset(&o, 0, sizeof o); d.num(crefl_asn1_oid_from_string(&o, t, strlen(t))); char s[64] = { 0 }; size_t n = sizeof s; d.num(crefl_asn1_oid_to_string(s, &n, &o)); d.str(s); } });
    own("registry", [](int, Dig &d) { for (const char *o : { "\x55\x04\x03", "\x2a\x86\x48\x86\xf7\x0d", "\x55\x04", "\x7f\x7f" }) { const char *s = crefl_asn1_oid_desc(o, strlen(o)); d.str(s ? s : "-"); } });
    own("tag names", [](int, Dig &d) { for (unsigned i = 0; i < 40; i++) { d.str(asn1_tag_name(i)); d.str(crefl_tag_name(i)); } });
    for (auto &x : decoders) {
        const Dec *p = &x;
        own((std::string("decode ") + x.name).c_str(), [p](int, Dig &d) {
            for (int b0 : { 0x00, 0x01, 0x02, 0x04, 0x05, 0x06, 0x09, 0x1f, 0x2a, 0x7f, 0x80, 0x81, 0x9f, 0xb7, 0xc1, 0xff }) for (int b1 : { 0x00, 0x01, 0x03, 0x08, 0x7f, 0x81, 0xff }) {
                char m[32]; memset(m, 0x13, 32); m[0] = b0; m[1] = b1; crefl_buf b; b.data = m; b.data_offset = 0; b.data_size = 24;
                if (!strncmp(p->name, "octets", 6) || !strncmp(p->name, "der_octets", 10)) {
                    /* the harness's own runner keeps its storage; use one per thread */
                    char s[40]; memset(s, 0, 40); asn1_string o; o.str = (u8*)s; o.count = 16; int rc = p->name[0] == 'd' ? crefl_asn1_der_octets_read(&b, asn1_tag_octet_string, &o) : crefl_asn1_ber_octets_read(&b, 5, &o);
                    d.num(rc); d.num(o.count); d.add(s, 40); d.num(b.data_offset); continue;
                }
                if (strstr(p->name, "oid")) {
                    asn1_oid o; memset(&o, 0, sizeof o); int rc = p->name[0] == 'd' ? crefl_asn1_der_oid_read(&b, asn1_tag_object_identifier, &o) : crefl_asn1_ber_oid_read(&b, 5, &o);
                    d.num(rc); d.num(o.count); for (size_t i = 0; i < o.count; i++) d.num(o.oid[i]); d.num(b.data_offset); continue;
                }
                Res r = p->run(&b, 5); d.num(r.err); if (!r.err) for (size_t i = 0; i < r.n; i++) d.num(r.v[i]); d.num(b.data_offset);
            }
        });
    }
    for (auto &x : encoders) {
        const Enc *p = &x;
        own((std::string("encode ") + x.name).c_str(), [p](int, Dig &d) {
            for (uint64_t w : { 0ull, 1ull, 127ull, 128ull, 300ull, 1ull << 31, 0x3fd5555555555555ull, 0x4059000000000000ull, 0x00000000000fffffull, ~0ull }) {
                char m[700]; memset(m, 0, sizeof m); Val v; v.u = p->dom == D_BOOL ? w & 1 : p->dom == D_U56 || p->dom == D_TAG || p->dom == D_IDENT ? w >> 8 : w; v.cls = w & 3; v.cons = w & 1; v.arcs.assign(2 + w % 7, w >> 12 & 31); v.str.assign(w % 140, 0x31);
                for (size_t cap : { (size_t)600, (size_t)3 }) { crefl_buf b; b.data = m; b.data_offset = 0; b.data_size = cap; d.num(p->run(&b, v)); d.num(b.data_offset); d.add(m, sizeof m); }
            }
        });
    }
    reads("read the same: query", [](int, Dig &d) { walk(shr.db, d); });
    reads("read the same: save", [](int, Dig &d) { image(shr.db, d); });
    reads("read the same: save file", [](int t, Dig &d) { std::string p = mc::fmt("%s/s%d.refl", mc::workdir, t); d.num(crefl_db_write_file(shr.db, p.c_str())); });
    reads("read the same: index", [](int, Dig &d) { index(shr.db, d); });
    reads("read the same: merge", [](int, Dig &d) { decl_db *in[] = { shr.db, shr.db2 }; decl_db *m = crefl_db_new(); d.num(crefl_link_merge(m, "m.refl", in, 2)); image(m, d); crefl_db_destroy(m); });
    reads("read the same: merge other way", [](int, Dig &d) { decl_db *in[] = { shr.db2, shr.db }; decl_db *m = crefl_db_new(); d.num(crefl_link_merge(m, "n.refl", in, 2)); image(m, d); crefl_db_destroy(m); });
}

struct Job { int op, slot; volatile uint64_t *res; pthread_barrier_t *bar; };
static void *job(void *v) { Job *j = (Job*)v; *j->res = ops[j->op].f(j->slot); return nullptr; }

static std::string report(const char *file)
{
    std::string s; FILE *f = fopen(file, "r"); if (!f) return s;
    char l[1024]; int frames = 0;
    while (fgets(l, sizeof l, f)) { if (strstr(l, "WARNING:") || strstr(l, "SUMMARY:") || strstr(l, "ERROR:") || strstr(l, "Location") || (l[0] == ' ' && strstr(l, "#0") && frames++ < 4)) { s += l; if (s.size() > 900) break; } }
    fclose(f); return s;
}

/* both operations side by side in a new process */
static volatile uint64_t *res;
static void pair(int a, int b)
{
    std::string err = mc::fmt("%s/pair.err", mc::workdir);
    res[0] = res[1] = res[2] = res[3] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); close(fd);
        pthread_t t[2]; Job j[2] = { { a, 0, &res[0], nullptr }, { b, 1, &res[1], nullptr } };
        for (int i = 0; i < 2; i++) pthread_create(&t[i], nullptr, job, &j[i]);
        for (int i = 0; i < 2; i++) pthread_join(t[i], nullptr);
        res[2] = 1;
        _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
    mc::op(2); mc::state(); mc::trace();
    std::string what = ops[a].name + " beside " + ops[b].name;
    if (!res[2] || !WIFEXITED(st) || WEXITSTATUS(st)) { mc::fail("%s: %s", what.c_str(), WIFEXITED(st) ? report(err.c_str()).c_str() : mc::fmt("killed by signal %d", WTERMSIG(st)).c_str()); return; }
    /* and what each gave is what it gives alone */
    static std::map<int, uint64_t> alone;
    for (int i = 0; i < 2; i++) {
        int o = i ? b : a; volatile uint64_t *r = &res[3];
        if (!alone.count(o)) {
            pid_t q = fork();
            if (q == 0) { *r = ops[o].f(0); _exit(0); }
            while (waitpid(q, &st, 0) < 0 && errno == EINTR);
            alone[o] = *r;
        }
        if (res[i] != alone[o]) mc::fail("%s: %s gives another result than alone", what.c_str(), ops[o].name.c_str());
    }
}

void mc_explore()
{
    res = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    define();
    shr.db = mk({ 1, 7, 12, 3 }); shr.db2 = mk({ 3, 5, 15 });
    for (size_t a = 0; a < ops.size(); a++) {
        if (!mc::begin("%s", ops[a].name.c_str())) continue;
        for (size_t b = a; b < ops.size(); b++) {
            mc::sub(b); pair(a, b);
            if (mc::thorough && a != b) { mc::sub(b, 1); pair(b, a); }
        }
    }
}
