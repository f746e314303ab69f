/* P04: the reflection tool exits 0 only when it did its whole job */
#define TR_FAULTS
#include "graphs.h"
#include <crefl/dump.h>
#include "capture.h"
#include "toolrun.h"
using namespace gr; using namespace tr;

static const char *modes[] = { "--dump", "--dump-fqn", "--dump-sum", "--dump-all", "--dump-ext", "--dump-ext-fqn", "--dump-ext-sum", "--dump-ext-all", "--merge", "--emit", "--stats" };
static const crefl_db_dump_fmt fmts[] = { crefl_db_dump_std, crefl_db_dump_fqn, crefl_db_dump_sum, crefl_db_dump_all, crefl_db_dump_ext, crefl_db_dump_ext_fqn, crefl_db_dump_ext_sum, crefl_db_dump_ext_all };
enum { M_MERGE = 8, M_EMIT, M_STATS };
typedef std::vector<std::string> Args;
static std::string exe;

static std::string image(decl_db *db) { std::string s(crefl_db_size(db), 0); if (crefl_db_write_mem(db, (uint8_t*)&s[0], s.size())) mc::fail("cannot write an image"); return s; }
static std::string image(const G &g) { std::vector<decl_id> id; decl_db *db = build(g, id); std::string s = image(db); crefl_db_destroy(db); return s; }
static decl_db *load(const std::string &im) { decl_db *db = crefl_db_new(); if (crefl_db_read_mem(db, (const uint8_t*)im.data(), im.size())) mc::fail("an image does not load"); return db; }
static void put32(std::string &s, size_t o, u32 v) { for (int i = 0; i < 4; i++) s[o + i] = (char)(v >> 8 * i); }
static u32 get32(const std::string &s, size_t o) { const uint8_t *p = (const uint8_t*)s.data() + o; return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }

/* n declarations, names of len characters */
static std::string bulk(int n, int len, const std::string &name = "b.h")
{
    G g; int s = g.add(_decl_source, name);
    for (int i = 1; i < n; i++) { int x = g.add(_decl_struct, i % 5 ? std::string(len, (char)('a' + i % 26)) + std::to_string(i) : ""); g.kid(s, x); }
    return image(g);
}

/* files that are not images; the caller's name for each says why */
static std::vector<std::pair<std::string, std::string>> damaged(const std::string &im)
{
    std::vector<std::pair<std::string, std::string>> v;
    auto add = [&](const std::string &w, const std::string &s) { v.push_back({ w, s }); };
    u32 cnt = get32(im, 8), nsz = get32(im, 12), first = b_end, names = get32(im, 20 + 8);
    (void)names;
    for (size_t k : { (size_t)0, (size_t)1, (size_t)7, (size_t)8, (size_t)19, (size_t)20, (size_t)21, (size_t)51, (size_t)52, im.size() / 2, im.size() - nsz, im.size() - 2, im.size() - 1 }) if (k < im.size()) add("cut at " + std::to_string(k), im.substr(0, k));
    for (int k = 0; k < 8; k++) { std::string s = im; s[k] ^= 1; add("magic " + std::to_string(k), s); }
    for (u32 d : { 1u, 0x1000u, 0x80000000u, 0xffffffffu - cnt }) { std::string s = im; put32(s, 8, cnt + d); add("count", s); s = im; put32(s, 12, nsz + d); add("name size", s); }
    { std::string s = im; s.back() = 'x'; add("unterminated", s); }
    { std::string s = im; put32(s, 16, first + cnt); add("root", s); s = im; put32(s, 16, 0xffffffff); add("root", s); }
    for (u32 i : { 0u, cnt - 1 }) for (int f : { 12, 16, 20 }) for (u32 x : { first + cnt, 0xffffffffu, 0x80000000u }) { std::string s = im; put32(s, 20 + 32 * i + f, x); add("reference", s); }
    { std::string s = im; put32(s, 20 + 8, 0xffffffff); add("name", s); }
    add("text", "this is not a reflection image, but it is longer than a header\n"); add("zeros", std::string(200, 0));
    return v;
}

static void same_input(const std::string &p, const std::string &im, const std::string &w) { std::string s; if (!slurp(p, s) || s != im) mc::fail("%s: the input file was changed", w.c_str()); }

/* ---- what each mode has to produce */
static std::string dump_text(const std::string &im, int m)
{
    decl_db *db = load(im); crefl_db_set_dump_fmt(fmts[m]);
    std::string s = mc::capture([&] { crefl_db_dump(db); });
    crefl_db_destroy(db); return s;
}
static void check_stats(const std::string &out, const std::string &im, const std::string &w)
{
    u32 cnt = get32(im, 8), nsz = get32(im, 12);
    size_t nb = 1; static const char *bn[] = { "void", "bool", "bit", "sign", "ubyte", "byte", "ushort", "short", "uint", "int", "ulong", "long", "ucent", "cent", "half", "float", "double", "quad", "chalf", "cfloat", "cdouble", "cquad" };
    for (auto x : bn) nb += strlen(x) + 1;
    auto want = [&](const char *label, std::vector<unsigned long long> v) {
        size_t k = out.find(label);
        if (k == std::string::npos) { mc::fail("%s: no %s", w.c_str(), label); return; }
        std::string l = out.substr(k + strlen(label), out.find('\n', k) - k - strlen(label)); std::vector<unsigned long long> got;
        for (size_t i = 0; i < l.size();) if (isdigit(l[i])) { got.push_back(strtoull(&l[i], nullptr, 10)); while (i < l.size() && isdigit(l[i])) i++; } else i++;
        if (got != v) mc::fail("%s: %s%s, expected %llu", w.c_str(), label, l.c_str(), v[0]);
    };
    want("decl.builtin", { 32ull * b_end, b_end }); want("decl.user", { 32ull * cnt, cnt });
    want("name.builtin", { nb }); want("name.user", { nsz }); want("file.size", { im.size() });
}
static std::string merged(const std::vector<std::string> &ims, const std::string &name)
{
    std::vector<decl_db*> in; for (auto &i : ims) in.push_back(load(i));
    decl_db *o = crefl_db_new(); std::string s;
    if (crefl_link_merge(o, name.c_str(), in.data(), in.size()) < 0) mc::fail("the images do not merge"); else s = image(o);
    for (auto d : in) crefl_db_destroy(d); crefl_db_destroy(o);
    return s;
}
/* names of the sources of an archive, in order */
static std::vector<std::string> members(const std::string &im, std::string &name)
{
    std::vector<std::string> v; decl_db *db = load(im); decl_ref r = crefl_root(db);
    name = crefl_decl_name(r); if (!crefl_is_archive(r)) name = "(no archive)";
    for (decl_id i = db->decl[crefl_decl_idx(r)]._link; i; i = db->decl[i]._next) v.push_back(db->name + db->decl[i]._name);
    crefl_db_destroy(db); return v;
}
static void compile(const std::string &c, const std::string &im, const std::string &w)
{
    std::string src = path("emitted.c"), m = path("emain.c"), bin = path("emitted"), got = path("emitted.bin");
    put(src, c);
    put(m, "#include <stdio.h>\n#include <stdlib.h>\nextern const unsigned char __crefl_main_data[]; extern const size_t __crefl_main_size;\nint main(void) { return fwrite(__crefl_main_data, 1, __crefl_main_size, stdout) != __crefl_main_size; }\n");
    for (const char *cc : { "gcc -std=c99 -pedantic-errors -Werror", "clang -std=gnu11 -Werror", "gcc -std=gnu17 -Wall -Werror -O2" }) {
        unlink(bin.c_str());
        if (system(mc::fmt("%s -o %s %s %s >%s 2>&1 && %s >%s", cc, bin.c_str(), src.c_str(), m.c_str(), path("cc.txt").c_str(), bin.c_str(), got.c_str()).c_str())) { std::string e; slurp(path("cc.txt"), e); mc::fail("%s: the emitted source does not compile: %s", w.c_str(), e.substr(0, 200).c_str()); return; }
        std::string s; slurp(got, s); mc::op();
        if (s != im) mc::fail("%s: compiled with %s the data are %zu bytes, the image is %zu bytes, or differ", w.c_str(), cc, s.size(), im.size());
    }
    unlink(bin.c_str());
}

/* one run of a mode on good inputs; the text or file that shows it did its whole job */
struct Job { int m; std::vector<std::string> ims; std::vector<std::string> in; std::string out; Args args; std::string expect, what; };
static Job job(int m, const std::vector<std::string> &ims, const std::string &tag = "")
{
    Job j; j.m = m; j.ims = ims; j.out = path("result" + tag);
    for (size_t i = 0; i < ims.size(); i++) { j.in.push_back(path(mc::fmt("in%zu%s", i, tag.c_str()))); put(j.in[i], ims[i]); }
    j.args = { modes[m] }; if (m == M_MERGE || m == M_EMIT) j.args.push_back(j.out);
    for (auto &i : j.in) j.args.push_back(i);
    j.what = show(j.args);
    if (m < M_MERGE) j.expect = dump_text(ims[0], m);
    if (m == M_MERGE) j.expect = merged(ims, j.out);
    return j;
}
static void inputs_kept(const Job &j, const std::string &w) { for (size_t i = 0; i < j.in.size(); i++) same_input(j.in[i], j.ims[i], w); }
/* the result of a run that exited 0 */
static void complete(Job &j, const Res &r, const std::string &w, bool tofile = true)
{
    std::string got = r.out;
    if (j.m == M_MERGE || j.m == M_EMIT) { if (!slurp(j.out, got)) { mc::fail("%s: exits 0 without an output file", w.c_str()); return; } }
    else if (!tofile) return;
    if (j.m == M_STATS) { check_stats(got, j.ims[0], w); return; }
    if (j.m == M_EMIT && j.expect.empty()) { j.expect = got; return; }
    if (got != j.expect) mc::fail("%s: exits 0, but the output is %zu bytes that differ from the expected %zu", w.c_str(), got.size(), j.expect.size());
}
static void good(Job &j, const char *ex = nullptr, int old = -1)
{
    unlink(j.out.c_str()); if (old >= 0) put(j.out, std::string(old, 'j'));
    Res r = run(j.args, Opt(), ex); mc::state();
    if (broke(r, j.what)) return;
    if (!r.ok()) mc::fail("%s: exits %d: %s", j.what.c_str(), WEXITSTATUS(r.st), r.err.substr(0, 80).c_str()); else complete(j, r, j.what);
    inputs_kept(j, j.what);
}

static void limits(Job j, size_t from, size_t to, size_t step, int old)
{
    Res r0 = run(j.args); complete(j, r0, j.what);
    std::string t = j.m == M_STATS ? r0.out : j.expect;
    auto at = [&](size_t k) {
        if (k > t.size() + 2) return;
        mc::sub(k, old + 1);
        unlink(j.out.c_str()); if (old >= 0) put(j.out, std::string(old, 'j'));
        Opt o; o.limit = k; std::string w = mc::fmt("%s, room for %zu of %zu bytes", j.what.c_str(), k, t.size());
        Res r = run(j.args, o); mc::state();
        if (k < t.size()) refused(r, w);
        else if (broke(r, w)) return;
        else if (!r.ok()) mc::fail("%s: exits %d", w.c_str(), WEXITSTATUS(r.st));
        else complete(j, r, w);
        inputs_kept(j, w);
    };
    for (size_t k = from; k < to && k <= t.size() + 2; k += step) at(k);
    if (step > 1 && from == 0) for (size_t k : { (size_t)1, (size_t)2, (size_t)1023, (size_t)1024, (size_t)1025, (size_t)4095, (size_t)4096, (size_t)4097, (size_t)8191, (size_t)8192, (size_t)8193, t.size() - 2, t.size() - 1, t.size(), t.size() + 1 }) at(k);
    if (step > 1 && from == 0) for (size_t b = 4096; b < t.size(); b += 4096) { at(b - 1); at(b); at(b + 1); }
}

static void faults(Job j, int from, int to, int step, int old)
{
    Res r0 = run(j.args); complete(j, r0, j.what);
    for (int how = 0; how < 4; how++) for (int k = from; k < to; k += step) {
        mc::sub(how, k);
        unlink(j.out.c_str()); if (old >= 0) put(j.out, std::string(old, 'j'));
        Opt o; o.at = k; o.how = how; Res r = run(j.args, o); mc::state();
        std::string w = mc::fmt("%s, call %d (%s) fails, way %d", j.what.c_str(), k, r.hit.c_str(), how);
        if (broke(r, w)) continue;
        if (r.ok()) complete(j, r, w);
        else if (r.hit.empty()) mc::fail("%s: exits %d", w.c_str(), WEXITSTATUS(r.st));
        else if (r.err.empty()) mc::fail("%s: exits %d without a message", w.c_str(), WEXITSTATUS(r.st));
        inputs_kept(j, w);
        if (r.hit.empty()) break;
    }
}

/* bad: position -> file */
static void with_bad(int m, const std::vector<std::string> &ims, size_t pos, const std::string &bad, const std::string &why, const char *ex, int old)
{
    std::string b = path("bad"), out = path("result"); Args a{ modes[m] }; if (m == M_MERGE || m == M_EMIT) a.push_back(out);
    std::vector<std::string> in;
    for (size_t i = 0; i < ims.size(); i++) { in.push_back(path(mc::fmt("in%zu", i))); put(in[i], ims[i]); a.push_back(i == pos ? bad : in[i]); }
    unlink(out.c_str()); if (old >= 0) put(out, std::string(old, 'j'));
    Res r = run(a, Opt(), ex); mc::state();
    refused(r, show(a) + " (" + why + ")");
    for (size_t i = 0; i < ims.size(); i++) same_input(in[i], ims[i], show(a));
}

void mc_explore()
{
    const bool T = mc::thorough;
    mc::capture_init();
    exe = mc::data; const char *ex = exe.empty() ? nullptr : exe.c_str();
    std::vector<std::string> cat; for (size_t i = 0; i < snippets().size(); i++) cat.push_back(image(source({ (int)i }, mc::fmt("s%zu.h", i))));
    std::string one = bulk(1, 0), three = bulk(3, 4), some = image(source({ 3, 5, 8, 12, 14, 17 }));

    /* the tool as it is built, and every mode on every input */
    for (int m = 0; m < 11; m++) if (mc::begin("program %s", modes[m])) { for (auto &im : { one, three, some }) { Job j = job(m, { im }); good(j, ex); good(j); if (m >= M_MERGE && m != M_STATS) { good(j, ex, 0); good(j, nullptr, 100000); } } }
    for (int m = 0; m < 11; m++) for (size_t i = 0; i < cat.size(); i++) if (mc::begin("%s of source %zu", modes[m], i)) { Job j = job(m, { cat[i] }); good(j); }
    for (auto &s : sources(2, T ? 1000 : 12)) if (s.size() == 2 && mc::begin("source %s", gr::show(s).c_str())) for (int m = 0; m < 11; m++) { Job j = job(m, { image(source(s)) }); good(j); }
    for (int n : { 1, 2, 10, 127, 128, 1000, 5000, 66000, 131100 }) for (int m = 0; m < 11; m++) if (mc::begin("%s, %d declarations", modes[m], n)) { Job j = job(m, { bulk(n, 20) }); good(j); }

    /* emitted source compiles to the image: sizes around every row and block */
    for (int len = 0; len < (T ? 200 : 40); len++) if (mc::begin("emit, name of %d", len)) { G g; g.add(_decl_source, std::string(len, 'n')); Job j = job(M_EMIT, { image(g) }); good(j); compile(j.expect, j.ims[0], j.what); }
    for (size_t i = 0; i < cat.size(); i++) if (mc::begin("emit, source %zu", i)) { Job j = job(M_EMIT, { cat[i] }); good(j, nullptr, 5000); compile(j.expect, j.ims[0], j.what); }
    for (int n : { 100, 1000, 3000 }) if (mc::begin("emit, %d declarations", n)) { Job j = job(M_EMIT, { bulk(n, 7) }); good(j); compile(j.expect, j.ims[0], j.what); }
    if (mc::begin("emit, all octets")) { std::string nm; for (int c = 1; c < 256; c++) nm += (char)c; G g; g.add(_decl_source, nm, 0x01020304, 0x8090a0b0c0d0e0f0ull); Job j = job(M_EMIT, { image(g) }); good(j); compile(j.expect, j.ims[0], j.what); }
    if (mc::begin("emit of a merge")) { Job a = job(M_MERGE, { cat[0], cat[5], cat[12] }); good(a); Job j = job(M_EMIT, { a.expect }); good(j); compile(j.expect, a.expect, j.what); }

    /* merges: every sequence of inputs */
    std::vector<std::string> pool{ cat[0], cat[4], cat[8], one, bulk(4, 3, "b.h"), image(source({}, "e.h")) };
    auto merge = [&](const std::vector<std::string> &ims, const std::vector<std::string> &nm) {
        Job j = job(M_MERGE, ims); good(j);
        std::string got, name; if (!slurp(j.out, got)) return;
        auto v = members(got, name);
        if (v != nm) mc::fail("%s: %zu sources, or in another order than given", j.what.c_str(), v.size());
    };
    std::vector<std::string> pn{ "s0.h", "s4.h", "s8.h", "b.h", "b.h", "e.h" };
    for (int n = 1; n <= (T ? 5 : 4); n++) { int tot = 1; for (int k = 0; k < n; k++) tot *= 6; for (int b = 0; b < tot; b += 36) if (mc::begin("merge %d.%d", n, b)) for (int x = b; x < b + 36 && x < tot; x++) { mc::sub(x); std::vector<std::string> ims, nm; for (int k = 0, y = x; k < n; k++, y /= 6) { ims.push_back(pool[y % 6]); nm.push_back(pn[y % 6]); } merge(ims, nm); } }
    for (int n : { 9, 16, 17, 40, 100, 300, 900 }) if (mc::begin("merge %d inputs", n)) { std::vector<std::string> ims, nm; for (int k = 0; k < n; k++) { nm.push_back(mc::fmt("n%d.h", k)); ims.push_back(image(source({ k % 20, (k * 7 + 3) % 20 }, nm.back()))); } merge(ims, nm); }
    if (mc::begin("merge, one file again and again")) for (int n : { 2, 3, 8, 50 }) { Job j = job(M_MERGE, std::vector<std::string>(n, cat[3])); for (int k = 0; k < n; k++) j.args[2 + k] = j.in[0]; good(j); }

    /* a bad input in every position of every mode */
    auto bads = damaged(three);
    auto why = [&](size_t i) { return bads[i].first; };
    for (size_t i = 0; i < bads.size(); i++) if (mc::begin("bad input %zu: %s", i, bads[i].first.c_str())) {
        put(path("bad"), bads[i].second);
        for (int m = 0; m < 11; m++) { mc::sub(m); with_bad(m, { one }, 0, path("bad"), why(i), m % 3 == 0 ? ex : nullptr, m % 2 ? 40 : -1); same_input(path("bad"), bads[i].second, "bad input"); }
        for (size_t n = 2; n <= 4; n++) for (size_t p = 0; p < n; p++) { mc::sub(n, p); std::vector<std::string> ims; for (size_t k = 0; k < n; k++) ims.push_back(cat[k * 3]); with_bad(M_MERGE, ims, p, path("bad"), why(i), nullptr, n % 2 ? 40 : -1); }
    }
    mkdir(path("dir").c_str(), 0755); put(path("plain"), one);
    std::vector<std::string> nofile{ path("missing"), path("dir"), path("plain/x"), path("missing/x"), "", "/", "/dev/null", path(std::string(300, 'n')) };
    for (size_t i = 0; i < nofile.size(); i++) if (mc::begin("unreadable input %zu", i)) {
        for (int m = 0; m < 11; m++) { mc::sub(m); with_bad(m, { one }, 0, nofile[i], "unreadable", m % 2 ? ex : nullptr, -1); }
        for (size_t n = 2; n <= 4; n++) for (size_t p = 0; p < n; p++) { std::vector<std::string> ims; for (size_t k = 0; k < n; k++) ims.push_back(cat[k * 3]); with_bad(M_MERGE, ims, p, nofile[i], "unreadable", nullptr, -1); }
    }

    /* outputs that cannot be written */
    std::vector<std::string> noout{ path("dir"), path("plain/x"), path("missing/x"), "", "/dev/full", path(std::string(300, 'n')) };
    for (size_t i = 0; i < noout.size(); i++) if (mc::begin("unwritable output %zu", i)) for (int m : { (int)M_MERGE, (int)M_EMIT }) for (auto &im : { one, three, some, bulk(1000, 5) }) { Job j = job(m, { im }); j.args[1] = noout[i]; for (auto e : { (const char*)nullptr, ex }) { Res r = run(j.args, Opt(), e); refused(r, show(j.args)); inputs_kept(j, j.what); } }
    for (int m = 0; m < 11; m++) if (m != M_MERGE && m != M_EMIT && mc::begin("%s to full and absent standard output", modes[m])) for (auto &im : { one, three, some, bulk(1000, 5), bulk(20, 5), bulk(40, 9) }) for (auto e : { (const char*)nullptr, ex }) { Job j = job(m, { im }); for (const char *to : { "/dev/full", "-" }) { Opt o; o.to = to; Res r = run(j.args, o, e); refused(r, j.what + " > " + to); inputs_kept(j, j.what); } }
    /* without a standard output files are written all the same */
    if (mc::begin("files without standard output")) for (int m : { (int)M_MERGE, (int)M_EMIT }) for (auto &im : { one, some }) { Job j = job(m, { im }); if (m == M_EMIT) good(j); unlink(j.out.c_str()); Opt o; o.to = "-"; Res r = run(j.args, o); if (!broke(r, j.what) && r.ok()) complete(j, r, j.what); }

    /* storage that ends at every byte, and every I/O call failing */
    for (int m = 0; m < 11; m++) {
        for (size_t b = 0; b < 40000; b += 512) if (mc::begin("%s limited %zu", modes[m], b)) limits(job(m, m == M_MERGE ? std::vector<std::string>{ one, cat[0] } : std::vector<std::string>{ three }), b, b + 512, m < 8 && m != 0 && !T ? 5 : 1, b % 1024 ? 9000 : -1);
        if (mc::begin("%s limited, large", modes[m])) { std::vector<std::string> ims{ bulk(T ? 1500 : 300, 11) }; if (m == M_MERGE) ims.push_back(bulk(20, 300)); limits(job(m, ims), 0, ~0ull >> 1, 4999, -1); }
        for (int b = 0; b < (T ? 6000 : 900); b += 30) if (mc::begin("%s call %d", modes[m], b)) { faults(job(m, m == M_MERGE ? std::vector<std::string>{ one, cat[0] } : std::vector<std::string>{ three }), b, b + 30, 1, b % 60 ? 9000 : -1); if (b < 90) faults(job(m, m == M_MERGE ? std::vector<std::string>{ some, cat[3], cat[9] } : std::vector<std::string>{ bulk(100, 5) }), b, b + 30, 1, -1); }
    }

    /* command lines that are not one of the forms */
    Args word{ "", "-", "--", "--dum", "--dumps", "--dump=x", "dump", "--DUMP", "--dump-", "--dump-all-ext", "--statsx", "--merge2", path("plain"), path("missing") };
    for (auto &m : modes) word.push_back(m);
    size_t bogus = 14;
    auto wrong = [&](const Args &a) {
        if (a.size()) for (int m = 0; m < 11; m++) if (a[0] == modes[m]) { if (m == M_MERGE ? a.size() >= 3 : m == M_EMIT ? a.size() == 3 : a.size() == 2) return; }
        std::string out = path("wo"); unlink(out.c_str()); put(path("plain"), one);
        Res r = run(a); mc::state(); refused(r, show(a)); same_input(path("plain"), one, show(a));
    };
    if (mc::begin("no arguments")) wrong({});
    for (size_t x = 0; x < word.size(); x++) if (mc::begin("words %zu", x)) {
        wrong({ word[x] });
        for (size_t y = 0; y < word.size(); y++) { wrong({ word[x], word[y] }); if (x < bogus || y % 3 == 0 || T) for (size_t z = 0; z < word.size(); z++) if (x >= bogus && z < bogus - 2 ? T : true) { mc::sub(y, z); wrong({ word[x], word[y], word[z] }); } }
        for (int n = 3; n < 9; n++) { Args a{ word[x] }; for (int k = 0; k < n; k++) a.push_back(path("plain")); wrong(a); }
    }
}
