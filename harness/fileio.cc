/* P03: file save and load report every I/O failure */
#include "graphs.h"
#include <dlfcn.h>
#include <dirent.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <fcntl.h>
using namespace gr;

/* ---- fault injection: every I/O call the library makes is a point that may fail */
static bool armed; static int point, fail_at, how; static const char *hit;
static bool inject(const char *name) { if (!armed) return false; if (point++ != fail_at) return false; hit = name; errno = how % 2 ? EIO : ENOSPC; return true; }
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(n) ({ static decltype(&n) f = real<decltype(&n)>(#n); f; })

static void spoil(int fd)
{
    /* what a failed close leaves behind */
    struct stat st; int fl = fcntl(fd, F_GETFL);
    if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY && fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 0) if (ftruncate(fd, how & 2 ? 0 : st.st_size - 1)) {}
}
static void mark(FILE *f) { f->_flags |= 0x20; }   /* what ferror reports */
extern "C" {
FILE *fopen(const char *p, const char *m) { if (inject("fopen")) return nullptr; return REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { if (inject("fopen")) return nullptr; return REAL(fopen)(p, m); }
FILE *fdopen(int fd, const char *m) noexcept { if (inject("fdopen")) return nullptr; return REAL(fdopen)(fd, m); }
size_t fread(void *b, size_t s, size_t n, FILE *f) { if (inject("fread")) { mark(f); if (how & 2) return 0; return REAL(fread)(b, s, n ? n - 1 : 0, f); } return REAL(fread)(b, s, n, f); }
size_t __fread_chk(void *b, size_t l, size_t s, size_t n, FILE *f) { (void)l; return fread(b, s, n, f); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { if (inject("fwrite")) { mark(f); if (how & 2) return 0; return REAL(fwrite)(b, s, n ? n - 1 : 0, f); } return REAL(fwrite)(b, s, n, f); }
int fflush(FILE *f) { if (f && f != stdout && f != stderr && inject("fflush")) { REAL(fflush)(f); mark(f); spoil(fileno(f)); return EOF; } return REAL(fflush)(f); }
int fclose(FILE *f) { if (inject("fclose")) { REAL(fflush)(f); spoil(fileno(f)); REAL(fclose)(f); return EOF; } return REAL(fclose)(f); }
static long told = -1;   /* the size that is reported of the file; the one it had a moment ago */
int fstat(int fd, struct stat *s) noexcept { if (inject("fstat")) return -1; int r = REAL(fstat)(fd, s); if (r == 0 && told >= 0 && S_ISREG(s->st_mode)) s->st_size = told; return r; }
int ftruncate(int fd, off_t o) noexcept { if (inject("ftruncate")) return -1; return REAL(ftruncate)(fd, o); }
ssize_t read(int fd, void *b, size_t n) { if (inject("read")) return -1; return REAL(read)(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (fd > 2 && inject("write")) { if (how & 2) return -1; return REAL(write)(fd, b, n / 2); } return REAL(write)(fd, b, n); }
int close(int fd) { if (inject("close")) { spoil(fd); REAL(close)(fd); return -1; } return REAL(close)(fd); }
int fseek(FILE *f, long o, int w) { if (inject("fseek")) return -1; return REAL(fseek)(f, o, w); }
long ftell(FILE *f) { if (inject("ftell")) return -1; return REAL(ftell)(f); }
int fsync(int fd) { if (inject("fsync")) { spoil(fd); return -1; } return REAL(fsync)(fd); }
}

static int fds() { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }

static decl_db *make(int n, int len)
{
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    for (int i = 0; i < n; i++) { decl_ref r = crefl_decl_new(db, i ? _decl_struct : _decl_source); decl_id m = crefl_name_new(db, std::string(len, (char)('a' + i % 26)).c_str()); crefl_decl_ptr(r)->_name = m; crefl_decl_ptr(r)->_quantity = i; if (!i) db->root_element = crefl_decl_idx(r); }
    return db;
}
static std::string image(decl_db *db) { std::string s(crefl_db_size(db), 0); crefl_db_write_mem(db, (uint8_t*)&s[0], s.size()); return s; }
static bool slurp(const std::string &p, std::string &s)
{
    s.clear(); int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false;
    char b[65536]; ssize_t r; while ((r = REAL(read)(fd, b, sizeof b)) > 0) s.append(b, r); REAL(close)(fd); return true;
}
static void put(const std::string &p, const std::string &s) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t o = 0; while (o < s.size()) { ssize_t r = REAL(write)(fd, s.data() + o, s.size() - o); if (r <= 0) break; o += r; } REAL(close)(fd); }
static std::string path(const char *n) { return mc::fmt("%s/%s", mc::workdir, n); }

static int save(decl_db *db, const std::string &p, const char *what)
{
    int before = fds(); Snap s(db);
    int r = crefl_db_write_file(db, p.c_str());
    bool was = armed; armed = false; mc::op();
    if (fds() != before) mc::fail("%s: saving leaks a file descriptor", what);
    if (!(Snap(db) == s)) mc::fail("%s: saving to a file changed the database", what);
    armed = was; return r;
}
/* load into a fresh database; success only with the graph of want */
static int load(const std::string &p, decl_db *want, const char *what)
{
    decl_db *db = crefl_db_new(); Snap s(db);
    int before = fds();
    int r = crefl_db_read_file(db, p.c_str());
    armed = false; mc::op(); mc::state();
    if (fds() != before) mc::fail("%s: loading leaks a file descriptor", what);
    if (r != 0) { if (!(Snap(db) == s)) mc::fail("%s: failed load changed the database", what); }
    else if (!want) mc::fail("%s: load succeeds", what);
    else if (!(Snap(db) == Snap(want))) mc::fail("%s: load succeeds with another graph", what);
    crefl_db_destroy(db); mc::quiet();
    return r;
}

static void wrote(int r, const std::string &p, const std::string &im, const char *what)
{
    std::string got; slurp(p, got);
    if (r == 0 && got != im) mc::fail("%s: success, but the file holds %zu bytes that are not the image of %zu", what, got.size(), im.size());
    mc::state();
}

/* the storage takes k bytes and no more */
static void limited(decl_db *db, const std::string &im, size_t k, int old)
{
    std::string p = path("limited"); unlink(p.c_str());
    if (old >= 0) put(p, std::string(old, 'j'));
    struct rlimit rl, save_rl; getrlimit(RLIMIT_FSIZE, &save_rl); rl = save_rl; rl.rlim_cur = k;
    setrlimit(RLIMIT_FSIZE, &rl);
    int r = save(db, p, "limited");
    setrlimit(RLIMIT_FSIZE, &save_rl);
    wrote(r, p, im, "limited");
    if (k >= im.size() && r != 0) mc::fail("saving %zu bytes fails where %zu fit", im.size(), k);
    if (k < im.size() && r == 0) mc::fail("saving %zu bytes succeeds where %zu fit", im.size(), k);
    mc::quiet();
}

static void faults(decl_db *db, const std::string &im, int old)
{
    std::string p = path("fault");
    for (how = 0; how < 4; how++) for (fail_at = 0; fail_at < 40; fail_at++) {
        mc::sub(how, fail_at);
        unlink(p.c_str()); if (old >= 0) put(p, std::string(old, 'j'));
        hit = nullptr; point = 0; armed = true;
        int r = save(db, p, "fault"); armed = false;
        if (!hit) { if (r != 0) mc::fail("saving fails without a fault"); wrote(r, p, im, "no fault"); break; }
        std::string w = mc::fmt("%s fails at call %d, way %d", hit, fail_at, how);
        wrote(r, p, im, w.c_str());
    }
    for (how = 0; how < 4; how++) for (fail_at = 0; fail_at < 40; fail_at++) {
        mc::sub(how, fail_at, 1);
        put(p, im);
        hit = nullptr; point = 0; armed = true;
        std::string w = mc::fmt("load, call %d, way %d", fail_at, how);
        int r = load(p, db, w.c_str()); armed = false;
        if (!hit) { if (r != 0) mc::fail("loading fails without a fault"); break; }
    }
    armed = false;
}

static void unusable()
{
    decl_db *db = make(3, 5); std::string im = image(db), dir = path("d");
    put(path("plain"), im); mkdir(dir.c_str(), 0755); unlink(path("loop").c_str()); if (symlink(path("loop").c_str(), path("loop").c_str())) {}
    unlink(path("dangling").c_str()); if (symlink(path("nowhere/x").c_str(), path("dangling").c_str())) {}
    unlink(path("link").c_str()); if (symlink("plain", path("link").c_str())) {}
    struct { std::string p; bool w, r; } bad[] = { { path("missing/x"), true, true }, { path("missing"), false, true }, { dir, true, true }, { path("plain/x"), true, true }, { "", true, true }, { path(std::string(300, 'n').c_str()), true, true }, { path("loop"), true, true }, { path("dangling"), true, true }, { "/dev/full", true, true }, { "/dev/null", false, true }, { "/dev/zero", false, true }, { "/dev/random", false, true } };
    int k = 0;
    for (auto &b : bad) {
        mc::sub(k++);
        if (b.w && save(db, b.p, b.p.c_str()) == 0) mc::fail("saving to %s succeeds", b.p.c_str());
        if (b.r && load(b.p, nullptr, b.p.c_str()) == 0) {}
    }
    if (load(path("link"), db, "link") != 0) mc::fail("loading through a link fails");
    if (save(db, path("link"), "link") != 0) mc::fail("saving through a link fails");
    /* a pipe and a socket */
    std::string ff = path("fifo"); unlink(ff.c_str());
    if (mkfifo(ff.c_str(), 0644) == 0) { int fd = open(ff.c_str(), O_RDWR | O_NONBLOCK); load(ff, nullptr, "empty pipe"); if (REAL(write)(fd, im.data(), 10)) {} load(ff, nullptr, "pipe with part of an image"); REAL(close)(fd); unlink(ff.c_str()); }
    int so = socket(AF_UNIX, SOCK_STREAM, 0);
    if (so >= 0) { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; std::string sp = path("s"); if (sp.size() < sizeof a.sun_path) { strcpy(a.sun_path, sp.c_str()); unlink(sp.c_str()); if (bind(so, (struct sockaddr*)&a, sizeof a) == 0) { load(sp, nullptr, "socket"); if (save(db, sp, "socket") == 0) mc::fail("saving to a socket succeeds"); } unlink(sp.c_str()); } REAL(close)(so); }
    /* no descriptors left */
    struct rlimit rl, sv; getrlimit(RLIMIT_NOFILE, &sv); int top = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) top = i + 1;
    std::vector<int> fill; for (int i = 0; i < top; i++) if (fcntl(i, F_GETFD) < 0) fill.push_back(dup(0));
    rl = sv; rl.rlim_cur = top; setrlimit(RLIMIT_NOFILE, &rl);
    int a = save(db, path("plain2"), "no descriptors"), b = load(path("plain"), nullptr, "no descriptors");
    setrlimit(RLIMIT_NOFILE, &sv); for (int f : fill) REAL(close)(f);
    if (a == 0 || b == 0) mc::fail("success without a descriptor");
    /* many rounds: a slow leak shows */
    for (int i = 0; i < 300; i++) { if (save(db, path("plain"), "round") || load(path("plain"), db, "round")) mc::fail("round %d fails", i); load(path("missing"), nullptr, "round"); save(db, dir, "round"); }
    crefl_db_destroy(db);
}

static void truncated(int n, int len)
{
    decl_db *db = make(n, len); std::string im = image(db), p = path("cut");
    for (size_t k = 0; k < im.size(); k++) { mc::sub(k); put(p, im.substr(0, k)); load(p, nullptr, "truncated"); }
    put(p, im); if (load(p, db, "whole")) mc::fail("whole file does not load");
    crefl_db_destroy(db);
}

/* the file becomes shorter or longer while it is loaded: the size that was reported is not what there is to read */
static void moving(int n, int len)
{
    decl_db *db = make(n, len); std::string im = image(db), p = path("moving");
    std::set<size_t> ks { 0, 1, im.size() / 2 };
    for (size_t e = 0; e < 24; e++) for (int d = -1; d <= 1; d++) { ks.insert(((size_t)1 << e) + d); ks.insert(im.size() - ((size_t)1 << e) + d); }
    for (size_t k = 0; k < im.size() + 40; k++) if (mc::thorough || im.size() < 700 || k % 512 < 2 || k % 997 == 0) ks.insert(k);
    for (size_t k : ks) if (k < im.size()) {
        mc::sub(k);
        put(p, im.substr(0, k)); told = im.size(); load(p, nullptr, "file cut while it is read"); told = -1;
        put(p, im); told = k; load(p, nullptr, "file that grows while it is read"); told = -1;
    }
    crefl_db_destroy(db);
}

void mc_explore()
{
    const bool T = mc::thorough;
    signal(SIGXFSZ, SIG_IGN);
    struct { int n, len; } sz[] = { { 1, 0 }, { 1, 1 }, { 2, 3 }, { 3, 40 }, { 10, 10 }, { 100, 8 }, { 127, 0 }, { 2, 2000 }, { 2, 4100 }, { 40, 300 } };
    for (auto &s : sz) {
        decl_db *db = make(s.n, s.len); std::string im = image(db);
        for (int old : { -1, 0, 1, 100, 9000, 70000 }) {
            size_t step = T || im.size() < 500 ? 1 : 97, blk = step * 64;
            for (size_t b = 0; b <= im.size() + 2; b += blk) if (mc::begin("limited %d %d %d %zu", s.n, s.len, old, b)) for (size_t k = b; k < b + blk && k <= im.size() + 2; k += step) { mc::sub(k); limited(db, im, k, old); }
            if (mc::begin("limits %d %d %d", s.n, s.len, old)) for (size_t k : { (size_t)0, (size_t)1, (size_t)4095, (size_t)4096, (size_t)4097, (size_t)8191, (size_t)8192, (size_t)8193, im.size() - 2, im.size() - 1, im.size(), im.size() + 1, im.size() * 2 }) { mc::sub(k); limited(db, im, k, old); }
            if (mc::begin("faults %d %d %d", s.n, s.len, old)) faults(db, im, old);
        }
        if ((T || im.size() < 5000) && mc::begin("truncated %d %d", s.n, s.len)) truncated(s.n, s.len);
        crefl_db_destroy(db);
    }
    for (auto &s : sz) if (mc::begin("moving %d %d", s.n, s.len)) moving(s.n, s.len);
    if (mc::begin("moving 3000 30")) moving(3000, 30);
    if (mc::begin("sparse")) {
        /* more than 31 and 32 bits of octets behind the image */
        decl_db *db = make(3, 40); std::string im = image(db), p = path("sparse");
        for (size_t n : { ((size_t)1 << 31) + 10, ((size_t)1 << 32) + 10, ((size_t)1 << 32) + im.size() - 1 }) {
            mc::sub(n); put(p, im);
            if (truncate(p.c_str(), n)) { fprintf(stderr, "no room for a sparse file\n"); _exit(97); }
            if (load(p, db, "image with a long tail")) mc::fail("a file of %zu octets is refused", n);
            unlink(p.c_str());
        }
        crefl_db_destroy(db);
    }
    if (mc::begin("unusable paths")) unusable();
    /* one file, saved again and again with other lengths */
    for (int x = 0; x < 10; x++) if (mc::begin("replace %d", x)) for (int y = 0; y < 10; y++) for (int z = 0; z < 10; z++) {
        mc::sub(y, z); std::string p = path("replace"); unlink(p.c_str());
        for (int w : { x, y, z }) { decl_db *db = make(sz[w].n, sz[w].len); std::string im = image(db); int r = save(db, p, "replace"); if (r) mc::fail("saving over a file fails"); wrote(r, p, im, "replace"); if (load(p, db, "replace")) mc::fail("replaced file does not load"); crefl_db_destroy(db); }
    }
}
