/* runs the main function of a command line tool in a process of its own, with
 * storage that fails where the caller says; the tool's object file is linked
 * in with its main renamed to tool_main */
#pragma once
#include "mc.h"
#include <dlfcn.h>
#include <dirent.h>
#include <poll.h>

extern "C" int tool_main(int, char **);

namespace tr {

/* ---- every I/O call is a point that may fail; only armed in the tool's process */
inline bool armed; inline int point, fail_at, how, hit_fd = -1;
inline bool inject(const char *name)
{
    if (!armed) return false;
    if (point++ != fail_at) return false;
    if (write(hit_fd, name, strlen(name))) {}
    errno = how % 2 ? EIO : ENOSPC; return true;
}
template <class F> inline F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define TR_REAL(n) ({ static decltype(&n) f = tr::real<decltype(&n)>(#n); f; })
inline bool is(FILE *f, FILE *g) { return f && f == g; }
inline void mark(FILE *f) { if (f) f->_flags |= 0x20; }     /* what ferror reports */
inline void spoil(int fd)
{
    /* what a failed close leaves behind */
    struct stat st; int fl = fcntl(fd, F_GETFL);
    if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY && fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 0) if (ftruncate(fd, how & 2 ? 0 : st.st_size - 1)) {}
}

struct Res { int st = 0; bool late = false; std::string out, err, hit; bool ok() const { return WIFEXITED(st) && WEXITSTATUS(st) == 0; } };
struct Opt {
    long limit = -1;            /* bytes a file may hold */
    int at = -1, how = 0;       /* the I/O call that fails, and the way */
    const char *to = nullptr;   /* where standard output goes; "-" nowhere */
    bool grow = false;          /* leave the output in place */
};

inline std::string path(const std::string &n) { return std::string(mc::workdir) + "/" + n; }
inline bool slurp(const std::string &p, std::string &s)
{
    s.clear(); int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC); if (fd < 0) return false;
    struct stat st; if (fstat(fd, &st) || S_ISDIR(st.st_mode)) { close(fd); return false; }
    s.resize(st.st_size); size_t o = 0; while (o < s.size()) { ssize_t r = ::read(fd, &s[o], s.size() - o); if (r <= 0) break; o += r; }
    s.resize(o); close(fd); return true;
}
inline void put(const std::string &p, const std::string &s)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); size_t o = 0;
    while (o < s.size()) { ssize_t r = ::write(fd, s.data() + o, s.size() - o); if (r <= 0) { perror("put"); _exit(98); } o += r; }
    close(fd);
}

inline Res run(const std::vector<std::string> &args, const Opt &o = Opt(), const char *exe = nullptr)
{
    static std::string outp = path("stdout.txt");
    Res r; int ep[2], hp[2];
    if (pipe2(ep, O_CLOEXEC) || pipe2(hp, O_CLOEXEC)) _exit(98);
    std::vector<char*> av; std::string nm = "tool"; av.push_back(&nm[0]);
    for (auto &a : args) av.push_back((char*)a.c_str());
    av.push_back(nullptr);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) _exit(98);
    if (pid == 0) {
        struct rlimit cpu = { 40, 40 }; setrlimit(RLIMIT_CPU, &cpu);
        signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
        dup2(ep[1], 2);
        if (o.to && !strcmp(o.to, "-")) close(1);
        else { int fd = open(o.to ? o.to : outp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) _exit(98); dup2(fd, 1); if (fd > 2) close(fd); }
        hit_fd = hp[1]; fail_at = o.at; how = o.how; point = 0;
        if (o.limit >= 0) { struct rlimit l = { (rlim_t)o.limit, (rlim_t)o.limit }; setrlimit(RLIMIT_FSIZE, &l); }
        if (exe) { execv(exe, av.data()); _exit(97); }
        atexit([] { armed = false; });  /* the runtime flushes its streams again */
        armed = o.at >= 0;
        exit(tool_main(av.size() - 1, av.data()));
    }
    close(ep[1]); close(hp[1]);
    struct pollfd pf[2] = { { ep[0], POLLIN, 0 }, { hp[0], POLLIN, 0 } }; std::string *to[2] = { &r.err, &r.hit };
    double end = mc::now() + 45;
    while (pf[0].fd >= 0 || pf[1].fd >= 0) {
        int k = poll(pf, 2, 1000);
        if (mc::now() > end) { r.late = true; kill(pid, SIGKILL); break; }
        if (k <= 0) continue;
        for (int i = 0; i < 2; i++) if (pf[i].fd >= 0 && pf[i].revents) { char b[4096]; ssize_t n = ::read(pf[i].fd, b, sizeof b); if (n > 0) { if (to[i]->size() < 100000) to[i]->append(b, n); } else pf[i].fd = -1; }
    }
    close(ep[0]); close(hp[0]);
    while (waitpid(pid, &r.st, 0) < 0 && errno == EINTR);
    if (!o.to) slurp(outp, r.out);
    mc::op();
    if (WIFEXITED(r.st) && WEXITSTATUS(r.st) == 98) { mc::fail("the check cannot start the tool"); }
    return r;
}
inline std::string show(const std::vector<std::string> &a) { std::string s = "tool"; for (auto &x : a) { s += ' '; size_t k = x.rfind('/'); s += x.empty() ? "''" : k == std::string::npos || k + 1 == x.size() ? x : x.substr(k + 1); } return s; }
/* how the process ended, if that is not with an exit status a tool may give */
inline bool broke(const Res &r, const std::string &what)
{
    if (r.late) { mc::fail("%s: does not end", what.c_str()); return true; }
    bool san = r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error") != std::string::npos;
    if (WIFSIGNALED(r.st) || san) { size_t k = r.err.find("ERROR:"); mc::fail("%s: ends with signal %d %s", what.c_str(), WIFSIGNALED(r.st) ? WTERMSIG(r.st) : 0, r.err.substr(k == std::string::npos ? 0 : k, 160).c_str()); return true; }
    return false;
}
/* exit status and message of a run that had to fail */
inline void refused(const Res &r, const std::string &what)
{
    if (broke(r, what)) return;
    if (r.ok()) mc::fail("%s: exits 0", what.c_str());
    else if (r.err.empty()) mc::fail("%s: exits %d without a message", what.c_str(), WEXITSTATUS(r.st));
}

} // namespace tr

#ifdef TR_FAULTS
#include <stdarg.h>
extern "C" {
FILE *fopen(const char *p, const char *m) { if (tr::inject("fopen")) return nullptr; return TR_REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { if (tr::inject("fopen")) return nullptr; return TR_REAL(fopen)(p, m); }
FILE *fdopen(int fd, const char *m) noexcept { if (tr::inject("fdopen")) return nullptr; return TR_REAL(fdopen)(fd, m); }
size_t fread(void *b, size_t s, size_t n, FILE *f) { if (tr::inject("fread")) { tr::mark(f); if (tr::how & 2) return 0; return TR_REAL(fread)(b, s, n ? n - 1 : 0, f); } return TR_REAL(fread)(b, s, n, f); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { if (!tr::is(f, stderr) && tr::inject("fwrite")) { tr::mark(f); if (tr::how & 2) return 0; return TR_REAL(fwrite)(b, s, n ? n - 1 : 0, f); } return TR_REAL(fwrite)(b, s, n, f); }
int fflush(FILE *f) { if (f && !tr::is(f, stderr) && tr::inject("fflush")) { TR_REAL(fflush)(f); tr::mark(f); tr::spoil(fileno(f)); return EOF; } return TR_REAL(fflush)(f); }
int fclose(FILE *f) { if (tr::inject("fclose")) { TR_REAL(fflush)(f); tr::spoil(fileno(f)); TR_REAL(fclose)(f); return EOF; } return TR_REAL(fclose)(f); }
int fputs(const char *s, FILE *f) { if (!tr::is(f, stderr) && tr::inject("fputs")) { tr::mark(f); return EOF; } return TR_REAL(fputs)(s, f); }
int puts(const char *s) { if (tr::inject("puts")) { tr::mark(stdout); return EOF; } return TR_REAL(puts)(s); }
int fputc(int c, FILE *f) { if (!tr::is(f, stderr) && tr::inject("fputc")) { tr::mark(f); return EOF; } return TR_REAL(fputc)(c, f); }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { if (tr::inject("putchar")) { tr::mark(stdout); return EOF; } return TR_REAL(putchar)(c); }
int vfprintf(FILE *f, const char *m, va_list a) { if (!tr::is(f, stderr) && tr::inject("fprintf")) { tr::mark(f); return -1; } return TR_REAL(vfprintf)(f, m, a); }
int vprintf(const char *m, va_list a) { return vfprintf(stdout, m, a); }
int fprintf(FILE *f, const char *m, ...) { va_list a; va_start(a, m); int r = vfprintf(f, m, a); va_end(a); return r; }
int printf(const char *m, ...) { va_list a; va_start(a, m); int r = vfprintf(stdout, m, a); va_end(a); return r; }
int __fprintf_chk(FILE *f, int, const char *m, ...) { va_list a; va_start(a, m); int r = vfprintf(f, m, a); va_end(a); return r; }
int __printf_chk(int, const char *m, ...) { va_list a; va_start(a, m); int r = vfprintf(stdout, m, a); va_end(a); return r; }
int fstat(int fd, struct stat *s) noexcept { if (tr::inject("fstat")) return -1; return TR_REAL(fstat)(fd, s); }
ssize_t read(int fd, void *b, size_t n) { if (tr::inject("read")) return -1; return TR_REAL(read)(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (fd != 2 && fd != tr::hit_fd && tr::inject("write")) { if (tr::how & 2) return -1; return TR_REAL(write)(fd, b, n / 2); } return TR_REAL(write)(fd, b, n); }
int close(int fd) { if (tr::inject("close")) { tr::spoil(fd); TR_REAL(close)(fd); return -1; } return TR_REAL(close)(fd); }
int fseek(FILE *f, long o, int w) { if (tr::inject("fseek")) return -1; return TR_REAL(fseek)(f, o, w); }
long ftell(FILE *f) { if (tr::inject("ftell")) return -1; return TR_REAL(ftell)(f); }
}
#endif
