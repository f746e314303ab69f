/*
 * mc.h - a small explicit-state / bounded-exhaustive exploration runtime.
 *
 * A harness defines mc_explore(), which enumerates every case of a bounded
 * space in a fixed order and brackets each one with mc::begin(key...).  A case
 * runs the real code beside a reference model and calls mc::fail() when an
 * observation differs.  The runtime forks the explorer, keeps the current case
 * key in shared memory, so a crash, a sanitizer report or a hang is attributed
 * to the exact case, recorded as a violation, and exploration resumes with the
 * case after it.  Cases are dealt out to shards by index.
 *
 * output (file given by --out): lines
 *   V\t<key>\t<detail>          violation
 *   S\t<key>                    sample case
 *   C\t<name>\t<count>          counter
 *   D                           enumeration completed
 */
#pragma once

#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <csignal>
#include <ctime>

#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>

namespace mc {

struct Shared {
    volatile uint64_t index;       /* index of current case, ~0 outside */
    volatile uint64_t done;        /* explorer finished */
    volatile uint64_t sub[3];
    volatile uint64_t nsub;
    volatile uint64_t beat;
    volatile uint64_t traces, transitions, states, nviol, nsample;
    char key[2048];
    char viol_in_case;
};

inline Shared *sh;
inline bool thorough = false;
inline uint64_t shard = 0, nshards = 1;
inline const char *only = nullptr;
inline const char *workdir = ".";
inline const char *repo = "/repo";
inline const char *data = "";
inline uint64_t next_index = 0, resume_at = 0;
inline int out_fd = -1;
inline uint64_t max_viol = 40;
inline uint64_t sample_every = 1;
inline std::string sect;

inline void emit(const std::string &s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t r = write(out_fd, s.data() + o, s.size() - o);
        if (r <= 0) { if (errno == EINTR) continue; _exit(97); }
        o += r;
    }
}

/* drop what the code under test has printed so far, so that output does not pile up */
inline void quiet()
{
    static uint64_t n = 0;
    if (n++ % 64) return;
    fflush(stdout); fflush(stderr);
    for (int fd = 1; fd <= 2; fd++) if (ftruncate(fd, 0) == 0) lseek(fd, 0, SEEK_SET);
}

inline std::string clean(const char *s)
{
    std::string r;
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '\n' || c == '\t' || c == '\r') r += ' ';
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r;
}

__attribute__((format(printf, 1, 2)))
inline std::string fmt(const char *f, ...)
{
    char b[4096];
    va_list ap; va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if ((size_t)n >= sizeof b) n = sizeof b - 1;
    return std::string(b, n);
}

inline std::string hex(const void *p, size_t n)
{
    std::string s; char b[4];
    for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const uint8_t*)p)[i]); s += b; }
    return s;
}

/* start a case; true when this process is to run it */
__attribute__((format(printf, 1, 2)))
inline bool begin(const char *f, ...)
{
    uint64_t i = next_index++;
    if (i < resume_at) return false;
    if (!only && i % nshards != shard) return false;
    va_list ap; va_start(ap, f);
    char tmp[sizeof sh->key];
    vsnprintf(tmp, sizeof tmp, f, ap);
    va_end(ap);
    if (only && strcmp(only, tmp) != 0) return false;
    sh->index = ~0ull;
    memcpy(sh->key, tmp, strlen(tmp) + 1);
    sh->nsub = 0;
    sh->viol_in_case = 0;
    sh->index = i;
    sh->beat = sh->beat + 1;
    sh->traces = sh->traces + 1;
    if (sh->nsample < 4 && (sh->traces == 1 || sh->traces % 37 == 0)) {
        sh->nsample = sh->nsample + 1;
        emit("S\t" + clean(sh->key) + "\n");
    }
    return true;
}

/* position within a case that covers a block of inputs */
inline void sub(uint64_t a) { sh->sub[0] = a; sh->nsub = 1; sh->beat = sh->beat + 1; }
inline void sub(uint64_t a, uint64_t b) { sh->sub[0] = a; sh->sub[1] = b; sh->nsub = 2; sh->beat = sh->beat + 1; }
inline void sub(uint64_t a, uint64_t b, uint64_t c) { sh->sub[0] = a; sh->sub[1] = b; sh->sub[2] = c; sh->nsub = 3; sh->beat = sh->beat + 1; }

/* number of operations of the code under test just executed */
inline void op(uint64_t n = 1) { sh->transitions = sh->transitions + n; }
/* number of distinct states just added */
inline void state(uint64_t n = 1) { sh->states = sh->states + n; }
/* extra end-to-end executions inside one case */
inline void trace(uint64_t n = 1) { sh->traces = sh->traces + n; }

inline std::string full_key()
{
    std::string k = clean(sh->key);
    if (sh->nsub) {
        k += " [";
        for (uint64_t i = 0; i < sh->nsub && i < 3; i++) k += fmt(i ? ",0x%llx" : "0x%llx", (unsigned long long)sh->sub[i]);
        k += "]";
    }
    return k;
}

inline void record(const std::string &key, const std::string &detail)
{
    emit("V\t" + key + "\t" + clean(detail.c_str()) + "\n");
}

/* observation differs from the model; keeps going (several per case are cut) */
__attribute__((format(printf, 1, 2)))
inline void fail(const char *f, ...)
{
    char b[4096];
    va_list ap; va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (sh->viol_in_case >= 8) return;
    sh->viol_in_case = sh->viol_in_case + 1;
    record(full_key(), b);
    sh->nviol = sh->nviol + 1;
    if (sh->nviol > max_viol) { record("(stopped)", "too many violations, exploration cut short"); sh->done = 2; _exit(0); }
}

} // namespace mc

#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

/* defined by the harness */
void mc_explore();

namespace mc {

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

/* processor time a child has used */
inline double cpu(pid_t pid)
{
    clockid_t id; struct timespec t;
    if (clock_getcpuclockid(pid, &id) || clock_gettime(id, &t)) return 0;
    return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string crash_summary(const char *errfile, int st)
{
    std::string why;
    FILE *f = fopen(errfile, "r");
    if (f) {
        char line[1024];
        std::string last;
        while (fgets(line, sizeof line, f)) {
            if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "runtime error:") || strstr(line, "SUMMARY:")) {
                std::string l = line;
                size_t p = l.find("ERROR: "); if (p != std::string::npos) l = l.substr(p);
                if (why.size() < 600) { why += l; why += " | "; }
            }
            if (line[0] != '\n' && line[0] != '=') last = line;
        }
        fclose(f);
        if (why.empty() && last.size()) why = last;
    }
    if (WIFSIGNALED(st)) return fmt("killed by signal %d (%s) ", WTERMSIG(st), strsignal(WTERMSIG(st))) + why;
    return fmt("exit status %d ", WEXITSTATUS(st)) + why;
}

inline int main(int argc, char **argv)
{
    const char *out = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { if (i + 1 >= argc) exit(2); return argv[++i]; };
        if (a == "--thorough") thorough = true;
        else if (a == "--shard") { sscanf(val(), "%lu/%lu", &shard, &nshards); }
        else if (a == "--only") only = val();
        else if (a == "--out") out = val();
        else if (a == "--work") workdir = val();
        else if (a == "--repo") repo = val();
        else if (a == "--data") data = val();
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (!out) { fprintf(stderr, "--out required\n"); return 2; }
    out_fd = open(out, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
    if (out_fd < 0) { perror(out); return 2; }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof *sh);
    std::string err = std::string(out) + ".err", sout = std::string(out) + ".stdout";
    int crashes = 0;
    const double scale = thorough ? 5 : 1;
    double limit = 60 * scale, cpulimit = 25 * scale;
    uint64_t retried = ~0ull;
    int hangs = 0;
    for (;;) {
        fflush(stdout); fflush(stderr);
        sh->index = ~0ull;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0) {
            int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2); close(fd);
            fd = open(sout.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 1); close(fd);
            struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            next_index = 0;
            mc_explore();
            sh->index = ~0ull;
            if (!sh->done) sh->done = 1;
            _exit(0);
        }
        int st = 0; bool hung = false;
        uint64_t beat = sh->beat; double t = now(), c = cpu(pid); useconds_t nap = 500;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (r < 0 && errno != EINTR) return 2;
            if (sh->beat != beat) { beat = sh->beat; t = now(); c = cpu(pid); }
            else if (now() - t > limit || (now() - t > cpulimit && cpu(pid) - c > cpulimit)) {
                /* no progress: a hang, if it is still one with a longer limit */
                hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break;
            }
            usleep(nap); if (nap < 20000) nap *= 2;
        }
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) break;
        if (sh->index == ~0ull) {
            /* failed while preparing the exploration, before or between cases */
            record("(setup)", hung ? "no progress (hang)" : "crash: " + crash_summary(err.c_str(), st));
            break;
        }
        if (hung && !hangs && retried != sh->index) {
            retried = resume_at = sh->index; limit = 150 * scale; cpulimit = 60 * scale;
            continue;
        }
        if (hung) hangs++;
        /* once one case is known to hang, the next ones are given less */
        limit = (hangs ? 30 : 60) * scale; cpulimit = (hangs ? 15 : 25) * scale;
        record(full_key(), hung ? "no progress (hang)" : "crash: " + crash_summary(err.c_str(), st));
        sh->nviol = sh->nviol + 1;
        resume_at = sh->index + 1;
        if (++crashes > 30 || hangs > 3) { record("(stopped)", "too many crashes, exploration cut short"); break; }
    }
    emit(fmt("C\ttraces\t%llu\n", (unsigned long long)sh->traces));
    emit(fmt("C\ttransitions\t%llu\n", (unsigned long long)sh->transitions));
    emit(fmt("C\tstates\t%llu\n", (unsigned long long)sh->states));
    emit("D\n");
    return 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char **argv) { return mc::main(argc, argv); }
#endif
