/* memory of more than 4 GiB that costs little: all but its first and last MiB are the same MiB again and again */
#pragma once
#include "mc.h"
#include <sys/syscall.h>

struct Huge {
    static const size_t unit = 1 << 20;
    uint8_t *p = nullptr; size_t n, room;
    explicit Huge(size_t len, int fill = 0x5a) : n(len)
    {
        room = (n + unit - 1) / unit * unit + unit;
        p = (uint8_t*)mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        std::string f = mc::fmt("%s/huge", mc::workdir);
        int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (p == MAP_FAILED || fd < 0 || ftruncate(fd, unit)) { fprintf(stderr, "no huge memory\n"); _exit(97); }
        unlink(f.c_str());
        for (size_t o = unit; o + 3 * unit < room; o += unit) if (mmap(p + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "no huge memory\n"); _exit(97); }
        close(fd);
        memset(p, fill, unit); memset(p + unit, fill, unit); memset(p + room - 3 * unit, fill, 3 * unit);
    }
    ~Huge() { munmap(p, room); }
    Huge(const Huge &) = delete;
};
