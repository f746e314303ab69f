/* what the code under test prints on standard output */
#pragma once
#include <iostream>
#include "mc.h"
namespace mc {
inline void capture_init()
{
    int fd = open(fmt("%s/capture", workdir).c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    fflush(stdout); dup2(fd, 1); close(fd);
}
inline std::string capture(const std::function<void()> &f)
{
    fflush(stdout); std::cout.flush();
    if (ftruncate(1, 0)) _exit(98);
    f();
    fflush(stdout); std::cout.flush();
    struct stat st; fstat(1, &st);
    std::string s(st.st_size, 0); size_t o = 0;
    while (o < s.size()) { ssize_t r = pread(1, &s[o], s.size() - o, o); if (r <= 0) break; o += r; }
    return s;
}
}
