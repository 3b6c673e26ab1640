// Fault injection for the system calls of the library (linked with --wrap).
#pragma once
#include <cerrno>
#include <sys/types.h>
#include <unistd.h>
#include "pbt.hpp"

namespace faults {
struct Plan {
    pbt::Tape* t = nullptr;
    bool hard = false;       // the next scripted call fails for good
    unsigned eintr_run = 0, storm = 0;
    unsigned rate = 2;       // in 4
    std::uint64_t shorts = 0, interrupts = 0, hards = 0;
    int only_fd = -1;
};
inline Plan plan;
// returns the count to ask for; -1: fail with errno set
inline ssize_t decide(int fd, std::size_t n) {
    Plan& p = plan;
    if (!p.t || fd <= 2 && p.only_fd != fd || p.only_fd >= 0 && fd != p.only_fd) return static_cast<ssize_t>(n);
    if (n == 0) return 0;
    if (p.storm > 0) { --p.storm; ++p.interrupts; errno = EINTR; return -1; }
    if (p.hard && p.t->chance(1, 3)) { p.hard = false; ++p.hards; errno = p.t->flip() ? EIO : ENOSPC; return -1; }
    if (!p.t->chance(p.rate, 4)) { p.eintr_run = 0; return static_cast<ssize_t>(n); }
    if (p.eintr_run < 4 && p.t->chance(1, 3)) { ++p.eintr_run; ++p.interrupts; if (p.t->chance(1, 40)) p.storm = static_cast<unsigned>(p.t->draw(400)); errno = EINTR; return -1; }
    p.eintr_run = 0;
    ++p.shorts;
    return static_cast<ssize_t>(1 + p.t->draw(n > 1 && p.t->flip() ? std::min<std::size_t>(n, 4) : n));
}
}
extern "C" {
ssize_t __real_read(int, void*, std::size_t);
ssize_t __real_write(int, const void*, std::size_t);
ssize_t __wrap_read(int fd, void* p, std::size_t n) {
    ssize_t k = faults::decide(fd, n);
    if (k < 0) return -1;
    return __real_read(fd, p, std::min<std::size_t>(n, static_cast<std::size_t>(k)));
}
ssize_t __wrap_write(int fd, const void* p, std::size_t n) {
    ssize_t k = faults::decide(fd, n);
    if (k < 0) return -1;
    return __real_write(fd, p, std::min<std::size_t>(n, static_cast<std::size_t>(k)));
}
}
