// Helpers for the file harnesses: plain system calls for the oracle side.
#pragma once
#include <memory>
#include "res.hpp"
#include <cmp/io/file.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <sys/syscall.h>

namespace fil {
using res::Bytes;
inline void put_file(const std::string& p, const Bytes& b) {
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600));
    if (fd < 0) { std::perror(p.c_str()); _exit(3); }
    std::size_t n = 0;
    while (n < b.size()) {
        long k = syscall(SYS_write, fd, b.data() + n, b.size() - n);
        if (k <= 0) _exit(3);
        n += static_cast<std::size_t>(k);
    }
    syscall(SYS_close, fd);
}
inline bool get_file(const std::string& p, Bytes& b) {
    b.clear();
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0));
    if (fd < 0) return false;
    unsigned char buf[8192];
    long k;
    while ((k = syscall(SYS_read, fd, buf, sizeof buf)) > 0) b.insert(b.end(), buf, buf + k);
    syscall(SYS_close, fd);
    return true;
}
inline void check_file(const std::string& p, const Bytes& want, const char* when) {
    Bytes b;
    PBT_CHECK(get_file(p, b), when << ": the file is absent");
    PBT_CHECK(b == want, when << ": the file holds " << res::show(b) << " should be " << res::show(want));
}
inline const char* mode_name(int m) { static const char* n[] = {"read_only", "write_only", "read_and_write"}; return n[m]; }
// While it lives, descriptor 0 may be free, so that a file opened next may get it (as in a daemon that closed its standard input).
struct FreeDescriptor0 {
    bool on;
    explicit FreeDescriptor0(bool yes) : on(yes) { if (on) syscall(SYS_close, 0); }
    ~FreeDescriptor0() { if (on && syscall(SYS_fcntl, 0, F_GETFD) < 0) { long fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); if (fd > 0) syscall(SYS_close, fd); } }
};
// While it lives, the permissions of files hold for this process too, though it may be root's.
struct Ordinary {
    struct Head { std::uint32_t version; int pid; } h{0x20080522, 0};
    struct Data { std::uint32_t effective, permitted, inheritable; } was[2]{}, now[2]{};
    bool on = false;
    explicit Ordinary(bool yes) {
        if (!yes || syscall(SYS_capget, &h, was) != 0) return;
        now[0] = was[0]; now[1] = was[1];
        now[0].effective &= ~std::uint32_t{0b110}; // overriding the permissions of files
        on = syscall(SYS_capset, &h, now) == 0;
    }
    ~Ordinary() { if (on) syscall(SYS_capset, &h, was); }
};
constexpr cmp::access_mode modes[] = {cmp::read_only, cmp::write_only, cmp::read_and_write};
}
