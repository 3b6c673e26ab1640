#include "fil.hpp"
#include <set>
using namespace res;
const pbt::Info pbt_info{"F05",
    "up to 4 file objects on 4 files, moved by construction and assignment, closed, reopened and destroyed, with reads, writes and seeks in between; against "
    "byte arrays, the set of open descriptors and the record of close(2) calls; non-trivial: at least two moves",
    89000, 1068000};

namespace {
std::uint64_t bad_closes;
std::set<int> open_fds(const std::string& dir) {
    // descriptors that refer to files of this directory
    std::set<int> r;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return r;
    while (dirent* e = readdir(d)) {
        char buf[4096];
        std::string l = std::string("/proc/self/fd/") + e->d_name;
        ssize_t k = readlink(l.c_str(), buf, sizeof buf - 1);
        if (k > 0) { buf[k] = 0; if (std::string(buf).rfind(dir + "/m", 0) == 0) r.insert(std::atoi(e->d_name)); }
    }
    closedir(d);
    return r;
}
}
extern "C" int __real_close(int);
extern "C" int __wrap_close(int fd) {
    int r = __real_close(fd);
    if (r != 0 && errno == EBADF) ++bad_closes;
    return r;
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    fil::FreeDescriptor0 zero(t.chance(1, 6));
    c.label_if(zero.on, "descriptor 0 free");
    struct Slot { std::unique_ptr<cmp::file> f; Model m; int path = -1, mode = 0; std::size_t cap = 0; };
    Slot s[4];
    std::string path[4];
    Bytes disk[4];
    bool busy[4] = {};
    for (int i = 0; i < 4; ++i) {
        path[i] = c.scratch + "/m" + std::to_string(i);
        disk[i] = gen_bytes(t, t.length(60));
        fil::put_file(path[i], disk[i]);
    }
    bad_closes = 0;
    unsigned steps = 3 + static_cast<unsigned>(t.length(c.thorough ? 50 : 25)), moves = 0;
    auto leave = [&](Slot& x) { if (x.path >= 0) { disk[x.path] = x.m.data; busy[x.path] = false; x.path = -1; } x.m = Model{}; };
    auto verify = [&](const char* when) {
        std::size_t open = 0;
        for (auto& x : s) {
            if (x.f) PBT_CHECK(x.f->is_open() == (x.path >= 0), when << ": is_open " << x.f->is_open());
            open += x.path >= 0;
        }
        PBT_CHECK(bad_closes == 0, when << ": a descriptor was closed twice");
        PBT_CHECK(open_fds(c.scratch).size() == open, when << ": " << open_fds(c.scratch).size() << " descriptors are open, should be " << open);
        for (int i = 0; i < 4; ++i) if (!busy[i]) fil::check_file(path[i], disk[i], when);
    };
    for (unsigned n = 0; n < steps; ++n) {
        int i = static_cast<int>(t.draw(4)), j = static_cast<int>(t.draw(4));
        unsigned op = t.weighted({8, 3, 4, 4, 1, 1, 1});
        if (n == 0) op = 1;
        if (op == 2 || op == 3) for (int k = 0; k < 4 && !(s[i].f && s[i].path >= 0); ++k) i = k;
        if (op == 3 && !s[j].f) for (int k = 0; k < 4; ++k) if (k != i && s[k].f) j = k;
        switch (op) {
            case 0: {
                if (!s[i].f || s[i].path < 0) for (int k = 0; k < 4; ++k) if (s[k].path >= 0) { i = k; break; }
                if (s[i].path < 0) break;
                Driver d;
                if (s[i].mode != 1) d.in = s[i].f.get();
                if (s[i].mode != 0) d.out = s[i].f.get();
                d.cap = s[i].cap;
                d.clamp = false;
                d.max_size = t.chance(1, 20) ? 12000 : 400;
                c.note([&](auto& os) { os << "object " << i; });
                d.step(s[i].m, t, c);
                continue;
            }
            case 1: { // open
                int p = static_cast<int>(t.draw(4));
                if (busy[p] && s[i].path != p) break;
                int md = static_cast<int>(t.draw(3));
                bool again = s[i].f && t.flip();
                c.note([&](auto& os) { os << (again ? "reopen " : "construct ") << i << " on file " << p << " " << fil::mode_name(md); });
                leave(s[i]);
                if (again) PBT_CHECK(s[i].f->open(path[p], fil::modes[md], cmp::if_not_there::fail), "could not be opened again");
                else {
                    s[i].f.reset();
                    s[i].cap = gen_capacity(t);
                    s[i].f = std::make_unique<cmp::file>(path[p], fil::modes[md], cmp::if_not_there::fail, s[i].cap);
                    PBT_CHECK(s[i].f->is_open());
                }
                s[i].path = p; s[i].mode = md; s[i].m = Model{}; s[i].m.data = disk[p]; busy[p] = true;
                break;
            }
            case 2: { // move construction
                if (i == j || !s[i].f) break;
                c.note([&](auto& os) { os << "move-construct " << j << " from " << i; });
                s[j].f.reset();
                leave(s[j]);
                s[j].f = std::make_unique<cmp::file>(std::move(*s[i].f));
                s[j].m = s[i].m; s[j].path = s[i].path; s[j].mode = s[i].mode; s[j].cap = s[i].cap;
                s[i].path = -1; s[i].m = Model{};
                ++moves; c.label("move construction");
                if (t.chance(1, 3)) s[i].f.reset();
                break;
            }
            case 3: { // move assignment
                if (i == j || !s[i].f || !s[j].f) break;
                c.note([&](auto& os) { os << "move-assign " << j << " from " << i; });
                leave(s[j]);
                *s[j].f = std::move(*s[i].f);
                s[j].m = s[i].m; s[j].path = s[i].path; s[j].mode = s[i].mode; s[j].cap = s[i].cap;
                s[i].path = -1; s[i].m = Model{};
                ++moves; c.label("move assignment");
                if (t.chance(1, 3)) s[i].f.reset();
                break;
            }
            case 4: if (!s[i].f) break; c.note([&](auto& os) { os << "close " << i; }); s[i].f->close(); leave(s[i]); break;
            case 5: c.note([&](auto& os) { os << "destroy " << i; }); s[i].f.reset(); leave(s[i]); break;
            default: if (!s[i].f) { s[i].f = std::make_unique<cmp::file>(); s[i].cap = 1024; c.note([&](auto& os) { os << "default-construct " << i; }); } break;
        }
        for (auto& x : s) if (x.path >= 0) { Driver d; if (x.mode != 1) d.in = x.f.get(); else d.out = x.f.get(); d.observe(x.m, "the step"); PBT_CHECK(x.f->get_access_mode() == fil::modes[x.mode], "access mode"); }
        verify("after the step");
    }
    c.nontrivial(moves >= 2);
    for (auto& x : s) { x.f.reset(); leave(x); }
    verify("at the end");
}
