#include "fil.hpp"
#include <sys/stat.h>
#include <optional>
using namespace res;
const pbt::Info pbt_info{"F03",
    "one file object opened, closed and reopened on 4 paths (absent, empty, existing, one in a directory that does not exist, one that is a directory) in every mode "
    "with either action for absent files, some of them with permissions for less than that or reached by symbolic links, detours and relative paths, with reads, writes, seeks and refused accesses in between, against a model of the directory; "
    "non-trivial: at least two successful openings",
    340000, 4080000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    std::string path[5];
    std::optional<Bytes> disk[5];
    static const char* names[] = {"f", "f", "\xCE\x94\xE2\x82\xA4 \xF0\x9F\x98\x80", "a b.c", "%d%s", "-n", "~$x",
#if !defined(CMP_OS_WINDOWS) // not a name there
        "b\\", "\xFF\xFE",
#endif
    };
    std::string name = t.chance(1, 16) ? std::string(1 + t.draw(250), 'n') : t.pick(names);
    for (int i = 0; i < 4; ++i) path[i] = c.scratch + "/" + name + std::to_string(i);
    path[3] = c.scratch + "/missing/f";
    path[4] = c.scratch + "/dir";
    ::mkdir(path[4].c_str(), 0700);
    for (int i = 0; i < 3; ++i) {
        ::unlink(path[i].c_str());
        if (t.flip()) { disk[i] = gen_bytes(t, t.length(60)); fil::put_file(path[i], *disk[i]); }
    }
    // other ways to the same files: links, directories on the way, relative paths
    std::string way[3][5];
    bool ways = false;
#if !defined(CMP_OS_WINDOWS)
    ways = t.chance(1, 5);
    if (ways) {
        std::filesystem::path here = std::filesystem::current_path();
        ::mkdir((c.scratch + "/dir/deep").c_str(), 0700);
        (void)!::symlink(".", (c.scratch + "/here").c_str());
        (void)!::symlink("dir/deep", (c.scratch + "/far").c_str());
        for (int i = 0; i < 3; ++i) {
            std::string file = name + std::to_string(i), link = c.scratch + "/link" + std::to_string(i);
            ::unlink(link.c_str());
            (void)!::symlink(file.c_str(), link.c_str());
            way[i][0] = link;
            way[i][1] = c.scratch + "/here/" + file;
            way[i][2] = c.scratch + "/far/../../" + file;
            way[i][3] = c.scratch + "//./dir/../" + file;
            way[i][4] = std::filesystem::path(path[i]).lexically_relative(here).string();
        }
        c.label("other paths");
    }
#endif
    auto path_of = [&](int i) { return ways && i < 3 && t.flip() ? t.pick(way[i]) : path[i]; };
    // files that may be read or written, not both (enforced for a process that is not root's)
    unsigned allowed[5] = {0600, 0600, 0600, 0600, 0700};
    bool permissions = false;
#if !defined(CMP_OS_WINDOWS)
    permissions = ::geteuid() == 0 && t.chance(1, 5);
    ::umask(022);
    for (int i = 0; permissions && i < 3; ++i) if (disk[i]) { static const unsigned p[] = {0400, 0200, 0600, 0444, 0}; allowed[i] = t.pick(p); ::chmod(path[i].c_str(), allowed[i]); }
    c.label_if(permissions, "permissions");
#endif
    std::size_t cap = gen_capacity(t);
    unsigned steps = 2 + static_cast<unsigned>(t.length(c.thorough ? 50 : 25));
    fil::FreeDescriptor0 zero(t.chance(1, 6));
    c.label_if(zero.on, "descriptor 0 free");
    std::unique_ptr<cmp::file> f;
    int cur = -1, mode = 0, opened = 0;
    Model m;
    auto settle = [&] { if (cur >= 0) { disk[cur] = m.data; } };
    auto verify = [&](const char* when) {
        for (int i = 0; i < 4; ++i) {
            if (i == cur && m.pending) continue;
            Bytes b;
            bool there = fil::get_file(path[i], b);
            const Bytes* want = i == cur ? &m.data : disk[i] ? &*disk[i] : nullptr;
            PBT_CHECK(there == (want != nullptr), when << ": file " << i << (there ? " exists" : " is absent"));
            if (there) PBT_CHECK(b == *want, when << ": file " << i << " holds " << show(b) << " should be " << show(*want));
        }
    };
    auto expect = [&](int i, int md, bool create) {
        if (i == 3) return false;
        if (i == 4) return md == 0 && !create;
        if (permissions && disk[i] && ((md != 1 && !(allowed[i] & 0400)) || (md != 0 && !(allowed[i] & 0200)))) return false;
        return disk[i].has_value() || create;
    };
    auto entered = [&](int i, int md, bool ok) {
        cur = ok ? i : -1;
        mode = md;
        m = Model{};
        if (ok) { if (!disk[i]) disk[i] = Bytes{}; m.data = *disk[i]; ++opened; }
    };
    for (unsigned n = 0; n < steps; ++n) {
        unsigned op = f ? t.weighted({5, 2, 8, 1, 1}) : 3;
        switch (op) {
            case 0: case 3: {
                int i = static_cast<int>(t.weighted({4, 4, 4, 1, 1}));
                int md = static_cast<int>(t.draw(3));
                if (i == 4) md = 1 + static_cast<int>(t.draw(2));
                bool create = t.flip();
                std::string at = path_of(i);
                c.note([&](auto& os) { os << (op == 3 ? "construct on " : "open ") << i << (at == path[i] ? "" : " by " + at) << " " << fil::mode_name(md) << (create ? " create" : " fail"); });
                settle();
                bool want = expect(i, md, create), absent = i < 3 && !disk[i];
                bool got;
                {
                if (op == 3) f.reset();
                fil::Ordinary ordinary(permissions);
                if (permissions && !ordinary.on) return; // not possible here
                auto act = create ? cmp::if_not_there::create : cmp::if_not_there::fail;
                if (op == 3) {
                    if (t.chance(1, 3)) { f = std::make_unique<cmp::file>(); PBT_CHECK(!f->is_open(), "open without a file"); got = f->open(at, fil::modes[md], act); }
                    else { f = std::make_unique<cmp::file>(at, fil::modes[md], act, cap); got = f->is_open(); }
                } else got = f->open(at, fil::modes[md], act);
                }
#if !defined(CMP_OS_WINDOWS)
                if (absent && want) { // what was created belongs to the user
                    struct stat st{};
                    PBT_CHECK(::stat(path[i].c_str(), &st) == 0 && (st.st_mode & 0600) == 0600, "a file was created that its owner may not read and write: " << std::oct << st.st_mode);
                }
#endif
                PBT_CHECK(got == want, "opening gave " << got);
                PBT_CHECK(f->is_open() == want, "is_open " << f->is_open());
                entered(i, md, want);
                if (want) PBT_CHECK(f->get_access_mode() == fil::modes[md], "access mode");
                c.label(want ? "opened" : "refused");
                verify("after opening");
                break;
            }
            case 1:
                c.note([&](auto& os) { os << "close"; });
                settle();
                f->close();
                cur = -1;
                m = Model{};
                PBT_CHECK(!f->is_open(), "open after close");
                verify("after close");
                break;
            case 4:
                c.note([&](auto& os) { os << "destroy"; });
                settle();
                f.reset();
                cur = -1;
                m = Model{};
                verify("after destruction");
                break;
            default: {
                std::byte b[64];
                if (cur < 0) {
                    if (!f->is_open() && mode != 1) {
                        c.note([&](auto& os) { os << "read while closed"; });
                        // nothing to read; which error, if any, is not specified
                        std::size_t k = 0;
                        try { k = f->read(b, 1 + t.draw(40)); } catch (const std::exception&) {}
                        PBT_CHECK(k == 0, "read " << k << " bytes from a closed file");
                    }
                    break;
                }
                if (mode == 0 && t.chance(1, 3)) {
                    c.note([&](auto& os) { os << "refused write"; });
                    bool threw = false;
                    std::memset(b, 0xEE, sizeof b);
                    try { f->write(b, 1 + t.draw(40)); } catch (const cmp::invalid_access_mode&) { threw = true; }
                    PBT_CHECK(threw, "a write to a file opened for reading was not refused");
                    c.label("refused access");
                } else if (mode == 1 && t.chance(1, 3)) {
                    c.note([&](auto& os) { os << "refused read"; });
                    bool threw = false;
                    try { f->read(b, 1 + t.draw(40)); } catch (const cmp::invalid_access_mode&) { threw = true; }
                    PBT_CHECK(threw, "a read from a file opened for writing was not refused");
                    c.label("refused access");
                } else {
                    Driver d;
                    if (mode != 1) d.in = f.get();
                    if (mode != 0) d.out = f.get();
                    d.cap = cap;
                    d.clamp = false;
                    d.max_size = t.chance(1, 20) ? 12000 : 400;
                    d.step(m, t, c);
                }
            }
        }
    }
    c.nontrivial(opened >= 2);
    settle();
    f.reset();
    cur = -1;
    verify("at the end");
    for (int i = 0; i < 3; ++i) ::unlink(path[i].c_str());
}
