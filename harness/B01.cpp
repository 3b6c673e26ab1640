#include <sys/ioctl.h>
#include <memory>
#include "fil.hpp"
#include <cmp/io/io_resource.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/uio.hpp>
using namespace res;
const pbt::Info pbt_info{"B01",
    "up to 40 random writes, seeks, reads and flushes on a file, a container left to its owner, a resource of the user's or a standard stream, with a given buffer capacity or the default one (as configured); after every step "
    "what has reached the other end is looked at directly (the file by system calls, as if the program had died there) and compared with the history; and reads of sources whose every raw read is counted; "
    "non-trivial: at least 4 steps and bytes passed",
    260000, 2600000};

namespace {
constexpr std::size_t default_capacity = CMP_CONFIG_DEFAULT_BUFFER_CAPACITY;
// What was there when nothing was held back, and what was written since, which is contiguous.
struct History {
    Bytes synced, since;
    std::size_t start = 0;
    std::size_t pos = 0;
    bool certain = true;  // nothing of since can have been written out yet

    Bytes now() const {
        Bytes b = synced;
        if (!since.empty()) {
            if (start + since.size() > b.size()) b.resize(start + since.size());
            std::copy(since.begin(), since.end(), b.begin() + static_cast<std::ptrdiff_t>(start));
        }
        return b;
    }
    void sync() { synced = now(); since.clear(); certain = true; }
    void write(const Bytes& w) {
        if (w.empty()) return;
        if (since.empty()) start = pos;
        since.insert(since.end(), w.begin(), w.end());
        pos += w.size();
    }
    // seen: what is there. It must be the history without at most cap of its last bytes.
    void judge(const Bytes& seen, std::size_t cap, const char* when) const {
        std::size_t least = since.size() > cap ? since.size() - cap : 0;
        std::size_t same = 0; // this much of what was written is there
        while (same < since.size() && start + same < seen.size() && seen[start + same] == since[same]) ++same;
        PBT_CHECK(same >= least, when << ": more than " << cap << " of the " << since.size() << " bytes written are held back (or wrong): " << show(seen) << ", written " << show(since) << " at " << start);
        bool fits = false;
        for (std::size_t len = least; len <= same && !fits; ++len) {
            std::size_t size = len ? std::max(synced.size(), start + len) : synced.size();
            if (size != seen.size()) continue;
            fits = true;
            for (std::size_t i = 0; fits && i < size; ++i)
                if (i < start || i >= start + len || len == 0) fits = seen[i] == (i < synced.size() ? synced[i] : 0);
        }
        PBT_CHECK(fits, when << ": what is there, " << show(seen) << ", is no state of the history: " << show(synced) << " with " << show(since) << " at " << start);
    }
};

struct Device {
    Bytes source, sink;
    std::size_t given = 0, reads = 0;
    std::size_t give(std::byte* p, std::size_t n) {
        ++reads;
        std::size_t k = std::min(n, source.size() - given);
        if (k) std::memcpy(p, source.data() + given, k);
        given += k;
        return k;
    }
    std::size_t take(const std::byte* p, std::size_t n) {
        auto q = reinterpret_cast<const unsigned char*>(p);
        sink.insert(sink.end(), q, q + n);
        return n;
    }
};
struct Input : cmp::input_resource {
    Device& d;
    Input(Device& x, std::size_t cap) : cmp::transfer_resource{cap}, cmp::input_resource{cap}, d(x) {}
    explicit Input(Device& x) : d(x) {}
    bool is_at_end() const noexcept override { return false; }
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return d.give(p, n); }
};
struct Output : cmp::output_resource {
    Device& d;
    Output(Device& x, std::size_t cap) : cmp::transfer_resource{cap}, cmp::output_resource{cap}, d(x) {}
    explicit Output(Device& x) : d(x) {}
    bool is_at_end() const noexcept override { return true; }
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return d.take(p, n); }
};
struct Both : cmp::io_resource {
    Device& d;
    Both(Device& x, std::size_t cap) : cmp::transfer_resource{cap}, cmp::io_resource{cap}, d(x) {}
    bool is_at_end() const noexcept override { return false; }
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return d.give(p, n); }
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return d.take(p, n); }
};
// one of the standard descriptors, led elsewhere for a while
struct Redirect {
    int fd, saved;
    Redirect(int which, int to) : fd(which), saved(static_cast<int>(syscall(SYS_fcntl, which, F_DUPFD_CLOEXEC, 50))) { syscall(SYS_dup2, to, fd); }
    ~Redirect() { if (saved >= 0) { syscall(SYS_dup2, saved, fd); syscall(SYS_close, saved); } else syscall(SYS_close, fd); }
};

std::size_t count(pbt::Tape& t, std::size_t cap) { std::size_t n = gen_count(t, cap); return n > 3000 && !t.chance(1, 8) ? n % 3000 : n; }

template <class Resource, class Look>
void write_history(pbt::Tape& t, pbt::Case& c, Resource& r, History& h, std::size_t cap, bool seekable, bool readable, const Look& look) {
    unsigned steps = static_cast<unsigned>(t.length(40)), passed = 0;
    for (unsigned k = 0; k < steps; ++k) {
        std::size_t what = t.weighted({8, seekable ? 2u : 0u, readable ? 2u : 0u, 2});
        if (what == 0) {
            std::size_t n = count(t, cap);
            if (h.pos + n > 20000) n = 0;
            if (n == 0) n = 1; // writing nothing past the end is left open
            Bytes w = gen_bytes(t, n);
            bool fits = h.certain && h.since.size() + n <= cap;
            c.note([&](auto& os) { os << "write " << n; });
            std::size_t got = r.write(reinterpret_cast<const std::byte*>(w.data()), n);
            PBT_CHECK(got == n, "write(" << n << ") returned " << got);
            h.write(w);
            Bytes seen = look();
            if (cap == 0) { PBT_CHECK(seen == h.now(), "an unbuffered write was held back: " << show(seen) << ", should be " << show(h.now())); h.sync(); }
            else if (fits) PBT_CHECK(seen == h.synced, "a write that fits the buffer was not gathered: " << show(seen) << ", should still be " << show(h.synced));
            else { h.certain = false; h.judge(seen, cap, "after a write"); }
            passed += static_cast<unsigned>(n);
            continue;
        }
        if constexpr (requires { r.set_position(0, cmp::position_reference::begin); }) {
            if (what == 1) {
                std::size_t size = h.now().size(), to = t.draw(size + 1) + (t.chance(1, 8) ? t.draw(30) : 0);
                c.note([&](auto& os) { os << "seek " << to; });
                r.set_position(static_cast<std::int64_t>(to), cmp::position_reference::begin);
                h.sync();
                h.pos = to;
            }
        }
        if constexpr (requires(std::byte* p) { r.read(p, 1); }) {
            if (what == 2) {
                std::size_t n = 1 + count(t, cap) % 600;
                c.note([&](auto& os) { os << "read " << n; });
                std::unique_ptr<std::byte[]> p(new std::byte[n]);
                std::size_t got = r.read(p.get(), n), size = h.now().size(), want = h.pos >= size ? 0 : std::min(n, size - h.pos);
                PBT_CHECK(got == want, "read(" << n << ") returned " << got << ", should be " << want);
                h.sync();
                h.pos += got;
            }
        }
        if (what == 3) { c.note([&](auto& os) { os << "flush"; }); r.flush(); h.sync(); }
        Bytes seen = look();
        PBT_CHECK(seen == h.synced, "after a " << (what == 1 ? "seek" : what == 2 ? "read" : "flush") << ": " << show(seen) << ", should be " << show(h.synced));
    }
    c.nontrivial(steps >= 4 && passed > 0);
}

void reading(pbt::Tape& t, pbt::Case& c) {
    std::size_t cap = t.chance(1, 4) ? default_capacity : gen_capacity(t);
    int kind = static_cast<int>(t.draw(3));
    if (kind == 1) cap = default_capacity;
    Device d;
    d.source = gen_bytes(t, t.length(t.chance(1, 6) ? 9000 : 900));
    std::unique_ptr<Input> in;
    std::unique_ptr<Both> both;
    cmp::input_resource* r;
    if (kind == 2) { both = std::make_unique<Both>(d, cap); r = both.get(); }
    else { in = kind == 1 ? std::make_unique<Input>(d) : std::make_unique<Input>(d, cap); r = in.get(); }
    c.label("reading");
    c.note([&](auto& os) { os << "reading " << d.source.size() << " bytes through a buffer of " << cap << (kind == 1 ? " (default)" : ""); });
    unsigned steps = static_cast<unsigned>(t.length(40));
    std::size_t at = 0;
    for (unsigned k = 0; k < steps; ++k) {
        std::size_t n = count(t, cap), ahead = d.given - at, before = d.reads;
        std::unique_ptr<std::byte[]> p(new std::byte[n ? n : 1]);
        c.note([&](auto& os) { os << "read " << n; });
        if (both && t.chance(1, 6)) { std::byte b{7}; both->write(&b, 1); }
        std::size_t got = r->read(p.get(), n), want = std::min(n, d.source.size() - at);
        PBT_CHECK(got == want, "read(" << n << ") returned " << got << ", should be " << want);
        PBT_CHECK(got == 0 || std::memcmp(p.get(), d.source.data() + at, got) == 0, "read(" << n << ") gave wrong bytes at " << at);
        at += got;
        if (ahead > 0 && n <= ahead) PBT_CHECK(d.reads == before, "read(" << n << ") asked for more although " << ahead << " bytes were there");
        PBT_CHECK(d.given <= at + cap, "after read(" << n << ") " << d.given - at << " bytes were taken ahead, the buffer holds " << cap);
    }
    c.nontrivial(steps >= 4 && at > 0);
}

void standard_input(pbt::Tape& t, pbt::Case& c) {
    constexpr std::size_t cap = CMP_CONFIG_DEFAULT_STDIN_BUFFER_CAPACITY;
    int ends[2];
    if (::pipe2(ends, O_CLOEXEC) != 0) _exit(3);
    Redirect to(0, ends[0]);
    syscall(SYS_close, ends[0]);
    struct Closer { int fd; ~Closer() { if (fd >= 0) syscall(SYS_close, fd); } } w{ends[1]};
    c.label("standard input");
    Bytes source;
    std::size_t at = 0;
    auto in_pipe = [] { int n = 0; ::ioctl(0, FIONREAD, &n); return static_cast<std::size_t>(n); };
    unsigned steps = static_cast<unsigned>(t.length(30));
    std::string failure;
    try {
        for (unsigned k = 0; k < steps; ++k) {
            std::size_t n = 1 + count(t, cap) % 3000, ahead = source.size() - in_pipe() - at;
            if (source.size() - at < n + 1) { // what is asked for has always arrived already
                Bytes more = gen_bytes(t, n + 1 + t.draw(3000) - (source.size() - at));
                if (syscall(SYS_write, w.fd, more.data(), more.size()) != static_cast<long>(more.size())) _exit(3);
                source.insert(source.end(), more.begin(), more.end());
            }
            std::size_t before = in_pipe();
            std::unique_ptr<std::byte[]> p(new std::byte[n]);
            c.note([&](auto& os) { os << "read " << n; });
            std::size_t got = cmp::uin_resource.read(p.get(), n);
            PBT_CHECK(got == n, "read(" << n << ") returned " << got);
            PBT_CHECK(std::memcmp(p.get(), source.data() + at, got) == 0, "read(" << n << ") gave wrong bytes at " << at);
            at += got;
            std::size_t taken = source.size() - in_pipe();
            if (n <= ahead) PBT_CHECK(in_pipe() == before, "read(" << n << ") asked for more although " << ahead << " bytes were there");
            PBT_CHECK(taken <= at + cap, "after read(" << n << ") " << taken - at << " bytes were taken ahead, the buffer holds " << cap);
        }
    } catch (const pbt::Fail& f) { failure = f.msg; }
    // leave nothing behind for the next case
    syscall(SYS_close, w.fd);
    w.fd = -1;
    std::byte rest[4096];
    for (int k = 0; k < 200 && cmp::uin_resource.read(rest, sizeof rest) > 0; ++k) {}
    std::byte one;
    cmp::uin_resource.read(&one, 1);
    PBT_CHECK(failure.empty(), failure);
    c.nontrivial(steps >= 4);
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    std::size_t kind = t.weighted({4, 3, 3, 3, 3, 2});
    History h;
    bool by_default = t.chance(1, 4);
    std::size_t cap = gen_capacity(t);
    if (kind == 0) { // a file
        std::string path = c.scratch + "/b";
        bool both_ways = t.flip();
        h.synced = gen_bytes(t, t.length(200));
        fil::put_file(path, h.synced);
        auto mode = fil::modes[both_ways ? 2 : 1];
        if (by_default) cap = default_capacity;
        c.label("file"); c.label(cap ? "buffered" : "unbuffered"); c.label_if(by_default, "default capacity");
        c.note([&](auto& os) { os << "file of " << h.synced.size() << " bytes, buffer of " << cap; });
        std::unique_ptr<cmp::file> f;
        if (by_default && t.flip()) { f = std::make_unique<cmp::file>(); f->open(path, mode, cmp::if_not_there::fail); }
        else if (by_default) f = std::make_unique<cmp::file>(path, mode, cmp::if_not_there::fail);
        else f = std::make_unique<cmp::file>(path, mode, cmp::if_not_there::fail, cap);
        PBT_CHECK(f->is_open(), "the file does not open");
        if (t.chance(1, 6)) { cmp::file g{std::move(*f)}; *f = std::move(g); }
        Bytes seen;
        auto look = [&] { fil::get_file(path, seen); return seen; };
        write_history(t, c, *f, h, cap, true, both_ways, look);
        f.reset();
        ::unlink(path.c_str());
    } else if (kind == 1) { // a container of its owner
        std::string s;
        h.synced = gen_bytes(t, t.length(200));
        s.assign(h.synced.begin(), h.synced.end());
        if (by_default) cap = 0; // containers need no buffer
        c.label("container"); c.label(cap ? "buffered" : "unbuffered"); c.label_if(by_default, "default capacity");
        c.note([&](auto& os) { os << "container of " << s.size() << " bytes, buffer of " << cap; });
        auto look = [&] { return Bytes(s.begin(), s.end()); };
        if (t.flip()) {
            auto r = by_default ? std::make_unique<cmp::transparent_string_io_resource>(s) : std::make_unique<cmp::transparent_string_io_resource>(s, cap);
            write_history(t, c, *r, h, cap, true, true, look);
        } else {
            auto r = by_default ? std::make_unique<cmp::transparent_string_output_resource>(s) : std::make_unique<cmp::transparent_string_output_resource>(s, cap);
            write_history(t, c, *r, h, cap, true, false, look);
        }
    } else if (kind == 2) { // a resource of the user's
        Device d;
        if (by_default) cap = default_capacity;
        c.label("user's resource"); c.label(cap ? "buffered" : "unbuffered"); c.label_if(by_default, "default capacity");
        c.note([&](auto& os) { os << "user's resource, buffer of " << cap; });
        auto look = [&] { return d.sink; };
        if (!by_default && t.flip()) { Both r{d, cap}; write_history(t, c, r, h, cap, false, false, look); r.flush(); }
        else if (by_default) { Output r{d}; write_history(t, c, r, h, cap, false, false, look); r.flush(); }
        else { Output r{d, cap}; write_history(t, c, r, h, cap, false, false, look); r.flush(); }
    } else if (kind == 3) { // standard output or error
        bool err = t.flip();
        auto& r = err ? cmp::uerr_resource : cmp::uout_resource;
        cap = err ? CMP_CONFIG_DEFAULT_STDERR_BUFFER_CAPACITY : CMP_CONFIG_DEFAULT_STDOUT_BUFFER_CAPACITY;
        std::string path = c.scratch + "/o";
        c.label(err ? "standard error" : "standard output"); c.label(cap ? "buffered" : "unbuffered");
        c.note([&](auto& os) { os << (err ? "standard error" : "standard output") << ", buffer of " << cap; });
        int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600));
        if (fd < 0) _exit(3);
        std::string failure;
        {
            Redirect to(err ? 2 : 1, fd);
            syscall(SYS_close, fd);
            Bytes seen;
            auto look = [&] { fil::get_file(path, seen); return seen; };
            try { write_history(t, c, r, h, cap, false, false, look); } catch (const pbt::Fail& f) { failure = f.msg; }
            r.flush();
        }
        ::unlink(path.c_str());
        PBT_CHECK(failure.empty(), failure);
    } else if (kind == 4) reading(t, c);
    else standard_input(t, c);
}
