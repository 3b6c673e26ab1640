#include "fil.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
using namespace res;
const pbt::Info pbt_info{"F06",
    "sparse files and containers of up to 36 GB with random bytes around the beginning and around positions at and next to powers of two from 2^31 up, then up to 30 random "
    "reads, writes, seeks of all kinds between those places and flushes with a random buffer capacity, against a sparse byte array with a position; the content around all "
    "those places and the size are compared at the end; non-trivial: at least 3 steps", 300000, 3000000};

namespace {
constexpr std::int64_t reach = 3000; // bytes of content known on each side of a place
// The bytes around a few places; all others are zero.
struct Sparse {
    std::vector<std::pair<std::int64_t, Bytes>> parts;
    std::int64_t length = 0, pos = 0;
    bool pending = false;
    std::int64_t size() const { return length; }
    unsigned char* at(std::int64_t i) {
        for (auto& [b, d] : parts) if (i >= b && i < b + static_cast<std::int64_t>(d.size())) return &d[static_cast<std::size_t>(i - b)];
        return nullptr;
    }
    Bytes read(std::size_t n) {
        Bytes r;
        for (; r.size() < n && pos < length; ++pos) { auto p = at(pos); r.push_back(p ? *p : 0); }
        pending = false;
        return r;
    }
    void write(const Bytes& b) {
        for (auto x : b) { auto p = at(pos++); if (p) *p = x; }
        if (!b.empty()) length = std::max(length, pos);
        pending = true;
    }
};
// A container over memory that is only there where it was touched.
struct Arena {
    static constexpr std::size_t most = 40ull << 30;
    std::byte* base;
    Arena() : base(static_cast<std::byte*>(::mmap(nullptr, most, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))) { if (base == MAP_FAILED) base = nullptr; }
    void clear() { if (base) ::madvise(base, most, MADV_DONTNEED); }
};
Arena& arena() { static Arena a; return a; }
struct Huge {
    using value_type = std::byte;
    std::size_t n = 0;
    std::byte* data() { return arena().base; }
    const std::byte* data() const { return arena().base; }
    std::size_t size() const { return n; }
    void resize(std::size_t k) { PBT_CHECK(k <= Arena::most, "resized to " << k); n = k; }
    bool empty() const { return n == 0; }
};
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    std::size_t cap = gen_capacity(t);
    int kind = static_cast<int>(t.weighted({4, 2, 2}));
    if (kind != 0 && !arena().base) kind = 0;
    static const std::int64_t places[] = {1ll << 31, 1ll << 32, (1ll << 31) + (1ll << 32), 1ll << 33, (1ll << 33) + (1ll << 31), 1ll << 34, 1ll << 35, 3ll << 32, (1ll << 32) - (1ll << 20), 1ll << 30};
    Sparse m;
    std::vector<std::int64_t> near{0};
    std::size_t n = 1 + t.draw(3);
    for (std::size_t i = 0; i < n; ++i) near.push_back(t.pick(places));
    std::sort(near.begin(), near.end());
    near.erase(std::unique(near.begin(), near.end()), near.end());
    for (auto h : near) m.parts.push_back({std::max<std::int64_t>(0, h - reach), Bytes(static_cast<std::size_t>(h == 0 ? reach : 2 * reach))});
    auto around = [&] { std::int64_t h = t.pick(near); return std::max<std::int64_t>(0, h + t.range(-40, 40)); };
    m.length = around();
    for (auto h : near) { // some bytes next to each place
        std::int64_t from = std::max<std::int64_t>(0, h - static_cast<std::int64_t>(t.draw(300)));
        Bytes b = gen_bytes(t, t.draw(600));
        for (std::size_t i = 0; i < b.size(); ++i) { std::int64_t k = from + static_cast<std::int64_t>(i); if (k < m.length) *m.at(k) = b[i]; }
    }
    unsigned steps = static_cast<unsigned>(t.length(c.thorough ? 60 : 30));
    c.nontrivial(steps >= 3);
    c.label(kind == 0 ? "file" : kind == 1 ? "referring container" : "owning container"); c.label(cap ? "buffered" : "unbuffered");
    c.note([&](auto& os) { os << (kind == 0 ? "file" : kind == 1 ? "referring container" : "owning container") << " of " << m.length << " bytes, buffer " << cap; });
    std::string p = c.scratch + "/large";
    int fd = -1;
    Huge content;
    if (kind == 0) {
        fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600));
        if (fd < 0 || ::ftruncate(fd, m.length) != 0) { if (fd >= 0) syscall(SYS_close, fd); return; } // files of this size are not possible here
    } else content.n = static_cast<std::size_t>(m.length);
    struct Tidy { int fd; const std::string& p; ~Tidy() { if (fd >= 0) { syscall(SYS_close, fd); ::unlink(p.c_str()); } else arena().clear(); } } tidy{fd, p};
    for (auto& [b, d] : m.parts) {
        std::int64_t k = std::min<std::int64_t>(static_cast<std::int64_t>(d.size()), m.length - b);
        if (k <= 0) continue;
        if (kind == 0) { if (::pwrite(fd, d.data(), static_cast<std::size_t>(k), b) != k) _exit(3); }
        else std::memcpy(arena().base + b, d.data(), static_cast<std::size_t>(k));
    }
    auto compare = [&](const char* when, std::int64_t size) {
        PBT_CHECK(size == m.length, when << ": size " << size << " should be " << m.length);
        for (auto& [b, d] : m.parts) {
            std::int64_t k = std::min<std::int64_t>(static_cast<std::int64_t>(d.size()), m.length - b);
            if (k <= 0) continue;
            Bytes is(static_cast<std::size_t>(k));
            if (kind == 0) PBT_CHECK(::pread(fd, is.data(), is.size(), b) == k, when << ": cannot read at " << b);
            else std::memcpy(is.data(), arena().base + b, is.size());
            for (std::size_t i = 0; i < is.size(); ++i)
                PBT_CHECK(is[i] == d[i], when << ": byte " << b + static_cast<std::int64_t>(i) << " is " << unsigned(is[i]) << " should be " << unsigned(d[i]));
        }
    };
    auto file_size = [&] { struct stat s; if (::fstat(fd, &s)) _exit(3); return static_cast<std::int64_t>(s.st_size); };
    auto run = [&](cmp::seekable_io_resource<std::int64_t>& r, auto&& size) {
        Driver d;
        d.in = &r;
        d.out = &r;
        d.cap = cap;
        d.observe(m, "opening");
        static const cmp::position_reference refs[] = {cmp::position_reference::begin, cmp::position_reference::current, cmp::position_reference::end};
        for (unsigned i = 0; i < steps; ++i) {
            const char* what = "seek";
            // writes stay where the content is known
            auto room = [&] { auto q = m.at(m.pos); if (!q) return std::size_t{0}; for (auto& [b, e] : m.parts) if (q >= e.data() && q < e.data() + e.size()) return static_cast<std::size_t>(e.data() + e.size() - q); return std::size_t{0}; };
            switch (t.weighted({4, 4, 6, 1})) {
                case 0: { std::size_t k = std::min<std::size_t>(gen_count(t, cap), 2000); c.note([&](auto& os) { os << "read " << k; }); d.read(m, k, c); what = "read"; break; }
                case 1: {
                    std::size_t k = std::min<std::size_t>(gen_count(t, cap), room());
                    if (k == 0) continue;
                    c.note([&](auto& os) { os << "write " << k << " at " << m.pos; });
                    d.write(m, gen_bytes(t, k));
                    what = "write";
                    break;
                }
                case 2: {
                    int ref = static_cast<int>(t.draw(3));
                    std::int64_t to = around(), off = to - (ref == 0 ? 0 : ref == 1 ? m.pos : m.length);
                    bool go = ref == 1 && t.flip();
                    c.note([&](auto& os) { os << (go ? "go " : "seek ") << off << (ref == 0 ? " from begin" : ref == 1 ? " from current" : " from end"); });
                    if (!go) r.set_position(off, refs[ref]); else if (off < 0) r.go_back(-off); else r.go_forward(off);
                    // pending output counts for the end from the moment of the seek on
                    m.pos = to;
                    m.pending = false;
                    break;
                }
                default: c.note([&](auto& os) { os << "flush"; }); r.flush(); m.pending = false; what = "flush"; break;
            }
            d.observe(m, what);
        }
        r.flush();
        m.pending = false;
        d.observe(m, "the last flush");
        compare("at the end", size());
    };
    if (kind == 0) {
        { cmp::file f{p, cmp::read_and_write, cmp::if_not_there::fail, cap}; PBT_CHECK(f.is_open()); run(f, file_size); }
        compare("after closing", file_size());
    } else if (kind == 1) {
        cmp::transparent_container_io_resource<Huge> r{content, cap};
        run(r, [&] { return static_cast<std::int64_t>(content.n); });
    } else {
        cmp::opaque_container_io_resource<Huge> r{content, cap};
        run(r, [&] { return static_cast<std::int64_t>(r.grab_content().size()); });
    }
}
