// Reference model of a seekable byte resource and a history driver.
#pragma once
#include "pbt.hpp"
#include <array>
#include <cstddef>
#include <memory>
#include <cmp/io/seekable_io_resource.hpp>

namespace res {

using Bytes = std::vector<unsigned char>;

inline std::string show(const Bytes& b, std::size_t max = 48) {
    std::ostringstream os;
    os << "[" << b.size() << ":" << std::hex;
    for (std::size_t i = 0; i < b.size() && i < max; ++i) os << ' ' << static_cast<unsigned>(b[i]);
    if (b.size() > max) os << " ...";
    os << "]";
    return os.str();
}

// A plain byte array with a position. unit: the array grows in whole units.
struct Model {
    Bytes data;
    std::int64_t pos = 0;
    std::size_t unit = 1;
    bool pending = false; // a write may still be buffered

    std::int64_t size() const { return static_cast<std::int64_t>(data.size()); }
    Bytes read(std::size_t n) {
        Bytes r;
        if (pos < size()) {
            std::size_t k = std::min<std::size_t>(n, static_cast<std::size_t>(size() - pos));
            r.assign(data.begin() + pos, data.begin() + pos + static_cast<std::int64_t>(k));
            pos += static_cast<std::int64_t>(k);
        }
        pending = false;
        return r;
    }
    void write(const Bytes& b) {
        if (!b.empty()) {
            std::size_t end = static_cast<std::size_t>(pos) + b.size();
            if (end > data.size()) data.resize((end + unit - 1) / unit * unit);
            std::copy(b.begin(), b.end(), data.begin() + pos);
            pos += static_cast<std::int64_t>(b.size());
        }
        pending = true;
    }
    void seek(std::int64_t off, int ref) {
        std::int64_t base = ref == 0 ? 0 : ref == 1 ? pos : size();
        pos = std::max<std::int64_t>(0, base + off);
        pending = false;
    }
    void flush() { pending = false; }
};

inline Bytes gen_bytes(pbt::Tape& t, std::size_t n) {
    // distinct neighbouring values, so that a misplaced byte shows
    Bytes b(n);
    std::uint64_t s = t.draw(1 << 16), k = 2 * t.draw(128) + 1;
    for (std::size_t i = 0; i < n; ++i) b[i] = static_cast<unsigned char>(s + i * k + (i >> 8) * 7);
    return b;
}

// A buffer capacity: none, tiny, or larger than everything.
inline std::size_t gen_capacity(pbt::Tape& t) {
    switch (t.weighted({3, 4, 4, 3, 1})) {
        case 0: return 0;
        case 1: return 1 + t.draw(8);
        case 2: return 1 + t.draw(40);
        case 3: return 1 + t.draw(300);
        default: { static const std::size_t large[] = {4096, 4096, 512, 1024, 4095, 5000, 8192, 20000, 65536}; return t.pick(large); }
    }
}
inline std::size_t gen_count(pbt::Tape& t, std::size_t cap) {
    if (t.chance(1, 48)) { // sizes around and past every usual buffer
        switch (t.draw(4)) {
            case 0: return 400 + t.draw(1000);
            case 1: return 4094 + t.draw(5);
            case 2: return cap ? std::min<std::size_t>(cap, 20000) + t.draw(5) - 2 % (cap + 1) : t.draw(9000);
            default: return t.draw(20000);
        }
    }
    switch (t.weighted({3, 3, 3, 2, 1})) {
        case 0: return t.draw(9);
        case 1: return t.draw(41);
        case 2: return cap > 500 ? t.draw(60) : cap + t.draw(3) - (cap ? t.draw(3) % (cap + 1) : 0);
        case 3: return cap > 500 ? t.draw(200) : t.draw(2 * cap + 2);
        default: return t.draw(400);
    }
}

using In = cmp::seekable_input_resource<std::int64_t>;
using Out = cmp::seekable_output_resource<std::int64_t>;
using Transfer = cmp::seekable_transfer_resource<std::int64_t>;

struct Driver {
    In* in = nullptr;
    Out* out = nullptr;
    std::size_t cap = 0;
    bool clamp = true;        // seeking before the beginning lands on the beginning for every reference
    std::int64_t max_size = 30000;
    bool past_end = true;

    Transfer& tr() { return in ? static_cast<Transfer&>(*in) : static_cast<Transfer&>(*out); }

    template <class M> void observe(M& m, const char* what) {
        std::int64_t p = tr().get_position();
        PBT_CHECK(p == m.pos, "after " << what << ": position " << p << ", should be " << m.pos);
        if (!m.pending && m.pos <= m.size()) {
            bool e = tr().is_at_end();
            PBT_CHECK(e == (m.pos == m.size()), "after " << what << ": is_at_end " << e << " at " << m.pos << " of " << m.size());
        }
    }
    template <class M> void read(M& m, std::size_t n, pbt::Case& c) {
        std::unique_ptr<std::byte[]> p(new std::byte[n ? n : 1]);
        Bytes want = m.read(n);
        std::size_t k = in->read(p.get(), n);
        PBT_CHECK(k == want.size(), "read(" << n << ") returned " << k << ", should be " << want.size());
        PBT_CHECK(k == 0 || std::memcmp(p.get(), want.data(), k) == 0, "read(" << n << ") gave "
                  << show(Bytes(reinterpret_cast<unsigned char*>(p.get()), reinterpret_cast<unsigned char*>(p.get()) + k)) << " should be " << show(want));
        (void)c;
    }
    template <class M> void write(M& m, const Bytes& b) {
        std::unique_ptr<std::byte[]> p(new std::byte[b.size() ? b.size() : 1]);
        std::memcpy(p.get(), b.data(), b.size());
        m.write(b);
        std::size_t k = out->write(p.get(), b.size());
        PBT_CHECK(k == b.size(), "write(" << b.size() << ") returned " << k);
    }
    void seek(Model& m, pbt::Tape& t, pbt::Case& c) {
        static const cmp::position_reference refs[] = {cmp::position_reference::begin, cmp::position_reference::current, cmp::position_reference::end};
        int ref = static_cast<int>(t.draw(3));
        std::int64_t target;
        switch (t.weighted({6, 2, 2, 1, 1})) {
            case 0: target = static_cast<std::int64_t>(t.draw(static_cast<std::uint64_t>(m.size()) + 1)); break;
            case 1: target = 0; break;
            case 2: target = m.size(); break;
            case 3: target = past_end ? m.size() + static_cast<std::int64_t>(t.draw(t.chance(1, 6) ? 6000 : 30)) : m.size(); break;
            default: target = clamp ? -static_cast<std::int64_t>(t.draw(40)) : ref == 0 ? -static_cast<std::int64_t>(t.draw(40)) : 0; break;
        }
        std::int64_t off = target - (ref == 0 ? 0 : ref == 1 ? m.pos : m.size());
        bool go = ref == 1 && t.flip();
        c.note([&](auto& os) { os << (go ? "go " : "seek ") << off << (ref == 0 ? " from begin" : ref == 1 ? " from current" : " from end"); });
        m.seek(off, ref);
        if (!go) tr().set_position(off, refs[ref]);
        else if (off < 0) tr().go_back(-off);
        else tr().go_forward(off);
    }
    // one random step; returns what it did
    const char* step(Model& m, pbt::Tape& t, pbt::Case& c) {
        unsigned r = in ? 5 : 0, w = out ? 5 : 0;
        const char* what;
        switch (t.weighted({r, w, 3, out ? 1u : 0u})) {
            case 0: { std::size_t n = gen_count(t, cap); c.note([&](auto& os) { os << "read " << n; }); read(m, n, c); what = "read"; break; }
            case 1: {
                std::size_t n = gen_count(t, cap);
                if (m.pos + static_cast<std::int64_t>(n) > max_size) n = 0;
                if (n == 0 && m.pos > m.size()) n = 1;
                Bytes b = gen_bytes(t, n);
                c.note([&](auto& os) { os << "write " << n; });
                write(m, b);
                what = "write";
                break;
            }
            case 2: seek(m, t, c); what = "seek"; break;
            default: c.note([&](auto& os) { os << "flush"; }); m.flush(); out->flush(); what = "flush"; break;
        }
        observe(m, what);
        return what;
    }
};

// ------------------------------------------------------------- containers
template <class C> Bytes bytes_of(const C& c) {
    auto p = reinterpret_cast<const unsigned char*>(std::data(c));
    return Bytes(p, p + std::size(c) * sizeof(typename C::value_type));
}
template <class C> C container_of(const Bytes& b) {
    C c;
    c.resize(b.size() / sizeof(typename C::value_type));
    if (!b.empty()) std::memcpy(std::data(c), b.data(), c.size() * sizeof(typename C::value_type));
    return c;
}
using Triple = std::array<unsigned char, 3>;
constexpr int container_count = 8;
inline const char* container_name(int k) {
    static const char* n[] = {"blob", "string", "u8string", "u16string", "u32string", "wstring", "vector<uint64>", "vector<3 bytes>"};
    return n[k];
}
template <class F> void with_container(int k, F&& f) {
    switch (k) {
        case 0: f(std::vector<std::byte>{}); break;
        case 1: f(std::string{}); break;
        case 2: f(std::u8string{}); break;
        case 3: f(std::u16string{}); break;
        case 4: f(std::u32string{}); break;
        case 5: f(std::wstring{}); break;
        case 6: f(std::vector<std::uint64_t>{}); break;
        default: f(std::vector<Triple>{}); break;
    }
}

} // namespace res
