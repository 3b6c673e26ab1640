#include <memory>
#include "res.hpp"
#include <cmp/io/io_resource.hpp>
using namespace res;
const pbt::Info pbt_info{"R03",
    "input, output and two-way resources derived from the library's classes, whose raw reads deliver a random byte sequence in random pieces, with random buffers, driven by up to 60 random "
    "reads, writes and flushes, an output resource tied to the input or not, against the two byte sequences; non-trivial: at least 4 steps, and bytes passed",
    1800000, 21600000};

namespace {
// what a device at the other end has and gets
struct Device {
    Bytes source, sink;
    std::size_t given = 0;
    pbt::Tape* t = nullptr;
    bool pieces = false;
    bool came_short = false;

    std::size_t give(std::byte* p, std::size_t n) {
        std::size_t k = std::min(n, source.size() - given);
        if (k > 1 && pieces) k = 1 + t->draw(k);
        if (k) std::memcpy(p, source.data() + given, k);
        given += k;
        if (k < n) came_short = true;
        return k;
    }
    std::size_t take(const std::byte* p, std::size_t n) {
        auto q = reinterpret_cast<const unsigned char*>(p);
        sink.insert(sink.end(), q, q + n);
        return n;
    }
};
struct Input : cmp::input_resource {
    Device& d;
    Input(Device& x, std::size_t cap) : cmp::transfer_resource{cap}, cmp::input_resource{cap}, d(x) {}
    bool is_at_end() const noexcept override { return false; }
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return d.give(p, n); }
};
struct Output : cmp::output_resource {
    Device& d;
    Output(Device& x, std::size_t cap) : cmp::transfer_resource{cap}, cmp::output_resource{cap}, d(x) {}
    ~Output() override { flush(); }
    bool is_at_end() const noexcept override { return true; }
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return d.take(p, n); }
};
struct Both : cmp::io_resource {
    Device& d;
    Both(Device& x, std::size_t cap) : cmp::transfer_resource{cap}, cmp::io_resource{cap}, d(x) {}
    ~Both() override { flush(); }
    bool is_at_end() const noexcept override { return false; }
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return d.give(p, n); }
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return d.take(p, n); }
};
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int kind = static_cast<int>(t.draw(3)); // separate, tied, two-way
    std::size_t cap_in = gen_capacity(t), cap_out = kind == 2 ? cap_in : gen_capacity(t);
    Device a, b;
    a.source = gen_bytes(t, t.length(t.chance(1, 10) ? 9000 : 600));
    a.pieces = t.flip();
    a.t = &t;
    Device& od = kind == 2 ? a : b;
    unsigned steps = static_cast<unsigned>(t.length(60));
    static const char* kinds[] = {"separate", "tied", "two-way"};
    c.label(kinds[kind]); c.label(a.pieces ? "in pieces" : "whole"); c.label(cap_in ? "buffered" : "unbuffered");
    c.note([&](auto& os) { os << kinds[kind] << ", " << a.source.size() << " bytes to read" << (a.pieces ? " in pieces" : "") << ", buffers " << cap_in << " and " << cap_out; });
    Bytes written;
    std::size_t at = 0;
    {
        std::unique_ptr<Input> in;
        std::unique_ptr<Output> out;
        std::unique_ptr<Both> both;
        cmp::input_resource* i;
        cmp::output_resource* o;
        if (kind == 2) { both = std::make_unique<Both>(a, cap_in); i = both.get(); o = both.get(); }
        else { in = std::make_unique<Input>(a, cap_in); out = std::make_unique<Output>(b, cap_out); i = in.get(); o = out.get(); }
        if (kind == 1) i->tie(*o);
        for (unsigned k = 0; k < steps; ++k) {
            switch (t.weighted({5, 5, 1})) {
                case 0: {
                    std::size_t n = gen_count(t, cap_in);
                    if (t.chance(1, 60)) n += 5000;
                    c.note([&](auto& os) { os << "read " << n; });
                    std::unique_ptr<std::byte[]> p(new std::byte[n ? n : 1]);
                    a.came_short = false;
                    std::size_t got = i->read(p.get(), n);
                    PBT_CHECK(got <= n, "read(" << n << ") returned " << got);
                    PBT_CHECK(got == n || a.came_short, "read(" << n << ") returned " << got << " though every transfer was complete");
                    PBT_CHECK(at + got <= a.source.size(), "read(" << n << ") gave more than there is");
                    PBT_CHECK(got == 0 || std::memcmp(p.get(), a.source.data() + at, got) == 0, "read(" << n << ") gave wrong bytes at " << at);
                    at += got;
                    if (n > 0 && got == 0) PBT_CHECK(at == a.source.size(), "nothing came although " << a.source.size() - at << " bytes are left");
                    if (kind == 1) PBT_CHECK(b.sink == written, "the tied output was not flushed before reading");
                    break;
                }
                case 1: {
                    Bytes w = gen_bytes(t, gen_count(t, cap_out) + (t.chance(1, 60) ? 5000 : 0));
                    c.note([&](auto& os) { os << "write " << w.size(); });
                    std::unique_ptr<std::byte[]> p(new std::byte[w.size() ? w.size() : 1]);
                    if (!w.empty()) std::memcpy(p.get(), w.data(), w.size());
                    std::size_t got = o->write(p.get(), w.size());
                    PBT_CHECK(got == w.size(), "write(" << w.size() << ") returned " << got);
                    written.insert(written.end(), w.begin(), w.end());
                    if (cap_out == 0) PBT_CHECK(od.sink == written, "an unbuffered write was held back");
                    break;
                }
                default: c.note([&](auto& os) { os << "flush"; }); o->flush(); PBT_CHECK(od.sink == written, "after a flush " << od.sink.size() << " bytes are out, should be " << written.size());
            }
            PBT_CHECK(od.sink.size() <= written.size() && std::equal(od.sink.begin(), od.sink.end(), written.begin()), "wrong bytes were put out");
        }
        // the rest
        for (unsigned idle = 0; at < a.source.size() && idle < 3;) {
            std::byte p[64];
            std::size_t got = i->read(p, 1 + t.draw(64));
            PBT_CHECK(at + got <= a.source.size() && std::memcmp(p, a.source.data() + at, got) == 0, "the rest is wrong at " << at);
            at += got;
            idle = got ? 0 : idle + 1;
        }
        PBT_CHECK(at == a.source.size(), a.source.size() - at << " bytes never came");
    }
    PBT_CHECK(od.sink == written, "at the end " << od.sink.size() << " bytes are out, should be " << written.size());
    c.nontrivial(steps >= 4 && (at > 0 || !written.empty()));
}
