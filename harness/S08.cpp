#include "txt.hpp"
#include "num.hpp"
#include <cmp/io/data_io_stream.hpp>
using namespace txt;
const pbt::Info pbt_info{"S08",
    "text and binary streams over input, output and two-way resources derived from the library's classes, whose raw reads bring random bytes in random pieces (also single bytes), with "
    "random buffers: a planned sequence of values, blocks of bytes, characters, words, lines and numbers in changing forms and byte orders is read, and others are written in between, against the "
    "plan; at the end a truncated value or character must be reported; non-trivial: at least 3 items",
    400000, 4800000};

namespace {
struct Device {
    Bytes source, sink;
    std::size_t given = 0, most = 1;
    pbt::Tape* t = nullptr;
    std::size_t give(std::byte* p, std::size_t n) {
        std::size_t k = std::min({n, source.size() - given, most});
        if (k > 1 && t->flip()) k = 1 + t->draw(k);
        if (k) std::memcpy(p, source.data() + given, k);
        given += k;
        return k;
    }
    std::size_t take(const std::byte* p, std::size_t n) {
        auto q = reinterpret_cast<const unsigned char*>(p);
        sink.insert(sink.end(), q, q + n);
        return n;
    }
};
struct Input : cmp::input_resource {
    Device& d;
    Input(Device& x, std::size_t cap) : cmp::transfer_resource{cap}, cmp::input_resource{cap}, d(x) {}
    bool is_at_end() const noexcept override { return false; }
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return d.give(p, n); }
};
struct Output : cmp::output_resource {
    Device& d;
    Output(Device& x, std::size_t cap) : cmp::transfer_resource{cap}, cmp::output_resource{cap}, d(x) {}
    ~Output() override { flush(); }
    bool is_at_end() const noexcept override { return true; }
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return d.take(p, n); }
};
struct Both : cmp::io_resource {
    Device& d;
    Both(Device& x, std::size_t cap) : cmp::transfer_resource{cap}, cmp::io_resource{cap}, d(x) {}
    ~Both() override { flush(); }
    bool is_at_end() const noexcept override { return false; }
    std::size_t read_raw(std::byte* p, std::size_t n, cmp::read_request) override { return d.give(p, n); }
    std::size_t write_raw(const std::byte* p, std::size_t n) override { return d.take(p, n); }
};
struct Item {
    int kind = 0; // 0 character, 1 word, 2 line, 3 integer, 4 to 7 values of 1, 2, 4, 8 bytes, 8 a block of bytes
    Enc e;
    Scalars text;
    std::uint64_t value = 0;
    long long number = 0;
    Bytes block;
};
void bytes_of(Bytes& o, std::uint64_t v, unsigned n, bool big) { for (unsigned i = 0; i < n; ++i) o.push_back(static_cast<unsigned char>(v >> 8 * (big ? n - 1 - i : i))); }
Item gen_item(pbt::Tape& t, Bytes& o) {
    Item x;
    x.kind = static_cast<int>(t.weighted({4, 3, 2, 2, 1, 1, 2, 2, 2}));
    x.e = gen_enc(t);
    auto solid = [&](bool line) {
        Scalars v = uni::gen_scalars(t, 10, false, false, true);
        for (auto& ch : v) if (ch == '\r' || (line ? ch == '\n' : is_space(ch))) ch = 'w';
        return v;
    };
    switch (x.kind) {
        case 0: x.text = {uni::gen_scalar(t)}; if (x.text[0] == '\r') x.text[0] = 'r'; put(o, x.text, x.e); break;
        case 1: {
            x.text = solid(false);
            if (x.text.empty()) x.text.push_back('w');
            Scalars full;
            for (std::size_t n = t.draw(3); n--;) full.push_back(gen_space(t, false));
            full.insert(full.end(), x.text.begin(), x.text.end());
            full.push_back(gen_space(t, false));
            put(o, full, x.e);
            break;
        }
        case 2: {
            x.text = solid(true);
            Scalars full = x.text;
            if (t.chance(1, 4)) full.push_back('\r');
            full.push_back('\n');
            put(o, full, x.e);
            break;
        }
        case 3: {
            x.number = num::gen_int<long long>(t);
            std::string s = num::ref_format_int(x.number, num::Fmt{}) + " ";
            put(o, Scalars(s.begin(), s.end()), x.e);
            break;
        }
        case 8: x.block = res::gen_bytes(t, t.length(t.chance(1, 20) ? 9000 : 300)); o.insert(o.end(), x.block.begin(), x.block.end()); break;
        default: x.value = t.draw(0); bytes_of(o, x.value, 1u << (x.kind - 4), x.e.big);
    }
    return x;
}
template <class S, class T> void read_value(S& s, const Item& x) {
    T v = 0;
    s >> v;
    PBT_CHECK(v == static_cast<T>(x.value), "read the value " << +v << ", should be " << +static_cast<T>(x.value));
}
const char* kind_name(int k) { static const char* n[] = {"character", "word", "line", "integer", "value of 1", "value of 2", "value of 4", "value of 8", "block"}; return n[k]; }
template <class R, class W> void drive(R& r, W& w, Device& in, Device& out, bool same, std::size_t cap_out, const std::vector<Item>& plan, std::size_t rest, pbt::Tape& t, pbt::Case& c) {
    cmp::text_input_stream<R> ti{r, cmp::utf8};
    cmp::data_input_stream<R> di{r};
    Bytes written;
    {
        cmp::text_output_stream<W> to{w, cmp::utf8};
        cmp::data_output_stream<W> dout{w};
        auto write_some = [&] {
            while (t.chance(1, 4)) {
                Bytes b;
                Item x = gen_item(t, b);
                c.note([&](auto& os) { os << "write " << kind_name(x.kind); });
                if (x.kind == 8) {
                    b = x.block;
                    PBT_CHECK((t.flip() ? dout.write(reinterpret_cast<const std::byte*>(b.data()), b.size()) : to.write(reinterpret_cast<const std::byte*>(b.data()), b.size())) == b.size(), "a block was not taken whole");
                } else if (x.kind >= 4) {
                    dout.set_endianness(endian(x.e.big));
                    b.clear();
                    bytes_of(b, x.value, 1u << (x.kind - 4), x.e.big);
                    std::uint8_t v1 = static_cast<std::uint8_t>(x.value); std::uint16_t v2 = static_cast<std::uint16_t>(x.value); std::uint32_t v4 = static_cast<std::uint32_t>(x.value);
                    switch (x.kind) { case 4: dout << v1; break; case 5: dout << v2; break; case 6: dout << v4; break; default: dout << x.value; }
                } else {
                    to.set_endianness(endian(x.e.big));
                    to.set_encoding_form(forms[x.e.form]);
                    b.clear();
                    if (x.kind == 3) { std::string s = num::ref_format_int(x.number, num::Fmt{}); put(b, Scalars(s.begin(), s.end()), x.e); to << x.number; }
                    else { put(b, x.text, x.e); if (x.kind == 0) to << x.text[0]; else if (x.kind == 1) to << uni::encode<std::u8string>(x.text); else to << uni::encode<std::u16string>(x.text); }
                }
                written.insert(written.end(), b.begin(), b.end());
                if (cap_out == 0) PBT_CHECK(out.sink == written, "an unbuffered write was held back or is wrong: " << res::show(out.sink) << " should be " << res::show(written));
                else if (t.chance(1, 4)) { if (t.flip()) to.flush(); else dout << cmp::flush; PBT_CHECK(out.sink == written, "after a flush " << res::show(out.sink) << " is out, should be " << res::show(written)); }
            }
        };
        for (auto& x : plan) {
            write_some();
            c.note([&](auto& os) { os << kind_name(x.kind) << ' ' << show(x.e); });
            if (x.kind == 8) { // in the other byte order the bytes come reversed
                Bytes got(x.block.size() + 1, 0xEE), want = x.block;
                bool text = t.flip();
                if (text) ti.set_endianness(endian(x.e.big)); else di.set_endianness(endian(x.e.big));
                if (endian(x.e.big) != std::endian::native) std::reverse(want.begin(), want.end());
                auto p = reinterpret_cast<std::byte*>(got.data());
                std::size_t k = text ? ti.read(p, want.size()) : di.read(p, want.size());
                PBT_CHECK(k == want.size() && got.back() == 0xEE, "read " << k << " of " << want.size() << " bytes");
                got.pop_back();
                PBT_CHECK(got == want, "read " << res::show(got) << ", should be " << res::show(want));
            } else if (x.kind >= 4) {
                di.set_endianness(endian(x.e.big));
                switch (x.kind) { case 4: read_value<decltype(di), std::uint8_t>(di, x); break; case 5: read_value<decltype(di), std::uint16_t>(di, x); break; case 6: read_value<decltype(di), std::uint32_t>(di, x); break; default: read_value<decltype(di), std::uint64_t>(di, x); }
            } else {
                ti.set_endianness(endian(x.e.big));
                ti.set_encoding_form(forms[x.e.form]);
                if (x.kind == 0) { char32_t g = 0; ti >> g; PBT_CHECK(g == x.text[0], "read " << std::hex << static_cast<unsigned>(g) << ", should be " << static_cast<unsigned>(x.text[0])); }
                else if (x.kind == 3) { long long v = 0; ti >> v; PBT_CHECK(v == x.number, "read the number " << v << ", should be " << x.number); }
                else {
                    std::u16string got = u"before";
                    if (x.kind == 1) ti >> got; else ti.read_line(got);
                    PBT_CHECK(got == uni::encode<std::u16string>(x.text), "read " << uni::show(got) << ", should be " << uni::show(uni::encode<std::u16string>(x.text)));
                }
            }
        }
        write_some();
        // what is left is too little for a value of 4 bytes or a character of UTF-32
        bool threw = false;
        c.note([&](auto& os) { os << "past the end, " << rest << " bytes left"; });
        try {
            if (t.flip()) { std::uint32_t v; di >> v; }
            else { ti.set_encoding_form(cmp::utf32); char32_t g; ti >> g; }
        } catch (const cmp::read_past_end&) { threw = true; }
        PBT_CHECK(threw, "reading past the end was not reported");
        if (t.flip()) { to.flush(); PBT_CHECK(out.sink == written, "after a flush " << res::show(out.sink) << " is out, should be " << res::show(written)); }
    }
    PBT_CHECK(out.sink == written, "after the end of the streams " << res::show(out.sink) << " is out, should be " << res::show(written));
    PBT_CHECK(in.given == in.source.size(), "bytes left");
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int kind = static_cast<int>(t.draw(3)); // separate, tied, two-way
    std::size_t cap_in = res::gen_capacity(t), cap_out = kind == 2 ? cap_in : res::gen_capacity(t);
    Device a, b;
    a.t = b.t = &t;
    static const std::size_t sizes[] = {1, 2, 3, 5, 17, 100000};
    a.most = t.pick(sizes);
    std::vector<Item> plan;
    for (std::size_t n = t.length(16); n--;) plan.push_back(gen_item(t, a.source));
    std::size_t rest = t.draw(4);
    for (std::size_t k = rest; k--;) a.source.push_back(static_cast<unsigned char>(t.draw(256)));
    static const char* kinds[] = {"separate", "tied", "two-way"};
    c.label(kinds[kind]); c.label(cap_in ? "buffered" : "unbuffered"); c.label_if(a.most == 1, "byte by byte");
    c.nontrivial(plan.size() >= 3);
    c.note([&](auto& os) { os << kinds[kind] << ", buffers " << cap_in << " and " << cap_out << ", at most " << a.most << " bytes per read: " << res::show(a.source); });
    if (kind == 2) { Both x(a, cap_in); drive<cmp::io_resource, cmp::io_resource>(x, x, a, a, true, cap_out, plan, rest, t, c); }
    else {
        Input i(a, cap_in);
        Output o(b, cap_out);
        if (kind == 1) i.tie(o);
        drive<cmp::input_resource, cmp::output_resource>(i, o, a, b, false, cap_out, plan, rest, t, c);
    }
}
