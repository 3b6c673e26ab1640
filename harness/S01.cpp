#include <memory>
#include "fil.hpp"
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
using namespace res;
const pbt::Info pbt_info{"S01",
    "sequences of values of all fundamental types (random bit patterns) with changes of byte order in between, written and read back through separate "
    "or combined binary streams over containers and files with random buffers, the bytes compared with an independent encoding, and reads past the end; "
    "non-trivial: at least two values of more than one byte",
    820000, 9840000};

namespace {
using Any = cmp::seekable_io_resource<std::int64_t>;
using DI = cmp::data_input_stream<Any>;
using DO = cmp::data_output_stream<Any>;
using DX = cmp::data_io_stream<Any>;
constexpr int type_count = 20;
template <class F> decltype(auto) with_type(int k, F&& f) {
    switch (k) {
        case 0: return f(char{}, "char");
        case 1: return f(static_cast<signed char>(0), "signed char");
        case 2: return f(static_cast<unsigned char>(0), "unsigned char");
        case 3: return f(bool{}, "bool");
        case 4: return f(short{}, "short");
        case 5: return f(static_cast<unsigned short>(0), "unsigned short");
        case 6: return f(int{}, "int");
        case 7: return f(0u, "unsigned");
        case 8: return f(0l, "long");
        case 9: return f(0ul, "unsigned long");
        case 10: return f(0ll, "long long");
        case 11: return f(0ull, "unsigned long long");
        case 12: return f(0.0f, "float");
        case 13: return f(0.0, "double");
        case 14: return f(char8_t{}, "char8_t");
        case 15: return f(char16_t{}, "char16_t");
        case 16: return f(char32_t{}, "char32_t");
        case 17: return f(wchar_t{}, "wchar_t");
        case 18: return f(0.0L, "long double");
        default: return f(std::int64_t{}, "int64");
    }
}
struct Item { int type; bool big; unsigned char raw[16]; std::size_t n; };
template <class T> bool same(const T& a, const T& b) {
    if constexpr (std::is_same_v<T, long double>) return std::memcmp(&a, &b, 10) == 0;
    else return std::memcmp(&a, &b, sizeof(T)) == 0;
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int kind = static_cast<int>(t.weighted({5, 4, 1}));
    std::size_t cap = gen_capacity(t);
    bool combined = t.flip();
    bool dflt = t.chance(1, 4);
    bool native_big = std::endian::native == std::endian::big;
    bool big0 = dflt ? native_big : t.flip();
    std::size_t count = t.length(c.thorough ? 60 : 30), wide = 0;
    std::vector<std::byte> blob;
    std::string path = c.scratch + "/d";
    std::unique_ptr<Any> r;
    if (kind == 0) r = std::make_unique<cmp::transparent_blob_io_resource>(blob, cap);
    else if (kind == 1) r = std::make_unique<cmp::opaque_string_io_resource>(std::string{}, cap);
    else { ::unlink(path.c_str()); r = std::make_unique<cmp::file>(path, cmp::read_and_write, cmp::if_not_there::create, cap); }
    static const char* kinds[] = {"transparent blob", "opaque string", "file"};
    c.label(kinds[kind]); c.label(combined ? "combined stream" : "separate streams"); c.label(dflt ? "default order" : big0 ? "big" : "little");
    c.note([&](auto& os) { os << kinds[kind] << " buffer " << cap << (combined ? " combined " : " separate ") << (dflt ? "default" : big0 ? "big" : "little"); });
    auto e = [](bool b) { return b ? std::endian::big : std::endian::little; };
    std::unique_ptr<DX> x;
    std::unique_ptr<DO> o;
    std::unique_ptr<DI> i;
    if (combined) x = dflt ? std::make_unique<DX>(*r) : std::make_unique<DX>(*r, e(big0));
    else o = dflt ? std::make_unique<DO>(*r) : std::make_unique<DO>(*r, e(big0));
    DO* out = combined ? static_cast<DO*>(x.get()) : o.get();
    std::vector<Item> items;
    Bytes want;
    bool big = big0;
    PBT_CHECK(out->get_endianness() == e(big), "byte order of the new stream");
    for (std::size_t n = 0; n < count; ++n) {
        if (t.chance(1, 5)) {
            big = t.flip();
            c.note([&](auto& os) { os << (big ? "big" : "little"); });
            out->set_endianness(e(big));
            PBT_CHECK(out->get_endianness() == e(big));
        }
        Item it{};
        it.type = static_cast<int>(t.draw(type_count));
        it.big = big;
        with_type(it.type, [&](auto v, const char* name) {
            using T = decltype(v);
            std::uint64_t bits = t.draw(3) == 0 ? t.bits(64) : t.draw(0);
            if constexpr (std::is_same_v<T, bool>) v = bits & 1;
            else if constexpr (std::is_same_v<T, long double>) {
                std::uint64_t m = bits | 1ull << 63;
                std::uint16_t ex = static_cast<std::uint16_t>(t.draw(0x7FFF) | t.draw(2) << 15);
                if ((ex & 0x7FFF) == 0) ++ex;
                std::memset(&v, 0, sizeof v);
                std::memcpy(&v, &m, 8);
                std::memcpy(reinterpret_cast<char*>(&v) + 8, &ex, 2);
            } else std::memcpy(&v, &bits, sizeof v);
            it.n = sizeof(T);
            std::memcpy(it.raw, &v, sizeof v);
            wide += sizeof(T) > 1;
            c.note([&](auto& os) { os << name << " " << std::hex << bits; });
            if (t.flip()) (*out) << v;
            else { const T k = v; (*out) << k; }
        });
        for (std::size_t k = 0; k < it.n; ++k) want.push_back(it.raw[big == native_big ? k : it.n - 1 - k]);
        items.push_back(it);
        if (t.chance(1, 10)) out->flush();
    }
    c.nontrivial(wide >= 2);
    PBT_CHECK(r->get_position() == static_cast<std::int64_t>(want.size()), "position after writing");
    if (combined) out->flush(); else o.reset();
    // long double has padding bytes that carry no value
    Bytes got;
    if (kind == 0) got = bytes_of(blob);
    else if (kind == 1) got = bytes_of(static_cast<cmp::opaque_string_io_resource&>(*r).grab_content());
    else fil::get_file(path, got);
    PBT_CHECK(got.size() == want.size(), "wrote " << got.size() << " bytes, should be " << want.size());
    std::size_t at = 0;
    for (auto& it : items) {
        for (std::size_t k = 0; k < it.n; ++k, ++at) {
            std::size_t source = it.big == native_big ? k : it.n - 1 - k;
            if (it.type == 18 && source >= 10) continue;
            PBT_CHECK(got[at] == want[at], "byte " << at << " is " << std::hex << int(got[at]) << " should be " << int(want[at]));
        }
    }
    r->set_position(0, cmp::position_reference::begin);
    if (!combined) i = dflt ? std::make_unique<DI>(*r) : std::make_unique<DI>(*r, e(big0));
    DI* in = combined ? static_cast<DI*>(x.get()) : i.get();
    PBT_CHECK(&in->grab_resource() == r.get() && in->operator->() == r.get(), "resource of the stream");
    big = big0;
    if (in->get_endianness() != e(big)) PBT_CHECK(false, "streams with the same settings disagree on the byte order");
    at = 0;
    for (auto& it : items) {
        if (it.big != big) { big = it.big; in->set_endianness(e(big)); }
        PBT_CHECK(!in->is_at_end(), "at the end before the last value");
        with_type(it.type, [&](auto v, const char* name) {
            using T = decltype(v);
            T w;
            std::memcpy(&w, it.raw, sizeof w);
            (*in) >> v;
            PBT_CHECK(same(v, w), "read back another " << name);
        });
        at += it.n;
        PBT_CHECK(r->get_position() == static_cast<std::int64_t>(at), "position after reading");
    }
    PBT_CHECK(in->is_at_end(), "not at the end after the last value");
    // past the end: too few bytes for another value
    if (!want.empty() || t.flip()) {
        std::int64_t back = static_cast<std::int64_t>(t.draw(std::min<std::size_t>(want.size(), 7) + 1));
        r->set_position(-back, cmp::position_reference::end);
        auto past = [&](auto v) {
            if (static_cast<std::int64_t>(sizeof v) <= back) return;
            bool threw = false;
            try { (*in) >> v; } catch (const cmp::read_past_end&) { threw = true; }
            PBT_CHECK(threw, "reading " << sizeof v << " bytes with " << back << " left was not reported");
            c.label("past the end");
        };
        switch (t.draw(4)) {
            case 0: past(std::uint64_t{}); break;
            case 1: past(std::uint32_t{}); break;
            case 2: past(std::uint16_t{}); break;
            default: past(std::uint8_t{}); break;
        }
    }
}
