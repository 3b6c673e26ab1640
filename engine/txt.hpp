// Reference byte encodings of text and the resources text streams run on.
#pragma once
#include <memory>
#include "fil.hpp"
#include "uni.hpp"
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/text_io_stream.hpp>

namespace txt {
using res::Bytes;
using uni::Scalars;

struct Enc { int form = 0; bool big = true; };
inline const char* form_name(int f) { static const char* n[] = {"UTF-8", "UTF-16", "UTF-32"}; return n[f]; }
inline std::string show(const Enc& e) { return std::string(form_name(e.form)) + (e.big ? "BE" : "LE"); }
constexpr cmp::encoding_form forms[] = {cmp::utf8, cmp::utf16, cmp::utf32};
inline std::endian endian(bool big) { return big ? std::endian::big : std::endian::little; }
inline Enc gen_enc(pbt::Tape& t) { Enc e; e.form = static_cast<int>(t.draw(3)); e.big = !t.flip(); return e; }

inline void put(Bytes& o, const Scalars& v, const Enc& e) {
    auto unit = [&](std::uint32_t u, unsigned n) {
        for (unsigned i = 0; i < n; ++i) o.push_back(static_cast<unsigned char>(u >> 8 * (e.big ? n - 1 - i : i)));
    };
    switch (e.form) {
        case 0: for (auto u : uni::encode<std::u8string>(v)) o.push_back(static_cast<unsigned char>(u)); break;
        case 1: for (auto u : uni::encode<std::u16string>(v)) unit(u, 2); break;
        default: for (auto u : v) unit(u, 4);
    }
}

// The decoded scalars of some bytes, and whether they are well formed to the end.
inline uni::Decoded get(const Bytes& b, const Enc& e) {
    if (e.form == 0) return uni::decode8(std::u8string(b.begin(), b.end()));
    unsigned n = e.form == 1 ? 2 : 4;
    std::vector<std::uint32_t> u;
    for (std::size_t i = 0; i + n <= b.size(); i += n) {
        std::uint32_t x = 0;
        for (unsigned k = 0; k < n; ++k) x = x << 8 | b[i + (e.big ? k : n - 1 - k)];
        u.push_back(x);
    }
    uni::Decoded d;
    if (e.form == 1) d = uni::decode16(std::u16string(u.begin(), u.end()));
    else d = uni::decode32(std::u32string(u.begin(), u.end()));
    if (b.size() % n) d.ok = false;
    return d;
}

using Any = cmp::seekable_io_resource<std::int64_t>;

// One of several kinds of resource holding some bytes.
struct Store {
    int kind;
    std::size_t cap;
    std::string path;
    std::vector<std::byte> blob;
    std::unique_ptr<Any> r;
    cmp::opaque_string_io_resource* os = nullptr;
    cmp::opaque_u16string_io_resource* ou = nullptr;

    static int gen_kind(pbt::Tape& t) { return static_cast<int>(t.weighted({6, 4, 1})); }
    static const char* name(int k) { static const char* n[] = {"transparent blob", "opaque string", "file"}; return n[k]; }
    Store(int k, std::size_t c, const Bytes& init, const std::string& scratch) : kind(k), cap(c) {
        switch (k) {
            case 0: {
                auto p = reinterpret_cast<const std::byte*>(init.data());
                blob.assign(p, p + init.size());
                r = std::make_unique<cmp::transparent_blob_io_resource>(blob, cap);
                break;
            }
            case 1: {
                auto x = std::make_unique<cmp::opaque_string_io_resource>(std::string(init.begin(), init.end()), cap);
                os = x.get();
                r = std::move(x);
                break;
            }
            default:
                path = scratch + "/t";
                fil::put_file(path, init);
                r = std::make_unique<cmp::file>(path, cmp::read_and_write, cmp::if_not_there::fail, cap);
        }
    }
    Bytes content() const {
        switch (kind) {
            case 0: return res::bytes_of(blob);
            case 1: return res::bytes_of(std::as_const(*os).grab_content());
            default: { Bytes b; fil::get_file(path, b); return b; }
        }
    }
};
using In = cmp::text_input_stream<Any>;
using Out = cmp::text_output_stream<Any>;
using IO = cmp::text_io_stream<Any>;

inline bool is_space(char32_t c) {
    static const char32_t w[] = {9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008,
                                 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000};
    for (char32_t x : w) if (x == c) return true;
    return false;
}
inline char32_t gen_space(pbt::Tape& t, bool ascii) {
    static const char32_t w[] = {32, 10, 9, 11, 12, 0x85, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008,
                                 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000};
    return w[t.draw(ascii ? 5 : t.flip() ? 2 : std::size(w))];
}
// Text with words, lines and every kind of whitespace; CR only where given by crlf().
inline Scalars gen_text(pbt::Tape& t, std::size_t max, bool ascii, bool long_texts = false) {
    Scalars v = uni::gen_scalars(t, max, ascii, false, long_texts);
    if (v.size() > 500) {
        std::uint64_t s = t.draw(1 << 20), every = t.chance(1, 3) ? 1 + t.draw(400000) : 1 + t.draw(40); // also words and lines of thousands
        for (auto& c : v) {
            if (c == '\r') c = 'r';
            s = s * 6364136223846793005ull + 1442695040888963407ull;
            if ((s >> 40) % every == 0) c = (s >> 33) % 3 ? U' ' : U'\n';
        }
        return v;
    }
    for (auto& c : v) {
        if (c == '\r') c = 'r';
        if (t.chance(1, 4)) c = t.chance(1, 3) ? U'\n' : gen_space(t, ascii);
    }
    return v;
}
// the same text with some line ends written as CR LF
inline Scalars crlf(pbt::Tape& t, const Scalars& v) {
    Scalars o;
    bool some = t.flip();
    for (auto c : v) {
        if (c == '\n' && some && t.flip()) o.push_back('\r');
        o.push_back(c);
    }
    return o;
}
}
