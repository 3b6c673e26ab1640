// Independent reference model of the Unicode encoding forms, and generators.
#pragma once
#include "pbt.hpp"
#include <iomanip>
#include <memory>
#include <optional>
#include <string>

namespace uni {

using Scalars = std::vector<char32_t>;

inline bool is_scalar(std::uint32_t c) { return c < 0x110000 && !(c >= 0xD800 && c < 0xE000); }

// --- reference encoders (table driven, unlike the code under test) ---------

inline void put8(std::u8string& o, char32_t c) {
    unsigned n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    static const unsigned lead[] = {0, 0x00, 0xC0, 0xE0, 0xF0};
    for (unsigned i = 0; i < n; ++i) {
        unsigned shift = 6 * (n - 1 - i);
        unsigned b = i == 0 ? (lead[n] + (c >> shift)) : (0x80 + ((c >> shift) % 64));
        o.push_back(static_cast<char8_t>(b));
    }
}
template <class S> void put16(S& o, char32_t c) {
    using U = typename S::value_type;
    if (c < 0x10000) { o.push_back(static_cast<U>(c)); return; }
    unsigned v = static_cast<unsigned>(c) - 0x10000u;
    o.push_back(static_cast<U>(0xD800 + v / 1024));
    o.push_back(static_cast<U>(0xDC00 + v % 1024));
}

template <class S> S encode(const Scalars& v) {
    S o;
    for (char32_t c : v) {
        if constexpr (std::is_same_v<S, std::u8string>) put8(o, c);
        else if constexpr (sizeof(typename S::value_type) == 2) put16(o, c);
        else o.push_back(static_cast<typename S::value_type>(c));
    }
    return o;
}

template <class S> std::size_t units(char32_t c) { return encode<S>({c}).size(); }

// --- reference strict decoders ----------------------------------------------

struct Decoded {
    Scalars scalars;            // up to the first ill-formed unit
    std::vector<std::size_t> at; // unit index of each scalar, then of the error or the end
    bool ok = true;
};

inline Decoded decode8(std::u8string_view s) {
    Decoded d;
    std::size_t i = 0;
    auto cont = [&](std::size_t k, unsigned lo, unsigned hi) {
        return k < s.size() && static_cast<unsigned>(s[k]) >= lo && static_cast<unsigned>(s[k]) <= hi;
    };
    // Table 3-7 of the Unicode standard
    while (i < s.size()) {
        d.at.push_back(i);
        unsigned b = s[i];
        if (b <= 0x7F) { d.scalars.push_back(b); i += 1; continue; }
        unsigned n = 0, lo = 0x80, hi = 0xBF;
        if (b >= 0xC2 && b <= 0xDF) n = 2;
        else if (b == 0xE0) n = 3, lo = 0xA0;
        else if (b >= 0xE1 && b <= 0xEC) n = 3;
        else if (b == 0xED) n = 3, hi = 0x9F;
        else if (b == 0xEE || b == 0xEF) n = 3;
        else if (b == 0xF0) n = 4, lo = 0x90;
        else if (b >= 0xF1 && b <= 0xF3) n = 4;
        else if (b == 0xF4) n = 4, hi = 0x8F;
        else { d.ok = false; return d; }
        if (!cont(i + 1, lo, hi)) { d.ok = false; return d; }
        for (unsigned k = 2; k < n; ++k) if (!cont(i + k, 0x80, 0xBF)) { d.ok = false; return d; }
        char32_t c = b & (n == 2 ? 0x1F : n == 3 ? 0x0F : 0x07);
        for (unsigned k = 1; k < n; ++k) c = c * 64 + (s[i + k] - 0x80);
        d.scalars.push_back(c);
        i += n;
    }
    d.at.push_back(i);
    return d;
}
template <class V> Decoded decode16(V s) {
    Decoded d;
    std::size_t i = 0;
    while (i < s.size()) {
        d.at.push_back(i);
        unsigned u = s[i];
        if (u < 0xD800 || u > 0xDFFF) { d.scalars.push_back(u); ++i; continue; }
        if (u > 0xDBFF || i + 1 >= s.size() || s[i + 1] < 0xDC00 || s[i + 1] > 0xDFFF) { d.ok = false; return d; }
        d.scalars.push_back(0x10000 + (u - 0xD800) * 1024 + (s[i + 1] - 0xDC00));
        i += 2;
    }
    d.at.push_back(i);
    return d;
}
template <class V> Decoded decode32(V s) {
    Decoded d;
    for (std::size_t i = 0; i < s.size(); ++i) {
        d.at.push_back(i);
        if (!is_scalar(static_cast<std::uint32_t>(s[i]))) { d.ok = false; return d; }
        d.scalars.push_back(static_cast<char32_t>(s[i]));
    }
    d.at.push_back(s.size());
    return d;
}

// --- generators --------------------------------------------------------------

inline char32_t gen_scalar(pbt::Tape& t) {
    static const char32_t edge[] = {
        0x41, 0x00, 0x01, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFF, 0x100, 0x3FF, 0x400, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000,
        0x1FFF, 0x2000, 0x3FFF, 0x4000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xE001, 0xFEFF, 0xFFFE, 0xFFFD, 0xFFFF,
        0x10000, 0x10001, 0x103FF, 0x10400, 0x1F600, 0x1FFFF, 0x20000, 0x2FFFF, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000,
        0xBFFFF, 0xC0000, 0xFFFFF, 0x100000, 0x10FC00, 0x10FFFE, 0x10FFFF, 0x10FBFF, 0x10800, 0xDBFF + 0x10000, 0xDC00 + 0x10000};
    switch (t.weighted({4, 3, 3, 3, 3, 4})) {
        case 0: return 0x20 + static_cast<char32_t>(t.draw(0x5F));
        case 1: return static_cast<char32_t>(t.draw(0x80));
        case 2: return 0x80 + static_cast<char32_t>(t.draw(0x800 - 0x80));
        case 3: { char32_t c = 0x800 + static_cast<char32_t>(t.draw(0x10000 - 0x800 - 0x800)); return c >= 0xD800 ? c + 0x800 : c; }
        case 4: return 0x10000 + static_cast<char32_t>(t.draw(0x100000));
        default: return t.pick(edge);
    }
}
inline char32_t gen_ascii(pbt::Tape& t) {
    return t.chance(1, 6) ? static_cast<char32_t>(t.draw(0x80)) : 0x20 + static_cast<char32_t>(t.draw(0x5F));
}
// no_nul: U+0000 excluded (for NUL-terminated inputs)
// long_texts: also texts of thousands of code points, drawn from a few values
inline Scalars gen_scalars(pbt::Tape& t, std::size_t max, bool ascii, bool no_nul, bool long_texts = false) {
    if (long_texts && t.chance(1, 200)) {
        Scalars few(1 + t.draw(5));
        for (auto& c : few) { c = ascii ? gen_ascii(t) : gen_scalar(t); if (no_nul && c == 0) c = 0x41; }
        static const std::size_t most[] = {130, 300, 1100, 4200, 4200, 9000};
        Scalars v(t.chance(1, 24) ? t.flip() ? t.draw(70000) : 65500 + t.draw(3000) : t.draw(t.pick(most)));
        std::uint64_t s = t.draw(1 << 20);
        for (auto& c : v) { s = s * 6364136223846793005ull + 1442695040888963407ull; c = few[(s >> 40) % few.size()]; }
        return v;
    }
    if (!ascii && max >= 12 && t.chance(1, 24)) { // consecutive code points, so that all of them are met
        Scalars v(1 + t.draw(64));
        char32_t c = static_cast<char32_t>((t.chance(1, 3) ? t.draw(0x10000) : t.draw(0x110000)));
        for (auto& x : v) { if (c >= 0xD800 && c < 0xE000) c = 0xE000; if (c >= 0x110000) c = 0; x = no_nul && c == 0 ? U'A' : c; ++c; }
        return v;
    }
    Scalars v(t.length(max));
    for (auto& c : v) {
        c = ascii ? gen_ascii(t) : gen_scalar(t);
        if (no_nul && c == 0) c = 0x41;
    }
    return v;
}

template <class V> std::string show(const V& v) {
    std::ostringstream os;
    os << "[" << std::hex;
    bool first = true;
    std::size_t n = 0;
    for (auto c : v) {
        if (n++ == 80) { os << " ..."; break; }
        if (!first) os << ' ';
        first = false;
        os << static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<std::conditional_t<(sizeof c > 1), std::int64_t, signed char>>>(c) & (sizeof c == 1 ? 0xFFull : sizeof c == 2 ? 0xFFFFull : 0xFFFFFFFFull));
    }
    os << "]";
    return os.str();
}

inline const char* enc_name(int e) {
    static const char* n[] = {"utf8", "utf16", "utf32", "wide", "char"};
    return n[e];
}
template <class F> decltype(auto) with_encoding(int e, F&& f) {
    switch (e) {
        case 0: return f(std::u8string{});
        case 1: return f(std::u16string{});
        case 2: return f(std::u32string{});
        case 3: return f(std::wstring{});
        default: return f(std::string{});
    }
}

// A copy of the units in a heap block of exactly their size, so that reading
// one unit too far (or too early) is a sanitizer error.
template <class C> struct Exact {
    std::unique_ptr<C[]> p;
    std::size_t n;
    explicit Exact(std::basic_string_view<C> s, bool nul = false) : p(new C[s.size() + (nul ? 1 : 0)]), n(s.size()) {
        std::copy(s.begin(), s.end(), p.get());
        if (nul) p[n] = C{};
    }
    std::basic_string_view<C> view() const { return {p.get(), n}; }
    const C* ptr() const { return p.get(); }
};

// Calls f with the text in one of the forms the library takes.
enum form { form_string, form_const_string, form_view, form_pointer, form_mutable_pointer, form_array, form_count };
inline const char* form_name(int f) {
    static const char* n[] = {"string", "const string", "view", "const pointer", "pointer", "array"};
    return n[f];
}
inline bool form_needs_nul(int f) { return f >= form_pointer; }
template <class S, class F> void with_form(const S& s, int fo, F&& f) {
    using C = typename S::value_type;
    switch (fo) {
        case form_string: { S c = s; f(c); break; }
        case form_const_string: { const S c = s; f(c); break; }
        case form_view: { Exact<C> e{std::basic_string_view<C>(s)}; auto v = e.view(); f(v); break; }
        case form_pointer: { Exact<C> e{std::basic_string_view<C>(s), true}; const C* p = e.ptr(); f(p); break; }
        case form_mutable_pointer: { Exact<C> e{std::basic_string_view<C>(s), true}; C* p = e.p.get(); f(p); break; }
        default: {
            if (s.size() < 512) {
                C a[512] = {};
                std::copy(s.begin(), s.end(), a);
                f(a);
            } else {
                constexpr std::size_t room = 4 * 70000 + 1;
                using A = C[room];
                std::unique_ptr<C[]> p(new C[room]());
                std::copy(s.begin(), s.begin() + static_cast<long>(std::min(s.size(), room - 1)), p.get());
                f(reinterpret_cast<A&>(*p.get()));
            }
        }
    }
}

} // namespace uni
