// Independent model of the number formats.
#pragma once
#include "uni.hpp"
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>

namespace num {

using u128 = unsigned __int128;
using i128 = __int128;

struct Fmt {
    unsigned radix = 10;
    bool plus = false;  // always show the sign
    int sep = 0;        // 0 none, 1 comma, 2 period
    int point = 0;      // 0 period, 1 comma
    int limit = 0;      // 0 none, 1 exactly, 2 up to
    unsigned places = 0;
    bool via_setters = false;

    char sep_char() const { return sep == 1 ? ',' : '.'; }
    char point_char() const { return point == 0 ? '.' : ','; }
    std::string text() const {
        std::ostringstream os;
        os << "radix " << radix << (plus ? " +" : "") << (sep == 1 ? " sep," : sep == 2 ? " sep." : "");
        return os.str();
    }
    std::string ftext() const {
        std::ostringstream os;
        os << text() << " point" << point_char() << (limit == 0 ? "" : limit == 1 ? " exactly " : " up to ");
        if (limit) os << places;
        return os.str();
    }
};

inline cmp::thousands_separator csep(int s) {
    return s == 1 ? cmp::thousands_separator::comma : s == 2 ? cmp::thousands_separator::period : cmp::thousands_separator::none;
}
inline cmp::integer_format int_format(const Fmt& f) {
    auto ss = f.plus ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative;
    if (!f.via_setters) return cmp::integer_format{f.radix, ss, csep(f.sep)};
    cmp::integer_format r;
    r.set_radix(f.radix);
    r.set_sign_status(ss);
    r.set_thousands_separator(csep(f.sep));
    PBT_CHECK(r.get_radix() == f.radix && r.get_sign_status() == ss && r.get_thousands_separator() == csep(f.sep), "format settings");
    return r;
}
inline cmp::floating_point_format float_format(const Fmt& f) {
    auto ss = f.plus ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative;
    auto pc = f.point == 0 ? cmp::radix_character::period : cmp::radix_character::comma;
    auto pl = f.limit == 0 ? cmp::radix_place_limit::none : f.limit == 1 ? cmp::radix_place_limit::exactly_equal : cmp::radix_place_limit::up_to;
    if (!f.via_setters) return cmp::floating_point_format{f.radix, ss, csep(f.sep), pc, pl, f.places};
    cmp::floating_point_format r;
    r.set_radix(f.radix);
    r.set_sign_status(ss);
    r.set_thousands_separator(csep(f.sep));
    r.set_radix_character(pc);
    r.set_radix_place_limit(pl);
    r.set_radix_place_count(f.places);
    PBT_CHECK(r.get_radix() == f.radix && r.get_sign_status() == ss && r.get_thousands_separator() == csep(f.sep) && r.get_radix_character() == pc &&
              r.get_radix_place_limit() == pl && r.get_radix_place_count() == f.places, "format settings");
    return r;
}
inline Fmt gen_int_fmt(pbt::Tape& t) {
    Fmt f;
    static const unsigned common[] = {10, 2, 8, 16, 36, 3, 35, 11, 9, 32};
    f.radix = t.draw(3) != 2 ? t.pick(common) : static_cast<unsigned>(t.range(2, 36));
    f.plus = t.chance(1, 3);
    f.sep = static_cast<int>(t.weighted({2, 1, 1}));
    f.via_setters = t.chance(1, 4);
    return f;
}
inline Fmt gen_float_fmt(pbt::Tape& t) {
    Fmt f = gen_int_fmt(t);
    // the separator and the radix character differ
    f.point = f.sep == 0 ? static_cast<int>(t.draw(2)) : f.sep == 1 ? 0 : 1;
    f.limit = static_cast<int>(t.draw(3));
    if (f.limit) f.places = static_cast<unsigned>(t.chance(1, 16) ? t.draw(t.chance(1, 8) ? 1200 : 80) : t.length(14));
    return f;
}

inline std::string group_right(const std::string& d, const Fmt& f) {
    if (!f.sep) return d;
    std::string o;
    for (std::size_t i = 0; i < d.size(); ++i) {
        if (i && (d.size() - i) % 3 == 0) o += f.sep_char();
        o += d[i];
    }
    return o;
}
inline std::string group_left(const std::string& d, const Fmt& f) {
    if (!f.sep) return d;
    std::string o;
    for (std::size_t i = 0; i < d.size(); ++i) {
        if (i && i % 3 == 0) o += f.sep_char();
        o += d[i];
    }
    return o;
}
inline char digit(unsigned d) { return "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[d]; }
inline std::string digits(u128 v, unsigned radix) {
    if (v == 0) return "0";
    std::string s;
    for (; v; v /= radix) s.insert(s.begin(), digit(static_cast<unsigned>(v % radix)));
    return s;
}
inline std::string ref_format_int(i128 v, const Fmt& f) {
    if (v == 0) return "0";
    std::string d = group_right(digits(v < 0 ? static_cast<u128>(-v) : static_cast<u128>(v), f.radix), f);
    return v < 0 ? "-" + d : f.plus ? "+" + d : d;
}
inline int value_of(char32_t c, unsigned radix) {
    int v = c >= '0' && c <= '9' ? static_cast<int>(c - '0') : c >= 'a' && c <= 'z' ? static_cast<int>(c - 'a') + 10
            : c >= 'A' && c <= 'Z' ? static_cast<int>(c - 'A') + 10 : 99;
    return v < static_cast<int>(radix) ? v : -1;
}

// Grammar of an integer text, read from the left. magnitude saturates.
struct IntText {
    bool ok = false;
    bool minus = false, plus = false;
    u128 magnitude = 0;
    std::size_t digit_count = 0;
};
inline IntText ref_parse_int(const uni::Scalars& s, const Fmt& f) {
    IntText r;
    std::size_t i = 0;
    if (i < s.size() && s[i] == '-') { r.minus = true; ++i; }
    else if (i < s.size() && s[i] == '+' && f.plus) { r.plus = true; ++i; }
    const u128 cap = u128(1) << 100;
    std::size_t run = 0, groups = 0;
    bool any = false;
    for (; i < s.size(); ++i) {
        int d = value_of(s[i], f.radix);
        if (d >= 0) {
            any = true;
            ++run;
            ++r.digit_count;
            if (f.sep && run > 3) return r;
            r.magnitude = r.magnitude * f.radix + static_cast<unsigned>(d);
            if (r.magnitude > cap) r.magnitude = cap;
        } else if (f.sep && s[i] == static_cast<char32_t>(f.sep_char())) {
            if (run == 0 || (groups > 0 && run != 3)) return r;
            ++groups;
            run = 0;
        } else return r;
    }
    if (!any || run == 0) return r;
    if (groups > 0 && run != 3) return r;
    r.ok = true;
    return r;
}

inline uni::Scalars to_scalars(const std::string& s) { return uni::Scalars(s.begin(), s.end()); }

inline std::string narrow(const uni::Scalars& s) {
    std::ostringstream os;
    for (char32_t c : s) {
        if (c >= 32 && c < 127) os << static_cast<char>(c);
        else os << "\\u{" << std::hex << static_cast<unsigned>(c) << std::dec << "}";
    }
    return os.str();
}

// Mutates a text near the grammar of numbers.
inline void mutate(pbt::Tape& t, uni::Scalars& s, const Fmt& f) {
    auto special = [&]() -> char32_t {
        switch (t.draw(9)) {
            case 0: return f.sep ? f.sep_char() : ',';
            case 1: return '-';
            case 2: return '+';
            case 3: return '.';
            case 4: return ',';
            case 5: return static_cast<char32_t>(digit(static_cast<unsigned>(t.draw(36))));
            case 6: { char c = digit(static_cast<unsigned>(t.draw(36))); return static_cast<char32_t>(std::tolower(c)); }
            case 7: { static const char32_t odd[] = {' ', '/', ':', '@', '[', '`', '{', 0xFF10, 0x660, 0x2212, 0x131, 0x212A, 0xD7, 0x100 + '5', 0x10000 + '5', '_', '\'', 'e', 'x'}; return t.pick(odd); }
            default: return '0' + static_cast<char32_t>(f.radix % 10);
        }
    };
    std::size_t n = 1 + t.draw(2);
    while (n--) {
        switch (t.draw(4)) {
            case 0: s.insert(s.begin() + static_cast<long>(t.draw(s.size() + 1)), special()); break;
            case 1: if (!s.empty()) s[t.draw(s.size())] = special(); break;
            case 2: if (!s.empty()) s.erase(s.begin() + static_cast<long>(t.draw(s.size()))); break;
            default: if (s.size() >= 2) { std::size_t i = t.draw(s.size() - 1); std::swap(s[i], s[i + 1]); }
        }
    }
}

// A few code units that are ill-formed wherever they stand.
template <class S> S ill_formed_piece(pbt::Tape& t) {
    using C = typename S::value_type;
    S bad;
    if constexpr (sizeof(C) == 1) {
        static const char* const pieces[] = {"\x80", "\xBF", "\xFF", "\xC2", "\xE2\x82", "\xF0\x9F\x98", "\xC0\xB1", "\xE0\x80\xB1", "\xF0\x80\x80\xB1", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xF8\x80\x80\x80\xB1", "\xC1\xB0", "\xFE"};
        for (const char* p = t.pick(pieces); *p; ++p) bad.push_back(static_cast<C>(*p));
    } else if constexpr (sizeof(C) == 2) {
        static const char16_t units[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD831, 0xDC31};
        bad.push_back(static_cast<C>(t.pick(units)));
    } else {
        static const char32_t units[] = {0xD800, 0xDFFF, 0x110000, 0x110031, 0x80000031, 0xFFFFFFFF, 0x7FFFFFFF};
        bad.push_back(static_cast<C>(t.pick(units)));
    }
    return bad;
}

template <class T> T gen_int(pbt::Tape& t) {
    using L = std::numeric_limits<T>;
    switch (t.draw(5)) {
        case 0: return static_cast<T>(t.bits(sizeof(T) * 8));
        case 1: return static_cast<T>(t.draw(0));
        case 2: { static const int off[] = {0, 1, 2}; int o = t.pick(off); return t.flip() ? static_cast<T>(L::max() - o) : static_cast<T>(L::min() + o); }
        case 3: { // near a power of a radix
            unsigned r = static_cast<unsigned>(t.range(2, 36));
            unsigned long long v = 1;
            for (std::uint64_t k = t.draw(20); k-- && v <= ~0ull / r;) v *= r;
            v += static_cast<unsigned long long>(t.range(-1, 1));
            if (t.flip()) v = 0 - v;
            return static_cast<T>(v);
        }
        default: return static_cast<T>(0 - t.bits(sizeof(T) * 8));
    }
}

} // namespace num
