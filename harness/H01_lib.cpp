// The transcript of a program driven by bytes; built in several ways and compared by H01.cpp.
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <bit>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <memory>
#include <queue>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#include <cmp/core/general.hpp>
#include <cmp/core/application.hpp>
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/by_code_point.hpp>
#include <cmp/unicode/examiners.hpp>
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/file.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/io/uio.hpp>

namespace {
struct In {
    const unsigned char* p;
    std::size_t n, at = 0;
    unsigned byte() { return at < n ? p[at++] : 0; }
    bool done() const { return at >= n; }
    std::uint64_t bits(unsigned bytes) { std::uint64_t x = 0; while (bytes--) x = x << 8 | byte(); return x; }
};
#ifdef CCL_THREADS // P01 runs transcripts in several threads
thread_local
#endif
std::string out;
void num(long long x) { out += std::to_string(x); out += ' '; }
void word(const char* s) { out += s; out += ' '; }
void value(long double x) { // as integers: L01 compares transcripts over locales
    int e = 0;
    long double m = std::ldexp(std::frexp(x, &e), 32), hi = std::floor(m);
    num(static_cast<long long>(hi)); num(static_cast<long long>(std::ldexp(m - hi, 32))); num(e);
}
template <class S> void text(const S& s) {
    char b[24];
    out += '[';
    for (auto c : s) { std::snprintf(b, sizeof b, "%llx.", static_cast<unsigned long long>(static_cast<std::uint32_t>(c))); out += b; }
    out += "] ";
}
template <class F> void guarded(F f) {
    try { f(); }
    catch (const cmp::parse_failed& e) { word("parse_failed"); num(static_cast<int>(e.get_type())); word(e.what()); }
    catch (const cmp::invalid_radix& e) { word("invalid_radix"); word(e.what()); }
    catch (const cmp::invalid_code_point& e) { word("invalid_code_point"); word(e.what()); }
    catch (const cmp::invalid_unicode_encoding& e) { word("invalid_unicode_encoding"); word(e.what()); }
    catch (const cmp::iterated_past_end& e) { word("iterated_past_end"); word(e.what()); }
    catch (const cmp::read_past_end& e) { word("read_past_end"); word(e.what()); }
    catch (const cmp::invalid_access_mode& e) { word("invalid_access_mode"); word(e.what()); }
    catch (const std::exception& e) { word("exception"); }
}
char32_t scalar(In& in) {
    switch (in.byte() % 8) {
        case 0: case 1: case 2: case 3: return 0x20 + in.byte() % 95;
        case 4: return 0x80 + static_cast<char32_t>(in.bits(2)) % 0x780;
        case 5: return 0x800 + static_cast<char32_t>(in.bits(2)) % 0xD000;
        case 6: return 0x10000 + static_cast<char32_t>(in.bits(3)) % 0x100000;
        default: { static const char32_t w[] = {9, 10, 0x20, 0x85, 0x3000, 0xFEFF, 0xFFFF, 0x10FFFF, 0xE000, 0xD7FF}; return w[in.byte() % 10]; }
    }
}
std::u32string scalars(In& in, unsigned max) {
    std::u32string s;
    for (unsigned n = in.byte() % (max + 1); n--;) s.push_back(scalar(in));
    return s;
}
template <class S> S units(In& in) { // not necessarily well formed
    S s;
    for (unsigned n = in.byte() % 10; n--;) {
        if constexpr (sizeof(typename S::value_type) == 1) s.push_back(static_cast<typename S::value_type>(in.byte()));
        else if constexpr (sizeof(typename S::value_type) == 2) s.push_back(static_cast<typename S::value_type>(in.byte() % 2 ? 0xD800 + in.bits(2) % 0x800 : in.bits(2)));
        else s.push_back(static_cast<typename S::value_type>(in.byte() % 4 ? in.bits(2) : in.bits(4)));
    }
    return s;
}
template <class S> void all_conversions(const S& s) {
    guarded([&] { text(cmp::to_u8string(s)); });
    guarded([&] { text(cmp::to_u16string(s)); });
    guarded([&] { text(cmp::to_u32string(s)); });
    guarded([&] { text(cmp::to_wstring(s)); });
    num(static_cast<long long>(cmp::string_size(s)));
}
template <class S> void walk(const S& s) {
    guarded([&] {
        cmp::by_code_point r{s};
        unsigned limit = 0;
        for (auto i = r.begin(); i != r.end() && ++limit < 100; ++i) num(static_cast<long long>(static_cast<std::uint32_t>(*i)));
        limit = 0;
        for (auto i = r.crbegin(); i != r.crend() && ++limit < 100; ++i) num(static_cast<long long>(static_cast<std::uint32_t>(*i)));
    });
}
template <class S> void both(In& in, const S& s) { if (in.byte() % 2) all_conversions(s); else walk(s); }
template <class T> void integer(In& in, const cmp::integer_format& f) {
    T v = static_cast<T>(in.byte() % 3 ? in.bits(sizeof(T)) : static_cast<std::uint64_t>(static_cast<signed char>(in.byte())));
    guarded([&] {
        auto s = cmp::format_integer<std::u16string>(v, f);
        text(s);
        num(static_cast<long long>(cmp::parse_integer<T>(s, f)));
        num(static_cast<long long>(cmp::parse_integer<short>(s, f)));
    });
}
template <class T> void real(In& in, const cmp::floating_point_format& f) {
    unsigned width = in.byte() % 7, shift = in.byte() % 20;
    T v = static_cast<T>(static_cast<std::int64_t>(in.bits(width))) / static_cast<T>(std::uint64_t{1} << shift);
    if (in.byte() % 2) v = -v;
    guarded([&] {
        auto s = cmp::format_floating_point<std::u8string>(v, f);
        text(s);
        T w = cmp::parse_floating_point<T>(s, f);
        value(w);
    });
}
cmp::integer_format int_format(In& in) {
    static const unsigned r[] = {10, 2, 8, 16, 36, 7, 3, 35, 12, 5};
    return cmp::integer_format{r[in.byte() % 10], in.byte() % 2 ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative,
        in.byte() % 3 == 0 ? cmp::thousands_separator::none : in.byte() % 2 ? cmp::thousands_separator::comma : cmp::thousands_separator::period};
}
cmp::floating_point_format real_format(In& in) {
    static const unsigned r[] = {10, 2, 8, 16, 36, 7, 3, 35, 12, 5};
    bool comma = in.byte() % 2;
    unsigned l = in.byte() % 3;
    return cmp::floating_point_format{r[in.byte() % 10], in.byte() % 2 ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative,
        in.byte() % 2 ? cmp::thousands_separator::none : comma ? cmp::thousands_separator::period : cmp::thousands_separator::comma,
        comma ? cmp::radix_character::comma : cmp::radix_character::period,
        l == 0 ? cmp::radix_place_limit::none : l == 1 ? cmp::radix_place_limit::up_to : cmp::radix_place_limit::exactly_equal, in.byte() % 12};
}
using Any = cmp::seekable_io_resource<std::int64_t>;
void resource(In& in, Any& r) {
    for (unsigned n = in.byte() % 12; n--;) {
        switch (in.byte() % 5) {
            case 0: case 1: {
                std::byte b[40];
                std::size_t k = in.byte() % 40;
                for (std::size_t i = 0; i < k; ++i) b[i] = static_cast<std::byte>(in.byte());
                if (k) num(static_cast<long long>(r.write(b, k)));
                break;
            }
            case 2: {
                std::byte b[40] = {};
                std::size_t k = r.read(b, in.byte() % 40);
                num(static_cast<long long>(k));
                for (std::size_t i = 0; i < k; ++i) num(static_cast<int>(b[i]));
                break;
            }
            case 3: r.set_position(static_cast<std::int64_t>(in.byte() % 60), cmp::position_reference::begin); break;
            default: r.flush();
        }
        num(static_cast<long long>(r.get_position()));
    }
    r.flush();
    r.set_position(0, cmp::position_reference::begin);
    std::byte b[200] = {};
    std::size_t k = r.read(b, 200);
    for (std::size_t i = 0; i < k; ++i) num(static_cast<int>(b[i]));
}
void streams(In& in, Any& r) {
    static const cmp::encoding_form forms[] = {cmp::utf8, cmp::utf16, cmp::utf32};
    auto form = forms[in.byte() % 3];
    auto order = in.byte() % 2 ? std::endian::big : std::endian::little;
    if (in.byte() % 3 == 0) {
        cmp::data_io_stream<Any> d{r, order};
        std::uint32_t a = static_cast<std::uint32_t>(in.bits(4)), b = 0;
        std::int64_t x = static_cast<std::int64_t>(in.bits(8)), y = 0;
        char16_t u = static_cast<char16_t>(in.bits(2));
        d << a; d << x; d << u;
        d.flush();
        d->set_position(0, cmp::position_reference::begin);
        guarded([&] { d >> b >> y; num(b); num(y); });
    } else {
        cmp::text_io_stream<Any> s{r, form, order};
        s.write_bom();
        auto v = scalars(in, 12);
        s << v << U' ' << static_cast<int>(in.bits(4)) << U' ' << (in.byte() % 2 == 1) << U'\n' << cmp::to_u8string(v);
        s.flush();
        s->set_position(0, cmp::position_reference::begin);
        guarded([&] {
            num(static_cast<long long>(s.read_bom()));
            std::u16string w;
            if (in.byte() % 2) { s >> w; text(w); }
            std::wstring line;
            s.read_line(line);
            text(line);
            std::u8string rest;
            s.read_all(rest);
            text(rest);
            char32_t c;
            s >> c;
        });
    }
    r.set_position(0, cmp::position_reference::begin);
    std::byte b[300] = {};
    std::size_t k = r.read(b, 300);
    for (std::size_t i = 0; i < k; ++i) num(static_cast<int>(b[i]));
}
std::string slurp(const std::string& p) {
    std::string s;
    int fd = ::open(p.c_str(), O_RDONLY);
    char b[4096];
    for (ssize_t k; (k = ::read(fd, b, sizeof b)) > 0;) s.append(b, static_cast<std::size_t>(k));
    ::close(fd);
    return s;
}
void standard(In& in, const std::string& scratch) {
    std::string po = scratch + "/so", pi = scratch + "/si";
    int o = ::open(po.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), i = ::open(pi.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    auto v = scalars(in, 20);
    for (auto& c : v) if (c == '\r') c = 'r';
    auto u = cmp::to_u8string(v);
    if (::write(i, u.data(), u.size()) < 0) return;
    ::lseek(i, 0, SEEK_SET);
    int target = in.byte() % 2 ? 1 : 2, s0 = ::dup(0), s1 = ::dup(target);
    ::dup2(i, 0);
    ::dup2(o, target);
    {
        auto& s = target == 1 ? cmp::uout : cmp::uerr;
        for (unsigned n = in.byte() % 4; n--;) s << scalars(in, 30) << static_cast<int>(in.bits(3));
        if (in.byte() % 4 == 0) for (unsigned n = 0; n < 100; ++n) s << u8"0123456789abcdef";
        std::string before = slurp(po);
        num(static_cast<long long>(before.size()));
        if (in.byte() % 2) {
            guarded([&] { for (;;) { char32_t c; cmp::uin >> c; num(static_cast<long long>(c)); } });
            num(static_cast<long long>(slurp(po).size()));
        }
        s.flush();
        text(slurp(po));
    }
    ::dup2(s0, 0);
    ::dup2(s1, target);
    ::close(s0); ::close(s1); ::close(o); ::close(i);
}
void step(In& in, const std::string& scratch) {
    unsigned op = in.byte() % 14;
    out += "\n#" + std::to_string(op) + ' ';
    switch (op) {
        case 0: { auto v = scalars(in, 10); switch (in.byte() % 4) { case 0: both(in, cmp::to_u8string(v)); break; case 1: both(in, cmp::to_u16string(v)); break; case 2: both(in, cmp::to_wstring(v)); break; default: both(in, v); } break; }
        case 1: both(in, units<std::u8string>(in)); break;
        case 2: both(in, units<std::u16string>(in)); break;
        case 3: both(in, units<std::u32string>(in)); break;
        case 4: {
            char32_t c = in.byte() % 2 ? scalar(in) : static_cast<char32_t>(in.bits(4));
            num(cmp::is_code_point_valid(c)); num(cmp::is_whitespace(c)); num(cmp::fits_in_7_bits(c)); { unsigned radix = 2 + in.byte() % 35; num(cmp::is_radix_digit(c, radix)); }
            char8_t b = static_cast<char8_t>(in.byte());
            num(cmp::is_standalone_byte(b)); num(cmp::is_leading_byte(b)); num(cmp::is_trailing_byte(b));
            char16_t u = static_cast<char16_t>(in.bits(2));
            num(cmp::is_surrogate(u)); num(cmp::is_leading_surrogate(u)); num(cmp::is_trailing_surrogate(u));
            break;
        }
        case 5: {
            auto s = cmp::to_u8string(scalars(in, 5));
            auto w = cmp::to_u16string(scalars(in, 5));
            for (unsigned n = in.byte() % 5; n--;) {
                char32_t c = in.byte() % 5 ? scalar(in) : static_cast<char32_t>(in.bits(4));
                guarded([&] { cmp::append_code_point(s, c); });
                guarded([&] { cmp::prepend_code_point(w, c); });
            }
            text(s); text(w);
            break;
        }
        case 6: {
            auto a = scalars(in, 6);
            std::size_t from = std::min<std::size_t>(in.byte() % 4, a.size()), count = in.byte() % 6;
            auto b = a.substr(from, count);
            num(cmp::starts_with(cmp::to_u8string(a), cmp::to_u16string(b)));
            num(cmp::ends_with(cmp::to_u16string(a), b));
            break;
        }
        case 7: {
            auto f = int_format(in);
            switch (in.byte() % 6) {
                case 0: integer<int>(in, f); break;
                case 1: integer<unsigned>(in, f); break;
                case 2: integer<long long>(in, f); break;
                case 3: integer<unsigned long long>(in, f); break;
                case 4: integer<short>(in, f); break;
                default: integer<unsigned char>(in, f);
            }
            break;
        }
        case 8: {
            auto f = real_format(in);
            switch (in.byte() % 3) { case 0: real<double>(in, f); break; case 1: real<float>(in, f); break; default: real<long double>(in, f); }
            break;
        }
        case 9: {
            std::u8string s;
            for (unsigned n = in.byte() % 8; n--;) s.push_back(static_cast<char8_t>("0123456789+-.,aZ "[in.byte() % 17]));
            auto f = int_format(in);
            auto g = real_format(in);
            guarded([&] { num(cmp::parse_integer<int>(s, f)); });
            guarded([&] { value(cmp::parse_floating_point<double>(s, g)); });
            guarded([&] { num(cmp::parse_bool(s, cmp::bool_format{})); });
            break;
        }
        case 10: case 11: case 12: {
            std::size_t cap = in.byte() % 3 ? in.byte() % 20 : cmp::io_buffer::default_buffer_capacity;
            std::vector<std::byte> blob(in.byte() % 20, std::byte{7});
            std::unique_ptr<Any> r;
            std::string p = scratch + "/f";
            switch (in.byte() % 4) {
                case 0: r = std::make_unique<cmp::opaque_string_io_resource>(std::string(in.byte() % 10, 'x'), cap); break;
                case 1: ::unlink(p.c_str()); r = std::make_unique<cmp::file>(p, cmp::read_and_write, cmp::if_not_there::create, cap); break;
                default: r = std::make_unique<cmp::transparent_blob_io_resource>(blob, cap);
            }
            if (op == 10) resource(in, *r); else streams(in, *r);
            break;
        }
        default:
#ifndef CCL_THREADS // the standard streams are shared
            if (in.byte() % 4 == 0) standard(in, scratch);
            else
#endif
            {
                int i = static_cast<int>(in.bits(4)), radix = 2 + static_cast<int>(in.byte() % 30);
                num(cmp::count_digits(i, radix));
                double x = static_cast<int>(in.bits(2)) / 64.0, y = static_cast<int>(in.bits(2)) / 64.0;
                num(cmp::cmp_equal(x, y, in.byte() % 4));
                std::byte b[9];
                for (auto& x : b) x = static_cast<std::byte>(in.byte());
                cmp::invert_endianness(b, in.byte() % 10);
                for (auto x : b) num(static_cast<int>(x));
            }
    }
}
}
extern "C" __attribute__((visibility("default"))) const char* ccl_transcript(const unsigned char* p, std::size_t n, const char* scratch) {
    out.clear();
    In in{p, n};
    for (unsigned k = 0; k < 12 && !in.done(); ++k) guarded([&] { step(in, scratch); });
    return out.c_str();
}
