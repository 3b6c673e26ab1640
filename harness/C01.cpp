#include <bit>
#include <climits>
#include <cmath>
#include <cstring>
#include <type_traits>
#include <utility>
#include "pbt.hpp"
#include <cmp/core/general.hpp>
#include <cmp/core/type_traits.hpp>
#include <cmp/core/application.hpp>
#include <cmp/io/general.hpp>
const pbt::Info pbt_info{"C01",
    "integers of 15 types with random radix against digit counting in 128 bits; pairs of decimal values with known digits (kept away from rounding boundaries, or exactly "
    "representable) and arbitrary floating-point values over the whole range of the types compared up to 0-300 places in all type combinations; byte sequences inside guarded surroundings reversed; "
    "non-trivial: a count of at least 2 digits, a comparison of two different values or at least 2 bytes",
    7200000, 86400000};

namespace {
using I128 = __int128;
template <class T> void digits(pbt::Tape& t, pbt::Case& c, const char* name) {
    constexpr unsigned w = sizeof(T) * 8;
    T v = static_cast<T>(t.bits(w));
    if (t.chance(1, 3)) { // near a power of the radix
        v = static_cast<T>(0);
    }
    I128 max = std::numeric_limits<T>::max();
    I128 r128 = t.flip() ? static_cast<I128>(2 + t.draw(35)) : static_cast<I128>(2 + t.draw(static_cast<std::uint64_t>(std::min<I128>(max - 1, 1u << 30))));
    if (r128 > max) r128 = max;
    T radix = static_cast<T>(r128);
    if (v == 0 && t.chance(3, 4)) {
        I128 p = 1;
        unsigned k = static_cast<unsigned>(t.draw(40));
        while (k-- && p * r128 <= max) p *= r128;
        p += static_cast<I128>(t.draw(3)) - 1;
        if (std::is_signed_v<T> && t.flip()) p = -p;
        if (p >= static_cast<I128>(std::numeric_limits<T>::min()) && p <= max) v = static_cast<T>(p);
    }
    if (t.chance(1, 16)) v = t.flip() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
    I128 m = v;
    if (m < 0) m = -m;
    unsigned want = 1;
    while (m >= r128) { m /= r128; ++want; }
    c.nontrivial(want >= 2);
    c.label(name);
    c.note([&](auto& os) { os << "digits of " << name << ' ' << static_cast<long long>(v) << " in radix " << static_cast<unsigned long long>(radix); });
    unsigned got = cmp::count_digits(v, radix);
    PBT_CHECK(got == want, "counted " << got << " digits, should be " << want);
}

template <class A, class B> void places(A a, B b, unsigned p, bool want, pbt::Case& c) {
    bool got = cmp::cmp_equal(a, b, p);
    PBT_CHECK(got == want, "cmp_equal gave " << got << " for " << static_cast<long double>(a) << " and " << static_cast<long double>(b) << " up to " << p << " places");
    PBT_CHECK(cmp::cmp_equal(b, a, p) == want, "not symmetric");
    PBT_CHECK(cmp::cmp_not_equal(a, b, static_cast<int>(p)) == !want, "cmp_not_equal is no complement");
}
template <class A, class B> void relation(pbt::Tape& t, pbt::Case& c) {
    bool far = t.flip();
    c.label_if(far, "values over the whole range");
    auto any = [&](auto z) {
        using T = decltype(z);
        if (far) { // over the whole range of the type
            int e = static_cast<int>(t.range(std::numeric_limits<T>::min_exponent, std::numeric_limits<T>::max_exponent - 1));
            if (t.flip()) e = std::numeric_limits<T>::max_exponent - 1 - static_cast<int>(t.draw(60));
            T m = static_cast<T>(0.5) + static_cast<T>(t.draw(1u << 20)) / static_cast<T>(1u << 21);
            return std::ldexp(t.flip() ? -m : m, e);
        }
        long double x = static_cast<long double>(static_cast<std::int64_t>(t.bits(64))) * std::pow(2.0L, static_cast<int>(t.range(-90, 10)));
        return static_cast<T>(x);
    };
    unsigned p = static_cast<unsigned>(far ? t.draw(301) : t.draw(13));
    A a = any(A{});
    auto fits = [](auto x, auto z) { return std::fabs(static_cast<long double>(x)) < static_cast<long double>(std::numeric_limits<decltype(z)>::max()); };
    B b = t.flip() && fits(a, B{}) ? static_cast<B>(a) : any(B{});
    A d = t.flip() && fits(b, A{}) ? static_cast<A>(b) : any(A{});
    c.nontrivial(a != static_cast<A>(b));
    c.note([&](auto& os) { os << "relation on " << static_cast<long double>(a) << ", " << static_cast<long double>(b) << ", " << static_cast<long double>(d) << " up to " << p; });
    PBT_CHECK(cmp::cmp_equal(a, a, p), "not reflexive");
    PBT_CHECK(cmp::cmp_equal(b, b, p), "not reflexive");
    bool ab = cmp::cmp_equal(a, b, p), bd = cmp::cmp_equal(b, d, p), ad = cmp::cmp_equal(a, d, p);
    PBT_CHECK(cmp::cmp_equal(b, a, p) == ab, "not symmetric");
    PBT_CHECK(cmp::cmp_not_equal(a, b, static_cast<int>(p)) == !ab, "cmp_not_equal is no complement");
    // values without fractions are equal only if they are the same, apart from rounding
    long double la = static_cast<long double>(a), lb = static_cast<long double>(b);
    if (std::fabs(la) > 1e3L && std::fabs(la - lb) > std::max(2.0L, 1e-5L * std::fabs(la))) PBT_CHECK(!ab, "different values are equal");
    if constexpr (std::is_same_v<A, B>) if (ab && bd) PBT_CHECK(ad, "not transitive");
}
template <class A, class B> void known(pbt::Tape& t, pbt::Case& c) {
    bool narrow = std::is_same_v<A, float> || std::is_same_v<B, float>;
    unsigned p = static_cast<unsigned>(t.draw(10));
    if (t.chance(1, 3)) { // exactly representable all the way
        unsigned k = static_cast<unsigned>(t.draw(narrow ? 6 : 10));
        std::int64_t na = t.range(narrow ? -4000 : -2000000, narrow ? 4000 : 2000000), nb = t.flip() ? na + t.range(-3, 3) : t.range(-4000, 4000);
        auto cut = [&](std::int64_t n) { // digits of |n| / 2^k cut off after p places
            I128 x = n < 0 ? -static_cast<I128>(n) : n;
            for (unsigned i = 0; i < p; ++i) x *= 10;
            x >>= k;
            return n < 0 ? -x : x;
        };
        // products stay below 2^53: exact in double
        while (p > 0 && std::abs(static_cast<double>(std::max(std::abs(na), std::abs(nb)))) * std::pow(10.0, p) > 4e15) --p;
        if ((na < 0) != (nb < 0) && cut(na) == 0 && cut(nb) == 0) nb = na;
        A a = static_cast<A>(std::ldexp(static_cast<double>(na), -static_cast<int>(k)));
        B b = static_cast<B>(std::ldexp(static_cast<double>(nb), -static_cast<int>(k)));
        c.label("exact values");
        c.nontrivial(na != nb);
        c.note([&](auto& os) { os << na << "/2^" << k << " and " << nb << "/2^" << k << " up to " << p; });
        places(a, b, p, cut(na) == cut(nb), c);
        return;
    }
    // the digits that count as one integer, and a tail well inside
    std::int64_t lim = narrow ? 20000 : 1000000000000ll;
    std::int64_t x = t.chance(1, 3) ? t.range(0, std::min<std::int64_t>(lim, 300)) : t.range(0, lim), y = t.flip() ? x : std::max<std::int64_t>(0, x + (t.flip() ? t.range(-3, 3) : t.range(-lim, lim)));
    y = std::min(y, lim);
    bool sx = t.flip(), sy = t.chance(1, 8) ? !sx : sx;
    if (x == 0 && y == 0) sy = sx;
    auto value = [&](std::int64_t n, bool s) {
        long double f = 0.15L + 0.01L * static_cast<long double>(t.draw(71));
        long double v = (static_cast<long double>(n) + f) / std::pow(10.0L, static_cast<int>(p));
        return s ? -v : v;
    };
    A a = static_cast<A>(value(x, sx));
    B b = static_cast<B>(value(y, sy));
    c.nontrivial(static_cast<long double>(a) != static_cast<long double>(b));
    c.note([&](auto& os) { os << (sx ? "-" : "") << x << "... and " << (sy ? "-" : "") << y << "... up to " << p; });
    places(a, b, p, x == y && (sx == sy), c);
}

void bytes(pbt::Tape& t, pbt::Case& c) {
    std::size_t n = t.chance(1, 64) ? t.length(5000) : t.length(40), front = t.draw(4), back = t.draw(4);
    std::vector<std::byte> v(front + n + back);
    for (auto& b : v) b = static_cast<std::byte>(t.draw(256));
    auto want = v;
    std::reverse(want.begin() + static_cast<std::ptrdiff_t>(front), want.begin() + static_cast<std::ptrdiff_t>(front + n));
    auto got = v;
    c.nontrivial(n >= 2);
    c.label("bytes");
    c.note([&](auto& os) { os << "reverse " << n << " bytes"; });
    cmp::invert_endianness(got.data() + front, n);
    PBT_CHECK(got == want, "not reversed");
    cmp::invert_endianness(got.data() + front, n);
    PBT_CHECK(got == v, "not its own inverse");
    PBT_CHECK(cmp::get_opposite_endianness(std::endian::big) == std::endian::little && cmp::get_opposite_endianness(std::endian::little) == std::endian::big);
}
void app(pbt::Tape& t, pbt::Case& c) {
    std::vector<std::string> args;
    for (std::size_t n = t.length(6); n--;) args.push_back(std::string(t.draw(5), static_cast<char>('a' + t.draw(26))));
    std::vector<char*> p;
    for (auto& s : args) p.push_back(s.data());
    p.push_back(nullptr);
    c.label("application");
    cmp::application a{static_cast<int>(args.size()), p.data()};
    PBT_CHECK(cmp::app() == &a && cmp::application::get_instance_ptr() == &a, "app() is another object");
    PBT_CHECK(a.get_argc() == static_cast<int>(args.size()) && a.get_argv() == p.data(), "command line");
    PBT_CHECK(a.get_copyright_notice().empty());
    for (int k = 0; k < 3; ++k) {
        std::u8string s;
        for (std::size_t n = t.chance(1, 8) ? t.length(2000) : t.length(30); n--;) s.push_back(static_cast<char8_t>(t.draw(256)));
        a.set_copyright_notice(std::u8string_view(s));
        PBT_CHECK(a.get_copyright_notice() == s, "copyright notice");
    }
    PBT_CHECK(a.run() == 0);
    if (t.flip()) { // the latest one made, while it exists
        char* none = nullptr;
        char** argv = t.flip() ? &none : p.data();
        int argc = argv == &none ? 0 : static_cast<int>(args.size());
        auto old = a.get_copyright_notice();
        cmp::application b{argc, argv};
        PBT_CHECK(cmp::app() == &b && cmp::application::get_instance_ptr() == &b, "app() is not the latest object");
        b.set_copyright_notice(u8"b");
        PBT_CHECK(a.get_copyright_notice() == old && b.get_copyright_notice() == u8"b", "copyright notices of two objects");
        PBT_CHECK(a.get_argc() == static_cast<int>(args.size()) && a.get_argv() == p.data() && b.get_argc() == argc && b.get_argv() == argv, "command lines of two objects");
    }
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    switch (t.weighted({8, 6, 3, 4, 1})) {
        case 0:
            switch (t.draw(15)) {
                case 0: return digits<int>(t, c, "int");
                case 1: return digits<unsigned>(t, c, "unsigned");
                case 2: return digits<long>(t, c, "long");
                case 3: return digits<unsigned long>(t, c, "unsigned long");
                case 4: return digits<long long>(t, c, "long long");
                case 5: return digits<unsigned long long>(t, c, "unsigned long long");
                case 6: return digits<short>(t, c, "short");
                case 7: return digits<unsigned short>(t, c, "unsigned short");
                case 8: return digits<signed char>(t, c, "signed char");
                case 9: return digits<unsigned char>(t, c, "unsigned char");
                case 10: return digits<char>(t, c, "char");
                case 11: return digits<char8_t>(t, c, "char8_t");
                case 12: return digits<char16_t>(t, c, "char16_t");
                case 13: return digits<char32_t>(t, c, "char32_t");
                default: return digits<wchar_t>(t, c, "wchar_t");
            }
        case 1: case 2: {
            bool k = t.flip();
            auto go = [&](auto a, auto b) { using A = decltype(a); using B = decltype(b); if (k) known<A, B>(t, c); else relation<A, B>(t, c); };
            c.label("places");
            switch (t.draw(9)) {
                case 0: return go(0.0, 0.0);
                case 1: return go(0.0f, 0.0f);
                case 2: return go(0.0L, 0.0L);
                case 3: return go(0.0, 0.0f);
                case 4: return go(0.0f, 0.0);
                case 5: return go(0.0, 0.0L);
                case 6: return go(0.0L, 0.0);
                case 7: return go(0.0f, 0.0L);
                default: return go(0.0L, 0.0f);
            }
        }
        case 3: return bytes(t, c);
        default: return app(t, c);
    }
}
