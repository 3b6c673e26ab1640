#include "num.hpp"
#include <cmath>
using namespace num;
const pbt::Info pbt_info{"N03",
    "random finite values of each floating-point type, with few fraction bits (judged against exact long division) or any mantissa (judged within "
    "rounding), in random formats and string types; non-trivial: the value has a fraction or at least four integral digits",
    3500000, 42000000};

// Exact digits of num/2^m (< 1) in the radix; sets exact = false when a product does not fit p bits.
static std::string frac_digits(u128 f, unsigned m, unsigned radix, std::size_t cut, unsigned p, bool& exact, bool& ended) {
    std::string d;
    ended = true;
    while (f != 0) {
        if (d.size() == cut) { ended = false; break; }
        u128 prod = f * radix;
        u128 odd = prod;
        while ((odd & 1) == 0) odd >>= 1;
        unsigned bits = 0;
        for (u128 x = odd; x; x >>= 1) ++bits;
        if (bits > p) exact = false;
        d += digit(static_cast<unsigned>(prod >> m));
        f = prod & ((u128(1) << m) - 1);
    }
    return d;
}

// Digits of mant * 2^ex, by doubling.
static std::string big_digits(u128 mant, int ex, unsigned radix) {
    std::vector<unsigned> d; // from the right
    for (; mant; mant /= radix) d.push_back(static_cast<unsigned>(mant % radix));
    for (; ex > 0; --ex) {
        unsigned carry = 0;
        for (auto& x : d) { x = 2 * x + carry; carry = x >= radix; if (carry) x -= radix; }
        if (carry) d.push_back(1);
    }
    std::string s;
    for (auto i = d.rbegin(); i != d.rend(); ++i) s += digit(*i);
    return s.empty() ? "0" : s;
}

template <class T> void run(pbt::Tape& t, pbt::Case& c, const char* tn) {
    constexpr unsigned p = std::numeric_limits<T>::digits;
    Fmt f = gen_float_fmt(t);
    T x;
    bool small = t.draw(3) != 2;
    unsigned m = 0;
    unsigned long long n = 0;
    u128 fr = 0;
    std::string whole;
    bool tiny = false;
    if (t.chance(1, 64)) { // down to the smallest values of the type
        small = false;
        tiny = true;
        std::uint64_t mant = t.flip() ? t.bits(p) | 1 : 1 + t.draw(9);
        int least = std::max(std::numeric_limits<T>::min_exponent - static_cast<int>(p), -2000); // (an exponent of long double beyond takes long)
        int most = -static_cast<int>(p) - 2;
        x = std::ldexp(static_cast<T>(mant), t.flip() ? least + static_cast<int>(t.draw(8)) : static_cast<int>(t.range(least, most)));
        if (f.limit && t.flip()) f.places = static_cast<unsigned>(t.draw(2000));
        c.label("tiny");
    } else if (t.chance(1, 24)) { // beyond the integer types
        small = false;
        std::uint64_t mant = t.draw(p == 64 ? 0 : (1ull << p)) | (1ull << (p - 1));
        int most = std::min(std::numeric_limits<T>::max_exponent, 1200) - static_cast<int>(p);
        int ex = static_cast<int>(64 - p + (t.flip() ? t.draw(10) : t.draw(static_cast<std::uint64_t>(most) - (64 - p) + 1)));
        x = std::ldexp(static_cast<T>(mant), ex);
        whole = big_digits(mant, ex, f.radix);
        n = ~0ull;
        c.label("large");
    } else if (small) {
        m = static_cast<unsigned>(t.draw(p - 6 + 1));
        n = t.bits(p - m);
        fr = m ? (static_cast<u128>(t.bits(m))) : 0;
        x = std::ldexp(static_cast<T>(static_cast<unsigned long long>(fr)), -static_cast<int>(m)) + static_cast<T>(n);
    } else {
        // any mantissa, exponents from tiny to just below 2^64
        std::uint64_t mant = t.draw(p == 64 ? 0 : (1ull << p));
        int ex = static_cast<int>(t.range(-static_cast<int>(p) - 70, 64 - static_cast<int>(p)));
        x = std::ldexp(static_cast<T>(mant), ex);
        if (!(x < static_cast<T>(1.8e19))) x = static_cast<T>(1.5);
        if (t.chance(1, 5)) { static const double common[] = {0.1, 0.2, 0.3, 1.1, 123.456, 0.999999, 1e-5, 3.14159, 99.99, 2.675, 1e15 + 0.3, 1234567.891}; x = static_cast<T>(t.pick(common)); }
        if (t.chance(1, 12)) x = 0;
        T fl = std::floor(x);
        n = static_cast<unsigned long long>(fl);
    }
    T frac_part = x - std::floor(x);
    bool neg = t.chance(2, 5);
    T v = neg ? -x : x;
    int e = static_cast<int>(t.draw(5));
    c.label(tn);
    c.label(small ? "exact" : "rounded");
    c.nontrivial(frac_part != 0 || n > 999);
    c.note([&](auto& os) { os.precision(21); os << tn << " " << v << " " << f.ftext() << " as " << uni::enc_name(e); });
    auto fmt = float_format(f);
    std::string got;
    uni::with_encoding(e, [&](auto s) {
        using S = decltype(s);
        S g = cmp::format_floating_point<S>(v, fmt);
        for (auto ch : g) { PBT_CHECK(ch > 0 && ch < 127, "character in the output"); got += static_cast<char>(ch); }
    });
    // sign and integral part are exact for every value
    std::string sign = x == 0 ? "" : neg ? "-" : f.plus ? "+" : "";
    std::string integral = sign + group_right(whole.empty() ? digits(n, f.radix) : whole, f);
    PBT_CHECK(got.compare(0, integral.size(), integral) == 0, "got " << got << " want to begin with " << integral);
    std::string rest = got.substr(integral.size());
    std::size_t cut = f.limit ? f.places : static_cast<std::size_t>(-1);
    // the part after the radix character, with the separators checked and removed
    std::string fd;
    if (!rest.empty()) {
        PBT_CHECK(rest[0] == f.point_char(), "got " << got << ": after " << integral << " comes " << rest);
        for (std::size_t i = 1, k = 0; i < rest.size(); ++i) {
            if (f.sep && k && k % 3 == 0 && rest[i] == f.sep_char()) { ++i; PBT_CHECK(i < rest.size(), "ends in a separator: " << got); }
            else if (f.sep) PBT_CHECK(k == 0 || k % 3 != 0, "separator missing in " << got);
            PBT_CHECK(value_of(static_cast<char32_t>(rest[i]), f.radix) >= 0 && !(rest[i] >= 'a' && rest[i] <= 'z'), "bad digit in " << got);
            fd += rest[i];
            ++k;
        }
    }
    if (frac_part == 0) {
        std::string want(f.limit == 1 ? f.places : 0, '0');
        PBT_CHECK(fd == want && (rest.empty() || f.limit == 1), "got " << got << " for a value without a fraction");
        if (want.empty()) PBT_CHECK(rest.empty(), "radix character without places in " << got);
        return;
    }
    if (f.limit == 1) PBT_CHECK(fd.size() == f.places, "got " << got << " with " << fd.size() << " places");
    if (f.limit == 2) PBT_CHECK(fd.size() <= f.places, "got " << got << " with " << fd.size() << " places");
    bool exact = small, ended = true;
    std::string want;
    std::size_t ref_cut = cut;
    bool open = f.limit == 0 && f.radix % 2 != 0; // no end in an odd radix
    if (small) want = frac_digits(fr, m, f.radix, open ? 200 : ref_cut, p, exact, ended);
    if (exact) {
        if (open) {
            PBT_CHECK(fd.size() <= want.size() && want.compare(0, fd.size(), fd) == 0, "got " << got << " want a prefix of " << want);
            // enough digits to tell the value apart
            std::size_t sig = fd.size() - std::min(fd.size(), fd.find_first_not_of('0'));
            PBT_CHECK(static_cast<double>(sig) * std::log2(f.radix) >= p - 1, "too few digits in " << got);
        } else {
            if (f.limit == 1) want.resize(f.places, '0');
            PBT_CHECK(fd == want, "got " << got << " want places " << want);
        }
        return;
    }
    // within rounding, and never above the value by more than it
    __float128 sum = 0, scale = 1;
    for (char ch : fd) { scale /= f.radix; sum += scale * value_of(static_cast<char32_t>(ch), f.radix); }
    __float128 diff = static_cast<__float128>(frac_part) - sum;
    __float128 tol = 1;
    for (unsigned i = 0; i < p - 8; ++i) tol /= 2;
    if (tiny) tol *= static_cast<__float128>(frac_part) * static_cast<__float128>(fd.size() + 1) / 128; // every digit is a rounding, relative to the value
    PBT_CHECK(diff > -tol, "got " << got << ", more than the value");
    PBT_CHECK(diff < tol + (f.limit ? scale : 0), "got " << got << ", cut too early");
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    switch (t.draw(3)) {
        case 0: return run<double>(t, c, "double");
        case 1: return run<float>(t, c, "float");
        default: return run<long double>(t, c, "long double");
    }
}
