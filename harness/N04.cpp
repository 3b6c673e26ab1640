#include "num.hpp"
#include <cmath>
using namespace num;
const pbt::Info pbt_info{"N04",
    "texts made of random integral and fraction digits in random formats, exact or mutated near the grammar, parsed as every floating-point "
    "type from every encoding, against an independent grammar and 113-bit arithmetic; non-trivial: at least three characters",
    1500000, 18000000};

struct Ref { bool ok = false; bool unsure = false; bool minus = false; __float128 integral = 0; std::vector<int> head, frac; };

static Ref ref_parse(const uni::Scalars& s, const Fmt& f) {
    Ref r;
    auto pt = std::find(s.begin(), s.end(), static_cast<char32_t>(f.point_char()));
    uni::Scalars head(s.begin(), pt);
    IntText h = ref_parse_int(head, f);
    if (!h.ok) return r;
    r.minus = h.minus;
    for (char32_t ch : head) {
        int d = value_of(ch, f.radix);
        if (d < 0 || (d == 0 && r.head.empty())) continue;
        r.head.push_back(d);
        r.integral = r.integral * f.radix + d;
    }
    if (pt == s.end()) { r.ok = !(f.limit == 1 && f.places > 0); return r; }
    ++pt;
    std::size_t k = 0, with = 0, without = 0;
    if (pt == s.end()) { r.ok = f.limit == 0 || f.places == 0; return r; }
    for (; pt != s.end(); ++pt) {
        if (k && k % 3 == 0) {
            if (f.sep && *pt == static_cast<char32_t>(f.sep_char())) { ++with; ++pt; if (pt == s.end()) return r; }
            else ++without;
        }
        int d = value_of(*pt, f.radix);
        if (d < 0) return r;
        r.frac.push_back(d);
        ++k;
    }
    if (with && without) r.unsure = true;
    r.ok = f.limit == 0 || (f.limit == 1 ? k == f.places : k <= f.places);
    return r;
}

template <class T, class In> void check(const In& in, const Fmt& f, const uni::Scalars& s, pbt::Case& c) {
    Ref r = ref_parse(s, f);
    auto fmt = float_format(f);
    // what does not fit the type is refused; at its very edge either is right
    __float128 edge = static_cast<__float128>(std::numeric_limits<T>::max());
    __float128 slack = edge * 4096 * static_cast<__float128>(std::numeric_limits<T>::epsilon());
    if (r.integral > edge + slack) r.ok = false;
    else if (r.integral > edge - slack) r.unsure = true;
    T got{};
    bool ok = false;
    try { got = cmp::parse_floating_point<T>(in, fmt); ok = true; } catch (const cmp::parse_failed&) {}
    c.label(r.unsure ? "either" : r.ok ? "accepted" : "refused");
    if (r.unsure && !ok) return;
    if (!r.unsure) PBT_CHECK(ok == r.ok, (r.ok ? "refused a text of the format" : "accepted a text that is not of the format"));
    if (!ok || !r.ok) return;
    __float128 x = r.integral, scale = 1;
    for (int d : r.frac) { scale /= f.radix; x += scale * d; }
    if (r.minus) x = -x;
    __float128 ax = x < 0 ? -x : x;
    __float128 diff = static_cast<__float128>(got) - x;
    if (diff < 0) diff = -diff;
    constexpr int p = std::numeric_limits<T>::digits;
    bool pow2 = (f.radix & (f.radix - 1)) == 0;
    if (pow2) {
        unsigned lb = 0;
        while ((1u << lb) < f.radix) ++lb;
        std::size_t fr = r.frac.size();
        while (fr && r.frac[fr - 1] == 0) --fr;
        std::size_t in = r.head.size(), ib = 0;
        if (fr == 0) while (in && r.head[in - 1] == 0) --in;
        for (std::size_t i = 0; i < in; ++i) { if (i) ib += lb; else for (int q = r.head[0]; q; q >>= 1) ++ib; }
        if (ib + fr * lb <= static_cast<std::size_t>(p)) {
            c.label("exact");
            PBT_CHECK(diff == 0, "got " << static_cast<long double>(got) << " want " << static_cast<long double>(x));
            return;
        }
    }
    __float128 eps = std::numeric_limits<T>::epsilon();
    __float128 tol = eps * static_cast<__float128>(static_cast<double>((r.frac.size() + r.head.size()) * 2 + 4)) * ax + static_cast<__float128>(std::numeric_limits<T>::min()) * 64;
    PBT_CHECK(diff <= tol, "got " << static_cast<long double>(got) << " want " << static_cast<long double>(x));
}

template <class T> void run(pbt::Tape& t, pbt::Case& c, const char* tn, bool forms) {
    Fmt f = gen_float_fmt(t);
    unsigned long long n = t.bits(t.chance(1, 8) ? 64 : 63);
    std::string txt = group_right(digits(n, f.radix), f);
    if (t.chance(1, 10)) { // beyond the integer types, rarely beyond the floating-point type
        static const unsigned many[] = {12, 20, 40, 80, 330};
        std::string d(1, digit(1 + static_cast<unsigned>(t.draw(f.radix - 1))));
        for (std::size_t k = t.draw(t.pick(many)); k--;) d += digit(static_cast<unsigned>(t.chance(1, 3) ? 0 : t.draw(f.radix)));
        if (t.chance(1, 3)) d.append(t.draw(30), '0');
        txt = group_right(d, f);
        c.label("large");
    } else if (t.chance(1, 8)) txt = group_right(std::string(1 + t.draw(t.chance(1, 6) ? 90 : 5), '0') + digits(n, f.radix), f);
    if (t.chance(2, 5)) txt.insert(0, "-");
    else if (f.plus && t.flip()) txt.insert(0, "+");
    std::size_t k = f.limit == 0 ? t.length(t.chance(1, 20) ? 200 : 12) : f.limit == 1 ? f.places : t.draw(std::uint64_t{f.places} + 1);
    if (t.chance(1, 8)) k = t.length(16);
    if (k || t.chance(1, 4)) {
        txt += f.point_char();
        std::string d;
        std::size_t zeros = t.chance(1, 6) ? t.draw(k + 1) : 0; // small values
        for (std::size_t i = 0; i < k; ++i) d += i < zeros ? '0' : digit(static_cast<unsigned>(t.draw(f.radix)));
        txt += t.flip() ? group_left(d, f) : d;
    }
    if (t.chance(1, 4)) for (auto& ch : txt) if (t.flip()) ch = static_cast<char>(std::tolower(ch));
    uni::Scalars s = to_scalars(txt);
    if (t.chance(1, 3)) mutate(t, s, f);
    int e = forms ? static_cast<int>(t.draw(5)) : 0;
    if (e == 4) for (auto& ch : s) if (ch > 127) ch = '$';
    c.nontrivial(s.size() >= 3);
    c.note([&](auto& os) { os << tn << " \"" << narrow(s) << "\" " << f.ftext() << " " << uni::enc_name(e); });
    if (!forms) { check<T>(uni::encode<std::u8string>(s), f, s, c); return; }
    bool view = t.flip(), z0 = t.flip();
    if (z0) for (auto& ch : s) if (ch == 0) ch = '$';
    uni::with_encoding(e, [&](auto z) {
        using S = decltype(z);
        using C = typename S::value_type;
        S in = uni::encode<S>(s);
        if (e != 4 && t.chance(1, 20)) {
            in.insert(t.draw(in.size() + 1), ill_formed_piece<S>(t));
            c.label("ill-formed");
            uni::Exact<C> x{std::basic_string_view<C>(in)};
            bool refused = false;
            try { cmp::parse_floating_point<T>(x.view(), float_format(f)); } catch (const std::exception&) { refused = true; }
            PBT_CHECK(refused, "accepted ill-formed text " << uni::show(in));
            return;
        }
        if (!view) check<T>(in, f, s, c);
        else if (!z0) { uni::Exact<C> x{std::basic_string_view<C>(in)}; check<T>(x.view(), f, s, c); }
        else { uni::Exact<C> x{std::basic_string_view<C>(in), true}; check<T>(x.ptr(), f, s, c); }
    });
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    switch (t.draw(3)) {
        case 0: return run<double>(t, c, "double", true);
        case 1: return run<float>(t, c, "float", false);
        default: return run<long double>(t, c, "long double", false);
    }
}
