#include "num.hpp"
using namespace num;
const pbt::Info pbt_info{"N02",
    "texts of random values in random formats, with random letter case, leading zeros and digits past the type's range, exact or mutated near the "
    "grammar, parsed as every integer type from every encoding, against an independent left-to-right grammar on 128-bit integers; "
    "non-trivial: at least two characters",
    2100000, 25200000};

template <class T, class In> void check(const In& in, const Fmt& f, const uni::Scalars& s, pbt::Case& c) {
    IntText r = ref_parse_int(s, f);
    bool neg_unsigned = std::is_unsigned_v<T> && r.minus;
    u128 max = static_cast<u128>(std::numeric_limits<T>::max());
    bool in_range = r.magnitude <= (r.minus ? max + 1 : max);
    bool want_ok = r.ok && !neg_unsigned && in_range;
    c.label(want_ok ? "accepted" : !r.ok ? "refused: grammar" : neg_unsigned ? "refused: negative" : "refused: range");
    auto fmt = int_format(f);
    T got{};
    bool ok = false;
    cmp::parse_failed::type ty{};
    try { got = cmp::parse_integer<T>(in, fmt); ok = true; } catch (const cmp::parse_failed& e) { ty = e.get_type(); }
    if (r.ok && neg_unsigned && r.magnitude == 0 && ok) { PBT_CHECK(got == 0, "-0"); return; }
    PBT_CHECK(ok == want_ok, (want_ok ? "refused a text of the format" : "accepted a text that is not of the format, or out of range") << " value " << (long long)got);
    if (ok) {
        i128 want = r.minus ? -static_cast<i128>(r.magnitude) : static_cast<i128>(r.magnitude);
        PBT_CHECK(static_cast<i128>(got) == want, "got " << (long long)got << " want " << (long long)want);
    } else if (s.empty()) {
        PBT_CHECK(ty == cmp::parse_failed::type::empty_input, "error kind for empty text");
    } else if (r.ok && !neg_unsigned) {
        PBT_CHECK(ty == cmp::parse_failed::type::value_out_of_range, "error kind for a value out of range");
    }
}

// A text with an ill-formed piece somewhere is no text of any format.
template <class T> void ill_formed(pbt::Tape& t, pbt::Case& c, const char* tn) {
    Fmt f = gen_int_fmt(t);
    std::string txt = ref_format_int(static_cast<i128>(gen_int<T>(t)), f);
    int e = static_cast<int>(t.draw(4));
    c.nontrivial(txt.size() >= 2);
    c.label("ill-formed");
    uni::with_encoding(e, [&](auto z) {
        using S = decltype(z);
        using C = typename S::value_type;
        S in = uni::encode<S>(to_scalars(txt));
        in.insert(t.draw(in.size() + 1), ill_formed_piece<S>(t));
        c.note([&](auto& os) { os << tn << " " << uni::show(in) << " " << f.text() << " " << uni::enc_name(e); });
        auto fmt = int_format(f);
        uni::Exact<C> x{std::basic_string_view<C>(in), false};
        bool refused = false;
        try { cmp::parse_integer<T>(x.view(), fmt); } catch (const std::exception&) { refused = true; }
        PBT_CHECK(refused, "accepted ill-formed text");
    });
}
template <class T> void run(pbt::Tape& t, pbt::Case& c, const char* tn, bool all_forms) {
    if (all_forms && t.chance(1, 12)) return ill_formed<T>(t, c, tn);
    Fmt f = gen_int_fmt(t);
    uni::Scalars s;
    unsigned kind = static_cast<unsigned>(t.weighted({5, 3, 4, 1}));
    i128 v = static_cast<i128>(gen_int<T>(t));
    if (kind == 1) { // around the limits of the type, or of another type
        static const int shift[] = {7, 8, 15, 16, 31, 32, 63, 64};
        i128 lim = i128(1) << t.pick(shift);
        if (t.flip()) lim = -lim;
        v = lim + t.range(-2, 2);
        if (t.chance(1, 4)) { // any size up to 100 bits
            v = 0;
            for (unsigned k = 1 + static_cast<unsigned>(t.draw(100)); k--;) v = v * 2 + static_cast<i128>(t.draw(2));
            if (t.flip()) v = -v;
        } else if (t.chance(1, 4)) v = v * static_cast<i128>(t.range(1, 40)) + t.range(0, 40);
    }
    std::string txt = ref_format_int(v, f);
    if (txt[0] == '+' && t.flip()) txt.erase(0, 1);
    if (t.chance(1, 4)) for (auto& ch : txt) if (t.flip()) ch = static_cast<char>(std::tolower(ch));
    s = to_scalars(txt);
    if (t.chance(1, 5)) { // leading zeros
        std::size_t z = 1 + t.length(t.chance(1, 16) ? 400 : 30);
        std::string d = digits(v < 0 ? static_cast<u128>(-v) : static_cast<u128>(v), f.radix);
        d.insert(0, z, '0');
        d = group_right(d, f);
        s = to_scalars((v < 0 ? "-" : f.plus && t.flip() ? "+" : "") + d);
    }
    if (kind == 2) mutate(t, s, f);
    if (kind == 3) { s.clear(); std::size_t n = t.length(6); while (n--) s.push_back(t.flip() ? uni::gen_scalar(t) : static_cast<char32_t>("0123456789+-.,aFzZ"[t.draw(18)])); }
    int e = all_forms ? static_cast<int>(t.draw(5)) : 0;
    int form = all_forms ? static_cast<int>(t.draw(3)) : 0;
    for (auto& ch : s) { if (e == 4 && ch > 127) ch = '$'; if (form == 2 && ch == 0) ch = '$'; }
    c.nontrivial(s.size() >= 2);
    c.note([&](auto& os) { os << tn << " \"" << narrow(s) << "\" " << f.text() << " " << uni::enc_name(e) << " form " << form; });
    if (!all_forms) { check<T>(uni::encode<std::u8string>(s), f, s, c); return; }
    uni::with_encoding(e, [&](auto z) {
        using S = decltype(z);
        using C = typename S::value_type;
        S in = uni::encode<S>(s);
        if (form == 0) check<T>(in, f, s, c);
        else if (form == 1) { uni::Exact<C> x{std::basic_string_view<C>(in)}; check<T>(x.view(), f, s, c); }
        else { uni::Exact<C> x{std::basic_string_view<C>(in), true}; check<T>(x.ptr(), f, s, c); }
    });
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    switch (t.draw(16)) {
        case 0: return run<int>(t, c, "int", true);
        case 1: return run<unsigned>(t, c, "unsigned", false);
        case 2: return run<long>(t, c, "long", false);
        case 3: return run<unsigned long>(t, c, "unsigned long", false);
        case 4: return run<long long>(t, c, "long long", true);
        case 5: return run<unsigned long long>(t, c, "unsigned long long", true);
        case 6: return run<short>(t, c, "short", false);
        case 7: return run<unsigned short>(t, c, "unsigned short", true);
        case 8: return run<signed char>(t, c, "signed char", false);
        case 9: return run<unsigned char>(t, c, "unsigned char", false);
        case 10: { // what is formatted is parsed back
            Fmt f = gen_int_fmt(t);
            long long v = gen_int<long long>(t);
            auto fmt = int_format(f);
            c.nontrivial(v > 9 || v < -9);
            c.note([&](auto& os) { os << "round trip of " << v << " " << f.text(); });
            c.label("round trip");
            auto s8 = cmp::format_integer<std::u8string>(v, fmt);
            PBT_CHECK(cmp::parse_integer<long long>(s8, fmt) == v, "round trip through " << uni::show(s8));
            auto uv = static_cast<unsigned long long>(v);
            auto s16 = cmp::format_integer<std::u16string>(uv, fmt);
            PBT_CHECK(cmp::parse_integer<unsigned long long>(s16, fmt) == uv, "round trip through " << uni::show(s16));
            return;
        }
        case 11: return run<wchar_t>(t, c, "wchar_t", false);
        case 12: return run<char16_t>(t, c, "char16_t", false);
        case 13: return run<char32_t>(t, c, "char32_t", false);
        case 14: return run<char8_t>(t, c, "char8_t", false);
        default: return run<char>(t, c, "char", false);
    }
}
