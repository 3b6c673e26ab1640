#include "num.hpp"
using namespace num;
using uni::show;
const pbt::Info pbt_info{"N01",
    "random values of every integer type (limits, powers of radixes +-1, all widths) formatted in random formats into every "
    "string type, against long division on 128-bit integers; non-trivial: at least two digits",
    5900000, 70800000};

template <class T> void run(pbt::Tape& t, pbt::Case& c, const char* tn) {
    T v = gen_int<T>(t);
    Fmt f = gen_int_fmt(t);
    int e = static_cast<int>(t.draw(5));
    std::string want = ref_format_int(static_cast<i128>(v), f);
    c.nontrivial(want.size() >= 2);
    c.label(tn);
    c.label_if(v == std::numeric_limits<T>::min(), "minimum");
    c.note([&](auto& os) { os << tn << " in " << f.text() << " as " << uni::enc_name(e) << " want " << want; });
    auto fmt = int_format(f);
    uni::with_encoding(e, [&](auto s) {
        using S = decltype(s);
        S got = cmp::format_integer<S>(v, fmt);
        PBT_CHECK(got == uni::encode<S>(to_scalars(want)), "got " << show(got) << " want " << want);
    });
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    switch (t.draw(16)) {
        case 0: return run<int>(t, c, "int");
        case 1: return run<unsigned>(t, c, "unsigned");
        case 2: return run<long>(t, c, "long");
        case 3: return run<unsigned long>(t, c, "unsigned long");
        case 4: return run<long long>(t, c, "long long");
        case 5: return run<unsigned long long>(t, c, "unsigned long long");
        case 6: return run<short>(t, c, "short");
        case 7: return run<unsigned short>(t, c, "unsigned short");
        case 8: return run<signed char>(t, c, "signed char");
        case 9: return run<unsigned char>(t, c, "unsigned char");
        case 10: return run<char>(t, c, "char");
        case 11: return run<wchar_t>(t, c, "wchar_t");
        case 13: return run<char8_t>(t, c, "char8_t");
        case 14: return run<char16_t>(t, c, "char16_t");
        case 15: return run<char32_t>(t, c, "char32_t");
        default: {
            // radixes outside 2..36 are refused
            static const unsigned bad[] = {0, 1, 37, 38, 64, 256, 0x10002, 0xFFFFFFFF, 0x80000000, 0x10000000A >> 0 & 0xFFFFFFFF ? 266u : 0u};
            unsigned r = t.flip() ? t.pick(bad) : static_cast<unsigned>(t.bits(32));
            bool ok = r >= 2 && r <= 36;
            c.label("radix");
            c.note([&](auto& os) { os << "radix " << r; });
            bool threw = false, threw2 = false;
            try { cmp::integer_format x{r, cmp::sign_status::always_show, cmp::thousands_separator::none}; PBT_CHECK(x.get_radix() == r, "radix kept"); } catch (const cmp::invalid_radix&) { threw = true; }
            try {
                cmp::floating_point_format x{r, cmp::sign_status::always_show, cmp::thousands_separator::none, cmp::radix_character::period, cmp::radix_place_limit::none, 0};
                PBT_CHECK(x.get_radix() == r, "radix kept");
            } catch (const cmp::invalid_radix&) { threw2 = true; }
            PBT_CHECK(threw == !ok && threw2 == !ok, "radix " << r);
        }
    }
}
