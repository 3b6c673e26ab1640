#include "uni.hpp"
#include <cmp/unicode/algorithms.hpp>
using namespace uni;
const pbt::Info pbt_info{"U01",
    "random scalar sequences (all encoded lengths, boundary values) in every source form and encoding, converted to every "
    "target; non-trivial: at least two scalars, and source and target differ or some scalar is not ASCII",
    3200000, 38400000};

template <class To, class T> To convert(const T& s, bool named) {
    if (!named) return cmp::convert_string<To>(s);
    if constexpr (std::is_same_v<To, std::u8string>) return cmp::to_u8string(s);
    else if constexpr (std::is_same_v<To, std::u16string>) return cmp::to_u16string(s);
    else if constexpr (std::is_same_v<To, std::u32string>) return cmp::to_u32string(s);
    else if constexpr (std::is_same_v<To, std::wstring>) return cmp::to_wstring(s);
    else return cmp::to_string(s);
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int from = static_cast<int>(t.weighted({4, 4, 4, 2, 2}));
    int to = static_cast<int>(t.weighted({4, 4, 4, 2, 2}));
    int fo = static_cast<int>(t.draw(form_count));
    bool named = t.flip();
    bool ascii = from == 4 || to == 4;
    Scalars v = gen_scalars(t, 60, ascii, form_needs_nul(fo), true);
    bool non_ascii = std::any_of(v.begin(), v.end(), [](char32_t x) { return x > 127; });
    c.nontrivial(v.size() >= 2 && (from != to || non_ascii));
    c.label(enc_name(from));
    c.label_if(non_ascii, "non-ascii");
    c.note([&](auto& os) { os << enc_name(from) << " (" << form_name(fo) << ") -> " << enc_name(to) << " of " << show(v); });
    with_encoding(from, [&](auto fs) {
        using From = decltype(fs);
        From src = encode<From>(v);
        with_encoding(to, [&](auto ts) {
            using To = decltype(ts);
            To want = encode<To>(v);
            with_form(src, fo, [&](auto& input) {
                std::size_t n = cmp::string_size(input);
                PBT_CHECK(n == src.size(), "string_size " << n << " for " << src.size() << " units");
                To got = convert<To>(input, named);
                PBT_CHECK(got == want, "got " << show(got) << " want " << show(want));
            });
            // and back again, through the library only
            From back = cmp::convert_string<From>(cmp::convert_string<To>(src));
            PBT_CHECK(back == src, "round trip gives " << show(back) << " for " << show(src));
        });
    });
}
