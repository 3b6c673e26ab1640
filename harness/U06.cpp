#include "uni.hpp"
#include <cmp/unicode/examiners.hpp>
using namespace uni;
// Enumerated part: all code points below 0x120000 in blocks of 2048 with every radix, then random 32-bit values.
static std::vector<std::uint64_t> preset(std::uint64_t i) { return {0, i}; }
const pbt::Info pbt_info{"U06",
    "every 32-bit value below 0x120000, in blocks of 2048 (enumerated), plus random values up to 2^32-1, against tables "
    "from the Unicode standard; non-trivial: every block",
    120000, 1440000, 0x240, preset};

static bool ref_space(std::uint32_t c) {
    // White_Space in PropList.txt
    return (c >= 0x9 && c <= 0xD) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 ||
           c == 0x202F || c == 0x205F || c == 0x3000;
}
static int digit_value(std::uint32_t c) {
    if (c >= '0' && c <= '9') return static_cast<int>(c - '0');
    if (c >= 'a' && c <= 'z') return static_cast<int>(c - 'a') + 10;
    if (c >= 'A' && c <= 'Z') return static_cast<int>(c - 'A') + 10;
    return 99;
}
static void one(std::uint32_t x, bool all_radixes, unsigned r) {
    char32_t c = x;
    PBT_CHECK(cmp::is_code_point_valid(c) == is_scalar(x), "is_code_point_valid " << std::hex << x);
    PBT_CHECK(cmp::is_whitespace(c) == ref_space(x), "is_whitespace " << std::hex << x);
    PBT_CHECK(cmp::fits_in_7_bits(c) == (x < 128), "fits_in_7_bits " << std::hex << x);
    for (unsigned radix = all_radixes ? 2 : r; radix <= (all_radixes ? 36u : r); ++radix)
        PBT_CHECK(cmp::is_radix_digit(c, radix) == (digit_value(x) < static_cast<int>(radix)), "is_radix_digit " << std::hex << x << " radix " << std::dec << radix);
    if (x < 256) {
        char8_t b = static_cast<char8_t>(x);
        PBT_CHECK(cmp::is_standalone_byte(b) == (x < 0x80), "is_standalone_byte " << x);
        PBT_CHECK(cmp::is_trailing_byte(b) == (x >= 0x80 && x < 0xC0), "is_trailing_byte " << x);
        bool never = x == 0xC0 || x == 0xC1 || (x >= 0xF5 && x <= 0xF7); // by pattern leading, in no well-formed text
        if (!never) PBT_CHECK(cmp::is_leading_byte(b) == (x >= 0xC2 && x <= 0xF4), "is_leading_byte " << x);
    }
    if (x < 65536) {
        char16_t u = static_cast<char16_t>(x);
        PBT_CHECK(cmp::is_leading_surrogate(u) == (x / 1024 == 54), "is_leading_surrogate " << x);
        PBT_CHECK(cmp::is_trailing_surrogate(u) == (x / 1024 == 55), "is_trailing_surrogate " << x);
        PBT_CHECK(cmp::is_surrogate(u) == (x / 2048 == 27), "is_surrogate " << x);
    }
}
void pbt_property(pbt::Tape& t, pbt::Case& c) {
    c.nontrivial();
    if (t.draw(8) == 0) {
        std::uint32_t block = static_cast<std::uint32_t>(t.draw(0x240));
        c.label("block");
        c.note([&](auto& os) { os << "block " << std::hex << block * 2048; });
        for (std::uint32_t i = 0; i < 2048; ++i) one(block * 2048 + i, true, 0);
    } else {
        std::uint32_t x = static_cast<std::uint32_t>(t.flip() ? t.draw(1ull << 32) : (t.draw(0x10000) << 16 | gen_scalar(t)) & 0xFFFFFFFFu);
        unsigned r = static_cast<unsigned>(t.range(2, 36));
        c.note([&](auto& os) { os << "value " << std::hex << x << " radix " << std::dec << r; });
        one(x, true, r);
        // a neighbourhood at the same low bits in other planes
        for (int k = 0; k < 16; ++k) one((x & 0x0FFFFFFF) | static_cast<std::uint32_t>(k) << 28, false, r);
    }
}
