#include "uni.hpp"
#include <cmp/unicode/algorithms.hpp>
using namespace uni;
const pbt::Info pbt_info{"U04",
    "random target text, index and 32-bit value for insert, append and prepend in each encoding, against splicing the reference "
    "encoding; non-trivial: target not empty and the value is multi-unit or not a scalar",
    1400000, 16800000};

static std::uint32_t gen_value(pbt::Tape& t) {
    static const std::uint32_t bad[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD801, 0xDFFE, 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x10000041, 0x80000000,
                                        0xFFFFFFFF, 0x00200041, 0x0001D800 + 0x100000 * 2, 0xFFFF0041, 0xFFFFD800};
    switch (t.weighted({6, 2, 1, 1})) {
        case 0: return gen_scalar(t);
        case 1: return t.pick(bad);
        case 2: return 0xD800 + static_cast<std::uint32_t>(t.draw(0x800));
        default: return static_cast<std::uint32_t>(t.bits(32));
    }
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int e = static_cast<int>(t.weighted({6, 5, 3, 2, 1}));
    with_encoding(e, [&](auto s0) {
        using S = decltype(s0);
        Scalars v = gen_scalars(t, 20, e == 4, false, true);
        S s = encode<S>(v);
        S model = s;
        std::size_t ops = 1 + t.draw(4);
        c.note([&](auto& os) { os << enc_name(e) << " " << show(s); });
        c.label(enc_name(e));
        for (std::size_t k = 0; k < ops; ++k) {
            std::uint32_t cp = e == 4 ? gen_ascii(t) : gen_value(t);
            unsigned op = static_cast<unsigned>(t.draw(3));
            std::size_t at = op == 1 ? model.size() : op == 2 ? 0 : t.draw(model.size() + 1);
            c.note([&](auto& os) { os << (op == 1 ? "append " : op == 2 ? "prepend " : "insert ") << std::hex << cp << std::dec << " at " << at; });
            c.nontrivial(!model.empty() && (!is_scalar(cp) || units<S>(cp) > 1 || ops > 1));
            bool thrown = false;
            try {
                if (op == 1) cmp::append_code_point(s, cp);
                else if (op == 2) cmp::prepend_code_point(s, cp);
                else cmp::insert_code_point(s, cp, at);
            } catch (const cmp::invalid_code_point&) { thrown = true; }
            if (is_scalar(cp)) {
                PBT_CHECK(!thrown, "scalar refused");
                S enc = encode<S>({static_cast<char32_t>(cp)});
                model.insert(at, enc);
            } else {
                c.label("not a scalar");
                PBT_CHECK(thrown, "value that is not a scalar accepted, text now " << show(s));
            }
            PBT_CHECK(s == model, "got " << show(s) << " want " << show(model));
        }
    });
}
