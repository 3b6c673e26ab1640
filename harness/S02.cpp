#include "txt.hpp"
#include "num.hpp"
using namespace txt;
const pbt::Info pbt_info{"S02",
    "sequences of writes to a text stream (characters, strings, views and pointers in 5 encodings, integers of every type, booleans, fractions, byte order marks) "
    "with changes of encoding form and byte order and flushes in between, over containers and files with random buffers; the bytes are compared with an "
    "independent encoder; non-trivial: at least two writes, one of them of two or more characters",
    1600000, 19200000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    Enc e = gen_enc(t);
    int kind = Store::gen_kind(t);
    std::size_t cap = res::gen_capacity(t);
    Store st(kind, cap, {}, c.scratch);
    c.label(Store::name(kind)); c.label(form_name(e.form));
    c.note([&](auto& os) { os << Store::name(kind) << " buffer " << cap << " " << show(e); });
    Bytes want;
    bool io = t.flip();
    bool dflt = e.big && t.flip();
    std::size_t n = t.length(c.thorough ? 40 : 16), longest = 0;
    {
        std::unique_ptr<Out> o;
        std::unique_ptr<IO> x;
        if (io) x = dflt ? std::make_unique<IO>(*st.r, forms[e.form]) : std::make_unique<IO>(*st.r, forms[e.form], endian(e.big));
        else o = dflt ? std::make_unique<Out>(*st.r, forms[e.form]) : std::make_unique<Out>(*st.r, forms[e.form], endian(e.big));
        Out& out = io ? static_cast<Out&>(*x) : *o;
        for (std::size_t k = 0; k < n; ++k) {
            Scalars v;
            auto text = [&](const std::string& s) { v.assign(s.begin(), s.end()); };
            auto integer = [&](auto val) { out << val; text(num::ref_format_int(static_cast<__int128>(val), num::Fmt{})); };
            switch (t.weighted({2, 3, 8, 2, 1, 1, 1, 2, 2, 1})) {
                case 0: { char ch = static_cast<char>(uni::gen_ascii(t)); out << ch; v = {static_cast<char32_t>(ch)}; break; }
                case 1: { char32_t ch = uni::gen_scalar(t); out << ch; v = {ch}; break; }
                case 2: {
                    int en = static_cast<int>(t.draw(5)), fo = static_cast<int>(t.draw(3));
                    v = uni::gen_scalars(t, t.chance(1, 10) ? 80 : 12, en == 4, fo == 2, true);
                    uni::with_encoding(en, [&](auto z) {
                        using S = decltype(z);
                        using C = typename S::value_type;
                        S s = uni::encode<S>(v);
                        if (fo == 0) out << s;
                        else if (fo == 1) { uni::Exact<C> b{std::basic_string_view<C>(s)}; out << b.view(); }
                        else { uni::Exact<C> b{std::basic_string_view<C>(s), true}; out << b.ptr(); }
                    });
                    break;
                }
                case 3:
                    switch (t.draw(9)) {
                        case 0: integer(num::gen_int<int>(t)); break;
                        case 1: integer(num::gen_int<unsigned>(t)); break;
                        case 2: integer(num::gen_int<short>(t)); break;
                        case 3: integer(num::gen_int<unsigned short>(t)); break;
                        case 4: integer(num::gen_int<long>(t)); break;
                        case 5: integer(num::gen_int<unsigned long>(t)); break;
                        case 6: integer(num::gen_int<long long>(t)); break;
                        case 7: integer(num::gen_int<signed char>(t)); break;
                        default: integer(num::gen_int<unsigned long long>(t)); break;
                    }
                    break;
                case 4: { bool b = t.flip(); out << b; text(b ? "1" : "0"); break; }
                case 5: { // a fraction with few binary places has exactly these digits
                    int q = static_cast<int>(t.draw(4));
                    long w = static_cast<long>(t.range(-2000, 2000));
                    double d = (w < 0 || (w == 0 && false) ? -1 : 1) * (std::labs(w) + q / 4.0);
                    static const char* fr[] = {"", ".25", ".5", ".75"};
                    if (q == 0) { if (t.flip()) out << static_cast<float>(d); else out << d; text((d < 0 ? "-" : "") + std::to_string(std::labs(w))); }
                    else { if (t.flip()) out << static_cast<float>(d); else out << d; text((d < 0 ? "-" : "") + std::to_string(std::labs(w)) + fr[q]); }
                    break;
                }
                case 6: out.write_bom(); v = {0xFEFF}; c.label("byte order mark"); break;
                case 7: e.big = t.flip(); out.set_endianness(endian(e.big)); PBT_CHECK(out.get_endianness() == endian(e.big)); c.note([&](auto& os) { os << "now " << show(e); }); continue;
                case 8: e.form = static_cast<int>(t.draw(3)); out.set_encoding_form(forms[e.form]); PBT_CHECK(out.get_encoding_form() == forms[e.form]); c.note([&](auto& os) { os << "now " << show(e); }); continue;
                default:
                    if (t.flip()) out.flush(); else out << cmp::flush;
                    PBT_CHECK(st.content() == want, "after flush the resource holds " << res::show(st.content()) << " should be " << res::show(want));
                    continue;
            }
            longest = std::max(longest, v.size());
            c.note([&](auto& os) { os << "write " << uni::show(v); });
            put(want, v, e);
        }
        c.nontrivial(n >= 2 && longest >= 2);
        PBT_CHECK(st.r->get_position() == static_cast<std::int64_t>(want.size()), "the position is " << st.r->get_position() << " should be " << want.size());
    }
    Bytes got = st.content();
    PBT_CHECK(got == want, "the resource holds " << res::show(got) << " should be " << res::show(want));
}
