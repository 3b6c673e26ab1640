#include "txt.hpp"
using namespace txt;
const pbt::Info pbt_info{"S04",
    "random text written in random pieces through a text stream after a byte order mark and read back, by a fresh stream that assumes either byte order or by the same "
    "combined stream after seeking back, over containers and files; non-trivial: at least 2 characters",
    1600000, 19200000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    Enc e = gen_enc(t);
    int kind = Store::gen_kind(t);
    std::size_t cap = res::gen_capacity(t);
    int target = static_cast<int>(t.draw(5)), source = static_cast<int>(t.draw(5));
    bool ascii = target == 4 || source == 4;
    bool combined = t.flip(), mark = !combined || t.flip();
    Scalars v = gen_text(t, t.chance(1, 8) ? 150 : 30, ascii, true);
    Store st(kind, cap, {}, c.scratch);
    c.nontrivial(v.size() >= 2);
    c.label(combined ? "combined stream" : "fresh reader"); c.label(Store::name(kind)); c.label(form_name(e.form));
    bool assumed = t.flip();
    c.note([&](auto& os) { os << Store::name(kind) << " buffer " << cap << " " << show(e) << (combined ? " combined " : assumed != e.big ? " other order assumed " : " ") << uni::show(v) << " from " << uni::enc_name(source) << " into " << uni::enc_name(target); });
    auto write = [&](Out& out) {
        if (mark) out.write_bom();
        std::size_t at = 0;
        while (at < v.size()) {
            std::size_t k = 1 + t.draw(std::min<std::size_t>(v.size() - at, 20));
            Scalars part(v.begin() + static_cast<long>(at), v.begin() + static_cast<long>(at + k));
            if (k == 1 && t.flip()) out << part[0];
            else uni::with_encoding(source, [&](auto z) { out << uni::encode<decltype(z)>(part); });
            at += k;
        }
    };
    auto read = [&](In& in, bool other) {
        if (mark) {
            PBT_CHECK(in.read_bom() == 0xFEFF, "the mark is not the first character");
            if (e.form != 0) PBT_CHECK(in.get_endianness() == endian(e.big), "byte order after the mark");
        }
        (void)other;
        uni::with_encoding(target, [&](auto z) {
            using S = decltype(z);
            S got;
            if (t.flip()) in.read_all(got);
            else while (!in.is_at_end()) { char32_t g; in >> g; cmp::append_code_point(got, g); }
            PBT_CHECK(got == uni::encode<S>(v), "read back " << uni::show(got));
        });
        PBT_CHECK(in.is_at_end(), "not at the end");
    };
    if (combined) {
        IO x(*st.r, forms[e.form], endian(e.big));
        write(x);
        x->set_position(0, cmp::position_reference::begin);
        read(x, false);
        if (t.flip()) { // and on: append after what was read
            Scalars more = gen_text(t, 8, ascii);
            std::int64_t p = x->get_position();
            c.note([&](auto& os) { os << "then " << uni::show(more); });
            for (char32_t ch : more) static_cast<Out&>(x) << ch;
            x->set_position(p, cmp::position_reference::begin);
            std::u32string got;
            x.read_all(got);
            PBT_CHECK(got == uni::encode<std::u32string>(more), "read back " << uni::show(got));
        }
    } else {
        { Out out(*st.r, forms[e.form], endian(e.big)); write(out); }
        if (t.flip() || kind == 2) {
            st.r->set_position(0, cmp::position_reference::begin);
            In in(*st.r, forms[e.form], endian(assumed));
            read(in, true);
        } else { // the bytes in another resource
            Store copy(t.flip() ? 0 : 1, res::gen_capacity(t), st.content(), c.scratch);
            In in(*copy.r, forms[e.form], endian(assumed));
            read(in, true);
        }
    }
}
