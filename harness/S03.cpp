#include "txt.hpp"
#include <cstring>
using namespace txt;
const pbt::Info pbt_info{"S03",
    "random text with words, lines (LF and CR LF) and whitespace of every kind, encoded by an independent encoder in a random form and byte order, with or without "
    "byte order mark, read by random mixtures of character, word, line and whole-text reads into strings of 5 encodings, also with changes of form along the way; "
    "non-trivial: at least 3 characters",
    1000000, 12000000};

namespace {
template <class S> void reading(In& in, const Scalars& v, std::size_t& at, pbt::Tape& t, pbt::Case& c, unsigned op) {
    S got = uni::encode<S>(uni::gen_scalars(t, 3, true, false)); // what was in the target before
    Scalars before;
    for (auto ch : got) before.push_back(static_cast<char32_t>(ch));
    Scalars want;
    switch (op) {
        case 1: { // a word
            c.note([&](auto& os) { os << "word"; });
            while (at < v.size() && is_space(v[at])) ++at;
            while (at < v.size() && !is_space(v[at])) want.push_back(v[at++]);
            if (at < v.size()) ++at;
            in >> got;
            break;
        }
        case 2: case 3: {
            bool append = op == 3;
            c.note([&](auto& os) { os << (append ? "append line" : "line"); });
            if (append) want = before;
            while (at < v.size() && v[at] != '\n') want.push_back(v[at++]);
            if (at < v.size()) ++at;
            if (append) in.append_line(got); else in.read_line(got);
            break;
        }
        default: {
            bool append = op == 5;
            c.note([&](auto& os) { os << (append ? "append all" : "all"); });
            if (append) want = before;
            while (at < v.size()) want.push_back(v[at++]);
            if (append) in.append_all(got); else in.read_all(got);
        }
    }
    PBT_CHECK(got == uni::encode<S>(want), "read " << uni::show(got) << " should be " << uni::show(uni::encode<S>(want)));
}
// Carriage returns that are not before a line feed are text. The known finding S03-lone-cr: the one before another character is dropped.
void carriage_returns(const Enc& e, int kind, std::size_t cap, pbt::Tape& t, pbt::Case& c) {
    Scalars v = uni::gen_scalars(t, 12, false, false), want, known;
    for (auto& ch : v) if (t.chance(1, 3)) ch = U'\r'; else if (t.chance(1, 5)) ch = U'\n';
    for (std::size_t i = 0; i < v.size(); ++i) if (!(v[i] == '\r' && i + 1 < v.size() && v[i + 1] == '\n')) want.push_back(v[i]);
    for (std::size_t i = 0; i < v.size(); ++i) { if (v[i] == '\r' && i + 1 < v.size()) ++i; known.push_back(v[i]); }
    c.label("carriage returns");
    c.nontrivial(v.size() >= 3);
    c.note([&](auto& os) { os << Store::name(kind) << " buffer " << cap << " " << show(e) << " " << uni::show(v); });
    Bytes b;
    put(b, v, e);
    Store st(kind, cap, b, c.scratch);
    In in(*st.r, forms[e.form], endian(e.big));
    Scalars got;
    if (t.flip()) { std::u32string s; in.read_all(s); got.assign(s.begin(), s.end()); }
    else for (std::size_t n = 0; n <= v.size() && !in.is_at_end(); ++n) { char32_t g = 0; in >> g; got.push_back(g); }
    if (got == want) return;
    static const char* listed = std::getenv("PBT_KNOWN");
    if (listed && std::strstr(listed, "S03-lone-cr") && got == known) { c.label("known: S03-lone-cr"); return; }
    PBT_CHECK(got == want, "read " << uni::show(got) << " should be " << uni::show(want));
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    Enc e = gen_enc(t);
    int kind = Store::gen_kind(t);
    std::size_t cap = res::gen_capacity(t);
    int target = static_cast<int>(t.draw(5));
    bool segments = t.chance(1, 5);
    Bytes b;
    c.label(Store::name(kind)); c.label(form_name(e.form));
    if (segments) { // changes of form and byte order along the way
        std::vector<std::pair<Enc, Scalars>> parts;
        std::size_t n = 1 + t.draw(5), total = 0;
        for (std::size_t k = 0; k < n; ++k) {
            Scalars v = gen_text(t, 6, false);
            put(b, v, e);
            parts.push_back({e, v});
            total += v.size();
            if (t.flip()) e.form = static_cast<int>(t.draw(3));
            if (t.flip()) e.big = t.flip();
        }
        c.nontrivial(total >= 3);
        c.label("changing form");
        Store st(kind, cap, b, c.scratch);
        In in(*st.r, forms[parts[0].first.form], endian(parts[0].first.big));
        for (auto& [pe, v] : parts) {
            in.set_encoding_form(forms[pe.form]);
            in.set_endianness(endian(pe.big));
            PBT_CHECK(in.get_encoding_form() == forms[pe.form] && in.get_endianness() == endian(pe.big));
            c.note([&](auto& os) { os << show(pe) << " " << uni::show(v); });
            for (char32_t w : v) {
                char32_t g = 0;
                in >> g;
                PBT_CHECK(g == w, "read " << std::hex << static_cast<unsigned>(g) << " should be " << static_cast<unsigned>(w));
            }
        }
        PBT_CHECK(in.is_at_end(), "not at the end");
        return;
    }
    if (t.chance(1, 24)) return carriage_returns(e, kind, cap, t, c);
    Scalars v = gen_text(t, t.chance(1, 8) ? 120 : 24, target == 4, true);
    Scalars raw = crlf(t, v);
    bool mark = t.chance(1, 3), ask = mark || t.chance(1, 5);
    if (mark) put(b, {0xFEFF}, e);
    put(b, raw, e);
    bool assumed = e.big;
    if (mark && t.flip()) assumed = !assumed;
    bool io = t.flip();
    std::size_t at = 0;
    c.nontrivial(v.size() >= 3);
    c.label_if(mark, "byte order mark"); c.label_if(raw.size() != v.size(), "CR LF");
    c.note([&](auto& os) { os << Store::name(kind) << " buffer " << cap << " " << show(e) << (mark ? " marked" : "") << (assumed != e.big ? " other order assumed" : "") << " " << uni::show(raw) << " into " << uni::enc_name(target); });
    Store st(kind, cap, b, c.scratch);
    std::unique_ptr<In> i;
    std::unique_ptr<IO> x;
    bool dflt = assumed && t.flip();
    if (io) x = dflt ? std::make_unique<IO>(*st.r, forms[e.form]) : std::make_unique<IO>(*st.r, forms[e.form], endian(assumed));
    else i = dflt ? std::make_unique<In>(*st.r, forms[e.form]) : std::make_unique<In>(*st.r, forms[e.form], endian(assumed));
    In& in = io ? static_cast<In&>(*x) : *i;
    if (ask) {
        if (!mark) {
            // the first code point is not a mark in either byte order
            if (raw.empty() || raw[0] == 0xFEFF || raw[0] == 0xFFFE || raw[0] == '\r') ask = false;
            else { char32_t g = in.read_bom(); PBT_CHECK(g == v[0], "read_bom gave " << std::hex << static_cast<unsigned>(g) << " should be " << static_cast<unsigned>(v[0])); at = 1; c.label("no mark there"); }
        } else {
            PBT_CHECK(in.read_bom() == 0xFEFF, "the mark was not read");
        }
        if (e.form != 0) PBT_CHECK(in.get_endianness() == endian(e.big), "byte order after the mark");
        else in.set_endianness(endian(e.big));
    }
    for (unsigned n = 0; n < 40; ++n) {
        PBT_CHECK(in.is_at_end() == (at == v.size()), "is_at_end " << in.is_at_end() << " with " << v.size() - at << " characters left");
        if (at == v.size()) break;
        unsigned op = t.weighted({8, 4, 3, 2, 1, 1});
        if (op == 0) {
            char32_t g = 0;
            c.note([&](auto& os) { os << "character"; });
            in >> g;
            PBT_CHECK(g == v[at], "read " << std::hex << static_cast<unsigned>(g) << " should be " << static_cast<unsigned>(v[at]));
            ++at;
        } else uni::with_encoding(target, [&](auto z) { reading<decltype(z)>(in, v, at, t, c, op); });
    }
    if (at == v.size()) {
        char32_t g = 'q';
        bool threw = false;
        try { in >> g; } catch (const cmp::read_past_end&) { threw = true; }
        PBT_CHECK(threw, "reading past the end was not reported");
        PBT_CHECK(in.is_at_end(), "no longer at the end");
        std::u8string s = u8"x";
        if (t.flip()) in.read_all(s); else in.read_line(s);
        PBT_CHECK(s.empty(), "text after the end");
    }
}
