#include "txt.hpp"
using namespace txt;
const pbt::Info pbt_info{"S05",
    "bytes made of well-formed text damaged by truncation, changed, inserted and removed bytes and ill-formed sequences, or of random bytes, read character by "
    "character, by word, by line or at once, against an independent strict decoder; non-trivial: the bytes are ill-formed after at least one character or at once",
    890000, 10680000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    Enc e = gen_enc(t);
    int kind = static_cast<int>(t.weighted({6, 4, 0}));
    std::size_t cap = res::gen_capacity(t);
    Bytes b;
    if (t.chance(1, 5)) {
        b.resize(t.length(24));
        for (auto& x : b) x = static_cast<unsigned char>(t.draw(256));
    } else {
        put(b, gen_text(t, 10, false, true), e);
        std::size_t n = t.draw(3);
        while (n--) {
            std::size_t unit = e.form == 0 ? 1 : e.form == 1 ? 2 : 4;
            std::size_t p = t.draw(b.size() / unit + 1) * unit;
            static const std::uint32_t bad[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0xFFFFFFFF, 0x80000000, 0x200041, 0x7FFFFFFF, 0x10FFFF, 0xD7FF, 0xE000};
            static const std::vector<unsigned char> bad8[] = {{0x80}, {0xBF}, {0xC0, 0x80}, {0xC1, 0xBF}, {0xC2}, {0xE0, 0x80, 0x80}, {0xE0, 0x9F, 0xBF}, {0xE0, 0xA0}, {0xED, 0xA0, 0x80},
                {0xED, 0xBF, 0xBF}, {0xF0, 0x80, 0x80, 0x80}, {0xF0, 0x8F, 0xBF, 0xBF}, {0xF4, 0x90, 0x80, 0x80}, {0xF5, 0x80, 0x80, 0x80}, {0xF8, 0x88, 0x80, 0x80, 0x80}, {0xFE}, {0xFF}, {0xF0, 0x90, 0x80},
                {0xE2, 0x28, 0xA1}, {0xF1, 0x80, 0x41}, {0xDF, 0x41}, {0xFC, 0x84, 0x80, 0x80, 0x80, 0x80}, {0xC3, 0xC3}, {0xF4, 0x8F, 0xBF, 0xBF}};
            switch (t.draw(4)) {
                case 0: b.resize(t.draw(b.size() + 1)); break;
                case 1: if (!b.empty()) b[t.draw(b.size())] = static_cast<unsigned char>(t.draw(256)); break;
                case 2: if (!b.empty()) b.erase(b.begin() + static_cast<long>(t.draw(b.size()))); break;
                default:
                    if (e.form == 0) { auto& s = t.pick(bad8); b.insert(b.begin() + static_cast<long>(p), s.begin(), s.end()); }
                    else {
                        std::uint32_t u = t.pick(bad);
                        Bytes s;
                        for (std::size_t i = 0; i < unit; ++i) s.push_back(static_cast<unsigned char>(u >> 8 * (e.big ? unit - 1 - i : i)));
                        b.insert(b.begin() + static_cast<long>(std::min(p, b.size())), s.begin(), s.end());
                    }
            }
        }
    }
    uni::Decoded d = get(b, e);
    // carriage returns outside CR LF are not in question here
    for (char32_t ch : d.scalars) if (ch == '\r') { c.label("skipped: CR"); return; }
    c.nontrivial(!d.ok);
    c.label(d.ok ? "well formed" : "ill formed"); c.label(form_name(e.form));
    c.note([&](auto& os) { os << show(e) << " " << res::show(b) << " buffer " << cap << (d.ok ? "" : " ill formed after ") << (d.ok ? std::string() : std::to_string(d.scalars.size())); });
    Store st(kind, cap, b, c.scratch);
    In in(*st.r, forms[e.form], endian(e.big));
    bool error = false;
    auto guard = [&](auto f) {
        try { f(); }
        catch (const cmp::read_past_end&) { error = true; }
        catch (const cmp::invalid_unicode_encoding&) { error = true; }
        catch (const cmp::invalid_code_point&) { error = true; }
    };
    unsigned how = static_cast<unsigned>(t.draw(5));
    std::u32string got;
    switch (how) {
        case 0: case 1:
            guard([&] {
                for (std::size_t n = 0; n < b.size() + 4 && !in.is_at_end(); ++n) { char32_t g; in >> g; got.push_back(g); }
            });
            PBT_CHECK(got == uni::encode<std::u32string>(d.scalars), "delivered " << uni::show(got) << " should be " << uni::show(d.scalars));
            break;
        case 2:
            guard([&] { in.read_all(got); });
            PBT_CHECK(got == uni::encode<std::u32string>(d.scalars), "delivered " << uni::show(got) << " should be " << uni::show(d.scalars));
            break;
        case 3: {
            std::vector<std::u32string> words, want;
            guard([&] {
                for (std::size_t n = 0; n < b.size() + 4 && !in.is_at_end(); ++n) {
                    got.clear();
                    in >> got;
                    if (!got.empty()) words.push_back(got);
                }
            });
            for (char32_t x : got) PBT_CHECK(uni::is_scalar(x), "not a code point");
            bool within = false;
            for (char32_t x : d.scalars) {
                if (is_space(x)) { within = false; continue; }
                if (!within) want.emplace_back();
                want.back().push_back(x);
                within = true;
            }
            if (!d.ok && within) want.pop_back(); // a word cut off by the error
            PBT_CHECK(words == want, words.size() << " words were delivered, should be " << want.size() << (words.empty() ? "" : ", the last: ") << (words.empty() ? std::string() : uni::show(words.back())));
            break;
        }
        default: {
            std::u32string all;
            guard([&] {
                for (std::size_t n = 0; n < b.size() + 4 && !in.is_at_end(); ++n) {
                    got.clear();
                    struct Keep { std::u32string& a; std::u32string& g; ~Keep() { a += g; a += U'\n'; } } keep{all, got};
                    in.read_line(got);
                }
            });
            std::u32string want = uni::encode<std::u32string>(d.scalars);
            PBT_CHECK(all.compare(0, want.size(), want) == 0 || all == want, "delivered " << uni::show(all) << " should be " << uni::show(want));
        }
    }
    PBT_CHECK(error == !d.ok, (error ? "well-formed text was reported" : "ill-formed text was not reported"));
    // going on after an error ends, one way or the other, and delivers only code points
    if (error) for (std::size_t n = 0; n < b.size() + 4; ++n) {
        bool more = true;
        try { char32_t g = 0; in >> g; PBT_CHECK(uni::is_scalar(g), "delivered " << std::hex << static_cast<unsigned>(g)); }
        catch (const cmp::read_past_end&) { more = false; }
        catch (const cmp::invalid_unicode_encoding&) {}
        catch (const cmp::invalid_code_point&) {}
        if (!more) break;
        PBT_CHECK(n < b.size() + 3, "does not reach the end");
    }
    // the first character through read_bom
    if (e.form != 0 && t.chance(1, 3)) {
        Store s2(kind, cap, b, c.scratch);
        In in2(*s2.r, forms[e.form], endian(e.big));
        bool bad = false;
        char32_t g = 0;
        try { g = in2.read_bom(); }
        catch (const cmp::read_past_end&) { bad = true; }
        catch (const cmp::invalid_unicode_encoding&) { bad = true; }
        catch (const cmp::invalid_code_point&) { bad = true; }
        bool swapped = get(b, Enc{e.form, !e.big}).scalars.empty() ? false : get(b, Enc{e.form, !e.big}).scalars[0] == 0xFEFF;
        if (swapped) PBT_CHECK(!bad && g == 0xFEFF, "a mark in the other byte order");
        else {
            PBT_CHECK(bad == d.scalars.empty(), "read_bom " << (bad ? "reported a well-formed character" : "did not report an ill-formed one"));
            if (!bad) PBT_CHECK(g == d.scalars[0], "read_bom gave " << std::hex << static_cast<unsigned>(g));
        }
    }
}
