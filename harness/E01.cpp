#include "txt.hpp"
#include "num.hpp"
#include <cmp/io/data_io_stream.hpp>
#include <cmp/unicode/algorithms.hpp>
using namespace txt;
using num::Fmt;
const pbt::Info pbt_info{"E01",
    "a text, format, stream or file with exactly one fault (a foreign character, a missing separator, a second or misplaced sign, a wrong number of places, a value out of range, an ill-formed "
    "or truncated sequence, the end of the input, the wrong access mode, a radix out of range) at a random place of otherwise right data: the exception must be the one of that fault and of that "
    "kind, also in a copy, with an explanation; non-trivial: the data is of at least 2 units",
    600000, 7200000};

namespace {
using Type = cmp::parse_failed::type;
const char* type_name(int k) {
    static const char* n[] = {"empty_input", "neither_boolean", "multiple_signs", "thousands_separator_missing", "digit_character_expected", "negative_unsigned", "wrong_place_limit", "value_out_of_range"};
    return k >= 0 && k < 8 ? n[k] : "unknown";
}
constexpr int no_error = 100, past_end = 101, iterated = 102, bad_encoding = 103, bad_code_point = 104, bad_mode = 105, bad_radix = 106, other = 107;
std::string error_name(int k) {
    static const char* n[] = {"no error", "read_past_end", "iterated_past_end", "invalid_unicode_encoding", "invalid_code_point", "invalid_access_mode", "invalid_radix", "another exception"};
    return k >= 100 ? n[k - 100] : std::string("parse_failed ") + type_name(k);
}
int number_of(Type x) {
    switch (x) {
        case Type::empty_input: return 0;
        case Type::neither_boolean: return 1;
        case Type::multiple_signs: return 2;
        case Type::thousands_separator_missing: return 3;
        case Type::digit_character_expected: return 4;
        case Type::negative_unsigned: return 5;
        case Type::wrong_place_limit: return 6;
        case Type::value_out_of_range: return 7;
    }
    return 8;
}
template <class X> void explained(const X& x) {
    const std::exception& base = x;
    PBT_CHECK(base.what() && *base.what(), "an exception without an explanation");
    X copy{x};
    PBT_CHECK(std::string(copy.what()) == x.what(), "the copy of an exception explains something else");
}
template <class F> int outcome(F&& f) {
    try { f(); return no_error; }
    catch (const cmp::parse_failed& x) {
        explained(x);
        cmp::parse_failed copy{x}, assigned{"another", Type::empty_input};
        assigned = copy;
        PBT_CHECK(copy.get_type() == x.get_type() && assigned.get_type() == x.get_type(), "the copy of an exception has another kind");
        const std::invalid_argument& base = x;
        (void)base;
        return number_of(x.get_type());
    }
    catch (const cmp::read_past_end& x) { explained(x); return past_end; }
    catch (const cmp::iterated_past_end& x) { explained(x); return iterated; }
    catch (const cmp::invalid_unicode_encoding& x) { explained(x); return bad_encoding; }
    catch (const cmp::invalid_code_point& x) { explained(x); return bad_code_point; }
    catch (const cmp::invalid_access_mode& x) { explained(x); return bad_mode; }
    catch (const cmp::invalid_radix& x) { explained(x); return bad_radix; }
    catch (const std::exception&) { return other; }
}
#define EXPECT(got, want, what) do { int g_ = (got), w_ = (want); PBT_CHECK(g_ == w_, what << ": " << error_name(g_) << ", should be " << error_name(w_)); } while (0)

char32_t foreign(pbt::Tape& t, const Fmt& f, bool fraction) {
    for (;;) {
        static const char32_t odd[] = {' ', '/', ':', '@', '[', '`', '{', '_', '\'', '$', 'x', 'e', 'G', 'z', 'Z', '9', '2', 0xFF10, 0x660, 0x2212, 0x131, 0x100 + '5', 0x10000 + '5', ',', '.'};
        char32_t x = t.pick(odd);
        if (num::value_of(x, f.radix) >= 0) continue;
        if (f.sep && x == static_cast<char32_t>(f.sep_char())) continue;
        if (!fraction && x == static_cast<char32_t>(f.point_char())) continue;
        return x;
    }
}
// The text of an integer with one fault, and the kind of that fault.
std::pair<Scalars, int> faulty_integer(pbt::Tape& t, const Fmt& f, bool point, const std::string& d, bool minus) {
    Scalars s = num::to_scalars(num::group_right(d, f));
    std::size_t at = s.size();
    auto insert_sign = [&](const char* signs) { s.insert(s.begin(), signs, signs + 2); };
    Fmt g = f;
    if (!point) g.point = f.sep == 1 ? 1 : f.sep == 2 ? 0 : f.point; // only digits and separators matter
    switch (t.draw(7)) {
        case 5: { // a separator too many, at any place
            if (!f.sep) return {{}, 0};
            s.insert(s.begin() + static_cast<long>(t.flip() ? 0 : t.draw(s.size() + 1)), static_cast<char32_t>(f.sep_char()));
            if (minus) s.insert(s.begin(), U'-');
            return {s, 4};
        }
        case 0: { // a foreign character at the place of a digit
            do at = t.draw(s.size()); while (num::value_of(s[at], f.radix) < 0);
            s[at] = point ? foreign(t, f, false) : foreign(t, g, true);
            if (minus) s.insert(s.begin(), U'-');
            return {s, 4};
        }
        case 1: { // two signs
            insert_sign(f.plus ? (t.flip() ? t.flip() ? "--" : "++" : t.flip() ? "+-" : "-+") : t.flip() ? "--" : "+-");
            return {s, 2};
        }
        case 2: { // a sign at the end
            s.push_back(t.flip() ? U'-' : U'+');
            if (minus) s.insert(s.begin(), U'-');
            return {s, 4};
        }
        case 3: { // a separator left out or replaced
            if (!f.sep || d.size() < 4) return {{}, 0};
            do at = t.draw(s.size()); while (num::value_of(s[at], f.radix) >= 0);
            if (t.flip()) s.erase(s.begin() + static_cast<long>(at)); else s[at] = foreign(t, f, false);
            if (minus) s.insert(s.begin(), U'-');
            return {s, 3};
        }
        case 4: { // a sign between digits
            if (f.sep || d.size() < 2) return {{}, 0};
            s.insert(s.begin() + 1 + static_cast<long>(t.draw(s.size() - 1)), U'-');
            if (minus) s.insert(s.begin(), U'-');
            return {s, s[0] == U'-' && s[1] == U'-' ? 2 : 4};
        }
        default: // a plus sign that the format does not have
            if (f.plus || f.sep) return {{}, 0};
            s.insert(s.begin(), U'+');
            return {s, 4};
    }
}
template <class T, class F> void integer(pbt::Tape& t, pbt::Case& c, F&& parse, const Fmt& f, int e) {
    std::string d = num::digits(1 + t.bits(std::numeric_limits<T>::digits - 1), f.radix);
    Scalars s;
    int want;
    switch (t.draw(6)) {
        case 0: // too large or too small
            d = num::digits((num::u128(1) << (std::numeric_limits<T>::digits)) + 1 + t.bits(40), f.radix);
            s = num::to_scalars((std::is_signed_v<T> && t.flip() ? "-" : f.plus && t.flip() ? "+" : "") + num::group_right(d, f));
            want = 7;
            break;
        case 1:
            if (std::is_signed_v<T>) { want = 0; break; }
            s = num::to_scalars("-" + num::group_right(d, f));
            want = 5;
            break;
        default: std::tie(s, want) = faulty_integer(t, f, false, d, std::is_signed_v<T> && t.flip());
    }
    if (e == 4) for (auto& x : s) if (x > 127) x = '$';
    c.nontrivial(s.size() >= 2);
    c.label(type_name(want));
    c.note([&](auto& os) { os << "integer \"" << num::narrow(s) << "\" " << f.text() << " " << uni::enc_name(e) << ", should be " << error_name(want); });
    EXPECT(outcome([&] { parse(s, T{}); }), want, "reported");
}
void parse_integers(pbt::Tape& t, pbt::Case& c) {
    Fmt f = num::gen_int_fmt(t);
    int e = static_cast<int>(t.draw(5));
    auto parse = [&](const Scalars& s, auto v) {
        uni::with_encoding(e, [&](auto z) { using S = decltype(z); (void)cmp::parse_integer<decltype(v)>(uni::encode<S>(s), num::int_format(f)); });
    };
    switch (t.draw(6)) {
        case 0: integer<int>(t, c, parse, f, e); break;
        case 1: integer<unsigned>(t, c, parse, f, e); break;
        case 2: integer<long long>(t, c, parse, f, e); break;
        case 3: integer<unsigned long long>(t, c, parse, f, e); break;
        case 4: integer<short>(t, c, parse, f, e); break;
        default: integer<unsigned char>(t, c, parse, f, e);
    }
}
void parse_floats(pbt::Tape& t, pbt::Case& c) {
    Fmt f = num::gen_float_fmt(t);
    int e = static_cast<int>(t.draw(5)), want;
    if (f.limit && f.places > 100) f.places = 100;
    std::string head = num::digits(1 + t.bits(50), f.radix), frac;
    std::size_t k = f.limit == 0 ? t.draw(10) : f.limit == 1 ? f.places : t.draw(f.places + 1);
    Scalars s;
    unsigned how = static_cast<unsigned>(t.draw(4));
    if (how == 2 && f.limit == 0) how = 0;
    if (how == 2) { // a wrong number of places
        std::size_t right = k;
        k = f.limit == 2 || t.flip() ? f.places + 1 + t.draw(4) : t.draw(f.places + 1);
        if (f.limit == 1 && k == right) ++k;
    }
    if (how == 1 && k == 0) how = 0;
    for (std::size_t i = 0; i < k; ++i) frac += num::digit(static_cast<unsigned>(t.draw(f.radix)));
    bool minus = t.flip();
    if (how == 0) {
        std::tie(s, want) = faulty_integer(t, f, true, head, minus);
        if (s.empty()) k = 0;
    } else {
        if (how == 3) { head.assign(5000, '1'); want = 7; } else want = 6;
        s = num::to_scalars((minus ? "-" : "") + num::group_right(head, f));
    }
    std::size_t start = s.size() + 1;
    if (k) { s.push_back(static_cast<char32_t>(f.point_char())); for (char x : t.flip() ? num::group_left(frac, f) : frac) s.push_back(static_cast<char32_t>(x)); }
    else if (how == 2 && t.flip()) s.push_back(static_cast<char32_t>(f.point_char()));
    if (how == 1 && f.sep && t.chance(1, 4)) { // a separator before no digit
        s.push_back(static_cast<char32_t>(f.sep_char()));
        want = 4;
    } else if (how == 1) { // a foreign character among the places
        std::size_t at;
        do at = start + t.draw(s.size() - start); while (num::value_of(s[at], f.radix) < 0);
        s[at] = t.chance(1, 4) ? t.flip() ? U'-' : U'+' : foreign(t, f, true);
        want = 4;
    }
    if (e == 4) for (auto& x : s) if (x > 127) x = '$';
    c.nontrivial(s.size() >= 2);
    c.label((std::string("places: ") + type_name(want)).c_str());
    c.note([&](auto& os) { os << "number \"" << (s.size() > 200 ? std::string("1111...") : num::narrow(s)) << "\" " << f.ftext() << " " << uni::enc_name(e) << ", should be " << error_name(want); });
    int got = outcome([&] {
        uni::with_encoding(e, [&](auto z) {
            using S = decltype(z);
            if (t.flip() || how == 3) (void)cmp::parse_floating_point<double>(uni::encode<S>(s), num::float_format(f));
            else (void)cmp::parse_floating_point<float>(uni::encode<S>(s), num::float_format(f));
        });
    });
    EXPECT(got, want, "reported");
}
void parse_booleans(pbt::Tape& t, pbt::Case& c) {
    cmp::bool_format f{u8"yes", u8"no"};
    static const char* const wrong[] = {"", "y", "yess", "ye", "n", "noo", "yesno", "YES", "No", " yes", "no ", "1", "0", "true"};
    std::string s = t.pick(wrong);
    c.nontrivial(s.size() >= 2);
    c.note([&](auto& os) { os << "boolean \"" << s << "\""; });
    int e = static_cast<int>(t.draw(5));
    uni::with_encoding(e, [&](auto z) { using S = decltype(z); EXPECT(outcome([&] { (void)cmp::parse_bool(uni::encode<S>(num::to_scalars(s)), f); }), s.empty() ? 0 : 1, "reported"); });
}
// An ill-formed piece (to be followed by anything), or the beginning of a sequence that ends with the text.
template <class S> S fault(pbt::Tape& t, bool& truncated) {
    using C = typename S::value_type;
    S p;
    if (truncated) {
        if constexpr (sizeof(C) == 4) { truncated = false; }
        else {
            char32_t x = sizeof(C) == 2 ? static_cast<char32_t>(0x10000 + t.draw(0x100000)) : uni::gen_scalar(t);
            if (x < 0x80) x = 0x20AC;
            p = uni::encode<S>({x});
            p.resize(1 + t.draw(p.size() - 1));
            return p;
        }
    }
    if constexpr (sizeof(C) == 1) {
        static const std::string bad[] = {"\x80", "\xBF", "\xFF", "\xFE", "\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF",
            "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF7\xBF\xBF\xBF", "\xC2" "A", "\xE2" "(\xA1", "\xE2\x82" "B", "\xF1\x80" "C", "\xF0\x9F\x98" "D", "\xC3\xC3", "\xE2\xE2", "\xF0\x9F\xF0"};
        for (char x : t.pick(bad)) p.push_back(static_cast<C>(x));
    } else if constexpr (sizeof(C) == 2) {
        switch (t.draw(3)) {
            case 0: p.push_back(static_cast<C>(0xDC00 + t.draw(0x400))); break;
            case 1: p.push_back(static_cast<C>(0xD800 + t.draw(0x400))); p.push_back(static_cast<C>(t.flip() ? 'a' : 0xE000)); break;
            default: p.push_back(static_cast<C>(0xD800 + t.draw(0x400))); p.push_back(static_cast<C>(0xD800 + t.draw(0x400)));
        }
    } else {
        static const std::uint32_t bad[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x01000041};
        p.push_back(static_cast<C>(t.pick(bad)));
    }
    return p;
}
void texts(pbt::Tape& t, pbt::Case& c) {
    int e = static_cast<int>(t.draw(4));
    uni::with_encoding(e, [&](auto z) {
        using S = decltype(z);
        using C = typename S::value_type;
        Scalars before = uni::gen_scalars(t, 6, false, false), after = uni::gen_scalars(t, 4, false, false);
        bool truncated = t.chance(1, 3);
        S s = uni::encode<S>(before), p;
        unsigned how = static_cast<unsigned>(t.draw(5));
        if (how) p = fault<S>(t, truncated);
        s += p;
        if (!truncated) s += uni::encode<S>(after);
        c.nontrivial(s.size() >= 2);
        c.note([&](auto& os) { os << uni::enc_name(e) << " " << uni::show(s) << " way " << how; });
        if (how == 0) { // the end of a text
            c.label("end of a text");
            s = uni::encode<S>(before);
            cmp::by_code_point r{s};
            EXPECT(outcome([&] { (void)static_cast<char32_t>(*r.end()); }), iterated, "reading at the end");
            if (sizeof(C) < 4) EXPECT(outcome([&] { auto i = r.end(); ++i; }), iterated, "stepping past the end");
            if (sizeof(C) < 4) EXPECT(outcome([&] { auto i = r.begin(); i += static_cast<std::ptrdiff_t>(before.size() + 1 + t.draw(3)); }), iterated, "jumping past the end");
            return;
        }
        c.label(truncated ? "truncated text" : "ill-formed text");
        auto judge = [&](int got, const char* what) {
            if (truncated) PBT_CHECK(got == iterated || got == bad_encoding, what << ": " << error_name(got) << " for a truncated sequence");
            else EXPECT(got, sizeof(C) == 4 ? bad_code_point : bad_encoding, what);
        };
        if (how <= 2 && sizeof(C) < 4) {
            cmp::by_code_point r{s};
            auto i = r.begin();
            for (std::size_t k = before.size(); k--;) ++i;
            if (how == 1) judge(outcome([&] { (void)static_cast<char32_t>(*i); }), "reading");
            else judge(outcome([&] { ++i; }), "stepping");
        } else {
            int to = static_cast<int>(t.draw(3));
            if (to == 0 && sizeof(C) != 1) judge(outcome([&] { (void)cmp::to_u8string(s); }), "converting");
            else if (to == 1 && sizeof(C) != 2) judge(outcome([&] { (void)cmp::to_u16string(s); }), "converting");
            else if (sizeof(C) != 4) judge(outcome([&] { (void)cmp::to_u32string(s); }), "converting");
        }
    });
}
void code_points(pbt::Tape& t, pbt::Case& c) {
    static const std::uint32_t bad[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
    auto x = static_cast<char32_t>(t.pick(bad));
    int e = static_cast<int>(t.draw(4));
    c.label("code points");
    c.nontrivial(true);
    c.note([&](auto& os) { os << "append " << std::hex << static_cast<std::uint32_t>(x) << std::dec << " " << uni::enc_name(e); });
    uni::with_encoding(e, [&](auto z) {
        using S = decltype(z);
        S s = uni::encode<S>(uni::gen_scalars(t, 4, false, false));
        EXPECT(outcome([&] { switch (t.draw(3)) { case 0: cmp::append_code_point(s, x); break; case 1: cmp::prepend_code_point(s, x); break; default: cmp::insert_code_point(s, x, 0); } }), bad_code_point, "inserting");
    });
}
void streams(pbt::Tape& t, pbt::Case& c) {
    Enc e = gen_enc(t);
    Scalars before = gen_text(t, 6, false), after = gen_text(t, 4, false);
    int kind = Store::gen_kind(t);
    std::size_t cap = res::gen_capacity(t);
    bool truncated = t.chance(1, 3), ended = t.chance(1, 4);
    Bytes b;
    put(b, before, e);
    auto units = [&](auto s) {
        constexpr unsigned n = sizeof(typename decltype(s)::value_type);
        for (auto u : s) for (unsigned i = 0; i < n; ++i) b.push_back(static_cast<unsigned char>(static_cast<std::uint32_t>(u) >> 8 * (e.big ? n - 1 - i : i)));
    };
    if (!ended) {
        bool bytes_missing = truncated && e.form && t.flip(); // within a code unit
        if (bytes_missing || (truncated && e.form == 2)) {
            put(b, {0x20AC}, e);
            b.resize(b.size() - 1 - t.draw(e.form == 1 ? 1 : 3));
        } else switch (e.form) {
            case 0: units(fault<std::u8string>(t, truncated)); break;
            case 1: units(fault<std::u16string>(t, truncated)); break;
            default: units(fault<std::u32string>(t, truncated));
        }
        if (!truncated) put(b, after, e);
    }
    int want = ended || truncated ? past_end : e.form == 2 ? bad_code_point : bad_encoding;
    c.nontrivial(b.size() >= 2);
    c.label(("streams: " + error_name(want)).c_str());
    c.note([&](auto& os) { os << show(e) << " " << res::show(b) << " buffer " << cap << " " << Store::name(kind) << ", should be " << error_name(want); });
    Store st(kind, cap, b, c.scratch);
    In in(*st.r, forms[e.form], endian(e.big));
    std::u32string got;
    if (ended || t.flip()) {
        for (char32_t x : before) { char32_t g = 0; in >> g; PBT_CHECK(g == x, "read another character"); }
        EXPECT(outcome([&] { char32_t g; in >> g; }), want, "reading a character");
    } else if (t.flip()) EXPECT(outcome([&] { in.read_all(got); }), want, "reading everything");
    else EXPECT(outcome([&] { for (std::size_t n = 0; n < b.size() + 2; ++n) in.read_line(got); }), want, "reading lines");
}
void stream_numbers(pbt::Tape& t, pbt::Case& c) {
    Enc e = gen_enc(t);
    std::size_t cap = res::gen_capacity(t);
    auto parse = [&](const Scalars& s, auto v) {
        Bytes b;
        Scalars full(t.draw(3), U' ');
        full.insert(full.end(), s.begin(), s.end());
        if (t.flip()) full.push_back(U'\n');
        put(b, full, e);
        Store st(0, cap, b, c.scratch);
        In in(*st.r, forms[e.form], endian(e.big));
        in >> v;
    };
    c.label("numbers in streams");
    if (t.flip()) integer<int>(t, c, [&](const Scalars& s, int v) { Scalars q = s; for (auto& x : q) if (is_space(x)) x = U'_'; parse(q, v); }, Fmt{}, 0);
    else integer<unsigned long long>(t, c, [&](const Scalars& s, unsigned long long v) { Scalars q = s; for (auto& x : q) if (is_space(x)) x = U'_'; parse(q, v); }, Fmt{}, 0);
}
void values_and_files(pbt::Tape& t, pbt::Case& c) {
    Bytes b = res::gen_bytes(t, t.draw(30));
    std::size_t cap = res::gen_capacity(t);
    c.nontrivial(b.size() >= 2);
    if (t.flip()) {
        Store st(Store::gen_kind(t), cap, b, c.scratch);
        cmp::data_input_stream<Any> in{*st.r, endian(t.flip())};
        c.label("values");
        c.note([&](auto& os) { os << "values from " << b.size() << " bytes, buffer " << cap; });
        for (std::size_t left = b.size(); left >= 8; left -= 8) EXPECT(outcome([&] { double v; in >> v; }), no_error, "reading a value");
        EXPECT(outcome([&] { std::uint64_t v; in >> v; }), past_end, "reading past the end");
        return;
    }
    std::string path = c.scratch + "/e";
    fil::put_file(path, b);
    bool reading = t.flip();
    c.label("access modes");
    c.note([&](auto& os) { os << (reading ? "reading a write-only" : "writing a read-only") << " file, buffer " << cap; });
    {
        cmp::file f{path, reading ? cmp::write_only : cmp::read_only, cmp::if_not_there::fail, cap};
        std::byte x[4] = {};
        std::size_t n = 1 + t.draw(4);
        EXPECT(outcome([&] { if (reading) f.read(x, n); else { f.write(x, n); f.flush(); } }), bad_mode, "the other mode");
        if (!reading && !b.empty()) EXPECT(outcome([&] { f.read(x, 1); }), no_error, "the right mode");
    }
    fil::check_file(path, b, "afterwards");
}
void radixes(pbt::Tape& t, pbt::Case& c) {
    static const unsigned bad[] = {0, 1, 37, 38, 64, 100, 256, 266, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
    unsigned r = t.pick(bad);
    c.label("radix");
    c.nontrivial(true);
    c.note([&](auto& os) { os << "radix " << r; });
    EXPECT(outcome([&] { Fmt f; f.radix = r; (void)num::int_format(f); }), bad_radix, "an integer format");
    EXPECT(outcome([&] { Fmt f; f.radix = r; (void)num::float_format(f); }), bad_radix, "a floating-point format");
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    switch (t.weighted({8, 8, 1, 6, 2, 6, 3, 2, 1})) {
        case 0: parse_integers(t, c); break;
        case 1: parse_floats(t, c); break;
        case 2: parse_booleans(t, c); break;
        case 3: texts(t, c); break;
        case 4: code_points(t, c); break;
        case 5: streams(t, c); break;
        case 6: stream_numbers(t, c); break;
        case 7: values_and_files(t, c); break;
        default: radixes(t, c);
    }
}
