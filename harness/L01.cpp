#include <clocale>
#include <cstdlib>
#include <locale>
#include <sstream>
#include "pbt.hpp"
#include "H01_lib.cpp"
const pbt::Info pbt_info{"L01",
    "a random program of up to 12 text, classification, formatting, parsing, resource and stream operations, or classifications and the parsing of a text of digits in a random radix, in the C locale and in a random other "
    "one (of those that localedef made: Turkish, German, Persian, Hindi, Lithuanian, Russian, Japanese, in old and new encodings; also as the global locale of C++, or one with random punctuation); non-trivial: the locale is not C and the program did at least 2 things",
    60000, 1200000};

namespace {
struct Punct : std::numpunct<char> {
    char d, t;
    std::string g;
    Punct(char a, char b, std::string c) : d(a), t(b), g(std::move(c)) {}
    char do_decimal_point() const override { return d; }
    char do_thousands_sep() const override { return t; }
    std::string do_grouping() const override { return g; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
const std::vector<std::string>& locales() {
    static const std::vector<std::string> all = [] {
        const char* aux = std::getenv("PBT_AUX");
        std::string s = aux ? aux : "";
        std::size_t bar = s.find('|');
        std::vector<std::string> v;
        if (bar != std::string::npos) {
            ::setenv("LOCPATH", s.substr(0, bar).c_str(), 1);
            std::istringstream is(s.substr(bar + 1));
            for (std::string w; is >> w;) if (std::setlocale(LC_ALL, w.c_str())) v.push_back(w);
            std::setlocale(LC_ALL, "C");
        }
        v.push_back("C.utf8");
        return v;
    }();
    return all;
}
// the digits of a text in a radix, whatever their case, with characters that some locale takes for letters
std::string direct(const std::vector<unsigned char>& b) {
    out.clear();
    In in{b.data(), b.size()};
    unsigned radix = in.byte() % 3 ? 11 + in.byte() % 26 : 2 + in.byte() % 35;
    cmp::integer_format f{radix, cmp::sign_status::only_when_negative, cmp::thousands_separator::none};
    cmp::floating_point_format g{radix, cmp::sign_status::only_when_negative, cmp::thousands_separator::none, in.byte() % 2 ? cmp::radix_character::comma : cmp::radix_character::period, cmp::radix_place_limit::none, 0};
    bool comma = g.get_radix_character() == cmp::radix_character::comma;
    std::u32string s;
    for (unsigned n = 1 + in.byte() % 9; n--;) {
        unsigned x = in.byte();
        unsigned d = in.byte() % radix;
        if (x < 250 || n % 2) s.push_back(static_cast<char32_t>(d < 10 ? '0' + d : (x % 2 ? 'a' : 'A') + d - 10));
        else s.push_back(x % 2 ? 0x80 + in.byte() : 0x100 + in.bits(2) % 0x400);
    }
    for (unsigned n = 12; n--;) {
        char32_t c = in.byte() % 4 == 0 ? 0x20 + static_cast<char32_t>(in.bits(2)) % 0x2F00 : static_cast<char32_t>(in.byte());
        num(static_cast<long long>(c)); num(cmp::is_radix_digit(c, radix)); num(cmp::is_whitespace(c)); num(cmp::is_code_point_valid(c)); num(cmp::fits_in_7_bits(c));
    }
    word("\n");
    guarded([&] { num(cmp::parse_integer<long long>(s, f)); });
    guarded([&] { num(static_cast<long long>(cmp::parse_integer<unsigned long long>(cmp::to_u16string(s), f))); });
    std::u32string r = s;
    r.insert(s.size() / 2 + (s.size() == 1), 1, comma ? U',' : U'.');
    guarded([&] { num(static_cast<long long>(cmp::parse_floating_point<double>(cmp::to_u8string(r), g) * 1024)); });
    word("\n");
    guarded([&] { text(cmp::format_floating_point<std::u8string>(static_cast<double>(in.bits(3)) / 64, g)); text(cmp::format_integer<std::u8string>(static_cast<long>(in.bits(4)), f)); });
    guarded([&] { all_conversions(s); });
    return out;
}
}
void pbt_property(pbt::Tape& t, pbt::Case& c) {
    const auto& all = locales();
    std::vector<unsigned char> b;
    for (std::size_t m = 20 + t.length(t.chance(1, 4) ? 300 : 120); m--;) b.push_back(static_cast<unsigned char>(t.draw(256)));
    bool simple = t.flip();
    auto program = [&] { return simple ? direct(b) : std::string(ccl_transcript(b.data(), b.size(), c.scratch.c_str())); };
    const std::string& name = all[t.draw(all.size())];
    unsigned how = static_cast<unsigned>(t.draw(3));
    std::setlocale(LC_ALL, "C");
    std::locale old = std::locale::global(std::locale::classic());
    std::string want = program(), got;
    struct Back { ~Back() { std::locale::global(std::locale::classic()); std::setlocale(LC_ALL, "C"); } };
    {
        Back back;
        if (how == 0) std::locale::global(std::locale{std::locale::classic(), new Punct(t.flip() ? ',' : ';', t.flip() ? '.' : '\'', t.flip() ? "\3" : "\1\2")});
        if (how == 2) { try { std::locale::global(std::locale{name.c_str()}); } catch (const std::runtime_error&) {} }
        std::setlocale(LC_ALL, name.c_str());
        got = program();
    }
    c.label(name.c_str()); c.label(how == 0 ? "random C++ punctuation" : how == 1 ? "C only" : "C and C++"); c.label(simple ? "digits" : "program");
    c.nontrivial(std::count(want.begin(), want.end(), '\n') >= 2);
    c.note([&](auto& os) { os << (simple ? "digits" : "program") << " in " << name << "\n" << want.substr(0, 400); });
    PBT_CHECK(want == got, "in the locale " << name << " " << got.substr(0, 800) << ", in C " << want.substr(0, 800));
}
