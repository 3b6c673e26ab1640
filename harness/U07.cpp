#include "pbt.hpp"
#include <array>
#include <list>
#include <string>
#include <string_view>
#include <vector>
#include <cmp/core/type_traits.hpp>
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/by_code_point.hpp>
#include <cmp/unicode/concepts.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/unicode/type_traits.hpp>
const pbt::Info pbt_info{"U07",
    "types put together from the five kinds of code units and others, as strings, views, pointers, arrays of many sizes and other things, with const and volatile at every level: what each trait "
    "and concept says of the type, and whether the text functions take it, against its parts; non-trivial: any",
    40000, 80000};

namespace {
enum Form { string, view, pointer, array, something_else };
struct Parts {
    int unit;  // 0 char8_t, 1 char16_t, 2 char32_t, 3 wchar_t, 4 char, others are no code units
    Form form;
    bool constant, is_volatile;
};
struct Entry {
    std::string name;
    Parts p;
    bool unit_string[5], writable_unit_string[5];
    bool writable_unicode, unicode, unicode_view, writable_raii_unicode, raii_unicode, writable_text, text, text_view, writable_raii_text, raii_text;
    bool c_writable_unicode, c_unicode, c_writable_raii_unicode, c_raii_unicode, c_writable_text, c_text, c_writable_raii_text, c_raii_text;
    bool taken, iterated, appended, parsed, is_prefix;
};
std::vector<Entry> table;

template <class T> concept converts = requires(T& x) { cmp::to_u8string(x); };
template <class T> concept appends = requires(T& x) { cmp::append_code_point(x, U'a'); };
template <class T> concept parses = requires(T& x) { cmp::parse_integer<int>(x, cmp::integer_format{}); };
template <class T> concept prefixes = requires(T& x) { cmp::starts_with(x, x); };

template <class T> void add(std::string name, Parts p) {
    Entry e;
    e.name = std::move(name);
    e.p = p;
    using namespace cmp;
    e.unit_string[0] = is_utf8_string_v<T>; e.unit_string[1] = is_utf16_string_v<T>; e.unit_string[2] = is_utf32_string_v<T>; e.unit_string[3] = is_wide_string_v<T>; e.unit_string[4] = is_char_string_v<T>;
    e.writable_unit_string[0] = is_writable_utf8_string_v<T>; e.writable_unit_string[1] = is_writable_utf16_string_v<T>; e.writable_unit_string[2] = is_writable_utf32_string_v<T>;
    e.writable_unit_string[3] = is_writable_wide_string_v<T>; e.writable_unit_string[4] = is_writable_char_string_v<T>;
    e.writable_unicode = is_writable_unicode_text_object_v<T>; e.unicode = is_unicode_text_object_v<T>; e.unicode_view = is_unicode_text_object_view_v<T>;
    e.writable_raii_unicode = is_writable_raii_unicode_text_object_v<T>; e.raii_unicode = is_raii_unicode_text_object_v<T>;
    e.writable_text = is_writable_text_object_v<T>; e.text = is_text_object_v<T>; e.text_view = is_text_object_view_v<T>;
    e.writable_raii_text = is_writable_raii_text_object_v<T>; e.raii_text = is_raii_text_object_v<T>;
    e.c_writable_unicode = writable_unicode_text_object<T>; e.c_unicode = unicode_text_object<T>; e.c_writable_raii_unicode = writable_raii_unicode_text_object<T>; e.c_raii_unicode = raii_unicode_text_object<T>;
    e.c_writable_text = writable_text_object<T>; e.c_text = text_object<T>; e.c_writable_raii_text = writable_raii_text_object<T>; e.c_raii_text = raii_text_object<T>;
    e.taken = converts<T>; e.appended = appends<T>; e.parsed = parses<T>; e.is_prefix = prefixes<T>;
    table.push_back(std::move(e));
}
template <class T> void qualified(const std::string& name, int unit, Form form) {
    add<T>(name, {unit, form, false, false});
    add<const T>("const " + name, {unit, form, true, false});
    add<volatile T>("volatile " + name, {unit, form, false, true});
    add<const volatile T>("const volatile " + name, {unit, form, true, true});
}
template <class T> void pointers(const std::string& name, int unit, bool constant, bool vol) {
    add<T*>(name + "*", {unit, pointer, constant, vol});
    add<T* const>(name + "* const", {unit, pointer, constant, vol});
    add<T[1]>(name + "[1]", {unit, array, constant, vol}); add<T[2]>(name + "[2]", {unit, array, constant, vol}); add<T[3]>(name + "[3]", {unit, array, constant, vol});
    add<T[4]>(name + "[4]", {unit, array, constant, vol}); add<T[7]>(name + "[7]", {unit, array, constant, vol}); add<T[8]>(name + "[8]", {unit, array, constant, vol});
    add<T[16]>(name + "[16]", {unit, array, constant, vol}); add<T[100]>(name + "[100]", {unit, array, constant, vol}); add<T[255]>(name + "[255]", {unit, array, constant, vol});
    add<T[256]>(name + "[256]", {unit, array, constant, vol}); add<T[4096]>(name + "[4096]", {unit, array, constant, vol}); add<T[70000]>(name + "[70000]", {unit, array, constant, vol});
    add<T**>(name + "**", {unit, something_else, constant, vol});
    add<T[3][4]>(name + "[3][4]", {unit, something_else, constant, vol});
}
template <class E> void unit(const std::string& n, int u) {
    pointers<E>(n, u, false, false);
    pointers<const E>("const " + n, u, true, false);
    pointers<volatile E>("volatile " + n, u, false, true);
    pointers<const volatile E>("const volatile " + n, u, true, true);
    qualified<E>(n, u, something_else);
    add<std::vector<E>>("vector of " + n, {u, something_else, false, false});
    add<std::array<E, 4>>("std::array of " + n, {u, something_else, false, false});
    add<std::list<E>>("list of " + n, {u, something_else, false, false});
    if constexpr (std::is_same_v<E, char> || std::is_same_v<E, wchar_t> || std::is_same_v<E, char8_t> || std::is_same_v<E, char16_t> || std::is_same_v<E, char32_t>) {
        qualified<std::basic_string<E>>("string of " + n, u, string);
        qualified<std::basic_string_view<E>>("view of " + n, u, view);
        add<std::basic_string<E>*>("pointer to string of " + n, {u, something_else, false, false});
        add<std::vector<std::basic_string<E>>>("vector of strings of " + n, {u, something_else, false, false});
    }
}
void build() {
    unit<char8_t>("char8_t", 0); unit<char16_t>("char16_t", 1); unit<char32_t>("char32_t", 2); unit<wchar_t>("wchar_t", 3); unit<char>("char", 4);
    unit<signed char>("signed char", 5); unit<unsigned char>("unsigned char", 5); unit<short>("short", 5); unit<unsigned short>("unsigned short", 5);
    unit<int>("int", 5); unit<unsigned>("unsigned", 5); unit<bool>("bool", 5); unit<std::byte>("std::byte", 5); unit<double>("double", 5);
}
template <class T, T... A> struct List {};
template <class T, T A, T... B> void against(T* out) { std::size_t i = 0; ((out[i++] = cmp::constant_max_v<T, A, B>), ...); }
template <class T, T... A> void maxima(pbt::Tape& t, pbt::Case& c) {
    static const T values[] = {A...};
    constexpr std::size_t n = sizeof...(A);
    T got[n][n];
    std::size_t i = 0;
    (against<T, A, A...>(got[i++]), ...);
    std::size_t a = t.draw(n), b = t.draw(n);
    c.note([&](auto& os) { os << "the larger of " << values[a] << " and " << values[b]; });
    PBT_CHECK(got[a][b] == std::max(values[a], values[b]), "the larger is " << got[a][b]);
}
template <class C, class V> constexpr bool values = std::is_same_v<cmp::value_type_t<C>, V>;
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    c.nontrivial(true);
    if (table.empty()) build();
    if (t.chance(1, 16)) {
        c.label("values");
        if (t.flip()) maxima<int, 0, 1, -1, 2, -2, 100, -100, 2147483647, -2147483647 - 1>(t, c);
        else maxima<std::size_t, 0, 1, 2, 3, 255, 256, 65536, static_cast<std::size_t>(-1), static_cast<std::size_t>(-1) / 2, static_cast<std::size_t>(-1) / 2 + 1>(t, c);
        PBT_CHECK((values<std::string, char> && values<const std::string, const char> && values<std::vector<int>, int> && values<const std::vector<int>, const int> && values<double[3], double> &&
                   values<std::u16string, char16_t> && values<std::array<std::byte, 2>, std::byte> && values<std::list<long>, long> && values<std::u32string_view, const char32_t>), "the type of a container's values");
        return;
    }
    const Entry& e = t.pick(table);
    c.note([&](auto& os) { os << e.name; });
    const Parts& p = e.p;
    static const char* forms[] = {"string", "view", "pointer", "array", "something else"};
    c.label(forms[p.form]);
    bool text = p.unit < 5 && p.form != something_else;
    bool unicode = text && p.unit < 4;
    bool writes = text && p.form != view && !p.constant;
    bool owns = text && p.form == string;
    c.label(text ? "text" : "no text");
    for (int u = 0; u < 5; ++u) {
        PBT_CHECK(e.unit_string[u] == (text && p.unit == u), "kind " << u << " of text: " << e.unit_string[u]);
        PBT_CHECK(e.writable_unit_string[u] == (writes && p.unit == u), "writable kind " << u << " of text: " << e.writable_unit_string[u]);
    }
    auto same = [&](bool got, bool concept_says, bool want, const char* what) {
        PBT_CHECK(got == want, "the trait of " << what << " is " << got);
        PBT_CHECK(concept_says == want, "the concept of " << what << " is " << concept_says);
    };
    same(e.text, e.c_text, text, "text");
    same(e.unicode, e.c_unicode, unicode, "Unicode text");
    same(e.writable_text, e.c_writable_text, writes, "writable text");
    same(e.writable_unicode, e.c_writable_unicode, writes && unicode, "writable Unicode text");
    same(e.raii_text, e.c_raii_text, owns, "owning text");
    same(e.raii_unicode, e.c_raii_unicode, owns && unicode, "owning Unicode text");
    same(e.writable_raii_text, e.c_writable_raii_text, owns && writes, "writable owning text");
    same(e.writable_raii_unicode, e.c_writable_raii_unicode, owns && writes && unicode, "writable owning Unicode text");
    PBT_CHECK(e.text_view == (text && p.form == view) && e.unicode_view == (unicode && p.form == view), "views: " << e.text_view << ' ' << e.unicode_view);
    if (p.is_volatile) return;
    PBT_CHECK(e.taken == text, (text ? "conversion does not take it" : "conversion takes it"));
    PBT_CHECK(e.parsed == text, (text ? "parsing does not take it" : "parsing takes it"));
    PBT_CHECK(e.is_prefix == text, (text ? "comparing beginnings does not take it" : "comparing beginnings takes it"));
    PBT_CHECK(e.appended == (owns && writes), (owns && writes ? "a code point cannot be appended" : "a code point can be appended"));
}
