#include "txt.hpp"
#include "num.hpp"
#include <cmath>
using namespace txt;
const pbt::Info pbt_info{"S06",
    "sequences of integers of every type, booleans and floating-point values written to a text stream between random whitespace and read back as the same types, with "
    "words in between that are not numbers of the type asked for; non-trivial: at least two values",
    550000, 6600000};

namespace {
struct Item { bool wide = false; int type; bool bad = false; long long i = 0; unsigned long long u = 0; double d = 0; bool b = false; };
template <class F> decltype(auto) with_int(int k, F&& f) {
    switch (k) {
        case 0: return f(int{});
        case 1: return f(unsigned{});
        case 2: return f(short{});
        case 3: return f(static_cast<unsigned short>(0));
        case 4: return f(0l);
        case 5: return f(0ul);
        case 6: return f(0ll);
        case 7: return f(0ull);
        case 8: return f(static_cast<signed char>(0));
        default: return f(static_cast<unsigned char>(0));
    }
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    Enc e = gen_enc(t);
    int kind = Store::gen_kind(t);
    std::size_t cap = res::gen_capacity(t);
    Store st(kind, cap, {}, c.scratch);
    std::size_t n = t.length(12);
    c.label(form_name(e.form));
    c.nontrivial(n >= 2);
    c.note([&](auto& os) { os << Store::name(kind) << " buffer " << cap << " " << show(e); });
    std::vector<Item> items;
    IO x(*st.r, forms[e.form], endian(e.big));
    Out& out = x;
    In& in = x;
    auto space = [&] {
        std::size_t k = 1 + (t.chance(1, 4) ? t.draw(4) : 0);
        while (k--) { if (t.chance(1, 8)) out << '\r' << '\n'; else out << gen_space(t, false); }
    };
    if (t.chance(1, 4)) space();
    for (std::size_t k = 0; k < n; ++k) {
        Item it{};
        it.type = static_cast<int>(t.draw(14));
        if (t.chance(1, 6)) {
            it.bad = true;
            static const std::u8string words[] = {u8"x", u8"12x", u8"--1", u8"+1", u8"1,000", u8"-", u8".", u8"1.2.3", u8"99999999999999999999", u8"-99999999999999999999", u8"٣", u8"0x10", u8"1e5", u8"true", u8"10-", u8"2-1"};
            std::u8string w = t.pick(words);
            if (it.type > 10 && w.size() > 18) w = u8"x";
            c.note([&](auto& os) { os << "word " << reinterpret_cast<const char*>(w.c_str()) << " for type " << it.type; });
            out << w;
        } else if (it.type < 10) {
            with_int(it.type, [&](auto z) {
                using T = decltype(z);
                T v = num::gen_int<T>(t);
                it.i = static_cast<long long>(v);
                it.u = static_cast<unsigned long long>(v);
                c.note([&](auto& os) { os << +v; });
                if (t.chance(1, 24)) { // any number of leading zeros
                    std::string w = num::ref_format_int(static_cast<__int128>(v), num::Fmt{});
                    w.insert(w[0] == '-' ? 1 : 0, 1 + t.draw(t.chance(1, 8) ? 600 : 30), '0');
                    out << w;
                } else out << v;
            });
        } else if (it.type == 10) {
            it.b = t.flip();
            c.note([&](auto& os) { os << (it.b ? "true" : "false"); });
            out << it.b;
        } else { // 11 float, 12 double, 13 long double
            long long w = static_cast<long long>(t.bits(it.type == 11 ? 14 : 30));
            unsigned fb = static_cast<unsigned>(t.draw(it.type == 11 ? 10 : 16));
            it.d = static_cast<double>(w) + static_cast<double>(t.draw(1u << fb)) / (1u << fb);
            if (t.chance(1, 4)) { // any size
                int top = it.type == 11 ? 127 : 1000;
                int ex = static_cast<int>(t.chance(1, 3) ? t.range(-30, top) : t.range(-10, 80));
                it.d = std::ldexp(static_cast<double>(t.draw(1ull << (it.type == 11 ? 24 : 53))), ex - (it.type == 11 ? 24 : 53));
                it.wide = true;
            }
            if (t.flip()) it.d = -it.d;
            c.note([&](auto& os) { os << it.d; });
            if (it.type == 11) { float f = static_cast<float>(it.d); it.d = f; out << f; }
            else if (it.type == 12) out << it.d;
            else out << static_cast<long double>(it.d);
        }
        items.push_back(it);
        if (k + 1 < n || t.flip()) space();
    }
    x->set_position(0, cmp::position_reference::begin);
    std::size_t idx = 0;
    for (auto& it : items) {
        ++idx;
        bool refused = false;
        try {
            if (it.type < 10) with_int(it.type, [&](auto z) {
                using T = decltype(z);
                T v{};
                in >> v;
                if (!it.bad) PBT_CHECK(v == (std::is_signed_v<T> ? static_cast<T>(it.i) : static_cast<T>(it.u)), "value " << idx << " came back as " << +v);
            });
            else if (it.type == 10) { bool b = !it.b; in >> b; if (!it.bad) PBT_CHECK(b == it.b, "boolean " << idx << " came back as " << b); }
            else {
                long double g = 0, eps = 0;
                if (it.type == 11) { float f = 0; in >> f; g = f; eps = std::numeric_limits<float>::epsilon(); }
                else if (it.type == 12) { double f = 0; in >> f; g = f; eps = std::numeric_limits<double>::epsilon(); }
                else { in >> g; eps = std::numeric_limits<long double>::epsilon(); }
                if (!it.bad) PBT_CHECK(std::fabs(g - static_cast<long double>(it.d)) <= eps * (it.wide ? 800 : 40) * std::fabs(static_cast<long double>(it.d)), "value " << idx << " came back as " << static_cast<double>(g) << " should be " << it.d);
            }
        } catch (const cmp::parse_failed&) { refused = true; }
        PBT_CHECK(refused == it.bad, "value " << idx << (refused ? " was refused" : ": a word that is no such number was accepted"));
        c.label(it.bad ? "refused" : "read back");
    }
    // nothing left but whitespace
    int v = 0;
    bool threw = false;
    try { in >> v; } catch (const cmp::parse_failed&) { threw = true; } catch (const cmp::read_past_end&) { threw = true; }
    PBT_CHECK(threw, "a number after the last one");
}
