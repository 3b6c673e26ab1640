#ifdef __WINDOWS__
#include "win/winfake.hpp"
namespace fake = winfake;
using guint = std::uint32_t;
#elif defined(__MACH__)
#include "mac/macfake.hpp"
namespace fake = macfake;
using guint = std::uint32_t;
#else
#include "gtkfake.hpp"
namespace fake = gtkfake;
#endif
#include <map>
#include <set>
#include <cmp/desktop_gui/desktop_gui_application.hpp>
#include <cmp/desktop_gui/window.hpp>
static std::vector<std::uint64_t> preset(std::uint64_t i) { return {63, i}; }
#ifndef GUI_ID
#define GUI_ID "G01"
#endif
const pbt::Info pbt_info{GUI_ID,
    "key presses and releases (all key symbols up to 0xFFFF in a first sweep, then random ones near the known keys and over 32 bits, with random key codes and modifiers) delivered through the "
    "callbacks the library registered, to random windows of several, some of them moved; non-trivial: a key that has a name of its own",
    1200000, 14400000, 256, preset};

namespace {
struct Seen { int kind; cmp::key k; cmp::key_event_type type; cmp::event_type et; };
struct W : cmp::window {
    std::vector<Seen>* log;
    W(std::vector<Seen>* l) : cmp::window{100, 100, u8"w", cmp::window_mode::standard}, log(l) {}
    W(W&&) = default;
    void handle_key_down_event(cmp::key_event& ev) override { log->push_back({0, ev.get_key(), ev.get_key_event_type(), ev.get_event_type()}); }
    void handle_key_up_event(cmp::key_event& ev) override { log->push_back({1, ev.get_key(), ev.get_key_event_type(), ev.get_event_type()}); }
};
cmp::key expected(guint v) {
    auto at = [](cmp::key k, guint d) { return static_cast<cmp::key>(static_cast<int>(k) + static_cast<int>(d)); };
#ifdef __WINDOWS__
    if (v >= 0x70 && v <= 0x87) return at(cmp::key::f1, v - 0x70);
    if (v >= 0x30 && v <= 0x39) return at(cmp::key::number_0, v - 0x30);
    if (v >= 0x60 && v <= 0x69) return at(cmp::key::numpad_0, v - 0x60);
    if (v >= 0x41 && v <= 0x5A) return at(cmp::key::a, v - 0x41);
    return v == 0x20 ? cmp::key::space_bar : cmp::key::unknown;
#endif
#ifdef __MACH__
    // the virtual key codes of macOS (Carbon's Events.h); the keys of a Mac end at F20
    static const std::map<guint, cmp::key> codes = [&] {
        std::map<guint, cmp::key> r{{0x31, cmp::key::space_bar}};
        static const int f[] = {0x7A, 0x78, 0x63, 0x76, 0x60, 0x61, 0x62, 0x64, 0x65, 0x6D, 0x67, 0x6F, 0x69, 0x6B, 0x71, 0x6A, 0x40, 0x4F, 0x50, 0x5A};
        static const int digit[] = {0x1D, 0x12, 0x13, 0x14, 0x15, 0x17, 0x16, 0x1A, 0x1C, 0x19};
        static const int pad[] = {0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5B, 0x5C};
        static const int letter[] = {0x00, 0x0B, 0x08, 0x02, 0x0E, 0x03, 0x05, 0x04, 0x22, 0x26, 0x28, 0x25, 0x2E, 0x2D, 0x1F, 0x23, 0x0C, 0x0F, 0x01, 0x11, 0x20, 0x09, 0x0D, 0x07, 0x10, 0x06};
        for (guint i = 0; i < 20; ++i) r[static_cast<guint>(f[i])] = at(cmp::key::f1, i);
        for (guint i = 0; i < 10; ++i) r[static_cast<guint>(digit[i])] = at(cmp::key::number_0, i), r[static_cast<guint>(pad[i])] = at(cmp::key::numpad_0, i);
        for (guint i = 0; i < 26; ++i) r[static_cast<guint>(letter[i])] = at(cmp::key::a, i);
        return r;
    }();
    auto found = codes.find(v & 0xFFFF);
    return found == codes.end() ? cmp::key::unknown : found->second;
#endif
    if (v >= 0xFFBE && v <= 0xFFD5) return at(cmp::key::f1, v - 0xFFBE);
    if (v >= 0x30 && v <= 0x39) return at(cmp::key::number_0, v - 0x30);
    if (v >= 0xFFB0 && v <= 0xFFB9) return at(cmp::key::numpad_0, v - 0xFFB0);
    if (v >= 0x61 && v <= 0x7A) return at(cmp::key::a, v - 0x61);
    if (v >= 0x41 && v <= 0x5A) return at(cmp::key::a, v - 0x41);
    if (v == 0x20) return cmp::key::space_bar;
    return cmp::key::unknown;
}
std::u8string name_of(cmp::key k) {
    int i = static_cast<int>(k);
    auto num = [](int n) { std::string s = std::to_string(n); return std::u8string(s.begin(), s.end()); };
    if (k >= cmp::key::f1 && k <= cmp::key::f24) return u8"F" + num(i - static_cast<int>(cmp::key::f1) + 1);
    if (k >= cmp::key::number_0 && k <= cmp::key::number_9) return num(i - static_cast<int>(cmp::key::number_0));
    if (k >= cmp::key::numpad_0 && k <= cmp::key::numpad_9) return u8"Numpad " + num(i - static_cast<int>(cmp::key::numpad_0));
    if (k >= cmp::key::a && k <= cmp::key::z) return std::u8string(1, static_cast<char8_t>(u8'A' + i - static_cast<int>(cmp::key::a)));
    return k == cmp::key::space_bar ? u8"Space Bar" : u8"Unknown";
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    fake::st.reset();
    bool sweep = t.draw(64) == 63;
    guint block = sweep ? static_cast<guint>(t.draw(256)) << 8 : 0;
    static char a0[] = "p";
    static char* av[] = {a0, nullptr};
    cmp::desktop_gui_application app{1, av};
    std::vector<std::vector<Seen>> logs(4);
    std::vector<std::unique_ptr<W>> ws;
    std::size_t n = 1 + t.draw(4);
    for (std::size_t i = 0; i < n; ++i) ws.push_back(std::make_unique<W>(&logs[i]));
    for (std::size_t m = t.draw(3); m--;) { auto& p = ws[t.draw(n)]; auto q = std::make_unique<W>(std::move(*p)); p = std::move(q); c.label("moved"); }
    std::size_t count = sweep ? 256 : 1 + t.draw(6);
    bool known = false;
    for (std::size_t i = 0; i < count; ++i) {
        std::size_t to = t.draw(n);
        guint v;
        if (sweep) v = block + static_cast<guint>(i);
        else switch (t.draw(6)) {
            case 0: v = static_cast<guint>(t.draw(0x10000)); break;
            case 1: v = static_cast<guint>(0x20 + t.draw(0x60)); break;
            case 2: v = static_cast<guint>(0xFF80 + t.draw(0x80)); break;
            case 3: v = static_cast<guint>(t.bits(32)); break;
            case 4: { static const guint off[] = {0x100, 0x10000, 0x1000000, 0xFF00, 0x80000000}; v = static_cast<guint>(0x20 + t.draw(0x60)) + t.pick(off); break; }
            default: { static const guint base[] = {0x41, 0x61, 0x30, 0xFFB0, 0xFFBE, 0x20}; v = t.pick(base) + static_cast<guint>(t.draw(27)); }
        }
        bool down = t.flip();
        guint code = static_cast<guint>(t.bits(32));
        auto mod = static_cast<decltype(fake::no_modifier)>(t.draw(16));
        if (!sweep || i == 0) c.note([&](auto& os) { os << "window " << to << (down ? " press " : " release ") << std::hex << v; });
        for (auto& l : logs) l.clear();
        fake::key(fake::st.natives[to], down, v, code, mod);
        cmp::key want = expected(v);
        known |= want != cmp::key::unknown;
        for (std::size_t k = 0; k < n; ++k) if (k != to) PBT_CHECK(logs[k].empty(), "the event reached window " << k);
        PBT_CHECK(logs[to].size() == 1, logs[to].size() << " events for one key");
        Seen s = logs[to][0];
        PBT_CHECK(s.kind == (down ? 0 : 1) && s.type == (down ? cmp::key_event_type::key_down : cmp::key_event_type::key_up) && s.et == cmp::event_type::key_event, "kind of event");
        PBT_CHECK(s.k == want, "key " << static_cast<int>(s.k) << " should be " << static_cast<int>(want) << " for symbol " << std::hex << v);
        PBT_CHECK(cmp::to_u8string(s.k) == name_of(want), "name of key " << static_cast<int>(want));
    }
    static const bool names = [] {
        std::set<std::u8string> all;
        for (int k = 0; k <= static_cast<int>(cmp::key::unknown); ++k) all.insert(cmp::to_u8string(static_cast<cmp::key>(k)));
        return all.size() == static_cast<std::size_t>(cmp::key::unknown) + 1;
    }();
    PBT_CHECK(names, "two keys have the same name");
    PBT_CHECK(fake::st.complaint.empty(), fake::st.complaint);
    c.nontrivial(known);
    for (auto& w : fake::st.natives) fake::present(w);
    for (auto& w : fake::st.natives) fake::close(w);
}
