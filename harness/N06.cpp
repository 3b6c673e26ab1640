#include "num.hpp"
using namespace num;
const pbt::Info pbt_info{"N06",
    "histories of up to 30 steps over up to 5 integer, floating-point and boolean formats: made by default, with settings (also radixes outside 2 to 36), changed one setting at a time, copied, moved "
    "and assigned, every setting and a formatted value of every format compared with a model after each step; non-trivial: at least 3 formats and 6 steps",
    1300000, 15600000};

namespace {
struct Model { unsigned radix = 10; int sign = 0, sep = 0, point = 0, limit = 0; unsigned places = 0; std::u8string yes = u8"1", no = u8"0"; };
cmp::sign_status sgn(int i) { return i ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative; }
cmp::radix_character pnt(int i) { return i ? cmp::radix_character::comma : cmp::radix_character::period; }
cmp::radix_place_limit lim(int i) { return i == 0 ? cmp::radix_place_limit::none : i == 1 ? cmp::radix_place_limit::exactly_equal : cmp::radix_place_limit::up_to; }
struct Slot {
    int kind; // 0 integer, 1 floating-point, 2 boolean
    Model m;
    std::unique_ptr<cmp::integer_format> i;
    std::unique_ptr<cmp::floating_point_format> f;
    std::unique_ptr<cmp::bool_format> b;
};
template <class T> std::unique_ptr<T> derive(pbt::Tape& t, T& from, bool move) {
    switch (t.draw(3)) {
        case 0: return move ? std::make_unique<T>(std::move(from)) : std::make_unique<T>(from);
        case 1: { auto r = std::make_unique<T>(); if (move) *r = std::move(from); else *r = from; return r; }
        default: { // over a format with settings of its own
            std::unique_ptr<T> r;
            if constexpr (std::is_same_v<T, cmp::integer_format>) r = std::make_unique<T>(7, sgn(1), csep(2));
            else if constexpr (std::is_same_v<T, cmp::floating_point_format>) r = std::make_unique<T>(7, sgn(1), csep(2), pnt(1), lim(2), 9);
            else r = std::make_unique<T>(u8"a word longer than the others by far, kept elsewhere", u8"b");
            if (move) *r = std::move(from); else *r = from;
            return r;
        }
    }
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    std::vector<Slot> s;
    auto word = [&] { return uni::encode<std::u8string>(uni::gen_scalars(t, t.chance(1, 6) ? 40 : 6, false, true)); };
    auto rdx = [&]() -> unsigned { return static_cast<unsigned>(t.range(2, 36)); };
    auto bad = [&]() -> unsigned { static const unsigned x[] = {0, 1, 37, 38, 64, 100, 256, 258, 65546, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFFFEu, 0x1000000Au}; return t.flip() ? t.pick(x) : static_cast<unsigned>(37 + t.draw(5000)); };
    auto cnt = [&]() -> unsigned { return t.chance(1, 4) ? static_cast<unsigned>(t.bits(32)) : static_cast<unsigned>(t.draw(20)); };
    unsigned steps = static_cast<unsigned>(t.length(30));
    std::size_t most = 0;
    auto add = [&] {
        Slot x;
        x.kind = static_cast<int>(t.draw(3));
        bool dflt = t.chance(1, 3);
        Model& m = x.m;
        if (!dflt) {
            m.radix = rdx(); m.sign = t.draw(2); m.sep = static_cast<int>(t.draw(3)); m.point = t.draw(2); m.limit = static_cast<int>(t.draw(3)); m.places = cnt();
            m.yes = word(); m.no = word();
        }
        c.note([&](auto& os) { os << "new " << s.size() << " kind " << x.kind << (dflt ? " default" : ""); if (!dflt && x.kind < 2) os << " radix " << m.radix << " sign " << m.sign << " sep " << m.sep << " point " << m.point << " limit " << m.limit << " places " << m.places; });
        if (x.kind == 0) x.i = dflt ? std::make_unique<cmp::integer_format>() : std::make_unique<cmp::integer_format>(m.radix, sgn(m.sign), csep(m.sep));
        else if (x.kind == 1) x.f = dflt ? std::make_unique<cmp::floating_point_format>() : std::make_unique<cmp::floating_point_format>(m.radix, sgn(m.sign), csep(m.sep), pnt(m.point), lim(m.limit), m.places);
        else x.b = dflt ? std::make_unique<cmp::bool_format>() : std::make_unique<cmp::bool_format>(m.yes, m.no);
        s.push_back(std::move(x));
    };
    add();
    for (unsigned k = 0; k <= steps; ++k) {
        most = std::max(most, s.size());
        if (k) {
            std::size_t j = t.draw(s.size());
            Slot& x = s[j];
            switch (t.weighted({6, 2, 2, 1, 1})) {
                case 0: {
                    int what = static_cast<int>(t.draw(x.kind == 0 ? 3 : x.kind == 1 ? 6 : 2));
                    c.note([&](auto& os) { os << "set " << what << " of " << j; });
                    auto both = [&](auto&& f) { if (x.i) f(*x.i); else f(*x.f); };
                    if (x.kind == 2) { if (what) { x.m.no = word(); x.b->set_false_string(x.m.no); } else { x.m.yes = word(); x.b->set_true_string(x.m.yes); } }
                    else if (what == 0) { x.m.radix = rdx(); both([&](auto& f) { f.set_radix(x.m.radix); }); }
                    else if (what == 1) { x.m.sign = t.draw(2); both([&](auto& f) { f.set_sign_status(sgn(x.m.sign)); }); }
                    else if (what == 2) { x.m.sep = static_cast<int>(t.draw(3)); both([&](auto& f) { f.set_thousands_separator(csep(x.m.sep)); }); }
                    else if (what == 3) { x.m.point = t.draw(2); x.f->set_radix_character(pnt(x.m.point)); }
                    else if (what == 4) { x.m.limit = static_cast<int>(t.draw(3)); x.f->set_radix_place_limit(lim(x.m.limit)); }
                    else { x.m.places = cnt(); x.f->set_radix_place_count(x.m.places); }
                    break;
                }
                case 1: if (s.size() < 5) add(); break;
                case 2: {
                    bool move = t.flip();
                    c.note([&](auto& os) { os << (move ? "move " : "copy ") << j; });
                    Slot y{x.kind, x.m, nullptr, nullptr, nullptr};
                    if (x.i) y.i = derive(t, *x.i, move);
                    if (x.f) y.f = derive(t, *x.f, move);
                    if (x.b) y.b = derive(t, *x.b, move);
                    if (move || s.size() >= 5) s[j] = std::move(y); else s.push_back(std::move(y));
                    break;
                }
                case 3: {
                    unsigned r = bad();
                    c.note([&](auto& os) { os << "radix " << r; });
                    auto refused = [&](auto&& f) {
                        bool thrown = false;
                        try { f(); } catch (const cmp::invalid_radix& e) { thrown = true; PBT_CHECK(e.what() && *e.what(), "no message"); }
                        PBT_CHECK(thrown, "radix " << r << " accepted");
                    };
                    if (t.flip()) refused([&] { cmp::integer_format f{r, sgn(t.draw(2)), csep(static_cast<int>(t.draw(3)))}; });
                    else refused([&] { cmp::floating_point_format f{r, sgn(t.draw(2)), csep(static_cast<int>(t.draw(3))), pnt(t.draw(2)), lim(static_cast<int>(t.draw(3))), cnt()}; });
                    break;
                }
                default: if (s.size() > 1) { c.note([&](auto& os) { os << "end of " << j; }); s.erase(s.begin() + static_cast<long>(j)); }
            }
        }
        for (std::size_t q = 0; q < s.size(); ++q) {
            const Slot& y = s[q];
            const Model& m = y.m;
            auto both = [&](const auto& f) {
                PBT_CHECK(f.get_radix() == m.radix, "radix of format " << q << " is " << f.get_radix() << ", should be " << m.radix);
                PBT_CHECK(f.get_sign_status() == sgn(m.sign), "sign status of format " << q);
                PBT_CHECK(f.get_thousands_separator() == csep(m.sep), "separator of format " << q);
            };
            if (y.i) {
                both(*y.i);
                Fmt f; f.radix = m.radix; f.plus = m.sign; f.sep = m.sep;
                auto got = cmp::format_integer<std::string>(1234567u, *y.i);
                PBT_CHECK(got == ref_format_int(1234567, f), "format " << q << " writes " << got);
            }
            if (y.f) {
                both(*y.f);
                PBT_CHECK(y.f->get_radix_character() == pnt(m.point), "radix character of format " << q);
                PBT_CHECK(y.f->get_radix_place_limit() == lim(m.limit), "radix place limit of format " << q);
                PBT_CHECK(y.f->get_radix_place_count() == m.places, "radix place count of format " << q << " is " << y.f->get_radix_place_count() << ", should be " << m.places);
            }
            if (y.b) {
                PBT_CHECK(y.b->get_true_string() == m.yes && y.b->get_false_string() == m.no, "words of format " << q);
                PBT_CHECK(cmp::format_bool<std::u8string>(true, *y.b) == m.yes && cmp::format_bool<std::u8string>(false, *y.b) == m.no, "format " << q << " writes other words");
            }
        }
    }
    c.nontrivial(most >= 3 && steps >= 6);
}
