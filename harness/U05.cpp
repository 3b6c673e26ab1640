#include "uni.hpp"
#include <cmp/unicode/algorithms.hpp>
using namespace uni;
const pbt::Info pbt_info{"U05",
    "random content, and an affix cut from it, altered, extended or unrelated, in two independent encodings and forms; "
    "non-trivial: both not empty",
    2400000, 28800000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int e1 = static_cast<int>(t.weighted({4, 4, 3, 2, 2}));
    int e2 = static_cast<int>(t.weighted({4, 4, 3, 2, 2}));
    int fo = static_cast<int>(t.draw(3));
    bool nn = fo == 2;
    Scalars v = gen_scalars(t, 16, e1 == 4 || e2 == 4, nn, true);
    bool small = t.chance(1, 3);
    if (small) for (auto& x : v) x = 'a' + x % 2;
    Scalars a;
    unsigned kind = static_cast<unsigned>(t.draw(6));
    std::size_t cut = t.draw(v.size() + 1);
    auto one = [&]() -> char32_t { char32_t x = e1 == 4 || e2 == 4 ? gen_ascii(t) : gen_scalar(t); return nn && x == 0 ? 'b' : x; };
    switch (kind) {
        case 0: a.assign(v.begin(), v.begin() + static_cast<long>(cut)); break;
        case 1: a.assign(v.begin() + static_cast<long>(cut), v.end()); break;
        case 2: a.assign(v.begin(), v.begin() + static_cast<long>(cut)); if (!a.empty()) a[t.draw(a.size())] = one(); break;
        case 3: a.assign(v.begin() + static_cast<long>(cut), v.end()); if (!a.empty()) a[t.draw(a.size())] = one(); break;
        case 4: a = v; if (t.flip()) a.push_back(one()); else a.insert(a.begin(), one()); break;
        default: a = gen_scalars(t, 4, e1 == 4 || e2 == 4, nn); if (small) for (auto& x : a) x = 'a' + x % 2;
    }
    bool want_s = a.size() <= v.size() && std::equal(a.begin(), a.end(), v.begin());
    bool want_e = a.size() <= v.size() && std::equal(a.rbegin(), a.rend(), v.rbegin());
    c.nontrivial(!a.empty() && !v.empty());
    c.label_if(want_s, "starts"); c.label_if(want_e, "ends"); c.label_if(!want_s && !want_e, "neither");
    c.note([&](auto& os) { os << (fo == 0 ? "strings " : fo == 1 ? "views " : "pointers ") << enc_name(e1) << " " << show(v) << " vs " << enc_name(e2) << " " << show(a); });
    with_encoding(e1, [&](auto s1) {
        with_encoding(e2, [&](auto s2) {
            auto content = encode<decltype(s1)>(v);
            auto affix = encode<decltype(s2)>(a);
            auto run = [&](auto& x, auto& y) {
                PBT_CHECK(cmp::starts_with(x, y) == want_s, "starts_with should be " << want_s);
                PBT_CHECK(cmp::ends_with(x, y) == want_e, "ends_with should be " << want_e);
            };
            using C1 = typename decltype(s1)::value_type;
            using C2 = typename decltype(s2)::value_type;
            std::basic_string_view<C1> cv(content);
            std::basic_string_view<C2> av(affix);
            switch (fo) {
                case 0: run(content, affix); break;
                case 1: { Exact<C1> x{cv}; Exact<C2> y{av}; auto xv = x.view(); auto yv = y.view(); run(xv, yv); break; }
                default: { Exact<C1> x{cv, true}; Exact<C2> y{av, true}; const C1* xp = x.ptr(); const C2* yp = y.ptr(); run(xp, yp); }
            }
        });
    });
}
