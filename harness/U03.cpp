#include "uni.hpp"
#include <cmp/unicode/algorithms.hpp>
using namespace uni;
const pbt::Info pbt_info{"U03",
    "random code unit sequences made of well-formed sequences, truncations, overlong forms, stray and mutated units; "
    "non-trivial: the text is ill-formed and has at least one well-formed scalar before or units after the fault",
    350000, 8000000};

template <class C> void gen_piece(pbt::Tape& t, std::basic_string<C>& s) {
    using S = std::basic_string<C>;
    S p = encode<S>({gen_scalar(t)});
    unsigned k = static_cast<unsigned>(t.weighted({8, 2, 2, 2, 2, 2}));
    switch (k) {
        case 0: break;
        case 1: p.resize(p.size() - 1); break; // truncated
        case 2: { // one unit changed
            std::size_t i = t.draw(p.size());
            if constexpr (sizeof(C) == 1) p[i] = static_cast<C>(t.draw(256));
            else if constexpr (sizeof(C) == 2) p[i] = static_cast<C>(t.flip() ? 0xD800 + t.draw(0x800) : t.draw(0x10000));
            else p[i] = static_cast<C>(t.flip() ? 0xD800 + t.draw(0x800) : t.draw(0x100000000ull));
            break;
        }
        case 3: // special form
            if constexpr (sizeof(C) == 1) {
                // an n-byte encoding of a value that is wrong for n
                unsigned n = 2 + static_cast<unsigned>(t.draw(3));
                std::uint32_t max = n == 2 ? 0x7FF : n == 3 ? 0xFFFF : 0x1FFFFF;
                std::uint32_t bad = t.flip() ? static_cast<std::uint32_t>(t.draw(n == 2 ? 0x80 : n == 3 ? 0x800 : 0x10000))
                                  : n == 3 ? 0xD800 + static_cast<std::uint32_t>(t.draw(0x800))
                                  : n == 4 ? 0x110000 + static_cast<std::uint32_t>(t.draw(0xF0000)) : static_cast<std::uint32_t>(t.draw(0x80));
                bad &= max;
                p.clear();
                static const unsigned lead[] = {0, 0, 0xC0, 0xE0, 0xF0};
                for (unsigned i = 0; i < n; ++i) {
                    unsigned sh = 6 * (n - 1 - i);
                    p.push_back(static_cast<C>(i == 0 ? lead[n] | (bad >> sh) : 0x80 | ((bad >> sh) & 63)));
                }
            } else if constexpr (sizeof(C) == 2) {
                p.clear();
                p.push_back(static_cast<C>(0xDC00 + t.draw(0x400)));
                if (t.flip()) p.push_back(static_cast<C>(0xD800 + t.draw(0x400)));
            } else {
                static const std::uint32_t e[] = {0xD800, 0xDFFF, 0xDC00, 0xDBFF, 0x110000, 0x10FFFF + 2, 0xFFFFFFFF, 0x80000000, 0x1D800, 0x200041, 0x01000041};
                p.assign(1, static_cast<C>(t.pick(e)));
            }
            break;
        case 4: // a lone unit
            p.assign(1, sizeof(C) == 1 ? static_cast<C>(0x80 + t.draw(0x80)) : sizeof(C) == 2 ? static_cast<C>(0xD800 + t.draw(0x800)) : static_cast<C>(0xD800 + t.draw(0x800)));
            break;
        default: p.insert(p.begin() + static_cast<long>(t.draw(p.size() + 1)), sizeof(C) == 1 ? static_cast<C>(0x80 + t.draw(0x80)) : static_cast<C>(0xD800 + t.draw(0x800)));
    }
    s += p;
}

template <class F> int outcome(F&& f) {
    try { f(); return 0; }
    catch (const cmp::invalid_unicode_encoding&) { return 1; }
    catch (const cmp::iterated_past_end&) { return 2; }
    catch (const cmp::invalid_code_point&) { return 3; }
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int e = static_cast<int>(t.weighted({6, 4, 2, 1}));
    with_encoding(e, [&](auto s0) {
        using S = decltype(s0);
        using C = typename S::value_type;
        if constexpr (!std::is_same_v<C, char>) {
            S s;
            if (t.chance(1, 150)) { // far into a long text
                Scalars v = gen_scalars(t, 100, false, false, true);
                if (t.flip()) v.resize(t.draw(2) ? 255 + t.draw(4) : 1022 + t.draw(5), U'\u20AC');
                s = encode<S>(v);
            }
            std::size_t pieces = t.length(8);
            for (std::size_t i = 0; i < pieces; ++i) gen_piece(t, s);
            Decoded d;
            if constexpr (std::is_same_v<C, char8_t>) d = decode8(s);
            else if constexpr (sizeof(C) == 2) d = decode16(std::basic_string_view<C>(s));
            else d = decode32(std::basic_string_view<C>(s));
            c.label(enc_name(e));
            c.label(d.ok ? "well-formed" : "ill-formed");
            c.nontrivial(!d.ok && s.size() >= 2);
            c.note([&](auto& os) { os << enc_name(e) << " " << show(s) << (d.ok ? " ok" : " bad") << " after " << d.scalars.size(); });
            Exact<C> ex{std::basic_string_view<C>(s)};
            auto view = ex.view();
            cmp::by_code_point r{view};
            std::size_t k = d.scalars.size();
            // forward: exactly the well-formed prefix, then an error
            {
                auto it = r.begin();
                for (std::size_t i = 0; i < k; ++i) {
                    PBT_CHECK(it != r.end(), "ended early at " << i);
                    char32_t x = static_cast<char32_t>(*it);
                    PBT_CHECK(x == d.scalars[i], "scalar " << i << " is " << std::hex << static_cast<unsigned>(x));
                    ++it;
                }
                if (d.ok) {
                    PBT_CHECK(it == r.end(), "not at the end");
                } else {
                    PBT_CHECK(it != r.end(), "at the end before the fault");
                    if constexpr (sizeof(C) < 4) {
                        int o = outcome([&] { char32_t x = static_cast<char32_t>(*it); (void)x; });
                        PBT_CHECK(o != 0, "decoded an ill-formed sequence");
                        o = outcome([&] { auto j = it; ++j; });
                        PBT_CHECK(o != 0, "stepped over an ill-formed sequence");
                        if (k) {
                            auto j = r.begin();
                            o = outcome([&] { j += static_cast<std::ptrdiff_t>(k + 1); });
                            PBT_CHECK(o != 0, "jumped over an ill-formed sequence");
                        }
                    }
                    // moving on from the fault ends, inside the text
                    int o = outcome([&] {
                        auto j = it;
                        for (std::size_t q = 0; q <= s.size() && j != r.end(); ++q) ++j;
                        PBT_CHECK(j == r.end(), "does not reach the end");
                    });
                    (void)o;
                }
                cmp::by_code_point rs{s};
                auto stop = cmp::validate_string(s);
                PBT_CHECK((stop == rs.end()) == d.ok, "validity misjudged");
                auto want = rs.begin();
                for (std::size_t i = 0; i < k; ++i) ++want;
                PBT_CHECK(stop == want, "fault located elsewhere");
            }
            // conversions refuse, or give the text
            {
                std::u32string got;
                int o = outcome([&] { got = cmp::to_u32string(view); });
                PBT_CHECK((o == 0) == d.ok, "to_u32string outcome " << o);
                if (d.ok) PBT_CHECK(Scalars(got.begin(), got.end()) == d.scalars, "wrong text");
                std::u8string got8;
                o = outcome([&] { got8 = cmp::to_u8string(view); });
                PBT_CHECK((o == 0) == d.ok, "to_u8string outcome " << o);
                if (d.ok) PBT_CHECK(got8 == encode<std::u8string>(d.scalars), "wrong text");
                std::u16string got16;
                o = outcome([&] { got16 = cmp::to_u16string(s); });
                PBT_CHECK((o == 0) == d.ok, "to_u16string outcome " << o);
                if (d.ok) PBT_CHECK(got16 == encode<std::u16string>(d.scalars), "wrong text");
            }
            // backward: stays inside, ends, and never yields a non-scalar
            {
                auto it = r.end();
                std::size_t steps = 0;
                while (it != r.begin()) {
                    --it;
                    PBT_CHECK(++steps <= s.size(), "backward pass does not end");
                    if constexpr (sizeof(C) < 4) {
                        char32_t x = 0;
                        int o = outcome([&] { x = static_cast<char32_t>(*it); });
                        if (o == 0) PBT_CHECK(is_scalar(x), "yields " << std::hex << static_cast<unsigned>(x));
                    }
                }
                Scalars b;
                int o = outcome([&] {
                    std::size_t q = 0;
                    for (auto i = r.crbegin(); i != r.crend(); ++i) { PBT_CHECK(++q <= s.size(), "reverse pass does not end"); b.push_back(static_cast<char32_t>(*i)); }
                });
                if (d.ok) {
                    std::reverse(b.begin(), b.end());
                    PBT_CHECK(o == 0 && b == d.scalars, "reverse pass of well-formed text");
                } else if constexpr (sizeof(C) < 4) {
                    PBT_CHECK(o != 0 || true);
                }
            }
            // comparisons end, inside the text, with a verdict or an error
            {
                Exact<C> ex2{std::basic_string_view<C>(s).substr(t.draw(s.size() + 1))};
                auto v2 = ex2.view();
                bool a = false, b = false;
                int o1 = outcome([&] { a = cmp::starts_with(view, v2); });
                int o2 = outcome([&] { b = cmp::ends_with(view, v2); });
                if (v2.empty()) PBT_CHECK(o1 == 0 && a && o2 == 0 && b, "empty affix");
            }
        }
    });
}
