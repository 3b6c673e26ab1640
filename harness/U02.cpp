#include "uni.hpp"
#include <cmp/unicode/algorithms.hpp>
using namespace uni;
const pbt::Info pbt_info{"U02",
    "random well-formed text in each encoding walked by a random sequence of iterator operations against an index into "
    "the scalar sequence; non-trivial: at least two scalars of which one takes more than one unit or a walk of at least 4 steps",
    1900000, 22800000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int e = static_cast<int>(t.weighted({5, 5, 2, 2, 2}));
    Scalars v = gen_scalars(t, 24, e == 4, false, true);
    std::size_t steps = t.length(24);
    with_encoding(e, [&](auto s0) {
        using S = decltype(s0);
        using C = typename S::value_type;
        S src = encode<S>(v);
        c.nontrivial(v.size() >= 2 && (src.size() != v.size() || steps >= 4));
        c.label(enc_name(e));
        c.note([&](auto& os) { os << enc_name(e) << " " << show(v); });
        Exact<C> ex{std::basic_string_view<C>(src)};
        cmp::by_code_point r{ex.view()};
        auto value = [](auto x) { return static_cast<char32_t>(static_cast<std::make_unsigned_t<decltype(x)>>(x)); };
        auto val32 = [&](const auto& it) -> char32_t {
            auto x = *it;
            if constexpr (sizeof x == 1) return static_cast<unsigned char>(x); else return static_cast<char32_t>(x);
        };
        (void)value;
        // whole passes
        {
            Scalars f;
            for (auto x : r) { f.push_back(static_cast<char32_t>(x)); PBT_CHECK(f.size() <= v.size(), "forward pass too long"); }
            PBT_CHECK(f == v, "forward pass gives " << show(f));
            Scalars b;
            for (auto i = r.crbegin(); i != r.crend(); ++i) { b.push_back(static_cast<char32_t>(*i)); PBT_CHECK(b.size() <= v.size(), "backward pass too long"); }
            std::reverse(b.begin(), b.end());
            PBT_CHECK(b == v, "backward pass gives (reversed) " << show(b));
        }
        using I = decltype(r.begin());
        long n = static_cast<long>(v.size()), pos = 0;
        I it = t.flip() ? (pos = n, t.flip() ? r.end() : r.cend()) : (t.flip() ? r.begin() : r.cbegin());
        for (std::size_t k = 0; k < steps; ++k) {
            long room = n - pos;
            unsigned op = static_cast<unsigned>(t.draw(12));
            long d = 0;
            switch (op) {
                case 0: if (room > 0) { I& q = ++it; ++pos; PBT_CHECK(q == it); } break;
                case 1: if (room > 0) { I old = it++; PBT_CHECK(val32(old) == v[pos], "postfix ++"); ++pos; } break;
                case 2: if (pos > 0) { I& q = --it; --pos; PBT_CHECK(q == it); } break;
                case 3: if (pos > 0) { I cp = it; I old = it--; PBT_CHECK(old == cp, "postfix --"); --pos; } break;
                case 4: d = t.range(0, room); it += d; pos += d; break;
                case 5: d = t.range(0, pos); it -= d; pos -= d; break;
                case 6: d = t.range(0, room); { I j = it + d; PBT_CHECK(d != 0 || j == it); it = j; } pos += d; break;
                case 7: d = t.range(0, room); { I j = d + it; it = j; } pos += d; break;
                case 8: d = t.range(0, pos); { I j = it - d; it = j; } pos -= d; break;
                case 9: d = t.range(0, pos); { I j = d - it; it = j; } pos -= d; break;
                case 10: // leaving the text
                    if (room == 0) {
                        bool threw = false;
                        try { (void)static_cast<char32_t>(*it); } catch (const cmp::iterated_past_end& x) { threw = x.what() && *x.what(); }
                        PBT_CHECK(threw, "the end was read");
                    }
                    if (sizeof(C) == 4 || e == 4) break; // not checked by the library
                    d = t.range(1, 5);
                    if (t.flip()) {
                        bool threw = false;
                        try { if (room == 0 && t.flip()) ++it; else it += room + d; } catch (const cmp::iterated_past_end&) { threw = true; }
                        PBT_CHECK(threw, "a step past the end was taken");
                        pos = n;
                    } else {
                        if (pos == 0 && t.flip()) --it; else it -= pos + d;
                        pos = 0;
                    }
                    break;
                default: { I j = it; it = j; I m = std::move(j); it = std::move(m); }
            }
            c.note([&](auto& os) { os << "op" << op << "(" << d << ")->" << pos; });
            if (pos < n) {
                char32_t x = val32(it);
                PBT_CHECK(x == v[pos], "at " << pos << " got " << std::hex << static_cast<unsigned>(x));
            }
            PBT_CHECK((it == r.cend()) == (pos == n), "end comparison at " << pos);
            PBT_CHECK((it != r.cend()) == (pos != n), "end != at " << pos);
            PBT_CHECK((it == r.cbegin()) == (pos == 0), "begin comparison at " << pos);
            if (n > 0) {
                long other = t.range(0, n);
                I j = r.begin();
                j += other;
                PBT_CHECK((it == j) == (pos == other) && (it != j) == (pos != other), "comparison of " << pos << " and " << other);
            }
        }
        PBT_CHECK(cmp::validate_string(src) == cmp::by_code_point{src}.cend(), "well-formed text judged malformed");
        // a default constructed range is usable once assigned
        cmp::by_code_point<C> r2;
        r2 = r;
        PBT_CHECK(r2.begin() == r.begin() && r2.end() == r.end());
    });
}
