#include <memory>
#include "res.hpp"
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
using namespace res;
const pbt::Info pbt_info{"R04",
    "up to 4 live container resources (owning ones are copied and moved, referring ones moved, by construction and by assignment) interleaved with "
    "random reads, writes, seeks and flushes on each, each against its own byte array; non-trivial: at least one copy or move followed by another step",
    1200000, 14400000};

namespace {
template <class R> struct Slot {
    std::unique_ptr<R> r;
    Model m;
    std::size_t cap = 0;
    bool usable = false; // not moved from
};
template <class R> constexpr bool reads = std::is_base_of_v<In, R>;
template <class R> constexpr bool writes = std::is_base_of_v<Out, R>;

template <class R, bool Copies, class Make> void history(pbt::Tape& t, pbt::Case& c, Make make) {
    Slot<R> s[4];
    unsigned steps = 2 + static_cast<unsigned>(t.length(c.thorough ? 60 : 30));
    bool transferred = false;
    auto fresh = [&](int i) {
        s[i].cap = gen_capacity(t);
        s[i].m = Model{};
        s[i].r = make(s[i].m, s[i].cap, t, i);
        s[i].usable = true;
        c.note([&](auto& os) { os << "slot " << i << ": " << s[i].m.data.size() << " bytes, buffer " << s[i].cap; });
    };
    auto check_content = [&](int i) {
        if constexpr (writes<R>) { s[i].r->flush(); s[i].m.flush(); }
        PBT_CHECK(bytes_of(std::as_const(*s[i].r).grab_content()) == s[i].m.data, "slot " << i << " holds "
                  << show(bytes_of(std::as_const(*s[i].r).grab_content())) << " should be " << show(s[i].m.data));
    };
    fresh(0);
    for (unsigned n = 0; n < steps; ++n) {
        int i = static_cast<int>(t.draw(4));
        if (!s[i].usable) i = 0;
        if (!s[i].usable) { fresh(0); i = 0; }
        switch (t.weighted({10, Copies ? 2u : 0u, Copies ? 2u : 0u, 2, 2, 1})) {
            case 0: {
                Driver d;
                if constexpr (reads<R>) d.in = s[i].r.get();
                if constexpr (writes<R>) d.out = s[i].r.get();
                d.cap = s[i].cap;
                d.max_size = t.chance(1, 20) ? 12000 : 600;
                c.note([&](auto& os) { os << "slot " << i; });
                d.step(s[i].m, t, c);
                c.nontrivial(transferred);
                break;
            }
            case 1: if constexpr (Copies) {
                int j = static_cast<int>(t.draw(4));
                if (j == i) break;
                c.note([&](auto& os) { os << "copy-construct " << j << " from " << i; });
                c.label("copy construction");
                s[j].r = std::make_unique<R>(std::as_const(*s[i].r));
                s[j].m = s[i].m; s[j].cap = s[i].cap; s[j].usable = true; transferred = true;
                break;
            } break;
            case 2: if constexpr (Copies) {
                int j = static_cast<int>(t.draw(4));
                if (!s[j].r) fresh(j);
                c.note([&](auto& os) { os << "copy-assign " << j << " from " << i; });
                c.label("copy assignment");
                *s[j].r = std::as_const(*s[i].r);
                s[j].m = s[i].m; s[j].cap = s[i].cap; s[j].usable = true; transferred = true;
                break;
            } break;
            case 3: {
                int j = static_cast<int>(t.draw(4));
                if (j == i) break;
                c.note([&](auto& os) { os << "move-construct " << j << " from " << i; });
                c.label("move construction");
                s[j].r = std::make_unique<R>(std::move(*s[i].r));
                s[j].m = s[i].m; s[j].cap = s[i].cap; s[j].usable = true; s[i].usable = false; transferred = true;
                if (t.flip()) s[i].r.reset();
                break;
            }
            case 4: {
                int j = static_cast<int>(t.draw(4));
                if (j == i) break;
                if (!s[j].r) fresh(j);
                c.note([&](auto& os) { os << "move-assign " << j << " from " << i; });
                c.label("move assignment");
                *s[j].r = std::move(*s[i].r);
                s[j].m = s[i].m; s[j].cap = s[i].cap; s[j].usable = true; s[i].usable = false; transferred = true;
                if (t.flip()) s[i].r.reset();
                break;
            }
            default: check_content(i);
        }
        // what happened to one leaves the others as they are
        for (int k = 0; k < 4; ++k) if (s[k].usable) {
            std::int64_t p = s[k].r->get_position();
            PBT_CHECK(p == s[k].m.pos, "slot " << k << " at " << p << " should be at " << s[k].m.pos);
        }
    }
    for (int i = 0; i < 4; ++i) if (s[i].usable) {
        check_content(i);
        if constexpr (reads<R>) {
            Driver d;
            d.in = s[i].r.get();
            s[i].r->set_position(0, cmp::position_reference::begin);
            s[i].m.seek(0, 0);
            d.read(s[i].m, s[i].m.data.size() + 3, c);
        }
    }
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int kind = static_cast<int>(t.draw(6));
    static const int kinds_of[] = {0, 1, 3, 7};
    int k = kinds_of[t.draw(4)];
    with_container(k, [&](auto zero) {
        using C = decltype(zero);
        if constexpr (std::is_same_v<C, std::vector<std::byte>> || std::is_same_v<C, std::string> || std::is_same_v<C, std::u16string> || std::is_same_v<C, std::vector<Triple>>) {
            static const char* kinds[] = {"opaque input", "opaque output", "opaque io", "transparent input", "transparent output", "transparent io"};
            c.label(kinds[kind]);
            c.note([&](auto& os) { os << kinds[kind] << " " << container_name(k); });
            auto init = [&](Model& m, pbt::Tape& tt) {
                m.unit = sizeof(typename C::value_type);
                m.data = gen_bytes(tt, tt.length(60) * m.unit);
                return container_of<C>(m.data);
            };
            std::vector<std::unique_ptr<C>> keep; // the containers of referring resources
            auto owning = [&]<class R>(R*) { return [&](Model& m, std::size_t cap, pbt::Tape& tt, int) { return std::make_unique<R>(init(m, tt), cap); }; };
            auto referring = [&]<class R>(R*) { return [&](Model& m, std::size_t cap, pbt::Tape& tt, int) {
                keep.push_back(std::make_unique<C>(init(m, tt)));
                return std::make_unique<R>(*keep.back(), cap); }; };
            using OI = cmp::opaque_container_input_resource<C>;
            using OO = cmp::opaque_container_output_resource<C>;
            using OX = cmp::opaque_container_io_resource<C>;
            using TI = cmp::transparent_container_input_resource<C>;
            using TO = cmp::transparent_container_output_resource<C>;
            using TX = cmp::transparent_container_io_resource<C>;
            switch (kind) {
                case 0: history<OI, true>(t, c, owning(static_cast<OI*>(nullptr))); break;
                case 1: history<OO, true>(t, c, owning(static_cast<OO*>(nullptr))); break;
                case 2: history<OX, true>(t, c, owning(static_cast<OX*>(nullptr))); break;
                case 3: history<TI, false>(t, c, referring(static_cast<TI*>(nullptr))); break;
                case 4: history<TO, false>(t, c, referring(static_cast<TO*>(nullptr))); break;
                default: history<TX, false>(t, c, referring(static_cast<TX*>(nullptr))); break;
            }
        }
    });
}
