#include <memory>
#include "res.hpp"
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
using namespace res;
const pbt::Info pbt_info{"R02",
    "a container of one of 8 element types, an owning or referring output or input/output resource with a random buffer capacity, then up to 40 "
    "random writes, reads, seeks (also past the end) and flushes against a byte array with a position, sometimes with an input resource tied to it; "
    "non-trivial: at least 4 steps",
    1500000, 18000000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int k = static_cast<int>(t.draw(container_count));
    int kind = static_cast<int>(t.draw(4));
    std::size_t cap = gen_capacity(t);
    std::size_t elems = t.length(t.chance(1, 20) ? 3000 : 90);
    unsigned steps = static_cast<unsigned>(t.length(c.thorough ? 80 : 40));
    bool tied = t.chance(1, 4);
    std::size_t tie_cap = tied ? gen_capacity(t) : 0;
    with_container(k, [&](auto zero) {
        using C = decltype(zero);
        Model m;
        m.unit = sizeof(typename C::value_type);
        m.data = gen_bytes(t, elems * m.unit);
        C content = container_of<C>(m.data);
        c.nontrivial(steps >= 4);
        static const char* kinds[] = {"opaque output", "transparent output", "opaque io", "transparent io"};
        c.label(kinds[kind]); c.label(cap == 0 ? "unbuffered" : "buffered"); c.label_if(tied, "tied");
        c.note([&](auto& os) { os << kinds[kind] << " " << container_name(k) << " of " << m.data.size() << " bytes, buffer " << cap; });
        auto run = [&](In* in, Out& out, const C& now) {
            Driver d;
            d.in = in;
            d.out = &out;
            d.cap = cap;
            d.observe(m, "construction");
            std::string src = "some text that is read while output is pending";
            cmp::transparent_container_input_resource<std::string> other{src, tie_cap};
            if (tied) other.tie(out);
            for (unsigned i = 0; i < steps; ++i) {
                d.step(m, t, c);
                if (tied && t.chance(1, 3)) {
                    std::byte b[4];
                    c.note([&](auto& os) { os << "read the tied input"; });
                    other.read(b, t.draw(4));
                    m.flush();
                    PBT_CHECK(bytes_of(now) == m.data, "after reading the tied input the container holds " << show(bytes_of(now)) << " should be " << show(m.data));
                }
                if (!m.pending && t.chance(1, 4))
                    PBT_CHECK(bytes_of(now) == m.data, "the container holds " << show(bytes_of(now)) << " should be " << show(m.data));
            }
            out.flush();
            m.flush();
            PBT_CHECK(bytes_of(now) == m.data, "at the end the container holds " << show(bytes_of(now)) << " should be " << show(m.data));
            d.observe(m, "flush");
            if (in) {
                c.note([&](auto& os) { os << "read all"; });
                in->set_position(0, cmp::position_reference::begin);
                m.seek(0, 0);
                d.read(m, m.data.size() + 5, c);
            }
        };
        switch (kind) {
            case 0: { if (elems == 0 && t.flip()) { cmp::opaque_container_output_resource<C> r{cap}; run(nullptr, r, r.grab_content()); }
                      else if (t.flip()) { cmp::opaque_container_output_resource<C> r{C(content), cap}; run(nullptr, r, r.grab_content()); }
                      else { cmp::opaque_container_output_resource<C> r{content, cap}; run(nullptr, r, r.grab_content()); PBT_CHECK(bytes_of(content) != m.data || content == r.grab_content()); } break; }
            case 1: { cmp::transparent_container_output_resource<C> r{content, cap}; run(nullptr, r, content); PBT_CHECK(&r.grab_content() == &content); break; }
            case 2: { if (elems == 0 && t.flip()) { cmp::opaque_container_io_resource<C> r{cap}; run(&r, r, r.grab_content()); }
                      else if (t.flip()) { cmp::opaque_container_io_resource<C> r{C(content), cap}; run(&r, r, r.grab_content()); }
                      else { const C before = content; cmp::opaque_container_io_resource<C> r{content, cap}; run(&r, r, r.grab_content()); PBT_CHECK(content == before, "the original changed"); } break; }
            default: { cmp::transparent_container_io_resource<C> r{content, cap}; run(&r, r, content); PBT_CHECK(&r.grab_content() == &content); break; }
        }
    });
}
