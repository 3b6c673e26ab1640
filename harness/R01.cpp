#include <memory>
#include "res.hpp"
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
using namespace res;
const pbt::Info pbt_info{"R01",
    "a container of one of 8 element types with random bytes, an owning or referring input (or input/output) resource with a random buffer "
    "capacity, then up to 40 random reads and seeks against a byte array with a position; non-trivial: content not empty and at least 3 steps",
    2800000, 33600000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    int k = static_cast<int>(t.draw(container_count));
    int kind = static_cast<int>(t.draw(6));
    std::size_t cap = gen_capacity(t);
    bool dflt_cap = cap == 0 && t.flip();
    std::size_t elems = t.length(cap > 500 || t.chance(1, 20) ? 3000 : 90);
    unsigned steps = static_cast<unsigned>(t.length(c.thorough ? 80 : 40));
    with_container(k, [&](auto zero) {
        using C = decltype(zero);
        Model m;
        m.unit = sizeof(typename C::value_type);
        m.data = gen_bytes(t, elems * m.unit);
        C content = container_of<C>(m.data);
        c.nontrivial(elems > 0 && steps >= 3);
        static const char* kinds[] = {"opaque input", "opaque input (moved content)", "opaque io", "transparent input", "transparent input (const)", "transparent io"};
        c.label(kinds[kind]); c.label(cap == 0 ? "unbuffered" : "buffered");
        c.note([&](auto& os) { os << kinds[kind] << " " << container_name(k) << " of " << m.data.size() << " bytes, buffer " << cap; });
        auto run = [&](In& r) {
            Driver d;
            d.in = &r;
            d.cap = cap;
            d.observe(m, "construction");
            for (unsigned i = 0; i < steps; ++i) d.step(m, t, c);
        };
        const C before = content;
        switch (kind) {
            case 0: { if (dflt_cap) { cmp::opaque_container_input_resource<C> r{content}; run(r); PBT_CHECK(r.grab_content() == before); }
                      else { cmp::opaque_container_input_resource<C> r{content, cap}; run(r); PBT_CHECK(r.grab_content() == before, "content changed by reading"); } break; }
            case 1: { cmp::opaque_container_input_resource<C> r{C(content), cap}; run(r); PBT_CHECK(r.grab_content() == before, "content changed by reading"); break; }
            case 2: { cmp::opaque_container_io_resource<C> r{content, cap}; run(r); PBT_CHECK(r.grab_content() == before, "content changed by reading"); break; }
            case 3: { cmp::transparent_container_input_resource<C> r{content, cap}; run(r); PBT_CHECK(&r.grab_content() == &content, "another container"); break; }
            case 4: { const C& cc = content; cmp::transparent_container_input_resource<C> r{cc, cap}; run(r); break; }
            default: { cmp::transparent_container_io_resource<C> r{content, cap}; run(r); PBT_CHECK(&r.grab_content() == &content, "another container"); break; }
        }
        PBT_CHECK(content == before, "content changed by reading");
    });
}
