#include "fil.hpp"
using namespace res;
const pbt::Info pbt_info{"F01",
    "a file of random bytes opened for reading (or reading and writing) through the constructor or open(), with a random or the default buffer "
    "capacity, then up to 40 random reads and seeks against a byte array with a position; non-trivial: file not empty and at least 3 steps",
    380000, 4560000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    std::size_t cap = gen_capacity(t);
    int how = static_cast<int>(t.draw(3));
    int mode = t.flip() ? 2 : 0;
    Model m;
    m.data = gen_bytes(t, t.length(t.chance(1, 8) ? 6000 : 300));
    unsigned steps = static_cast<unsigned>(t.length(c.thorough ? 80 : 40));
    c.nontrivial(!m.data.empty() && steps >= 3);
    std::string p = c.scratch + "/a";
    fil::put_file(p, m.data);
    if (how != 0) cap = cmp::io_buffer::default_buffer_capacity;
    c.label(how == 0 ? "given capacity" : how == 1 ? "default capacity" : "open()"); c.label(cap ? "buffered" : "unbuffered");
    c.note([&](auto& os) { os << m.data.size() << " bytes, buffer " << cap << ", " << fil::mode_name(mode); });
    {
        std::unique_ptr<cmp::file> f;
        if (how == 0) f = std::make_unique<cmp::file>(p, fil::modes[mode], cmp::if_not_there::fail, cap);
        else if (how == 1) f = std::make_unique<cmp::file>(p, fil::modes[mode], cmp::if_not_there::fail);
        else { f = std::make_unique<cmp::file>(); PBT_CHECK(f->open(p, fil::modes[mode], cmp::if_not_there::fail)); }
        PBT_CHECK(f->is_open());
        Driver d;
        d.in = f.get();
        d.cap = cap;
        d.clamp = false;
        d.observe(m, "opening");
        for (unsigned i = 0; i < steps; ++i) d.step(m, t, c);
        if (t.flip()) f->close();
    }
    fil::check_file(p, m.data, "after reading");
}
