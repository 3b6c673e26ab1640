#include "fil.hpp"
using namespace res;
const pbt::Info pbt_info{"F02",
    "a file (absent, empty or with random bytes) opened for writing or for reading and writing with a random buffer capacity, then up to 40 random "
    "writes, reads, seeks (also past the end) and flushes, ended by flush, close or destruction, against a byte array; the disk content is compared at "
    "the end and whenever nothing is pending; non-trivial: at least 4 steps",
    460000, 5520000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    std::size_t cap = gen_capacity(t);
    bool dflt = t.chance(1, 5);
    if (dflt) cap = cmp::io_buffer::default_buffer_capacity;
    int mode = t.flip() ? 2 : 1;
    Model m;
    bool absent = t.chance(1, 4);
    if (!absent) m.data = gen_bytes(t, t.length(t.chance(1, 8) ? 9000 : 300));
    unsigned steps = static_cast<unsigned>(t.length(c.thorough ? 80 : 40));
    int ending = static_cast<int>(t.draw(3));
    std::string p = c.scratch + "/a";
    ::unlink(p.c_str());
    if (!absent) fil::put_file(p, m.data);
    c.nontrivial(steps >= 4);
    c.label(cap ? "buffered" : "unbuffered"); c.label(fil::mode_name(mode)); c.label_if(absent, "absent");
    c.note([&](auto& os) { os << (absent ? "absent " : "") << m.data.size() << " bytes, buffer " << cap << ", " << fil::mode_name(mode); });
    {
        auto what = absent || t.flip() ? cmp::if_not_there::create : cmp::if_not_there::fail;
        std::unique_ptr<cmp::file> f;
        if (dflt) { f = std::make_unique<cmp::file>(); PBT_CHECK(f->open(p, fil::modes[mode], what)); }
        else f = std::make_unique<cmp::file>(p, fil::modes[mode], what, cap);
        PBT_CHECK(f->is_open());
        Driver d;
        d.out = f.get();
        if (mode == 2) d.in = f.get();
        d.cap = cap;
        d.clamp = false;
        d.max_size = t.chance(1, 4) ? 30000 : 3000;
        d.observe(m, "opening");
        for (unsigned i = 0; i < steps; ++i) {
            d.step(m, t, c);
            if (!m.pending && t.chance(1, 6)) fil::check_file(p, m.data, "with nothing pending");
        }
        c.note([&](auto& os) { os << (ending == 0 ? "flush" : ending == 1 ? "close" : "destroy"); });
        if (ending == 0) { f->flush(); fil::check_file(p, m.data, "after flush"); m.flush(); d.observe(m, "flush"); }
        else if (ending == 1) { f->close(); PBT_CHECK(!f->is_open()); fil::check_file(p, m.data, "after close"); }
    }
    fil::check_file(p, m.data, "after destruction");
}
