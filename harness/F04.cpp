#include "fil.hpp"
#include "faults.hpp"
using namespace res;
const pbt::Info pbt_info{"F04",
    "histories of reads, writes, seeks and flushes on a file, with read(2) and write(2) replaced by stand-ins that transfer fewer bytes, fail with EINTR "
    "or (unbuffered) refuse the transfer for good, as drawn per call; against a byte array; non-trivial: at least two short or interrupted calls",
    410000, 4920000};

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    std::size_t cap = gen_capacity(t);
    int mode = static_cast<int>(t.draw(3));
    Model m;
    m.data = gen_bytes(t, t.length(t.chance(1, 8) ? 9000 : 300));
    unsigned steps = 1 + static_cast<unsigned>(t.length(c.thorough ? 60 : 25));
    bool hard = t.chance(1, 4);
    std::string p = c.scratch + "/a";
    fil::put_file(p, m.data);
    c.note([&](auto& os) { os << m.data.size() << " bytes, buffer " << cap << ", " << fil::mode_name(mode); });
    c.label(cap ? "buffered" : "unbuffered");
    auto& pl = faults::plan;
    struct Off { ~Off() { faults::plan = faults::Plan{}; } } off;
    pl = faults::Plan{};
    pl.rate = 1 + static_cast<unsigned>(t.draw(3));
    {
        cmp::file f{p, fil::modes[mode], cmp::if_not_there::fail, cap};
        PBT_CHECK(f.is_open());
        Driver d;
        if (mode != 1) d.in = &f;
        if (mode != 0) d.out = &f;
        d.cap = cap;
        d.clamp = false;
        for (unsigned i = 0; i < steps; ++i) {
            pl.t = &t;
            if (hard && t.chance(1, 4)) {
                std::size_t n = 1 + gen_count(t, cap);
                std::uint64_t before = pl.hards;
                if (d.in && (mode == 0 || t.flip())) {
                    if (m.pending) { f.flush(); m.flush(); } // pending output is not refused here
                    pl.hard = true;
                    std::unique_ptr<std::byte[]> b(new std::byte[n]);
                    Model m0 = m;
                    Bytes want = m.read(n);
                    std::size_t k = f.read(b.get(), n);
                    pl.hard = false;
                    c.note([&](auto& os) { os << "read " << n << (pl.hards > before ? " refused, gave " : ", gave ") << k; });
                    PBT_CHECK(k <= want.size(), "read " << k << " bytes of " << want.size());
                    PBT_CHECK(std::memcmp(b.get(), want.data(), k) == 0, "read other bytes than those of the file");
                    if (pl.hards == before) PBT_CHECK(k == want.size(), "read " << k << " bytes of " << want.size() << " without an error");
                    m = m0;
                    m.pos += static_cast<std::int64_t>(k);
                    m.pending = false;
                    c.label_if(pl.hards > before, "read refused");
                } else if (d.out && cap == 0 && m.pos + static_cast<std::int64_t>(n) < d.max_size) {
                    Bytes b = gen_bytes(t, n);
                    pl.hard = true;
                    std::size_t k = f.write(reinterpret_cast<std::byte*>(b.data()), n);
                    pl.hard = false;
                    c.note([&](auto& os) { os << "write " << n << (pl.hards > before ? " refused, took " : ", took ") << k; });
                    PBT_CHECK(k <= n, "wrote " << k << " bytes of " << n);
                    PBT_CHECK((k == n) == (pl.hards == before), "wrote " << k << " bytes of " << n << (pl.hards > before ? " although the system refused" : " without an error"));
                    b.resize(k);
                    m.write(b);
                    m.pending = false;
                    c.label_if(pl.hards > before, "write refused");
                }
                d.observe(m, "refused transfer");
                continue;
            }
            d.step(m, t, c);
        }
        if (mode != 0 && t.flip()) { f.flush(); fil::check_file(p, m.data, "after flush"); }
        if (t.flip()) f.close();
    }
    pl.t = nullptr;
    c.note([&](auto& os) { os << pl.shorts << " short, " << pl.interrupts << " interrupted"; });
    c.label_if(pl.interrupts > 0, "interrupted"); c.label_if(pl.shorts > 0, "short");
    c.nontrivial(pl.shorts + pl.interrupts >= 2);
    fil::check_file(p, m.data, "at the end");
}
