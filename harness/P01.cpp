#include <atomic>
#include <sys/stat.h>
#include <thread>
#include "pbt.hpp"
#include "H01_lib.cpp"
const pbt::Info pbt_info{"P01",
    "2-4 threads that at the same time each run a random program of up to 12 text, classification, formatting, parsing, resource, file and stream operations (often the same one) on objects of their own, and use texts "
    "and formats they share without changing them, under the thread sanitizer; every result compared with that of the same program run alone; non-trivial: at least 2 threads with at least 2 operations each",
    12000, 240000};

extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=1:report_signal_unsafe=0:history_size=3"; }

namespace {
struct Shared {
    std::u8string a;
    std::u16string b;
    cmp::integer_format f;
    cmp::floating_point_format g;
    cmp::bool_format h;
    std::string bytes;
};
void use(const Shared& s, In& in) {
    switch (in.byte() % 6) {
        case 0: guarded([&] { text(cmp::to_u32string(s.a)); text(cmp::to_u8string(s.b)); }); break;
        case 1: guarded([&] { num(cmp::starts_with(s.a, s.b)); num(cmp::ends_with(s.b, s.a)); num(cmp::validate_string(s.b) == cmp::by_code_point{s.b}.end()); }); break;
        case 2: guarded([&] { for (char32_t c : cmp::by_code_point{s.a}) num(static_cast<long long>(c)); }); break;
        case 3: guarded([&] { text(cmp::format_integer<std::u16string>(static_cast<int>(in.bits(4)), s.f)); num(s.f.get_radix()); }); break;
        case 4: guarded([&] { text(cmp::format_floating_point<std::u8string>(static_cast<int>(in.bits(2)) / 64.0, s.g)); text(cmp::format_bool<std::u32string>(in.byte() % 2, s.h)); }); break;
        default: guarded([&] { cmp::opaque_string_input_resource r{s.bytes, in.byte() % 9u}; cmp::text_input_stream<cmp::opaque_string_input_resource> t{r, cmp::utf8}; std::u16string w; t >> w; text(w); });
    }
}
std::string program(const std::vector<unsigned char>& b, const Shared& s, const std::string& dir) {
    std::string r = ccl_transcript(b.data(), b.size(), dir.c_str());
    out.clear();
    In in{b.data(), b.size()};
    for (int k = 0; k < 4 && !in.done(); ++k) use(s, in);
    return r + "\n" + out;
}
}
void pbt_property(pbt::Tape& t, pbt::Case& c) {
    std::size_t n = 2 + t.draw(3);
    bool same = t.flip();
    std::vector<std::vector<unsigned char>> bytes(n);
    for (std::size_t k = 0; k < n; ++k) {
        if (same && k) bytes[k] = bytes[0];
        else for (std::size_t m = 20 + t.length(t.chance(1, 4) ? 300 : 120); m--;) bytes[k].push_back(static_cast<unsigned char>(t.draw(256)));
    }
    Shared s;
    { unsigned char b[40]; for (auto& x : b) x = static_cast<unsigned char>(t.draw(256)); In in{b, sizeof b}; auto v = scalars(in, 9); s.a = cmp::to_u8string(v); s.b = cmp::to_u16string(v); s.bytes.assign(s.a.begin(), s.a.end()); s.f.set_radix(2 + in.byte() % 35); }
    std::vector<std::string> dirs(n), got(n);
    for (std::size_t k = 0; k < n; ++k) { dirs[k] = c.scratch + "/t" + std::to_string(k); ::mkdir(dirs[k].c_str(), 0700); }
    {
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> th;
        for (std::size_t k = 0; k < n; ++k)
            th.emplace_back([&, k] {
                ready.fetch_add(1, std::memory_order_relaxed); // all start at about the same time, without an order between them
                for (int spin = 0; spin < 20000 && ready.load(std::memory_order_relaxed) < n; ++spin) {}
                got[k] = program(bytes[k], s, dirs[k]);
            });
        for (auto& x : th) x.join();
    }
    std::size_t busy = 0;
    for (std::size_t k = 0; k < n; ++k) busy += std::count(got[k].begin(), got[k].end(), '\n') >= 3;
    c.nontrivial(busy >= 2);
    c.label(n == 2 ? "2 threads" : "3 or 4 threads"); c.label(same ? "the same program" : "different programs");
    c.note([&](auto& os) { os << n << " threads" << (same ? ", the same program:" : ":"); for (std::size_t k = 0; k < (same ? 1 : n); ++k) os << "\n" << got[k].substr(0, 300); });
    for (std::size_t k = 0; k < n; ++k) {
        std::string alone = program(bytes[k], s, dirs[k]);
        PBT_CHECK(alone == got[k], "thread " << k << " got " << got[k].substr(0, 600) << ", alone " << alone.substr(0, 600));
    }
}
