#include <dlfcn.h>
#include <cstdlib>
#include "pbt.hpp"
static void load();
const pbt::Info pbt_info{"H01",
    "programs of up to 12 text, classification, formatting, parsing, resource, file and stream operations given by random bytes, run by the library built header-only and compiled, "
    "without and with optimisation, by GCC and Clang, the transcripts of all results and errors compared; non-trivial: at least 2 operations with output",
    260000, 3120000};
namespace {
using Fn = const char* (*)(const unsigned char*, std::size_t, const char*);
std::vector<std::pair<std::string, Fn>> fns;
}
static void load() {
    if (!fns.empty()) return;
    const char* aux = std::getenv("PBT_AUX");
    std::istringstream is(aux ? aux : "");
    for (std::string p; std::getline(is, p, ':');) {
        void* h = ::dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { std::fprintf(stderr, "%s\n", ::dlerror()); ::_exit(3); }
        fns.push_back({p.substr(p.rfind('/') + 1), reinterpret_cast<Fn>(::dlsym(h, "ccl_transcript"))});
    }
    if (fns.size() < 2) { std::fprintf(stderr, "no libraries\n"); ::_exit(3); }
}
void pbt_property(pbt::Tape& t, pbt::Case& c) {
    load();
    std::vector<unsigned char> b;
    for (std::size_t n = t.length(t.chance(1, 4) ? 300 : 120); n--;) b.push_back(static_cast<unsigned char>(t.draw(256)));
    std::string first;
    for (auto& [name, f] : fns) {
        std::string s = f(b.data(), b.size(), c.scratch.c_str());
        if (first.empty()) {
            first = s;
            std::size_t ops = 0;
            for (char ch : s) ops += ch == '\n';
            c.nontrivial(ops >= 2);
            c.label_if(s.find("read_past_end") != s.npos || s.find("invalid") != s.npos || s.find("failed") != s.npos, "with errors");
            c.note([&](auto& os) { os << s.substr(0, 600); });
        } else {
            std::size_t k = 0;
            while (k < s.size() && k < first.size() && s[k] == first[k]) ++k;
            PBT_CHECK(s == first, fns[0].first << " and " << name << " differ at: " << first.substr(k > 40 ? k - 40 : 0, 80) << " / " << s.substr(k > 40 ? k - 40 : 0, 80));
        }
    }
}
