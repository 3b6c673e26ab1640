// A small property-based testing engine: recorded choice tapes, forked
// workers, crash recovery, shrinking, replay, coverage statistics.
//
// A harness defines
//     const pbt::Info pbt_info;
//     void pbt_property(pbt::Tape&, pbt::Case&);
// and, optionally, enumerated prefixes through Info::presets / Info::preset.
//
// With PBT_FUZZ defined the same property is driven by libFuzzer.
#pragma once
#include <array>
#include <bit>
#include <climits>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <queue>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <cctype>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_HAS_ASAN
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_HAS_ASAN)
extern "C" void __asan_handle_no_return();
#endif

namespace pbt {

// ------------------------------------------------------------------ failures

struct Fail : std::exception {
    std::string msg;
    explicit Fail(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};

[[noreturn]] inline void fail(const std::string& m) { throw Fail(m); }

#define PBT_CHECK(cond, ...)                                                   \
    do {                                                                       \
        if (!(cond)) {                                                         \
            std::ostringstream pbt_os;                                         \
            pbt_os << "check failed: " << #cond << " ";                        \
            pbt_os __VA_OPT__(<<) __VA_ARGS__;                                 \
            ::pbt::fail(pbt_os.str());                                         \
        }                                                                      \
    } while (0)

// ----------------------------------------------------------------- randomness

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

inline std::uint64_t hash_str(std::string_view s) {
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// A shared page that survives the death of the process that runs a case.
struct Shared {
    static constexpr std::size_t max_tape = 1 << 16;
    volatile std::uint64_t case_index;
    volatile std::uint64_t cases_done;
    volatile std::uint64_t tape_len;
    volatile std::uint64_t overflow;
    char msg[4096];
    std::uint64_t tape[max_tape];
};

class Tape {
public:
    // random after an optional prefix
    Tape(std::uint64_t seed, std::vector<std::uint64_t> prefix, Shared* sh)
        : m_state(mix(seed)), m_random(true), m_prefix(std::move(prefix)),
          m_shared(sh) { begin(); }
    // replay
    Tape(std::vector<std::uint64_t> values, Shared* sh)
        : m_prefix(std::move(values)), m_shared(sh) { begin(); }
    // bytes of a coverage-guided fuzzer
    Tape(const std::uint8_t* d, std::size_t n, Shared* sh = nullptr)
        : m_bytes(d), m_byte_count(n), m_shared(sh) { begin(); }

    // A number in [0, n); n == 0 means all 64 bits. 0 is the simplest choice.
    std::uint64_t draw(std::uint64_t n) {
        std::uint64_t v;
        if (m_pos < m_prefix.size()) {
            v = m_prefix[m_pos];
            if (n != 0 && v >= n) v = n - 1;
        } else if (m_bytes) {
            int w = n == 0 || n > 0xFFFFFFFFull ? 8 : n > 0xFFFF ? 4 : n > 0x100 ? 2 : 1;
            v = 0;
            while (w-- > 0) v = v << 8 | next_byte();
            if (n != 0) v %= n;
        } else if (m_random) {
            v = next();
            if (n != 0) v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
        } else {
            v = 0;
        }
        ++m_pos;
        if (m_shared) {
            if (m_pos <= Shared::max_tape) {
                m_shared->tape[m_pos - 1] = v;
                m_shared->tape_len = m_pos;
            } else {
                m_shared->overflow = 1;
            }
        }
        m_log_hash = mix(m_log_hash ^ v);
        if (m_keep) m_log.push_back(v);
        return v;
    }
    std::int64_t range(std::int64_t lo, std::int64_t hi) {
        return lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(hi - lo) + 1));
    }
    // the simple outcome is false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    bool flip() { return draw(2) == 1; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template <class T, std::size_t N> const T& pick(const T (&v)[N]) { return v[draw(N)]; }
    // weighted choice: index of the chosen weight
    unsigned weighted(std::initializer_list<unsigned> w) {
        unsigned total = 0;
        for (unsigned x : w) total += x;
        std::uint64_t v = draw(total);
        unsigned i = 0;
        for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
        return i - 1;
    }
    // a length whose distribution has weight on small, medium and large
    std::size_t length(std::size_t max) {
        switch (draw(5)) {
            case 0: return draw(std::min<std::size_t>(max, 3) + 1);
            case 1: return draw(std::min<std::size_t>(max, 8) + 1);
            case 2: return draw(std::min<std::size_t>(max, 20) + 1);
            default: return draw(max + 1);
        }
    }
    // an integer of a random bit width
    std::uint64_t bits(unsigned width) {
        unsigned w = static_cast<unsigned>(draw(width + 1));
        if (w == 0) return 0;
        std::uint64_t v = draw(w == 64 ? 0 : (1ull << w));
        return v;
    }
    std::uint64_t hash() const { return m_log_hash; }
    std::size_t used() const { return m_pos; }
    void keep() { m_keep = true; }
    const std::vector<std::uint64_t>& log() const { return m_log; }

private:
    void begin() {
        if (m_shared) { m_shared->tape_len = 0; m_shared->overflow = 0; m_shared->msg[0] = 0; }
    }
    std::uint64_t next() {
        m_state += 0x9E3779B97F4A7C15ull;
        std::uint64_t x = m_state;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    std::uint8_t next_byte() { return m_byte_pos < m_byte_count ? m_bytes[m_byte_pos++] : 0; }

    std::uint64_t m_state = 0;
    bool m_random = false;
    std::vector<std::uint64_t> m_prefix;
    const std::uint8_t* m_bytes = nullptr;
    std::size_t m_byte_count = 0, m_byte_pos = 0;
    Shared* m_shared;
    std::size_t m_pos = 0;
    std::uint64_t m_log_hash = 42;
    bool m_keep = false;
    std::vector<std::uint64_t> m_log;
};

// What a case reports about itself.
class Case {
public:
    bool describing = false;
    std::string text;
    bool is_nontrivial = false;
    std::map<std::string, std::uint64_t>* labels = nullptr;
    int worker = 0;
    std::string scratch;
    bool thorough = false;

    void nontrivial(bool v = true) { is_nontrivial = is_nontrivial || v; }
    void label(const char* l) { if (labels) ++(*labels)[l]; }
    void label_if(bool c, const char* l) { if (c) label(l); }
    template <class F> void note(F&& f) {
        if (describing) { std::ostringstream os; f(os); text += os.str(); text += "; "; }
    }
};

struct Info {
    const char* property;
    const char* rule;
    std::uint64_t quick_cases;
    std::uint64_t thorough_cases;
    std::uint64_t presets = 0;
    std::vector<std::uint64_t> (*preset)(std::uint64_t) = nullptr;
    int max_workers = 8;
    void (*worker_init)(int worker, const std::string& scratch) = nullptr;
};

} // namespace pbt

#ifdef PBT_COV // tools/coverage.py
extern "C" void __gcov_dump(void);
#endif
extern const pbt::Info pbt_info;
void pbt_property(pbt::Tape&, pbt::Case&);

namespace pbt {

inline std::string exception_text() {
    try { throw; }
    catch (const Fail& f) { return f.msg; }
    catch (const std::exception& e) {
        int st = 0;
        char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        std::string r = std::string("unexpected exception ") + (n ? n : typeid(e).name()) + ": " + e.what();
        std::free(n);
        return r;
    }
    catch (...) { return "unexpected exception of unknown type"; }
}

inline void set_msg(Shared* sh, const std::string& m) {
    std::size_t n = std::min(m.size(), sizeof sh->msg - 1);
    std::memcpy(sh->msg, m.data(), n);
    sh->msg[n] = 0;
}

} // namespace pbt

#ifdef PBT_FUZZ

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
    static bool init = false;
    static std::string scratch;
    if (!init) {
        init = true;
        const char* s = std::getenv("PBT_SCRATCH");
        scratch = (s ? s : "/tmp") + std::string("/fz") + std::to_string(getpid());
        mkdir(scratch.c_str(), 0700);
        if (pbt_info.worker_init) pbt_info.worker_init(0, scratch);
    }
    pbt::Tape t(data, size);
    pbt::Case c;
    c.scratch = scratch;
    c.thorough = true;
    try {
        pbt_property(t, c);
    } catch (...) {
        std::fprintf(stderr, "PBT-FUZZ-FAIL %s\n", pbt::exception_text().c_str());
        std::abort();
    }
    return 0;
}

#else

namespace pbt {

constexpr int exit_fail = 77;

struct Runner {
    std::uint64_t seed = 1;
    bool thorough = false;
    std::uint64_t cases = 0;
    int workers = 8;
    std::string scratch = "/tmp";
    std::string out;        // summary file
    std::string replay_dir = ".";
    long cpu_limit = 10;
    long wall_limit = 60;
    std::uint64_t prop_hash = 0;

    Shared* new_shared() {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { std::perror("mmap"); std::exit(2); }
        return static_cast<Shared*>(p);
    }

    std::uint64_t case_seed(std::uint64_t i) const { return mix(mix(seed) ^ mix(prop_hash) ^ mix(i * 2 + 1)); }

    Tape make_tape(std::uint64_t i, Shared* sh) const {
        std::vector<std::uint64_t> prefix;
        if (pbt_info.preset && i < pbt_info.presets) prefix = pbt_info.preset(i);
        return Tape(case_seed(i), std::move(prefix), sh);
    }

    void arm(long cpu, long wall) {
        itimerval v{};
        v.it_value.tv_sec = cpu;
        setitimer(ITIMER_PROF, &v, nullptr);
        v.it_value.tv_sec = wall;
        setitimer(ITIMER_REAL, &v, nullptr);
    }

    std::string scratch_of(int w) {
        std::string d = scratch + "/w" + std::to_string(w);
        mkdir(d.c_str(), 0700);
        return d;
    }

    // The address sanitizer keeps the stack frames that exceptions leave, and gets slow once they use up its space.
    static void reclaim_frames() {
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_HAS_ASAN)
        __asan_handle_no_return();
#endif
    }

    // Runs in a forked child. Never returns.
    [[noreturn]] void child_worker(int w, std::uint64_t from, std::uint64_t to, std::uint64_t step,
                                   Shared* sh, const std::string& stat_file) {
        std::map<std::string, std::uint64_t> labels;
        std::unordered_set<std::uint64_t> distinct;
        std::vector<std::string> samples;
        std::uint64_t n = 0, nontrivial = 0, draws = 0;
        std::string sc = scratch_of(w);
        if (pbt_info.worker_init) pbt_info.worker_init(w, sc);
        for (std::uint64_t i = from; i < to; i += step) {
            if ((n & 15) == 0) arm(cpu_limit, wall_limit);
            if ((n & 255) == 255) reclaim_frames();
            sh->case_index = i;
            Tape t = make_tape(i, sh);
            Case c;
            c.labels = &labels;
            c.worker = w;
            c.scratch = sc;
            c.thorough = thorough;
            c.describing = samples.size() < 4 && (n & (n - 1)) == 0;
            try {
                pbt_property(t, c);
            } catch (...) {
                set_msg(sh, exception_text());
                _exit(exit_fail);
            }
            ++n;
            draws += t.used();
            if (c.is_nontrivial) {
                ++nontrivial;
                if (distinct.size() < 4'000'000) distinct.insert(t.hash());
                if (c.describing && !c.text.empty())
                    samples.push_back(c.text.size() > 600 ? c.text.substr(0, 600) + "..." : c.text);
            }
            sh->cases_done = n;
        }
        arm(0, 0);
        if (!stat_file.empty()) {
            FILE* f = std::fopen(stat_file.c_str(), "wb");
            if (f) {
                std::fprintf(f, "n %llu\nnontrivial %llu\ndraws %llu\n", (unsigned long long)n,
                             (unsigned long long)nontrivial, (unsigned long long)draws);
                for (auto& [k, v] : labels) std::fprintf(f, "label %llu %s\n", (unsigned long long)v, k.c_str());
                for (auto& s : samples) {
                    std::string e;
                    for (char ch : s) e += (ch == '\n' ? ' ' : ch);
                    std::fprintf(f, "sample %s\n", e.c_str());
                }
                std::fclose(f);
            }
            f = std::fopen((stat_file + ".h").c_str(), "wb");
            if (f) {
                std::vector<std::uint64_t> v(distinct.begin(), distinct.end());
                std::fwrite(v.data(), 8, v.size(), f);
                std::fclose(f);
            }
        }
#ifdef PBT_COV
        __gcov_dump();
#endif
        _exit(0);
    }

    struct Result { bool failed = false; std::string msg; std::vector<std::uint64_t> tape; std::string text; };

    std::string status_text(int st, Shared* sh) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == exit_fail) return sh->msg[0] ? sh->msg : "failed";
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            if (s == SIGPROF) return "the case used more CPU time than its limit (does not terminate)";
            if (s == SIGALRM) return "the case did not end within its limit (does not terminate)";
            return std::string("killed by signal ") + strsignal(s);
        }
        return "sanitizer report or unexpected exit, status " + std::to_string(WEXITSTATUS(st));
    }

    // One tape in a fresh child.
    Result run_one(const std::vector<std::uint64_t>& tape, long cpu, bool describe, bool quiet = true) {
        Shared* sh = new_shared();
        std::fflush(nullptr);
        char tfile[4096];
        std::snprintf(tfile, sizeof tfile, "%s/text", scratch.c_str());
        unlink(tfile);
        pid_t p = fork();
        if (p == 0) {
            if (quiet) {
                int fd = ::open("/dev/null", O_WRONLY);
                dup2(fd, 1);
                dup2(fd, 2);
            } else {
                dup2(2, 1);
            }
            std::string sc = scratch_of(0);
            if (pbt_info.worker_init) pbt_info.worker_init(0, sc);
            arm(cpu, 3 * cpu); // a blocked case is no less late than a busy one
            Tape t(tape, sh);
            Case c;
            c.scratch = sc;
            c.thorough = thorough;
            c.describing = describe;
            int rc = 0;
            try { pbt_property(t, c); }
            catch (...) { set_msg(sh, exception_text()); rc = exit_fail; }
            if (describe) {
                FILE* f = std::fopen(tfile, "wb");
                if (f) { std::fwrite(c.text.data(), 1, c.text.size(), f); std::fclose(f); }
            }
            _exit(rc);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        Result r;
        r.failed = st != 0;
        if (r.failed) {
            r.msg = status_text(st, sh);
            r.tape.assign(sh->tape, sh->tape + std::min<std::uint64_t>((std::uint64_t)sh->tape_len, Shared::max_tape));
        }
        if (describe) {
            FILE* f = std::fopen(tfile, "rb");
            if (f) { char b[8192]; std::size_t k; while ((k = std::fread(b, 1, sizeof b, f)) > 0) r.text.append(b, k); std::fclose(f); unlink(tfile); }
        }
        munmap(sh, sizeof(Shared));
        return r;
    }

    static double now() {
        timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }

    std::vector<std::uint64_t> shrink(std::vector<std::uint64_t> best, double budget) {
        double stop = now() + budget;
        long cpu = 4;
        auto attempt = [&](const std::vector<std::uint64_t>& cand) {
            if (now() > stop) return false;
            Result r = run_one(cand, cpu, false);
            if (!r.failed) return false;
            std::vector<std::uint64_t> got = r.tape;
            // keep the tape that was actually used, when it is shorter
            if (got.size() > cand.size()) got.resize(cand.size());
            best = got;
            return true;
        };
        auto simpler = [](const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
            if (a.size() != b.size()) return a.size() < b.size();
            return a < b;
        };
        bool progress = true;
        while (progress && now() < stop) {
            progress = false;
            for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1 && now() < stop; len /= 2) {
                for (std::size_t at = 0; at + len <= best.size() && now() < stop;) {
                    auto cand = best;
                    cand.erase(cand.begin() + at, cand.begin() + at + len);
                    auto old = best;
                    if (attempt(cand) && simpler(best, old)) { progress = true; }
                    else { best = old; at += std::max<std::size_t>(1, len / 2 ? len / 2 : 1); }
                }
                if (len == 1) break;
            }
            for (std::size_t i = 0; i < best.size() && now() < stop; ++i) {
                if (best[i] == 0) continue;
                auto cand = best;
                cand[i] = 0;
                auto old = best;
                if (attempt(cand) && simpler(best, old)) { progress = true; continue; }
                best = old;
                std::uint64_t lo = 0, hi = best[i];
                while (lo + 1 < hi && now() < stop) {
                    std::uint64_t mid = lo + (hi - lo) / 2;
                    cand = best;
                    if (i >= cand.size()) break;
                    cand[i] = mid;
                    old = best;
                    if (attempt(cand) && simpler(best, old)) { progress = true; hi = mid; if (i >= best.size()) break; }
                    else { best = old; lo = mid; }
                }
            }
        }
        return best;
    }

    std::string write_replay(const char* kind, const std::vector<std::uint64_t>& tape, const std::string& msg,
                             const std::string& text, const std::string& extra) {
        mkdir(replay_dir.c_str(), 0755);
        std::ostringstream body;
        body << "# property " << pbt_info.property << "\n# " << msg << "\n# case: " << text << "\n# seed " << seed << "\n" << extra;
        std::string oneline = body.str();
        std::ostringstream b2;
        b2 << "kind: " << kind << "\n";
        b2 << "tape:";
        for (auto v : tape) b2 << ' ' << v;
        b2 << "\n";
        std::string all;
        // comment continuation lines
        for (std::size_t i = 0; i < oneline.size(); ++i) {
            all += oneline[i];
            if (oneline[i] == '\n' && i + 1 < oneline.size() && oneline[i + 1] != '#' && oneline.compare(i + 1, 6, "range:") != 0) all += "# ";
        }
        all += b2.str();
        char path[4096];
        std::snprintf(path, sizeof path, "%s/%s-%016llx.replay", replay_dir.c_str(), pbt_info.property,
                      (unsigned long long)hash_str(b2.str() + extra));
        FILE* f = std::fopen(path, "wb");
        if (f) { std::fwrite(all.data(), 1, all.size(), f); std::fclose(f); }
        return path;
    }

    // Returns the replay path if the failure is confirmed, "" otherwise.
    std::string confirm(std::vector<std::uint64_t> tape, const std::string& first_msg) {
        int again = 0;
        for (int i = 0; i < 3; ++i) again += run_one(tape, cpu_limit, false).failed;
        // a case that fails only sometimes (it depends on uninitialised memory, say) fails all the same; one that
        // ran out of time has to do so every time
        bool late = first_msg.find("does not terminate") != std::string::npos;
        if (again == 0 || (late && again < 3)) return "";
        if (again < 3) return write_replay("tape", tape, first_msg + " (not every time)", "", "");
        std::vector<std::uint64_t> small = shrink(tape, late ? 20.0 : 40.0);
        int ok = 0;
        Result r;
        int runs = late ? 1 : 3;
        for (int i = 0; i < runs; ++i) { Result x = run_one(small, cpu_limit, true); ok += x.failed; if (x.failed) r = x; }
        if (ok < runs) { small = tape; r = run_one(small, cpu_limit, true); if (!r.failed) { r.msg = first_msg; } }
        if (!late) run_one(small, cpu_limit, false, false); // lets the sanitizer report reach stderr
        std::fprintf(stderr, "case: %s\nfailure: %s\n", r.text.c_str(), r.msg.c_str());
        return write_replay("tape", small, r.msg, r.text, "");
    }

    // Re-runs a worker's history up to and including the failing case.
    bool run_range(std::uint64_t from, std::uint64_t last, std::uint64_t step) {
        Shared* sh = new_shared();
        std::fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            int fd = ::open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
            child_worker(0, from, last + 1, step, sh, "");
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        munmap(sh, sizeof(Shared));
        return st != 0;
    }

    int run() {
        double t0 = now();
        std::uint64_t total = cases + pbt_info.presets;
        std::vector<Shared*> sh(workers);
        std::vector<pid_t> pid(workers);
        std::vector<std::uint64_t> next_from(workers);
        std::vector<std::string> stat_files;
        std::fflush(nullptr);
        int live = 0;
        int gen = 0;
        auto spawn = [&](int w, std::uint64_t from) {
            std::string sf = scratch + "/stat" + std::to_string(w) + "_" + std::to_string(gen++);
            sh[w]->cases_done = 0;
            next_from[w] = from;
            std::fflush(nullptr);
            pid_t p = fork();
            if (p == 0) {
                char lf[4200];
                std::snprintf(lf, sizeof lf, "%s/log%d", scratch.c_str(), w);
                int fd = ::open(lf, O_WRONLY | O_CREAT | O_TRUNC, 0600);
                dup2(fd, 1);
                dup2(fd, 2);
                child_worker(w, from, total, workers, sh[w], sf);
            }
            pid[w] = p;
            stat_files.push_back(sf);
            ++live;
        };
        for (int w = 0; w < workers; ++w) { sh[w] = new_shared(); spawn(w, w); }
        struct Bad { int w; std::vector<std::uint64_t> tape; std::string msg; std::uint64_t idx, from; };
        std::vector<Bad> bad;
        std::vector<std::string> unconfirmed;
        std::uint64_t lost = 0;
        std::string violation, vmsg;
        int unconf_count = 0;
        while (live > 0) {
            int st = 0;
            pid_t p = waitpid(-1, &st, 0);
            if (p < 0) { if (errno == EINTR) continue; break; }
            int w = -1;
            for (int i = 0; i < workers; ++i) if (pid[i] == p) w = i;
            if (w < 0) continue;
            pid[w] = 0;
            --live;
            if (st == 0) continue;
            Bad b;
            b.w = w;
            b.msg = status_text(st, sh[w]);
            b.idx = sh[w]->case_index;
            b.from = next_from[w];
            b.tape.assign(sh[w]->tape, sh[w]->tape + std::min<std::uint64_t>((std::uint64_t)sh[w]->tape_len, Shared::max_tape));
            lost += sh[w]->cases_done;
            // stop the others while we look at this one
            for (int i = 0; i < workers; ++i) if (pid[i] > 0) kill(pid[i], SIGSTOP);
            std::fprintf(stderr, "candidate failure in case %llu: %s\n", (unsigned long long)b.idx, b.msg.c_str());
            std::string path = confirm(b.tape, b.msg);
            if (path.empty()) {
                bool h = true;
                for (int k = 0; k < 2 && h; ++k) h = run_range(b.from, b.idx, workers);
                if (h) {
                    std::ostringstream e;
                    e << "range: " << b.from << " " << b.idx << " " << workers << " " << seed << " " << (thorough ? 1 : 0) << "\n";
                    path = write_replay("range", b.tape, b.msg + " (only after the preceding cases of its worker)", "", e.str());
                }
            }
            if (!path.empty()) { violation = path; vmsg = b.msg; }
            else { unconfirmed.push_back(b.msg); ++unconf_count; }
            for (int i = 0; i < workers; ++i) if (pid[i] > 0) kill(pid[i], violation.empty() ? SIGCONT : SIGKILL);
            if (!violation.empty()) {
                for (int i = 0; i < workers; ++i) if (pid[i] > 0) { kill(pid[i], SIGCONT); waitpid(pid[i], nullptr, 0); lost += sh[i]->cases_done; pid[i] = 0; }
                live = 0;
                break;
            }
            if (unconf_count < 20 && b.idx + workers < total) spawn(w, b.idx + workers);
        }
        // merge statistics
        std::uint64_t n = lost, nontrivial = 0, draws = 0;
        std::map<std::string, std::uint64_t> labels;
        std::vector<std::string> samples;
        std::vector<std::uint64_t> hashes;
        for (auto& sf : stat_files) {
            FILE* f = std::fopen(sf.c_str(), "rb");
            if (!f) continue;
            char* line = nullptr;
            std::size_t cap = 0;
            ssize_t k;
            while ((k = getline(&line, &cap, f)) > 0) {
                if (line[k - 1] == '\n') line[--k] = 0;
                unsigned long long v;
                int off = 0;
                if (std::sscanf(line, "n %llu", &v) == 1) n += v;
                else if (std::sscanf(line, "nontrivial %llu", &v) == 1) nontrivial += v;
                else if (std::sscanf(line, "draws %llu", &v) == 1) draws += v;
                else if (std::sscanf(line, "label %llu %n", &v, &off) == 1) labels[line + off] += v;
                else if (std::strncmp(line, "sample ", 7) == 0) samples.push_back(line + 7);
            }
            std::free(line);
            std::fclose(f);
            f = std::fopen((sf + ".h").c_str(), "rb");
            if (f) {
                std::uint64_t buf[4096];
                std::size_t r;
                while ((r = std::fread(buf, 8, 4096, f)) > 0) hashes.insert(hashes.end(), buf, buf + r);
                std::fclose(f);
            }
        }
        std::sort(hashes.begin(), hashes.end());
        hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
        if (!out.empty()) {
            FILE* f = std::fopen(out.c_str(), "wb");
            if (f) {
                std::fprintf(f, "evaluations %llu\nnontrivial %llu\ndistinct %llu\ndraws %llu\nwall %.3f\nworkers %d\n",
                             (unsigned long long)n, (unsigned long long)nontrivial, (unsigned long long)hashes.size(),
                             (unsigned long long)draws, now() - t0, workers);
                std::fprintf(f, "rule %s\n", pbt_info.rule);
                for (auto& [k, v] : labels) std::fprintf(f, "label %llu %s\n", (unsigned long long)v, k.c_str());
                for (std::size_t i = 0; i < samples.size() && i < 12; ++i) std::fprintf(f, "sample %s\n", samples[i].c_str());
                for (auto& u : unconfirmed) std::fprintf(f, "unconfirmed %s\n", u.c_str());
                if (!violation.empty()) std::fprintf(f, "violation %s\nvmsg %s\n", violation.c_str(), vmsg.substr(0, vmsg.find('\n')).c_str());
                std::fclose(f);
            }
        }
        std::printf("%s: %llu cases, %zu distinct nontrivial, %.1f s\n", pbt_info.property, (unsigned long long)n,
                    hashes.size(), now() - t0);
        if (!violation.empty()) {
            std::printf("VIOLATION property=%s replay=%s\n", pbt_info.property, violation.c_str());
            return 1;
        }
        return 0;
    }

    int replay(const char* path) {
        FILE* f = std::fopen(path, "rb");
        if (!f) { std::perror(path); return 2; }
        std::string all;
        char b[65536];
        std::size_t k;
        while ((k = std::fread(b, 1, sizeof b, f)) > 0) all.append(b, k);
        std::fclose(f);
        std::istringstream is(all);
        std::string line;
        std::vector<std::uint64_t> tape;
        bool range = false;
        std::uint64_t from = 0, idx = 0, step = 1, rs = 1, th = 0;
        while (std::getline(is, line)) {
            if (line.rfind("tape:", 0) == 0) { std::istringstream ls(line.substr(5)); std::uint64_t v; while (ls >> v) tape.push_back(v); }
            else if (line.rfind("range:", 0) == 0) { std::istringstream ls(line.substr(6)); ls >> from >> idx >> step >> rs >> th; range = true; }
        }
        bool failed;
        if (range) {
            seed = rs; thorough = th; workers = (int)step;
            failed = run_range(from, idx, step);
        } else {
            Result r = run_one(tape, cpu_limit, true, false);
            std::printf("case: %s\n%s\n", r.text.c_str(), r.failed ? r.msg.c_str() : "held");
            failed = r.failed;
        }
        if (failed) { std::printf("VIOLATION property=%s replay=%s\n", pbt_info.property, path); return 1; }
        return 0;
    }

    // A crashing input of the coverage-guided fuzzer: becomes a tape.
    int from_bytes(const char* path) {
        FILE* f = std::fopen(path, "rb");
        if (!f) return 2;
        std::string all;
        char b[65536];
        std::size_t k;
        while ((k = std::fread(b, 1, sizeof b, f)) > 0) all.append(b, k);
        std::fclose(f);
        Shared* sh = new_shared();
        // record the draws in a child, which may die
        std::fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            int fd = ::open("/dev/null", O_WRONLY);
            dup2(fd, 1); dup2(fd, 2);
            std::string sc = scratch_of(0);
            if (pbt_info.worker_init) pbt_info.worker_init(0, sc);
            arm(cpu_limit, wall_limit);
            Tape t(reinterpret_cast<const std::uint8_t*>(all.data()), all.size(), sh);
            Case c; c.scratch = sc; c.thorough = thorough;
            try { pbt_property(t, c); } catch (...) { set_msg(sh, exception_text()); _exit(exit_fail); }
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (st == 0) return 0;
        std::vector<std::uint64_t> tape(sh->tape, sh->tape + std::min<std::uint64_t>((std::uint64_t)sh->tape_len, Shared::max_tape));
        std::string path2 = confirm(tape, status_text(st, sh));
        if (path2.empty()) return 0;
        std::printf("VIOLATION property=%s replay=%s\n", pbt_info.property, path2.c_str());
        return 1;
    }
};

} // namespace pbt

int main(int argc, char** argv) {
    pbt::Runner r;
    r.prop_hash = pbt::hash_str(pbt_info.property);
    const char* replay = nullptr;
    const char* bytes = nullptr;
    double scale = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--seed") r.seed = std::strtoull(val(), nullptr, 10);
        else if (a == "--thorough") r.thorough = true;
        else if (a == "--scale") scale = std::atof(val());
        else if (a == "--workers") r.workers = std::atoi(val());
        else if (a == "--scratch") r.scratch = val();
        else if (a == "--out") r.out = val();
        else if (a == "--replay-dir") r.replay_dir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--bytes") bytes = val();
    }
    r.workers = std::min(r.workers, pbt_info.max_workers);
    r.cases = (std::uint64_t)((r.thorough ? pbt_info.thorough_cases : pbt_info.quick_cases) * scale);
    if (replay) return r.replay(replay);
    if (bytes) return r.from_bytes(bytes);
    return r.run();
}

#endif
