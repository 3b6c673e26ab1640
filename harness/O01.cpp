#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <cerrno>
#include "txt.hpp"
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/uio.hpp>
using namespace txt;
const pbt::Info pbt_info{"O01",
    "histories of writes to the standard output and error streams (strings of 5 encodings, characters, numbers), flushes and reads of characters, words and lines "
    "from standard input, through the global stream objects or own ones with random buffers, in a child process whose system calls are cut short and "
    "interrupted by a generated script, with input that ends regularly or with a read error and output that is refused from some byte on, ended by exit; non-trivial: at least 3 operations that write or read",
    22000, 300000};

namespace {
struct Script {
    bool on = false, broken = false; // broken: input ends with a read error
    std::vector<unsigned> calls; // 0: as asked, 1: interrupted, n: at most n - 1 bytes
    std::size_t at = 0;
    std::size_t room[3] = {}; // how many more bytes each output takes before it refuses everything
    std::size_t limit[3] = {};
    const Bytes* out = nullptr; // everything given to the standard output so far
    std::string path;
    std::string complaint;
};
Script& script = *new Script; // outlives the global streams
Bytes accepted(const Bytes& b, int fd) { return Bytes(b.begin(), b.begin() + static_cast<long>(std::min(b.size(), script.limit[fd]))); }

long decide(int fd, std::size_t n) {
    if (!script.on || fd > 2 || n == 0 || script.at >= script.calls.size()) return static_cast<long>(n);
    unsigned k = script.calls[script.at++];
    if (k == 1) { errno = EINTR; return -1; }
    return k == 0 ? static_cast<long>(n) : static_cast<long>(std::min<std::size_t>(n, k - 1));
}
}
extern "C" {
ssize_t __real_read(int, void*, std::size_t);
ssize_t __real_write(int, const void*, std::size_t);
ssize_t __wrap_read(int fd, void* p, std::size_t n) {
    if (fd == 0 && script.on) {
        script.on = false;
        Bytes b;
        fil::get_file(script.path, b);
        if (script.complaint.empty() && b != accepted(*script.out, 1))
            script.complaint = "input was asked for with " + std::to_string(b.size()) + " of " + std::to_string(script.out->size()) + " bytes of output written";
        script.on = true;
    }
    long k = decide(fd, n);
    if (k < 0) return -1;
    ssize_t r = __real_read(fd, p, static_cast<std::size_t>(k));
    if (r == 0 && k > 0 && fd == 0 && script.on && script.broken) { errno = EIO; return -1; }
    return r;
}
ssize_t __wrap_write(int fd, const void* p, std::size_t n) {
    long k = decide(fd, n);
    if (k < 0) return -1;
    if (script.on && (fd == 1 || fd == 2)) {
        if (k > 0 && script.room[fd] == 0) { errno = ENOSPC; return -1; }
        k = std::min(k, static_cast<long>(script.room[fd]));
        script.room[fd] -= static_cast<std::size_t>(k);
    }
    return __real_write(fd, p, static_cast<std::size_t>(k));
}
}

namespace {
struct Op {
    int kind = 0; // 0 write out, 1 write error, 2 flush out, 3 flush error, 4 read char, 5 read word, 6 read line
    int form = 0; // encoding of the string, 5: one character, 6: a number
    Scalars text;
    std::int64_t number = 0;
};

void put_op(cmp::stdout_stream& s, const Op& o) {
    if (o.form == 6) { s << o.number; return; }
    if (o.form == 5) { for (char32_t ch : o.text) s << ch; return; }
    uni::with_encoding(o.form, [&](auto z) { s << uni::encode<decltype(z)>(o.text); });
}

struct Plan {
    std::vector<Op> ops;
    Scalars input; // as it is read
    Enc enc{0, true};
    bool binary = false; // read numbers instead of text
    Bytes bytes;
    bool own_out, own_err, own_in;
    std::size_t cap_out, cap_err, cap_in;
};

// what the child does; throws pbt::Failure
void child(const Plan& p, Bytes& out, Bytes& err) {
    std::unique_ptr<cmp::stdout_resource> ro, re;
    std::unique_ptr<cmp::stdin_resource> ri;
    std::unique_ptr<cmp::stdout_stream> so, se;
    std::unique_ptr<cmp::stdin_stream> si;
    if (p.own_out) { ro = std::make_unique<cmp::stdout_resource>(1, p.cap_out); so = std::make_unique<cmp::stdout_stream>(*ro); }
    if (p.own_err) { re = std::make_unique<cmp::stdout_resource>(2, p.cap_err); se = std::make_unique<cmp::stdout_stream>(*re); }
    if (p.own_in) { ri = std::make_unique<cmp::stdin_resource>(p.cap_in); si = std::make_unique<cmp::stdin_stream>(*ri); }
    if (p.own_in && p.own_out) ri->tie(*ro);
    if (!p.own_in && p.own_out) cmp::uin_resource.tie(*ro);
    cmp::stdout_stream& o = p.own_out ? *so : cmp::uout;
    cmp::stdout_stream& e = p.own_err ? *se : cmp::uerr;
    cmp::stdin_stream& i = p.own_in ? *si : cmp::uin;
    if (!p.binary) { i.set_encoding_form(forms[p.enc.form]); if (p.enc.form) i.set_endianness(endian(p.enc.big)); }
    cmp::data_input_stream<cmp::stdin_resource> data(p.own_in ? *ri : cmp::uin_resource, endian(p.enc.big));
    std::size_t at = 0;
    for (const Op& op : p.ops) {
        if (p.binary && op.kind >= 4) {
            auto number = [&](auto x) {
                std::size_t n = sizeof x;
                bool end = p.bytes.size() - at < n, threw = false;
                std::uint64_t want = 0;
                if (!end) for (std::size_t k = 0; k < n; ++k) want = want << 8 | p.bytes[at + (p.enc.big ? k : n - 1 - k)];
                try { data >> x; } catch (const cmp::read_past_end&) { threw = true; }
                PBT_CHECK(threw == end, (threw ? "end of input reported early" : "end of input not reported"));
                if (!end) PBT_CHECK(x == want, "read " << x << " should be " << want);
                at = end ? p.bytes.size() : at + n;
            };
            if (op.kind == 4) number(std::uint16_t{}); else if (op.kind == 5) number(std::uint32_t{}); else number(std::uint64_t{});
            PBT_CHECK(script.complaint.empty(), script.complaint);
            continue;
        }
        switch (op.kind) {
            case 0: put(out, op.text, {0, true}); put_op(o, op); break;
            case 1: put(err, op.text, {0, true}); put_op(e, op); break;
            case 2: case 3: {
                (op.kind == 2 ? o : e).flush();
                Bytes b;
                script.on = false;
                fil::get_file(script.path + (op.kind == 2 ? "" : "e"), b);
                script.on = true;
                PBT_CHECK(b == accepted(op.kind == 2 ? out : err, op.kind - 1), "after a flush " << b.size() << " bytes are written, should be " << (op.kind == 2 ? out : err).size());
                break;
            }
            case 4: {
                char32_t g = 0;
                bool threw = false;
                try { i >> g; } catch (const cmp::read_past_end&) { threw = true; }
                PBT_CHECK(threw == (at == p.input.size()), (threw ? "end of input reported early" : "end of input not reported"));
                if (!threw) { PBT_CHECK(g == p.input[at], "read " << std::hex << static_cast<unsigned>(g) << " should be " << static_cast<unsigned>(p.input[at])); ++at; }
                break;
            }
            default: {
                std::u8string g = u8"?";
                Scalars want;
                bool end = false, threw = false;
                if (op.kind == 5) {
                    while (at < p.input.size() && is_space(p.input[at])) ++at;
                    while (at < p.input.size() && !is_space(p.input[at])) want.push_back(p.input[at++]);
                    end = at == p.input.size();
                    if (!end) ++at;
                    try { i >> g; } catch (const cmp::read_past_end&) { threw = true; }
                } else {
                    while (at < p.input.size() && p.input[at] != '\n') want.push_back(p.input[at++]);
                    end = at == p.input.size();
                    if (!end) ++at;
                    try { i.read_line(g); } catch (const cmp::read_past_end&) { threw = true; }
                }
                // standard input knows its end only by reading past it
                PBT_CHECK(threw == end, (threw ? "end of input reported early" : "end of input not reported"));
                PBT_CHECK(g == uni::encode<std::u8string>(want), "read " << uni::show(g) << " should be " << uni::show(uni::encode<std::u8string>(want)));
            }
        }
        PBT_CHECK(script.complaint.empty(), script.complaint);
    }
    if (p.own_in || !p.own_out) return;
    // the tied resource is about to go
    cmp::uin_resource.tie(cmp::uout_resource);
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    Plan p;
    p.own_out = t.flip(); p.own_err = t.flip(); p.own_in = t.flip();
    p.cap_out = res::gen_capacity(t); p.cap_err = res::gen_capacity(t); p.cap_in = res::gen_capacity(t);
    bool big = t.chance(1, 4); // beyond the default buffers
    p.input = gen_text(t, big ? 900 : 40, false);
    if (big && !p.input.empty() && t.chance(1, 10)) for (std::size_t most = t.draw(30000); p.input.size() < most;) p.input.insert(p.input.end(), p.input.begin(), p.input.begin() + static_cast<long>(std::min(p.input.size(), most - p.input.size())));
    Scalars raw = crlf(t, p.input);
    bool pipe_in = t.flip();
    if (t.chance(1, 3)) p.enc = gen_enc(t);
    p.binary = t.chance(1, 6);
    std::size_t n = t.length(24), active = 0, expected_out = 0;
    for (std::size_t k = 0; k < n; ++k) {
        Op o;
        o.kind = static_cast<int>(t.weighted({6, 3, 1, 1, 3, 2, 2}));
        if (o.kind <= 1) {
            o.form = static_cast<int>(t.draw(7));
            if (o.form == 6) {
                o.number = static_cast<std::int64_t>(t.bits(64));
                for (char ch : std::to_string(o.number)) o.text.push_back(static_cast<char32_t>(ch));
            } else o.text = gen_text(t, big && t.flip() ? 500 : 12, o.form == 4);
            if (big && o.form != 6 && !o.text.empty() && t.chance(1, 10)) for (std::size_t most = t.draw(30000); o.text.size() < most;) o.text.insert(o.text.end(), o.text.begin(), o.text.begin() + static_cast<long>(std::min(o.text.size(), most - o.text.size())));
            expected_out += o.text.size();
        }
        if (o.kind != 2 && o.kind != 3) ++active;
        p.ops.push_back(std::move(o));
    }
    script.calls.clear();
    script.broken = t.chance(1, 6);
    for (int fd = 1; fd < 3; ++fd) script.room[fd] = script.limit[fd] = t.chance(1, 12) ? t.draw(expected_out * 2 + 1) : 1 << 30;
    std::size_t faults = t.flip() ? t.length(60) : 0;
    for (std::size_t k = 0; k < faults; ++k) if (t.chance(1, 200)) script.calls.insert(script.calls.end(), t.draw(400), 1u); else script.calls.push_back(static_cast<unsigned>(t.weighted({2, 2, 4}) == 2 ? 2 + t.draw(t.flip() ? 4 : 40) : t.draw(2)));
    c.nontrivial(active >= 3);
    c.label(p.own_out ? "own output stream" : "global output stream"); c.label(p.own_in ? "own input stream" : "global input stream");
    c.label(p.binary ? "numbers" : form_name(p.enc.form)); c.label_if(faults > 0, "faults"); c.label_if(big, "beyond the default buffer"); c.label(pipe_in ? "pipe" : "file"); c.label_if(script.broken, "read error at the end"); c.label_if(script.limit[1] < expected_out || script.limit[2] < expected_out, "output refused");
    c.note([&](auto& os) {
        os << (p.own_out ? "own out " + std::to_string(p.cap_out) : "uout") << ' ' << (p.own_err ? "own err " + std::to_string(p.cap_err) : "uerr") << ' '
           << (p.own_in ? "own in " + std::to_string(p.cap_in) : "uin") << (pipe_in ? " from a pipe" : "") << ' ' << show(p.enc) << (p.binary ? " numbers" : "") << ", input " << uni::show(raw);
        static const char* names[] = {"out", "err", "flush out", "flush err", "char", "word", "line"};
        for (auto& o : p.ops) { os << "; " << names[o.kind]; if (o.kind <= 1) os << ' ' << o.form << ' ' << uni::show(o.text); }
        os << "; calls";
        for (auto k : script.calls) os << ' ' << k;
        for (int fd = 1; fd < 3; ++fd) if (script.limit[fd] < 1 << 30) os << "; " << (fd == 1 ? "output" : "error output") << " refused after " << script.limit[fd] << " bytes";
    });
    std::string fo = c.scratch + "/o", fe = fo + "e", fi = c.scratch + "/i", fm = c.scratch + "/m";
    Bytes in_bytes;
    put(in_bytes, raw, p.enc);
    if (in_bytes.size() > 30000) in_bytes.resize(0), p.input.clear();
    p.bytes = in_bytes;
    fil::put_file(fo, {}); fil::put_file(fe, {}); fil::put_file(fi, in_bytes); fil::put_file(fm, {});
    std::fflush(nullptr);
    pid_t pid = ::fork();
    if (pid == 0) {
        int o = ::open(fo.c_str(), O_WRONLY | O_APPEND), e = ::open(fe.c_str(), O_WRONLY | O_APPEND), i;
        if (pipe_in) {
            int f[2];
            if (::pipe(f) != 0) ::_exit(3);
            if (__real_write(f[1], in_bytes.data(), in_bytes.size()) != static_cast<ssize_t>(in_bytes.size())) ::_exit(3);
            ::close(f[1]);
            i = f[0];
        } else i = ::open(fi.c_str(), O_RDONLY);
        ::dup2(i, 0); ::dup2(o, 1); ::dup2(e, 2);
        ::alarm(20);
        static Bytes &out = *new Bytes, &err = *new Bytes;
        out.clear(); err.clear();
        script.at = 0; script.out = &out; script.path = fo; script.complaint.clear();
        std::string failure;
        script.on = true;
        try { child(p, out, err); } catch (const std::exception& x) { failure = std::string("F") + x.what(); } catch (...) { failure = "Fan exception that is no std::exception"; }
        if (!failure.empty()) {
            script.on = false;
            Bytes m(failure.begin(), failure.end());
            fil::put_file(fm, m);
            ::_exit(7);
        }
        std::exit(0);
    }
    int status = 0;
    while (::waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Bytes m, go, ge, wo, we;
    fil::get_file(fm, m); fil::get_file(fo, go); fil::get_file(fe, ge);
    for (auto& o : p.ops) { if (o.kind == 0) put(wo, o.text, {0, true}); if (o.kind == 1) put(we, o.text, {0, true}); }
    wo = accepted(wo, 1); we = accepted(we, 2);
    PBT_CHECK(m.empty(), std::string(m.begin() + 1, m.end()));
    PBT_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the process ended with status " << status << ": " << std::string(ge.begin(), ge.end()).substr(0, 400));
    PBT_CHECK(go == wo, "standard output holds " << go.size() << " bytes, should be " << wo.size() << ": " << res::show(go) << " instead of " << res::show(wo));
    PBT_CHECK(ge == we, "standard error holds " << ge.size() << " bytes, should be " << we.size());
}
