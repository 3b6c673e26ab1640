// The guarantees of O01 for the library's Windows standard streams, compiled against a stand-in for the Windows console.
#include "txt.hpp"
#include <cmp/io/uio.hpp>
#if !defined(CMP_OS_WINDOWS)
#error "this harness needs the Windows sources of the library"
#endif
using namespace txt;
const pbt::Info pbt_info{"W02",
    "histories of writes to the standard output and error streams (strings of 5 encodings, characters, numbers), flushes and reads of characters, words and lines "
    "from a UTF-16 console that hands over its input in pieces of generated sizes and ends with nothing or an error, through the library's Windows standard streams "
    "(global ones or own ones with random buffers) over a stand-in for the console functions; non-trivial: at least 3 operations that write or read",
    150000, 2000000};

namespace {
struct Console {
    std::u16string input;
    std::size_t at = 0;
    std::vector<unsigned> pieces; // how many characters each read hands over, 0: as many as asked for
    std::size_t call = 0;
    bool broken = false; // the end of input is an error
    Bytes out, err;
    const Bytes* given = nullptr; // everything given to the standard output so far
    std::string complaint;
};
Console& console() { static Console* k = new Console; return *k; }
unsigned code_page; // also set before main
HANDLE handle(DWORD id) { return reinterpret_cast<HANDLE>(static_cast<ULONG_PTR>(id) + 1); }
}
extern "C" {
HANDLE GetStdHandle(DWORD id) { return handle(id); }
BOOL SetConsoleOutputCP(UINT cp) { code_page = cp; return TRUE; }
BOOL SetConsoleCP(UINT) { return TRUE; }
BOOL ReadConsoleW(HANDLE h, LPVOID p, DWORD n, LPDWORD done, LPVOID) {
    auto& k = console();
    if (h != handle(STD_INPUT_HANDLE)) { k.complaint = "input is read from another handle"; return FALSE; }
    if (k.given && k.complaint.empty() && k.out != *k.given)
        k.complaint = "input was asked for with " + std::to_string(k.out.size()) + " of " + std::to_string(k.given->size()) + " bytes of output written";
    std::size_t m = std::min<std::size_t>(n, k.input.size() - k.at);
    if (m == 0 && n > 0 && k.broken) return FALSE; // and the count is left alone
    if (k.call < k.pieces.size()) { unsigned piece = k.pieces[k.call++]; if (piece) m = std::min<std::size_t>(m, piece); }
    std::memcpy(p, k.input.data() + k.at, m * 2);
    k.at += m;
    *done = static_cast<DWORD>(m);
    return TRUE;
}
BOOL WriteFile(HANDLE h, LPCVOID p, DWORD n, LPDWORD done, LPOVERLAPPED) {
    auto& k = console();
    *done = 0;
    if (h != handle(STD_OUTPUT_HANDLE) && h != handle(STD_ERROR_HANDLE)) { k.complaint = "output is written to another handle"; return FALSE; }
    auto b = static_cast<const unsigned char*>(p);
    auto& o = h == handle(STD_OUTPUT_HANDLE) ? k.out : k.err;
    o.insert(o.end(), b, b + n);
    *done = n;
    return TRUE;
}
// not used by the standard streams
HANDLE CreateFileW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE) { std::abort(); }
BOOL ReadFile(HANDLE, LPVOID, DWORD, LPDWORD, LPOVERLAPPED) { std::abort(); }
BOOL SetFilePointerEx(HANDLE, LARGE_INTEGER, PLARGE_INTEGER, DWORD) { std::abort(); }
BOOL CloseHandle(HANDLE) { std::abort(); }
}

namespace {
struct Op {
    int kind = 0; // 0 write out, 1 write error, 2 flush out, 3 flush error, 4 read char, 5 read word, 6 read line
    int form = 0; // encoding of the string, 5: one character, 6: a number
    Scalars text;
    std::int64_t number = 0;
};
void put_op(cmp::stdout_stream& s, const Op& o) {
    if (o.form == 6) { s << o.number; return; }
    if (o.form == 5) { for (char32_t ch : o.text) s << ch; return; }
    uni::with_encoding(o.form, [&](auto z) { s << uni::encode<decltype(z)>(o.text); });
}
struct Reset { // leaves the global streams as the next case expects them
    ~Reset() {
        auto& k = console();
        k.given = nullptr; k.broken = false; k.pieces.clear(); k.at = k.input.size();
        try {
            cmp::uin_resource.tie(cmp::uout_resource);
            cmp::uout.flush(); cmp::uerr.flush();
            for (unsigned i = 0; i < 100000; ++i) { std::byte b[2]; if (cmp::uin_resource.read(b, 2) == 0) break; }
        } catch (...) {}
    }
};
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    bool own_out = t.chance(2, 3), own_err = t.chance(2, 3), own_in = t.chance(2, 3);
    std::size_t cap_out = res::gen_capacity(t), cap_err = res::gen_capacity(t), cap_in = res::gen_capacity(t);
    if (cap_in == 1) cap_in = 2; // holds no unit of the input
    bool big = t.chance(1, 4);
    Scalars input = gen_text(t, big ? 900 : 40, false), raw = crlf(t, input);
    auto& k = console();
    k = Console{};
    k.input = uni::encode<std::u16string>(raw);
    k.broken = t.flip();
    std::size_t n = t.length(24), active = 0, pieces = t.flip() ? t.length(60) : 0;
    for (std::size_t i = 0; i < pieces; ++i) k.pieces.push_back(static_cast<unsigned>(t.chance(1, 4) ? 0 : 1 + t.draw(t.flip() ? 3 : 30)));
    std::vector<Op> ops;
    for (std::size_t i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(t.weighted({6, 3, 1, 1, 3, 2, 2}));
        if (o.kind <= 1) {
            o.form = static_cast<int>(t.draw(7));
            if (o.form == 6) {
                o.number = static_cast<std::int64_t>(t.bits(64));
                for (char ch : std::to_string(o.number)) o.text.push_back(static_cast<char32_t>(ch));
            } else o.text = gen_text(t, big && t.flip() ? 500 : 12, o.form == 4);
        }
        if (o.kind != 2 && o.kind != 3) ++active;
        ops.push_back(std::move(o));
    }
    c.nontrivial(active >= 3);
    c.label(own_out ? "own output stream" : "global output stream"); c.label(own_in ? "own input stream" : "global input stream");
    c.label_if(pieces > 0, "in pieces"); c.label_if(big, "beyond the default buffer"); c.label_if(k.broken, "read error at the end");
    c.note([&](auto& os) {
        os << (own_out ? "own out " + std::to_string(cap_out) : "uout") << ' ' << (own_err ? "own err " + std::to_string(cap_err) : "uerr") << ' '
           << (own_in ? "own in " + std::to_string(cap_in) : "uin") << (k.broken ? " ending with an error" : "") << ", input " << uni::show(raw);
        static const char* names[] = {"out", "err", "flush out", "flush err", "char", "word", "line"};
        for (auto& o : ops) { os << "; " << names[o.kind]; if (o.kind <= 1) os << ' ' << o.form << ' ' << uni::show(o.text); }
        os << "; pieces";
        for (auto x : k.pieces) os << ' ' << x;
    });
    Bytes out, err;
    k.given = &out;
    Reset reset;
    {
        if (own_out || own_err) code_page = 0;
        std::unique_ptr<cmp::stdout_resource> ro, re;
        std::unique_ptr<cmp::stdin_resource> ri;
        std::unique_ptr<cmp::stdout_stream> so, se;
        std::unique_ptr<cmp::stdin_stream> si;
        if (own_out) { ro = std::make_unique<cmp::stdout_resource>(STD_OUTPUT_HANDLE, cap_out); so = std::make_unique<cmp::stdout_stream>(*ro); }
        if (own_err) { re = std::make_unique<cmp::stdout_resource>(STD_ERROR_HANDLE, cap_err); se = std::make_unique<cmp::stdout_stream>(*re); }
        if (own_in) { ri = std::make_unique<cmp::stdin_resource>(cap_in); si = std::make_unique<cmp::stdin_stream>(*ri); }
        if (own_in && own_out) ri->tie(*ro);
        if (!own_in && own_out) cmp::uin_resource.tie(*ro);
        PBT_CHECK(code_page == CP_UTF8, "the console expects code page " << code_page << " and not UTF-8");
        cmp::stdout_stream& o = own_out ? *so : cmp::uout;
        cmp::stdout_stream& e = own_err ? *se : cmp::uerr;
        cmp::stdin_stream& i = own_in ? *si : cmp::uin;
        std::size_t at = 0;
        for (const Op& op : ops) {
            switch (op.kind) {
                case 0: put(out, op.text, {0, true}); put_op(o, op); break;
                case 1: put(err, op.text, {0, true}); put_op(e, op); break;
                case 2: o.flush(); PBT_CHECK(k.out == out, "after a flush " << k.out.size() << " bytes are written, should be " << out.size()); break;
                case 3: e.flush(); PBT_CHECK(k.err == err, "after a flush " << k.err.size() << " bytes of errors are written, should be " << err.size()); break;
                case 4: {
                    char32_t g = 0;
                    bool threw = false;
                    try { i >> g; } catch (const cmp::read_past_end&) { threw = true; }
                    PBT_CHECK(threw == (at == input.size()), (threw ? "end of input reported early" : "end of input not reported"));
                    if (!threw) { PBT_CHECK(g == input[at], "read " << std::hex << static_cast<unsigned>(g) << " should be " << static_cast<unsigned>(input[at])); ++at; }
                    break;
                }
                default: {
                    std::u8string g = u8"?";
                    Scalars want;
                    bool threw = false;
                    if (op.kind == 5) while (at < input.size() && is_space(input[at])) ++at;
                    while (at < input.size() && (op.kind == 5 ? !is_space(input[at]) : input[at] != '\n')) want.push_back(input[at++]);
                    bool end = at == input.size();
                    if (!end) ++at;
                    try { if (op.kind == 5) i >> g; else i.read_line(g); } catch (const cmp::read_past_end&) { threw = true; }
                    PBT_CHECK(threw == end, (threw ? "end of input reported early" : "end of input not reported"));
                    PBT_CHECK(g == uni::encode<std::u8string>(want), "read " << uni::show(g) << " should be " << uni::show(uni::encode<std::u8string>(want)));
                }
            }
            PBT_CHECK(k.complaint.empty(), k.complaint);
        }
        if (!own_in && own_out) cmp::uin_resource.tie(cmp::uout_resource); // the tied resource is about to go
        if (!own_out) o.flush();
        if (!own_err) e.flush();
    }
    PBT_CHECK(k.complaint.empty(), k.complaint);
    PBT_CHECK(k.out == out, "standard output holds " << k.out.size() << " bytes, should be " << out.size() << ": " << res::show(k.out) << " instead of " << res::show(out));
    PBT_CHECK(k.err == err, "standard error holds " << k.err.size() << " bytes, should be " << err.size());
}
