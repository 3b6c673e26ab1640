#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include "num.hpp"
#include "res.hpp"
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/io/data_io_stream.hpp>
using namespace uni;
const pbt::Info pbt_info{"A01",
    "a conversion, insertion, formatting, parsing, write to a container, or stream operation, done once for each of its allocations with that allocation failing (up to 24), and with none failing, from the same state; after a "
    "failure the state is compared with that before, what is allocated is counted, and the operation is repeated; non-trivial: at least one allocation failed",
    260000, 2600000};

namespace {
long failing = 0;   // the allocation to fail, counted from 1; 0: none
long made = 0;      // allocations since armed
long live = 0;
}
// The message of an error that is being constructed: the constructors of the library's errors are noexcept, so that no memory for
// the message is out of the domain. (The errors of libstdc++ keep it in a string of the old kind, which nothing else uses.)
static bool message(void* caller) {
    static void* known = nullptr;
    if (caller == known) return true;
    static void* other[16];
    static unsigned next;
    for (void* o : other) if (o == caller) return false;
    Dl_info i{};
    if (dladdr(caller, &i) && i.dli_sname && std::strstr(i.dli_sname, "_ZNSs4_Rep")) { known = caller; return true; }
    other[next++ % 16] = caller;
    return false;
}
static void* take(std::size_t n, void* caller) {
    if (failing && !message(caller) && ++made == failing) throw std::bad_alloc{};
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc{};
    ++live;
    return p;
}
static void give(void* p) noexcept { if (p) { --live; std::free(p); } }
void* operator new(std::size_t n) { return take(n, __builtin_return_address(0)); }
void* operator new[](std::size_t n) { return take(n, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }

namespace {
enum class End { done, no_memory, refused };
// f, with its k-th allocation failing
template <class F> End attempt(long k, F&& f) {
    struct Armed { Armed(long n) { made = 0; failing = n; } ~Armed() { failing = 0; } };
    try { Armed a{k}; f(); return End::done; }
    catch (const std::bad_alloc&) { return End::no_memory; }
    catch (const cmp::parse_failed&) { return End::refused; }
    catch (const cmp::invalid_code_point&) { return End::refused; }
    catch (const cmp::invalid_unicode_encoding&) { return End::refused; }
    catch (const cmp::iterated_past_end&) { return End::refused; }
    catch (const cmp::read_past_end&) { return End::refused; }
}
constexpr long most = 24;

// f returns a value and changes nothing else
template <class F> void pure(pbt::Case& c, const char* what, F&& f) {
    using R = decltype(f());
    std::optional<R> want;
    End plain = attempt(0, [&] { want.emplace(f()); });
    // (the constructors of the errors are noexcept and allocate: an error with no memory left for it is out of the domain)
    for (long k = 1; k <= most && plain == End::done; ++k) {
        std::optional<R> got;
        long before = live;
        End e = attempt(k, [&] { R r = f(); failing = 0; got.emplace(std::move(r)); });
        bool failed = k <= made;
        if (e == End::done) PBT_CHECK(plain == End::done && *got == *want, what << ": another result after an allocation that " << (failed ? "failed" : "did not fail"));
        else if (e == End::refused) PBT_CHECK(plain == End::refused, what << ": refused, though it is not otherwise");
        got.reset();
        PBT_CHECK(live == before, what << ": " << live - before << " allocations were not released (allocation " << k << " failing)");
        if (e == End::no_memory) c.nontrivial(true);
        if (!failed) break;
    }
    End again = attempt(0, [&] { auto r = f(); PBT_CHECK(r == *want, what << ": another result when repeated"); });
    PBT_CHECK(again == plain, what << ": another outcome when repeated");
}
template <class S> S gen_units(pbt::Tape& t, std::size_t max) {
    S s = encode<S>(gen_scalars(t, max, false, false));
    if (t.chance(1, 4)) s.insert(t.draw(s.size() + 1), num::ill_formed_piece<S>(t));
    return s;
}
template <class S> void conversions(pbt::Tape& t, pbt::Case& c) {
    S s = gen_units<S>(t, 40);
    c.label("conversion");
    c.note([&](auto& os) { os << "convert " << s.size() << " units of " << sizeof(typename S::value_type); });
    S copy = s;
    switch (t.draw(4)) {
        case 0: pure(c, "conversion to UTF-8", [&] { return cmp::to_u8string(s); }); break;
        case 1: pure(c, "conversion to UTF-16", [&] { return cmp::to_u16string(s); }); break;
        case 2: pure(c, "conversion to UTF-32", [&] { return cmp::to_u32string(s); }); break;
        default: pure(c, "conversion to wide", [&] { return cmp::to_wstring(s); });
    }
    std::u16string w = cmp::to_u16string(u8"ab");
    pure(c, "comparison", [&] { return cmp::starts_with(s, w) * 2 + cmp::ends_with(s, w); });
    PBT_CHECK(s == copy, "the text that was converted has changed");
}
template <class S> void insertion(pbt::Tape& t, pbt::Case& c) {
    S s = encode<S>(gen_scalars(t, t.chance(1, 3) ? 40 : 17, false, false));
    char32_t cp = gen_scalar(t);
    int where = static_cast<int>(t.draw(3));
    std::size_t at = where == 0 ? s.size() : where == 1 ? 0 : t.draw(s.size() + 1);
    S want = s;
    want.insert(at, encode<S>({cp}));
    c.label("insertion");
    c.note([&](auto& os) { os << "insert U+" << std::hex << static_cast<unsigned>(cp) << std::dec << " at " << at << " of " << s.size() << " units of " << sizeof(typename S::value_type); });
    for (long k = 1; k <= most; ++k) {
        long before = live;
        {
            S x;
            if (t.flip()) { x.reserve(s.size() + t.draw(4)); x = s; } else { x = s; x.shrink_to_fit(); } // room for all, some or none of it
            End e = attempt(k, [&] { if (where == 0) cmp::append_code_point(x, cp); else if (where == 1) cmp::prepend_code_point(x, cp); else cmp::insert_code_point(x, cp, at); });
            bool failed = k <= made;
            if (e == End::no_memory) { PBT_CHECK(x == s, "inserting a code point that failed for lack of memory has changed the text"); c.nontrivial(true); }
            else PBT_CHECK(e == End::done && x == want, "inserting a code point gave another text");
            if (!failed) k = most;
        }
        PBT_CHECK(live == before, live - before << " allocations were not released");
    }
}
void numbers(pbt::Tape& t, pbt::Case& c) {
    num::Fmt fi = num::gen_int_fmt(t), ff = num::gen_float_fmt(t);
    auto i = num::int_format(fi);
    auto f = num::float_format(ff);
    long long v = num::gen_int<long long>(t);
    double d = static_cast<double>(num::gen_int<int>(t)) / 1024 * (t.chance(1, 4) ? 1e30 : 1);
    c.label("numbers");
    c.note([&](auto& os) { os << "format " << v << " and " << d; });
    switch (t.draw(7)) {
        case 0: pure(c, "formatting an integer", [&] { return cmp::format_integer<std::u8string>(v, i); }); break;
        case 1: pure(c, "formatting an integer", [&] { return cmp::format_integer<std::u32string>(v, i); }); break;
        case 2: pure(c, "formatting a floating-point value", [&] { return cmp::format_floating_point<std::u16string>(d, f); }); break;
        case 3: pure(c, "formatting a floating-point value", [&] { return cmp::format_floating_point<std::u8string>(d, f); }); break;
        case 4: { auto s = cmp::format_integer<std::u16string>(v, i); if (t.flip()) s += u"x"; pure(c, "parsing an integer", [&] { return cmp::parse_integer<long long>(s, i); }); break; }
        case 5: { auto s = cmp::format_floating_point<std::u8string>(d, f); if (t.chance(1, 3)) s += u8"x"; pure(c, "parsing a floating-point value", [&] { return cmp::parse_floating_point<double>(s, f); }); break; }
        default: {
            cmp::bool_format b{u8"yes", u8"no"};
            std::u16string s(t.draw(3), u'n');
            pure(c, "parsing a boolean", [&] { return cmp::parse_bool(s, b); });
            pure(c, "formatting a boolean", [&] { return cmp::format_bool<std::u32string>(true, b); });
        }
    }
}
// What is written to a container, however often memory runs out.
void containers(pbt::Tape& t, pbt::Case& c) {
    std::size_t cap = res::gen_capacity(t);
    unsigned kind = static_cast<unsigned>(t.draw(3));
    c.label("container");
    c.note([&](auto& os) { os << "writes to a container through a buffer of " << cap; });
    long before = live;
    {
        std::string s(t.length(40), 'x');
        std::string want = s;
        std::size_t pos = t.draw(s.size() + 1);
        {
            cmp::transparent_string_io_resource r{s, cap};
            r.set_position(static_cast<std::int64_t>(pos), cmp::position_reference::begin);
            std::size_t shown = 0; // how much of what was written is known to be there
            std::string written;
            std::size_t start = pos;
            for (unsigned steps = static_cast<unsigned>(t.length(8)); steps--;) {
                bool flush = t.chance(1, 4);
                std::size_t n = 1 + res::gen_count(t, cap) % 3000;
                res::Bytes b = res::gen_bytes(t, n);
                s.shrink_to_fit();
                for (long k = 1 + static_cast<long>(t.draw(2));; ++k) { // fails, once or more, until it does not
                    c.note([&](auto& os) { if (flush) os << "flush"; else os << "write " << n; os << " with allocation " << k << " failing"; });
                    End e = attempt(k, [&] { if (flush) r.flush(); else r.write(reinterpret_cast<const std::byte*>(b.data()), n); });
                    // what is there is what was written up to some point
                    std::string all = written + (e == End::done && !flush ? std::string(b.begin(), b.end()) : "");
                    bool fits = false;
                    for (std::size_t len = shown; len <= all.size() && !fits; ++len) {
                        std::string x = want;
                        if (len) { if (start + len > x.size()) x.resize(start + len); x.replace(start, len, all, 0, len); }
                        if (x == s) { fits = true; shown = len; }
                        else if (s.size() > want.size() && start + len < s.size()) len = std::max(len, s.size() - start - 1);
                    }
                    PBT_CHECK(fits, "the container holds " << s.size() << " bytes that are no beginning of what was written");
                    if (e == End::no_memory) { c.nontrivial(true); continue; }
                    written = all;
                    break;
                }
                if (kind == 2) { PBT_CHECK(r.get_position() == static_cast<std::int64_t>(start + written.size()), "position " << r.get_position() << ", should be " << start + written.size()); }
            }
            r.flush();
            if (!written.empty()) { if (start + written.size() > want.size()) want.resize(start + written.size()); want.replace(start, written.size(), written); }
        }
        PBT_CHECK(s == want, "at the end the container holds other bytes than were written");
    }
    PBT_CHECK(live == before, live - before << " allocations were not released");
}
void streams(pbt::Tape& t, pbt::Case& c) {
    std::size_t cap = res::gen_capacity(t) % 400;
    Scalars v = gen_scalars(t, 30, false, false);
    std::u16string text = encode<std::u16string>(v);
    std::u8string bytes = encode<std::u8string>(v);
    bool reading = t.flip();
    c.label("stream");
    c.note([&](auto& os) { os << (reading ? "read " : "write ") << v.size() << " code points through a buffer of " << cap; });
    for (long k = 1; k <= most; ++k) {
        long before = live;
        bool failed;
        {
            std::string s = reading ? std::string(bytes.begin(), bytes.end()) : std::string();
            End e;
            {
                cmp::transparent_string_io_resource r{s, cap};
                cmp::text_io_stream<cmp::transparent_string_io_resource> io{r, cmp::utf8};
                if (reading) {
                    std::u16string w;
                    e = attempt(k, [&] { if (k % 2) io >> w; else io.read_all(w); });
                } else e = attempt(k, [&] { io << text; });
                failed = k <= made;
                io.flush();
            }
            if (e == End::no_memory) c.nontrivial(true);
            if (!reading) {
                std::string want(bytes.begin(), bytes.end());
                PBT_CHECK(e != End::done || s == want, "the stream wrote other bytes");
                PBT_CHECK(want.compare(0, s.size(), s) == 0, "what a write that failed for lack of memory left is no beginning of the text");
            } else PBT_CHECK(s == std::string(bytes.begin(), bytes.end()), "reading changed the container");
        }
        PBT_CHECK(live == before, live - before << " allocations were not released");
        if (!failed) break;
    }
}
// Copies and owners of containers.
void copies(pbt::Tape& t, pbt::Case& c) {
    std::size_t cap = res::gen_capacity(t);
    std::string s(t.length(100), 'q');
    c.label("copy");
    c.note([&](auto& os) { os << "copies of a container of " << s.size() << " with a buffer of " << cap; });
    long before = live;
    {
        cmp::opaque_string_io_resource r{s, cap};
        std::byte b[3];
        std::size_t had = r.read(b, 3);
        pure(c, "copying a resource", [&] { cmp::opaque_string_io_resource x{r}; return x.get_position(); });
        pure(c, "making a resource", [&] { cmp::opaque_string_io_resource x{s, cap}; return x.get_position(); });
        PBT_CHECK(r.get_position() == static_cast<std::int64_t>(had), "the resource that was copied has moved");
    }
    PBT_CHECK(live == before, live - before << " allocations were not released");
}
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    switch (t.weighted({4, 4, 4, 3, 3, 1})) {
        case 0: switch (t.draw(4)) { case 0: conversions<std::u8string>(t, c); break; case 1: conversions<std::u16string>(t, c); break; case 2: conversions<std::u32string>(t, c); break; default: conversions<std::wstring>(t, c); } break;
        case 1: switch (t.draw(4)) { case 0: insertion<std::u8string>(t, c); break; case 1: insertion<std::u16string>(t, c); break; case 2: insertion<std::u32string>(t, c); break; default: insertion<std::wstring>(t, c); } break;
        case 2: numbers(t, c); break;
        case 3: containers(t, c); break;
        case 4: streams(t, c); break;
        default: copies(t, c);
    }
}
