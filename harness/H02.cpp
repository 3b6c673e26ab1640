#include <sys/wait.h>
#include <cstdlib>
#include <fstream>
#include "pbt.hpp"
static std::vector<std::uint64_t> preset(std::uint64_t i);
const pbt::Info pbt_info{"H02",
    "programs of 1-3 translation units that include public headers in any selection, order and number and use what each of them declares, built by GCC or Clang with the library header-only (any "
    "default buffer capacity), compiled or as a dynamic library, linked and run; and headers of packages that were left out, which must be refused. First all headers in each of two translation units and every header by itself, header-only, compiled and left out (enumerated); non-trivial: "
    "at least 2 headers or translation units, or a refusal",
    30, 500, 8 + 52 * 4, preset};

namespace {
struct Header { const char* name; int package; const char* use; };
enum { core, unicode, io, gui };
// What each header declares, used; the standard headers needed are included after the library's.
const Header headers[] = {
    {"core/application.hpp", core, "static char* none = nullptr; cmp::application a{0, &none}; a.set_copyright_notice(u8\"c\"); return cmp::app() == &a && a.run() == 0 && a.get_argc() == 0 && a.get_copyright_notice() == u8\"c\";"},
    {"core/compiler.hpp", core, "return sizeof CMP_COMPILER_NAME > 1;"},
    {"core/config.hpp", core, "return CMP_CONFIG_DEFAULT_BUFFER_CAPACITY >= 0;"},
    {"core/general.hpp", core, "return cmp::count_digits(1234, 10) == 4 && cmp::cmp_equal(1.25, 1.26, 1) && cmp::cmp_not_equal(1.25f, 1.26, 2);"},
    {"core/operating_system.hpp", core, "return sizeof CMP_OS_NAME > 1;"},
    {"core/platform.hpp", core, "return sizeof CMP_OS_NAME > 1 && sizeof CMP_COMPILER_NAME > 1;"},
    {"core/test_module.hpp", core, "struct M : cmp::test_module<M> { M() : test_module<M>{{}} {} } m; m.push_message(M::message::constructor_called); return m.get_message_count() == 1 && m.pop_message() == M::message::constructor_called && m.pop_message() == M::message::empty;"},
    {"core/type_traits.hpp", core, "return cmp::constant_max_v<int, 3, 5> == 5 && std::is_same_v<cmp::value_type_t<std::string>, char>;"},
    {"unicode/algorithms.hpp", unicode, "std::u16string s = cmp::to_u16string(u8\"a\\u20AC\"); cmp::append_code_point(s, U'\\x1F600'); return s.size() == 4 && cmp::to_u32string(s) == U\"a\\u20AC\\U0001F600\" && cmp::starts_with(s, u8\"a\");"},
    {"unicode/by_code_point.hpp", unicode, "std::u8string s = u8\"a\\u20AC\"; char32_t sum = 0; for (char32_t c : cmp::by_code_point{s}) sum += c; return sum == U'a' + 0x20AC;"},
    {"unicode/concepts.hpp", unicode, "return cmp::text_object<std::u16string> && !cmp::raii_text_object<const char*>;"},
    {"unicode/constants.hpp", unicode, "return cmp::bom == 0xFEFF && cmp::maximum_code_point == 0x10FFFF;"},
    {"unicode/examiners.hpp", unicode, "return cmp::is_whitespace(U'\\x3000') && cmp::is_radix_digit(U'f', 16) && !cmp::is_code_point_valid(0xD800) && cmp::is_trailing_byte(u8'\\x80');"},
    {"unicode/exceptions.hpp", unicode, "try { throw cmp::invalid_code_point{}; } catch (const std::exception& e) { return e.what()[0] != 0; }"},
    {"unicode/formats.hpp", unicode, "cmp::integer_format f; f.set_radix(16); try { cmp::floating_point_format g{1, cmp::sign_status::always_show, cmp::thousands_separator::none, cmp::radix_character::period, cmp::radix_place_limit::none, 0}; return false; } catch (const cmp::invalid_radix&) {} return f.get_radix() == 16 && cmp::bool_format{}.get_true_string() == u8\"1\";"},
    {"unicode/formatters.hpp", unicode, "return cmp::format_integer<std::u16string>(-255, cmp::integer_format{16, cmp::sign_status::only_when_negative, cmp::thousands_separator::none}) == u\"-FF\" && cmp::format_bool<std::u8string>(true, cmp::bool_format{}) == u8\"1\" && cmp::format_floating_point<std::u32string>(1.5, cmp::floating_point_format{}) == U\"1.5\";"},
    {"unicode/parsers.hpp", unicode, "try { cmp::parse_integer<unsigned char>(u8\"256\", cmp::integer_format{}); return false; } catch (const cmp::parse_failed&) {} return cmp::parse_integer<int>(u\"-12\", cmp::integer_format{}) == -12 && cmp::parse_floating_point<double>(u8\"2.5\", cmp::floating_point_format{}) == 2.5 && !cmp::parse_bool(u8\"0\", cmp::bool_format{});"},
    {"unicode/type_traits.hpp", unicode, "return cmp::is_utf16_string_v<std::u16string> && cmp::is_text_object_v<const char8_t*> && !cmp::is_text_object_v<int>;"},
    {"io/data_input_stream.hpp", io, "struct R : cmp::input_resource { int n = 0; R() : cmp::transfer_resource{2}, cmp::input_resource{2} {} bool is_at_end() const noexcept override { return false; } std::size_t read_raw(std::byte* p, std::size_t k, cmp::read_request) override { for (std::size_t i = 0; i < k; ++i) p[i] = static_cast<std::byte>(++n); return k; } } r; cmp::data_input_stream<cmp::input_resource> s{r, std::endian::big}; std::uint16_t v; s >> v; return v == 0x0102;"},
    {"io/data_io_stream.hpp", io, "cmp::opaque_string_io_resource r{\"\"}; cmp::data_io_stream<cmp::opaque_string_io_resource> s{r}; int a = -5, b = 0; s << a; s.flush(); r.set_position(0, cmp::position_reference::begin); s >> b; return b == -5;"},
    {"io/data_output_stream.hpp", io, "struct R : cmp::output_resource { std::string got; R() : cmp::transfer_resource{0}, cmp::output_resource{0} {} bool is_at_end() const noexcept override { return true; } std::size_t write_raw(const std::byte* p, std::size_t k) override { got.append(reinterpret_cast<const char*>(p), k); return k; } } r; { cmp::data_output_stream<cmp::output_resource> s{r, std::endian::big}; std::uint16_t v = 0x4142; s << v; } return r.got == \"AB\";"},
    {"io/exceptions.hpp", io, "try { throw cmp::read_past_end{}; } catch (const std::exception& e) { return e.what()[0] != 0; }"},
    {"io/file.hpp", io, "{ cmp::file f{u8\"{F}\", cmp::access_mode::write_only, cmp::if_not_there::create}; if (!f.is_open()) return false; f.write(reinterpret_cast<const std::byte*>(\"abc\"), 3); } cmp::file g{u8\"{F}\", cmp::access_mode::read_only, cmp::if_not_there::fail}; std::byte b[4]; return g.read(b, 4) == 3 && b[2] == std::byte{'c'};"},
    {"io/general.hpp", io, "unsigned short x = 0x0102; cmp::invert_endianness(reinterpret_cast<std::byte*>(&x), 2); return x == 0x0201 && cmp::get_opposite_endianness(std::endian::big) == std::endian::little;"},
    {"io/input_resource.hpp", io, "struct R : cmp::input_resource { R() : cmp::transfer_resource{3}, cmp::input_resource{3} {} bool is_at_end() const noexcept override { return false; } std::size_t read_raw(std::byte* p, std::size_t k, cmp::read_request) override { for (std::size_t i = 0; i < k; ++i) p[i] = std::byte{7}; return k; } } r; std::byte b[5]; return r.read(b, 5) == 5 && b[4] == std::byte{7};"},
    {"io/input_stream.hpp", io, "cmp::opaque_string_io_resource r{\"ab\"}; cmp::input_stream<cmp::opaque_string_io_resource> s{r}; std::byte b; return s.read(&b, 1) == 1 && b == std::byte{'a'} && !s.is_at_end();"},
    {"io/io_buffer.hpp", io, "cmp::io_buffer b{8}; cmp::io_buffer c{b}; return b.get_capacity() == 8 && c.get_capacity() == 8 && !c.is_write_dirty();"},
    {"io/io_resource.hpp", io, "struct R : cmp::io_resource { std::string got; R() : cmp::transfer_resource{4}, cmp::io_resource{4} {} bool is_at_end() const noexcept override { return false; } std::size_t read_raw(std::byte*, std::size_t, cmp::read_request) override { return 0; } std::size_t write_raw(const std::byte* p, std::size_t k) override { got.append(reinterpret_cast<const char*>(p), k); return k; } } r; r.write(reinterpret_cast<const std::byte*>(\"xy\"), 2); r.flush(); return r.got == \"xy\";"},
    {"io/opaque_container_input_resource.hpp", io, "cmp::opaque_string_input_resource r{\"abc\"}; std::byte b[2]; r.set_position(1, cmp::position_reference::begin); return r.read(b, 2) == 2 && b[1] == std::byte{'c'} && r.is_at_end();"},
    {"io/opaque_container_io_resource.hpp", io, "cmp::opaque_string_io_resource r{\"abc\"}; r.write(reinterpret_cast<const std::byte*>(\"x\"), 1); r.flush(); std::byte b[2]; return r.read(b, 2) == 2 && b[0] == std::byte{'b'};"},
    {"io/opaque_container_output_resource.hpp", io, "cmp::opaque_string_output_resource r{\"\"}; r.write(reinterpret_cast<const std::byte*>(\"xyz\"), 3); r.flush(); return r.get_position() == 3;"},
    {"io/output_resource.hpp", io, "struct R : cmp::output_resource { std::string got; R() : cmp::transfer_resource{4}, cmp::output_resource{4} {} bool is_at_end() const noexcept override { return true; } std::size_t write_raw(const std::byte* p, std::size_t k) override { got.append(reinterpret_cast<const char*>(p), k); return k; } } r; r.write(reinterpret_cast<const std::byte*>(\"hello\"), 5); r.flush(); return r.got == \"hello\";"},
    {"io/output_stream.hpp", io, "cmp::opaque_string_io_resource r{\"ab\"}; std::byte b{'x'}; { cmp::output_stream<cmp::opaque_string_io_resource> s{r}; s.write(&b, 1); } r.set_position(0, cmp::position_reference::begin); b = std::byte{0}; return r.read(&b, 1) == 1 && b == std::byte{'x'};"},
    {"io/seekable_input_resource.hpp", io, "return sizeof(cmp::seekable_input_resource<std::int64_t>) > 0;"},
    {"io/seekable_io_resource.hpp", io, "return sizeof(cmp::seekable_io_resource<std::int64_t>) > 0;"},
    {"io/seekable_output_resource.hpp", io, "return sizeof(cmp::seekable_output_resource<std::int64_t>) > 0;"},
    {"io/seekable_transfer_resource.hpp", io, "return sizeof(cmp::seekable_transfer_resource<std::int64_t>) > 0;"},
    {"io/text_input_stream.hpp", io, "struct R : cmp::input_resource { std::size_t n = 0; R() : cmp::transfer_resource{2}, cmp::input_resource{2} {} bool is_at_end() const noexcept override { return n >= 6; } std::size_t read_raw(std::byte* p, std::size_t k, cmp::read_request) override { std::size_t i = 0; for (; i < k && n < 6; ++i, ++n) p[i] = static_cast<std::byte>(\"42 ab \"[n]); return i; } } r; cmp::text_input_stream<cmp::input_resource> s{r, cmp::utf8}; int v; char32_t c; s >> v >> c; return v == 42 && c == U'a';"},
    {"io/text_io_stream.hpp", io, "cmp::opaque_string_io_resource r{\"\"}; cmp::text_io_stream<cmp::opaque_string_io_resource> s{r, cmp::utf8}; s << u8\"ab\" << U' '; s.flush(); r.set_position(0, cmp::position_reference::begin); std::u16string w; s >> w; return w == u\"ab\";"},
    {"io/text_output_stream.hpp", io, "struct R : cmp::output_resource { std::string got; R() : cmp::transfer_resource{0}, cmp::output_resource{0} {} bool is_at_end() const noexcept override { return true; } std::size_t write_raw(const std::byte* p, std::size_t k) override { got.append(reinterpret_cast<const char*>(p), k); return k; } } r; { cmp::text_output_stream<cmp::output_resource> s{r, cmp::utf16, std::endian::big}; s << u8\"A\" << 7 << true; s.flush(); } return r.got == std::string(\"\\0A\\0\" \"7\\0\" \"1\", 6);"},
    {"io/transfer_resource.hpp", io, "return sizeof(cmp::transfer_resource) > 0;"},
    {"io/transparent_container_input_resource.hpp", io, "std::string s = \"abc\"; cmp::transparent_string_input_resource r{s}; std::byte b[3]; return r.read(b, 3) == 3 && b[0] == std::byte{'a'};"},
    {"io/transparent_container_io_resource.hpp", io, "std::string s = \"abc\"; { cmp::transparent_string_io_resource r{s}; r.write(reinterpret_cast<const std::byte*>(\"xy\"), 2); } return s == \"xyc\";"},
    {"io/transparent_container_output_resource.hpp", io, "std::string s; { cmp::transparent_string_output_resource r{s}; r.write(reinterpret_cast<const std::byte*>(\"xy\"), 2); } return s == \"xy\";"},
    {"io/uio.hpp", io, "cmp::uout << U'u'; return &cmp::uout != nullptr;"},
    {"desktop_gui/close_event.hpp", gui, ""},
    {"desktop_gui/desktop_gui_application.hpp", gui, ""},
    {"desktop_gui/event.hpp", gui, ""},
    {"desktop_gui/general.hpp", gui, ""},
    {"desktop_gui/key_event.hpp", gui, ""},
    {"desktop_gui/window.hpp", gui, ""},
    {"desktop_gui/window_native_handle.hpp", gui, ""},
};
constexpr std::size_t header_count = std::size(headers);
static_assert(header_count == 52);

enum Refuse { nothing, io_left_out, gui_left_out, gui_header_only };
int shell(const std::string& cmd) {
    int st = std::system(cmd.c_str());
    return st < 0 ? -1 : WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }
std::string error_of(const std::string& log) {
    std::size_t k = std::min(log.find("error"), log.find("undefined"));
    k = std::min(k, log.find("multiple"));
    if (k == log.npos) return log.substr(0, 300);
    std::size_t b = log.rfind('\n', k);
    return log.substr(b == log.npos ? 0 : b + 1, 300);
}
}
static std::vector<std::uint64_t> preset(std::uint64_t i) {
    if (i < 8) return {2, i % 4 != 3}; // header-only most of the time
    i -= 8;
    if (i < 2 * header_count) return {1, i % header_count, i / header_count, 0, i & 1, 0};
    i -= 2 * header_count;
    return {1, i % header_count, i / header_count, 0, 0, 1};
}

void pbt_property(pbt::Tape& t, pbt::Case& c) {
    itimerval limit{};
    limit.it_value.tv_sec = 300; // compilers are slow, and slower on a busy machine
    setitimer(ITIMER_REAL, &limit, nullptr);
    // PBT_AUX: the compiled library's objects, the include paths, GTK's include paths, Clang's name or nothing, the dynamic library's directory
    std::istringstream is(std::getenv("PBT_AUX") ? std::getenv("PBT_AUX") : "");
    std::string objects, includes, gtk, clang, exports;
    std::getline(is, objects, '|'); std::getline(is, includes, '|'); std::getline(is, gtk, '|'); std::getline(is, clang, '|'); std::getline(is, exports, '|');
    std::uint64_t kind = t.draw(8);
    bool single = kind == 1;
    std::size_t the_one = single ? t.draw(header_count) : 0;
    bool header_only = t.flip();
    bool by_clang = !clang.empty() && t.chance(1, 3);
    bool dynamic = !exports.empty() && t.flip();
    Refuse refuse = nothing;
    std::vector<std::vector<std::size_t>> units;
    if (single) {
        units = {{the_one}};
        if (headers[the_one].package == gui && header_only) refuse = gui_header_only;
        else if (t.flip()) refuse = headers[the_one].package == io ? io_left_out : headers[the_one].package == gui ? gui_left_out : nothing;
    } else if (kind == 2) { // all of them in each of two translation units
        for (int k = 0; k < 2; ++k) {
            std::vector<std::size_t> u;
            for (std::size_t h = 0; h < header_count; ++h) if (headers[h].package != gui) u.insert(u.begin() + static_cast<long>(t.draw(u.size() + 1)), h);
            units.push_back(u);
        }
    } else {
        bool with_gui = !header_only && t.chance(1, 6);
        std::size_t n = with_gui ? 1 : 1 + t.draw(3);
        bool everything = t.chance(1, 8), no_io = t.chance(1, 8);
        for (std::size_t k = 0; k < n; ++k) {
            std::vector<std::size_t> u;
            std::size_t m = 1 + t.length(everything ? 60 : 9);
            for (std::size_t j = 0; j < m; ++j) {
                std::size_t h;
                do h = t.draw(header_count); while ((headers[h].package == gui && !with_gui) || (headers[h].package == io && no_io));
                u.push_back(h);
            }
            units.push_back(u);
        }
        if (t.chance(1, 8)) { // somewhere a header of a package that is left out
            refuse = static_cast<Refuse>(1 + t.draw(3));
            header_only = refuse == gui_header_only || (refuse == io_left_out && header_only);
            std::size_t h;
            do h = t.draw(header_count); while (headers[h].package != (refuse == io_left_out ? io : gui));
            auto& u = units[t.draw(units.size())];
            u.insert(u.begin() + static_cast<long>(t.draw(u.size() + 1)), h);
        }
    }
    bool only_parse = refuse != nothing, any_io = false;
    for (auto& u : units) for (auto h : u) { only_parse |= headers[h].package == gui; any_io |= headers[h].package == io; }
    dynamic &= !header_only && !only_parse;
    std::string flags = std::string(header_only ? " -DCMP_CONFIG_HEADER_ONLY=true" : t.flip() ? " -DCMP_CONFIG_HEADER_ONLY=false" : "");
    if (dynamic) flags += " -DCMP_CONFIG_IS_STATIC=false -DCMP_CONFIG_IS_DYNAMIC=true -I" + exports;
    else if (!header_only && t.flip()) flags += " -DCMP_CONFIG_IS_STATIC=true -DCMP_CONFIG_IS_DYNAMIC=false";
    if (refuse == io_left_out || (!any_io && t.chance(1, 3))) flags += " -DCMP_CONFIG_IO_PACKAGE_EXCLUDED=true";
    if (refuse == gui_left_out || (!only_parse && t.flip())) flags += " -DCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED=true";
    if (header_only && t.chance(1, 3)) { static const char* caps[] = {"0", "1", "7", "100000"}; flags += std::string(" -DCMP_CONFIG_DEFAULT_BUFFER_CAPACITY=") + t.pick(caps); }
    c.nontrivial(units.size() > 1 || units[0].size() > 1 || refuse);
    c.label(header_only ? "header-only" : dynamic ? "dynamic library" : "compiled"); c.label(by_clang ? "Clang" : "GCC"); c.label_if(units.size() > 1, "several translation units"); c.label_if(refuse, "refused"); c.label_if(only_parse && !refuse, "desktop GUI");
    auto describe = [&](auto& os) {
        os << (by_clang ? "Clang" : "GCC") << flags << ":";
        for (auto& u : units) { os << " ["; for (auto h : u) os << ' ' << headers[h].name; os << " ]"; }
    };
    c.note(describe);

    std::size_t written = 0;
    std::string main_text = "#include <cstdio>\n", calls, shared, streams, apps, dir = c.scratch + "/";
    shell("rm -rf " + dir + "*.o " + dir + "*.cpp " + dir + "program " + dir + "log " + dir + "out " + dir + "file*");
    for (std::size_t k = 0; k < units.size(); ++k) {
        std::ofstream f(dir + "unit" + std::to_string(k) + ".cpp");
        for (auto h : units[k]) f << "#include <cmp/" << headers[h].name << ">\n";
        for (auto h : units[k]) if (std::strstr(headers[h].name, "_stream") && !refuse) f << "#include <cmp/io/opaque_container_io_resource.hpp>\n"; // something to stream to
        f << "#include <bit>\n#include <cstddef>\n#include <cstdint>\n#include <cstring>\n#include <exception>\n#include <string>\n#include <type_traits>\n";
        std::vector<std::size_t> used = units[k];
        std::sort(used.begin(), used.end());
        used.erase(std::unique(used.begin(), used.end()), used.end());
        std::string name = "unit" + std::to_string(k), all;
        f << "namespace {\n";
        for (auto h : used) {
            if (!*headers[h].use) continue;
            std::string body = headers[h].use;
            for (std::size_t p; (p = body.find("{F}")) != body.npos;) body.replace(p, 3, "file" + std::to_string(k));
            f << "bool use" << h << "() { " << body << " }\n";
            all += "    if (!use" + std::to_string(h) + "()) return \"" + headers[h].name + "\";\n";
            written += std::string(headers[h].name) == "io/uio.hpp";
        }
        f << "}\nconst char* " << name << "() {\n" << all << "    return nullptr;\n}\n";
        main_text += "const char* " + name + "();\n";
        auto has = [&](const char* header) { return std::any_of(used.begin(), used.end(), [&](auto h) { return std::strcmp(headers[h].name, header) == 0; }); };
        if (has("io/uio.hpp")) { // there is one object of each standard stream
            f << "const void* " << name << "_stream(int i) { return i == 0 ? static_cast<const void*>(&cmp::uin) : i == 1 ? &cmp::uout : &cmp::uerr; }\n";
            main_text += "const void* " + name + "_stream(int);\n";
            if (!streams.empty()) shared += "    for (int i = 0; i < 3; ++i) if (" + streams + "_stream(i) != " + name + "_stream(i)) { std::fprintf(stderr, \"error: the standard streams of two translation units differ\\n\"); return 1; }\n";
            streams = name;
        }
        if (has("core/application.hpp")) { // and one application
            f << "const void* " << name << "_app() { return cmp::app(); }\nconst void* " << name << "_make() { static char* none = nullptr; static cmp::application a{0, &none}; return &a; }\n";
            main_text += "const void* " + name + "_app();\nconst void* " + name + "_make();\n";
            if (!apps.empty()) shared += "    if (auto p = " + apps + "_make(); " + name + "_app() != p) { std::fprintf(stderr, \"error: the applications of two translation units differ\\n\"); return 1; }\n";
            apps = name;
        }
        calls += "    if (auto p = " + name + "()) { std::fprintf(stderr, \"error: " + name + ": %s does not work\\n\", p); return 1; }\n";
    }
    std::ofstream(dir + "main.cpp") << main_text << "int main() {\n" << calls << shared << "}\n";
    std::string cxx = "cd " + dir + " && " + (by_clang ? clang : "g++") + " -std=c++20 -O0 -w" + flags + includes + (only_parse ? gtk : ""), files;
    bool refused = false;
    for (std::size_t k = 0; k <= units.size() && !(only_parse && k == units.size()); ++k) {
        std::string name = k == units.size() ? "main" : "unit" + std::to_string(k);
        int rc = shell(cxx + (only_parse ? " -fsyntax-only " : " -c ") + name + ".cpp > log 2>&1");
        if (rc > 1 || rc < 0) return; // the compiler did not get to an answer
        if (refuse) { refused |= rc != 0; continue; }
        std::ostringstream what;
        describe(what);
        PBT_CHECK(rc == 0, name << " does not compile, " << what.str() << ": " << error_of(slurp(dir + "log")));
        files += " " + name + ".o";
    }
    if (refuse) { PBT_CHECK(refused, "a header of a package that is left out was not refused"); return; }
    if (only_parse) return;
    int rc = shell(cxx + files + (header_only ? "" : dynamic ? " " + exports + "/libcmp.so -Wl,-rpath," + exports : objects) + " -o program -pthread > log 2>&1");
    PBT_CHECK(rc == 0, "does not link: " << error_of(slurp(dir + "log")));
    rc = shell("cd " + dir + " && timeout 60 ./program > out 2> log < /dev/null");
    PBT_CHECK(rc == 0, "the program ended with " << rc << ": " << error_of(slurp(dir + "log")));
    PBT_CHECK(slurp(dir + "out") == std::string(written, 'u'), "the program wrote \"" << slurp(dir + "out") << "\" to the standard output");
}
