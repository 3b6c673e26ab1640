// Wide characters of 16 bits (-fshort-wchar), as Windows has them: the C library's wide functions, which the string classes
// use, for units of that size. Link with --wrap for each.
#pragma once
#include <cstddef>
#include <cstring>
static_assert(sizeof(wchar_t) == 2, "compile with -fshort-wchar");
extern "C" {
wchar_t* __wrap_wmemcpy(wchar_t* d, const wchar_t* s, std::size_t n) { std::memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* __wrap_wmemmove(wchar_t* d, const wchar_t* s, std::size_t n) { std::memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* __wrap_wmemset(wchar_t* d, wchar_t c, std::size_t n) { for (std::size_t i = 0; i < n; ++i) d[i] = c; return d; }
int __wrap_wmemcmp(const wchar_t* a, const wchar_t* b, std::size_t n) { for (std::size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
const wchar_t* __wrap_wmemchr(const wchar_t* a, wchar_t c, std::size_t n) { for (std::size_t i = 0; i < n; ++i) if (a[i] == c) return a + i; return nullptr; }
std::size_t __wrap_wcslen(const wchar_t* a) { std::size_t n = 0; while (a[n]) ++n; return n; }
}
