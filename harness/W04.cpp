// The guarantees of G02 for the library's Windows windows, over a stand-in for the window functions of Windows.
#include "win/shortwide.hpp"
#define GUI_ID "W04"
#include "G02.cpp"
#if !defined(CMP_OS_WINDOWS)
#error "this harness needs the Windows sources of the library"
#endif
