// The guarantees of G01 for the library's Windows windows, over a stand-in for the window functions of Windows.
#define GUI_ID "W03"
#include "G01.cpp"
#if !defined(CMP_OS_WINDOWS)
#error "this harness needs the Windows sources of the library"
#endif
