// The guarantees of G01 for the library's macOS windows, over a stand-in for AppKit.
#define GUI_ID "M01"
#include "G01.cpp"
#if !defined(CMP_OS_MACOS)
#error "this harness needs the macOS sources of the library"
#endif
