// The guarantees of G02 for the library's macOS windows, over a stand-in for AppKit.
#define GUI_ID "M02"
#include "G02.cpp"
#if !defined(CMP_OS_MACOS)
#error "this harness needs the macOS sources of the library"
#endif
