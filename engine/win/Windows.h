// A stand-in for the parts of the Windows interface that the library uses, so that its Windows sources can be
// compiled and run here. Declarations only: winfile.hpp, wincon.hpp and winfake.hpp define what each harness needs.
// Differences from the real header: wchar_t has 32 bits on this machine, so wide strings are UTF-32 here, while WCHAR,
// of which the library only takes the size, is a 16-bit unit of console input as it is on Windows.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
using BOOL = int;
#ifdef CCL_WIN_SMALL_DWORD // so that transfers of more than one block of DWORD bytes are ordinary
using DWORD = std::uint8_t;
#else
using DWORD = std::uint32_t;
#endif
using UINT = unsigned int;
using INT = int;
using LONG = std::int32_t;
using WORD = std::uint16_t;
using ATOM = WORD;
using HRESULT = std::int32_t;
using WCHAR = char16_t;
using LPWSTR = wchar_t*;
using LPCWSTR = const wchar_t*;
using PWSTR = wchar_t*;
using LPSTR = char*;
using LPCSTR = const char*;
using LPVOID = void*;
using LPCVOID = const void*;
using LPDWORD = DWORD*;
using PVOID = void*;
using HANDLE = void*;
using ULONG_PTR = std::uintptr_t;
using LONG_PTR = std::intptr_t;
using WPARAM = ULONG_PTR;
using LPARAM = LONG_PTR;
using LRESULT = LONG_PTR;
struct HWND__ { int unused; };
struct HINSTANCE__ { int unused; };
struct HICON__ { int unused; };
struct HBRUSH__ { int unused; };
struct HMENU__ { int unused; };
using HWND = HWND__*;
using HINSTANCE = HINSTANCE__*;
using HMODULE = HINSTANCE;
using HICON = HICON__*;
using HCURSOR = HICON;
using HBRUSH = HBRUSH__*;
using HMENU = HMENU__*;
using HGDIOBJ = void*;
#define CALLBACK
#define WINAPI
#define TRUE 1
#define FALSE 0
#ifndef NULL
#define NULL 0
#endif
#define INVALID_HANDLE_VALUE (reinterpret_cast<HANDLE>(static_cast<LONG_PTR>(-1)))

// ------------------------------------------------------------------ files
#ifdef CCL_WIN_SMALL_DWORD
#define GENERIC_READ 0x80u
#define GENERIC_WRITE 0x40u
#else
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#endif
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define CREATE_NEW 1u
#define CREATE_ALWAYS 2u
#define OPEN_EXISTING 3u
#define OPEN_ALWAYS 4u
#define TRUNCATE_EXISTING 5u
#define FILE_ATTRIBUTE_NORMAL 0x80u
#define FILE_BEGIN 0u
#define FILE_CURRENT 1u
#define FILE_END 2u
#define ERROR_SUCCESS 0u
#define ERROR_FILE_NOT_FOUND 2u
#define ERROR_PATH_NOT_FOUND 3u
#define ERROR_ACCESS_DENIED 5u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_FILE_EXISTS 80u
#define ERROR_NEGATIVE_SEEK 131u
#define ERROR_ALREADY_EXISTS 183u
struct SECURITY_ATTRIBUTES { DWORD nLength; LPVOID lpSecurityDescriptor; BOOL bInheritHandle; };
using LPSECURITY_ATTRIBUTES = SECURITY_ATTRIBUTES*;
struct OVERLAPPED;
using LPOVERLAPPED = OVERLAPPED*;
union LARGE_INTEGER { struct { std::uint32_t LowPart; LONG HighPart; }; std::int64_t QuadPart; };
using PLARGE_INTEGER = LARGE_INTEGER*;
extern "C" {
HANDLE CreateFileW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE);
BOOL ReadFile(HANDLE, LPVOID, DWORD, LPDWORD, LPOVERLAPPED);
BOOL WriteFile(HANDLE, LPCVOID, DWORD, LPDWORD, LPOVERLAPPED);
BOOL SetFilePointerEx(HANDLE, LARGE_INTEGER, PLARGE_INTEGER, DWORD);
BOOL GetFileSizeEx(HANDLE, PLARGE_INTEGER);
BOOL FlushFileBuffers(HANDLE);
BOOL CloseHandle(HANDLE);
DWORD GetLastError();
void SetLastError(DWORD);
}

// ---------------------------------------------------------------- console
#define STD_INPUT_HANDLE (static_cast<DWORD>(-10))
#define STD_OUTPUT_HANDLE (static_cast<DWORD>(-11))
#define STD_ERROR_HANDLE (static_cast<DWORD>(-12))
#define CP_UTF8 65001u
extern "C" {
HANDLE GetStdHandle(DWORD);
BOOL ReadConsoleW(HANDLE, LPVOID, DWORD, LPDWORD, LPVOID);
BOOL WriteConsoleW(HANDLE, const void*, DWORD, LPDWORD, LPVOID);
BOOL SetConsoleOutputCP(UINT);
BOOL SetConsoleCP(UINT);
BOOL GetConsoleMode(HANDLE, LPDWORD);
BOOL SetConsoleMode(HANDLE, DWORD);
}

// ---------------------------------------------------------------- windows
#define CS_VREDRAW 1u
#define CS_HREDRAW 2u
#define WS_OVERLAPPEDWINDOW 0x00CF0000u
#define SW_HIDE 0
#define SW_SHOWNORMAL 1
#define SW_SHOWMINIMIZED 2
#define SW_SHOWMAXIMIZED 3
#define SW_MAXIMIZE 3
#define SW_SHOW 5
#define SW_MINIMIZE 6
#define SW_RESTORE 9
#define SM_CXSCREEN 0
#define SM_CYSCREEN 1
#define WHITE_BRUSH 0
#define PM_NOREMOVE 0u
#define PM_REMOVE 1u
#define WM_CREATE 0x0001u
#define WM_DESTROY 0x0002u
#define WM_SIZE 0x0005u
#define WM_PAINT 0x000Fu
#define WM_CLOSE 0x0010u
#define WM_QUIT 0x0012u
#define WM_SHOWWINDOW 0x0018u
#define WM_NCCREATE 0x0081u
#define WM_NCDESTROY 0x0082u
#define WM_KEYDOWN 0x0100u
#define WM_KEYUP 0x0101u
#define WM_CHAR 0x0102u
#define WM_SYSKEYDOWN 0x0104u
#define WM_SYSKEYUP 0x0105u
#define IDI_APPLICATION (reinterpret_cast<LPCWSTR>(static_cast<ULONG_PTR>(32512)))
#define IDC_ARROW (reinterpret_cast<LPCWSTR>(static_cast<ULONG_PTR>(32512)))
#define CW_USEDEFAULT (static_cast<int>(0x80000000u))
#define GWLP_USERDATA (-21)
#define VK_SPACE 0x20
#define VK_NUMPAD0 0x60
#define VK_NUMPAD1 0x61
#define VK_NUMPAD2 0x62
#define VK_NUMPAD3 0x63
#define VK_NUMPAD4 0x64
#define VK_NUMPAD5 0x65
#define VK_NUMPAD6 0x66
#define VK_NUMPAD7 0x67
#define VK_NUMPAD8 0x68
#define VK_NUMPAD9 0x69
#define VK_F1 0x70
#define VK_F2 0x71
#define VK_F3 0x72
#define VK_F4 0x73
#define VK_F5 0x74
#define VK_F6 0x75
#define VK_F7 0x76
#define VK_F8 0x77
#define VK_F9 0x78
#define VK_F10 0x79
#define VK_F11 0x7A
#define VK_F12 0x7B
#define VK_F13 0x7C
#define VK_F14 0x7D
#define VK_F15 0x7E
#define VK_F16 0x7F
#define VK_F17 0x80
#define VK_F18 0x81
#define VK_F19 0x82
#define VK_F20 0x83
#define VK_F21 0x84
#define VK_F22 0x85
#define VK_F23 0x86
#define VK_F24 0x87
using WNDPROC = LRESULT(CALLBACK*)(HWND, UINT, WPARAM, LPARAM);
struct POINT { LONG x, y; };
struct RECT { LONG left, top, right, bottom; };
using LPRECT = RECT*;
struct MSG { HWND hwnd; UINT message; WPARAM wParam; LPARAM lParam; DWORD time; POINT pt; };
using LPMSG = MSG*;
struct WNDCLASSW { UINT style; WNDPROC lpfnWndProc; int cbClsExtra; int cbWndExtra; HINSTANCE hInstance; HICON hIcon; HCURSOR hCursor; HBRUSH hbrBackground; LPCWSTR lpszMenuName; LPCWSTR lpszClassName; };
#define ZeroMemory(p, n) (std::memset((p), 0, (n)))
extern "C" {
HMODULE GetModuleHandleW(LPCWSTR);
LPWSTR GetCommandLineW();
ATOM RegisterClassW(const WNDCLASSW*);
BOOL UnregisterClassW(LPCWSTR, HINSTANCE);
HICON LoadIconW(HINSTANCE, LPCWSTR);
HCURSOR LoadCursorW(HINSTANCE, LPCWSTR);
HGDIOBJ GetStockObject(int);
HWND CreateWindowExW(DWORD, LPCWSTR, LPCWSTR, DWORD, int, int, int, int, HWND, HMENU, HINSTANCE, LPVOID);
BOOL DestroyWindow(HWND);
BOOL IsWindow(HWND);
BOOL ShowWindow(HWND, int);
BOOL UpdateWindow(HWND);
BOOL IsWindowVisible(HWND);
BOOL SetWindowTextW(HWND, LPCWSTR);
int GetWindowTextW(HWND, LPWSTR, int);
int GetWindowTextLengthW(HWND);
BOOL AdjustWindowRect(LPRECT, DWORD, BOOL);
BOOL GetClientRect(HWND, LPRECT);
int GetSystemMetrics(int);
BOOL PeekMessageW(LPMSG, HWND, UINT, UINT, UINT);
BOOL GetMessageW(LPMSG, HWND, UINT, UINT);
BOOL TranslateMessage(const MSG*);
LRESULT DispatchMessageW(const MSG*);
LRESULT DefWindowProcW(HWND, UINT, WPARAM, LPARAM);
LRESULT SendMessageW(HWND, UINT, WPARAM, LPARAM);
BOOL PostMessageW(HWND, UINT, WPARAM, LPARAM);
void PostQuitMessage(int);
}
#define LoadIcon LoadIconW
#define LoadCursor LoadCursorW
#define CreateWindowW(a, b, c, d, e, f, g, h, i, j, k) CreateWindowExW(0, a, b, c, d, e, f, g, h, i, j, k)
