// Stand-ins for the window functions of Windows the library talks to. A "native window" is a Native object.
#pragma once
#include "Windows.h"
#include <cstdlib>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "pbt.hpp"

namespace winfake {
struct Native {
    bool alive = true, realized = true, visible = false, maximized = false, minimized = false, closing = false, sized = false;
    std::wstring title;
    int w = -1, h = -1; // of the client area
    HWND handle() { return reinterpret_cast<HWND>(this); }
};
struct State {
    std::vector<std::unique_ptr<Native>> objects; // destroyed natives stay, to notice their use
    std::vector<Native*> natives;
    std::deque<std::function<void()>> queue, taken;
    std::string complaint;
    std::function<void()> idle;
    WNDPROC procedure = nullptr;
    std::wstring class_name;
    void reset() { queue.clear(); taken.clear(); natives.clear(); objects.clear(); complaint.clear(); idle = nullptr; procedure = nullptr; class_name.clear(); }
    unsigned alive() const { unsigned n = 0; for (auto x : natives) n += x->alive; return n; }
    void complain(const std::string& s) { if (complaint.empty()) complaint = s; }
};
inline State& st = *new State;
inline Native* native(HWND p, const char* what) {
    if (!p) return nullptr; // the real functions fail then
    for (auto n : st.natives) if (n->handle() == p) {
        if (!n->alive) { st.complain(std::string(what) + " on a native window that was destroyed"); return nullptr; }
        return n;
    }
    st.complain(std::string(what) + " on something that is no window");
    return nullptr;
}
inline LRESULT send(Native* n, UINT message, WPARAM w = 0, LPARAM l = 0) { return n->alive ? st.procedure(n->handle(), message, w, l) : 0; }
inline void destroy(Native* n) {
    if (!n->alive) return;
    send(n, WM_DESTROY);
    if (!n->alive) return;
    n->alive = n->visible = n->realized = false;
}
inline void key(Native* n, bool down, std::uint32_t val, std::uint32_t code = 0, std::uint32_t = 0) { send(n, down ? WM_KEYDOWN : WM_KEYUP, val, static_cast<LPARAM>(code)); }
inline void resize(Native* n, int w, int h) { n->w = w; n->h = h; int kind = (w + h) % 5; send(n, WM_SIZE, static_cast<WPARAM>(kind), kind == 1 ? 0 : static_cast<LPARAM>((h & 0xFFFF) << 16 | (w & 0xFFFF))); } // also minimized, maximized
inline void close(Native* n) { send(n, WM_CLOSE); }
inline void present(Native* n) { n->visible = true; }
constexpr std::uint32_t no_modifier{};
constexpr int border_x = 8, border_top = 31, border_bottom = 8;
}

extern "C" {
using winfake::st;
HMODULE GetModuleHandleW(LPCWSTR) { return reinterpret_cast<HMODULE>(&st); }
LPWSTR GetCommandLineW() { static wchar_t line[] = L"p"; return line; }
HICON LoadIconW(HINSTANCE, LPCWSTR) { return nullptr; }
HCURSOR LoadCursorW(HINSTANCE, LPCWSTR) { return nullptr; }
HGDIOBJ GetStockObject(int) { return nullptr; }
ATOM RegisterClassW(const WNDCLASSW* c) {
    st.procedure = c->lpfnWndProc;
    st.class_name = c->lpszClassName;
    return 1;
}
BOOL UnregisterClassW(LPCWSTR, HINSTANCE) { return TRUE; }
HWND CreateWindowExW(DWORD, LPCWSTR cls, LPCWSTR title, DWORD, int, int, int w, int h, HWND, HMENU, HINSTANCE, LPVOID) {
    if (!st.procedure || st.class_name != cls) { st.complain("a window of an unknown class"); return nullptr; }
    st.objects.push_back(std::make_unique<winfake::Native>());
    auto n = st.objects.back().get();
    n->title = title ? title : L"";
    n->w = w - 2 * winfake::border_x;
    n->h = h - winfake::border_top - winfake::border_bottom;
    st.natives.push_back(n);
    winfake::send(n, WM_NCCREATE);
    winfake::send(n, WM_CREATE);
    return n->handle();
}
BOOL DestroyWindow(HWND h) { auto n = winfake::native(h, "DestroyWindow"); if (!n) return FALSE; winfake::destroy(n); return TRUE; }
BOOL IsWindow(HWND h) { for (auto n : st.natives) if (n->handle() == h) return n->alive; return FALSE; }
BOOL ShowWindow(HWND h, int how) {
    auto n = winfake::native(h, "ShowWindow");
    if (!n) return FALSE;
    BOOL before = n->visible;
    n->visible = how != SW_HIDE;
    if (how == SW_SHOWMAXIMIZED) n->maximized = true, n->minimized = false;
    if (how == SW_SHOWMINIMIZED || how == SW_MINIMIZE) n->minimized = true, n->maximized = false;
    if (how == SW_SHOWNORMAL || how == SW_RESTORE) n->minimized = n->maximized = false;
    if (n->visible && !n->sized) { n->sized = true; winfake::send(n, WM_SIZE, 0, static_cast<LPARAM>((n->h & 0xFFFF) << 16 | (n->w & 0xFFFF))); }
    return before;
}
BOOL UpdateWindow(HWND h) { auto n = winfake::native(h, "UpdateWindow"); if (n) winfake::send(n, WM_PAINT); return n != nullptr; }
BOOL IsWindowVisible(HWND h) { auto n = winfake::native(h, "IsWindowVisible"); return n && n->visible; }
BOOL SetWindowTextW(HWND h, LPCWSTR t) { auto n = winfake::native(h, "SetWindowTextW"); if (n) n->title = t ? t : L""; return n != nullptr; }
int GetWindowTextLengthW(HWND h) { auto n = winfake::native(h, "GetWindowTextLengthW"); return n ? static_cast<int>(n->title.size()) : 0; }
int GetWindowTextW(HWND h, LPWSTR p, int max) {
    auto n = winfake::native(h, "GetWindowTextW");
    if (!n || max <= 0) { if (max > 0) *p = 0; return 0; }
    int k = std::min<int>(max - 1, static_cast<int>(n->title.size()));
    std::memcpy(p, n->title.data(), static_cast<std::size_t>(k) * sizeof(wchar_t));
    p[k] = 0;
    return k;
}
BOOL AdjustWindowRect(LPRECT r, DWORD, BOOL) { r->left -= winfake::border_x; r->right += winfake::border_x; r->top -= winfake::border_top; r->bottom += winfake::border_bottom; return TRUE; }
BOOL GetClientRect(HWND h, LPRECT r) { auto n = winfake::native(h, "GetClientRect"); if (n) *r = {0, 0, n->w, n->h}; return n != nullptr; }
int GetSystemMetrics(int k) { return k == SM_CXSCREEN ? 1920 : 1080; }
BOOL PeekMessageW(LPMSG m, HWND, UINT, UINT, UINT remove) {
    if (st.queue.empty() && st.idle) st.idle();
    if (st.queue.empty()) return FALSE;
    *m = {};
    m->message = 0xC000;
    if (remove & PM_REMOVE) { st.taken.push_back(st.queue.front()); st.queue.pop_front(); }
    return TRUE;
}
BOOL GetMessageW(LPMSG m, HWND h, UINT a, UINT b) { while (!PeekMessageW(m, h, a, b, PM_REMOVE)) {} return TRUE; }
BOOL TranslateMessage(const MSG*) { return FALSE; }
LRESULT DispatchMessageW(const MSG*) { if (!st.taken.empty()) { auto f = st.taken.front(); st.taken.pop_front(); f(); } return 0; }
LRESULT DefWindowProcW(HWND h, UINT message, WPARAM, LPARAM) { if (message == WM_CLOSE) DestroyWindow(h); return message == WM_NCCREATE ? TRUE : 0; }
LRESULT SendMessageW(HWND h, UINT message, WPARAM w, LPARAM l) { auto n = winfake::native(h, "SendMessageW"); return n ? winfake::send(n, message, w, l) : 0; }
BOOL PostMessageW(HWND h, UINT message, WPARAM w, LPARAM l) { auto n = winfake::native(h, "PostMessageW"); if (n) st.queue.push_back([=] { winfake::send(n, message, w, l); }); return n != nullptr; }
void PostQuitMessage(int) {}
// not used by windows
HANDLE CreateFileW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE) { std::abort(); }
BOOL ReadFile(HANDLE, LPVOID, DWORD, LPDWORD, LPOVERLAPPED) { std::abort(); }
BOOL WriteFile(HANDLE, LPCVOID, DWORD, LPDWORD, LPOVERLAPPED) { std::abort(); }
BOOL SetFilePointerEx(HANDLE, LARGE_INTEGER, PLARGE_INTEGER, DWORD) { std::abort(); }
BOOL CloseHandle(HANDLE) { std::abort(); }
BOOL ReadConsoleW(HANDLE, LPVOID, DWORD, LPDWORD, LPVOID) { std::abort(); }
HANDLE GetStdHandle(DWORD) { return nullptr; }
BOOL SetConsoleOutputCP(UINT) { return TRUE; }
}
