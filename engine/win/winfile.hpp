// The file functions of the Windows stand-in, over this system's files. A handle is a descriptor plus one.
#pragma once
#include "Windows.h"
#include <cerrno>
#include <string>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace winfile {
inline DWORD last_error;
inline HANDLE handle(int fd) { return reinterpret_cast<HANDLE>(static_cast<LONG_PTR>(fd) + 1); }
inline int descriptor(HANDLE h) {
    if (h == INVALID_HANDLE_VALUE || h == nullptr) return -1;
    return static_cast<int>(reinterpret_cast<LONG_PTR>(h)) - 1;
}
inline BOOL fail(DWORD e) { last_error = e; return FALSE; }
}
extern "C" {
DWORD GetLastError() { return winfile::last_error; }
void SetLastError(DWORD e) { winfile::last_error = e; }
HANDLE CreateFileW(LPCWSTR name, DWORD access, DWORD, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD, HANDLE) {
    std::string path;
    for (; *name; ++name) { // this system's wide characters are code points, and its names UTF-8
        auto u = static_cast<std::uint32_t>(*name);
        if (u < 0x80) path += static_cast<char>(u);
        else {
            int more = u < 0x800 ? 1 : u < 0x10000 ? 2 : 3;
            path += static_cast<char>((0xFF00 >> (more + 1) & 0xFF) | (u >> 6 * more));
            while (more--) path += static_cast<char>(0x80 | (u >> 6 * more & 0x3F));
        }
    }
    int flags = (access & GENERIC_READ) && (access & GENERIC_WRITE) ? O_RDWR : (access & GENERIC_WRITE) ? O_WRONLY : O_RDONLY;
    struct stat s;
    bool there = ::stat(path.c_str(), &s) == 0;
    if (there && S_ISDIR(s.st_mode)) { winfile::last_error = ERROR_ACCESS_DENIED; return INVALID_HANDLE_VALUE; }
    switch (disposition) {
        case CREATE_NEW: flags |= O_CREAT | O_EXCL; break;
        case CREATE_ALWAYS: flags |= O_CREAT | O_TRUNC; break;
        case OPEN_EXISTING: break;
        case OPEN_ALWAYS: flags |= O_CREAT; break;
        case TRUNCATE_EXISTING: flags |= O_TRUNC; break;
        default: winfile::last_error = 87; return INVALID_HANDLE_VALUE;
    }
    int fd = ::open(path.c_str(), flags | O_CLOEXEC, 0666);
    if (fd < 0) { winfile::last_error = there ? ERROR_ACCESS_DENIED : ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; }
    winfile::last_error = there && (disposition == OPEN_ALWAYS || disposition == CREATE_ALWAYS) ? ERROR_ALREADY_EXISTS : ERROR_SUCCESS;
    return winfile::handle(fd);
}
BOOL ReadFile(HANDLE h, LPVOID p, DWORD n, LPDWORD done, LPOVERLAPPED) {
    *done = 0;
    ssize_t k = ::read(winfile::descriptor(h), p, n);
    if (k < 0) return winfile::fail(errno == EBADF && winfile::descriptor(h) >= 0 ? ERROR_ACCESS_DENIED : ERROR_INVALID_HANDLE);
    *done = static_cast<DWORD>(k);
    return TRUE;
}
BOOL WriteFile(HANDLE h, LPCVOID p, DWORD n, LPDWORD done, LPOVERLAPPED) {
    *done = 0;
    ssize_t k = ::write(winfile::descriptor(h), p, n);
    if (k < 0) return winfile::fail(ERROR_INVALID_HANDLE);
    *done = static_cast<DWORD>(k);
    return TRUE;
}
BOOL SetFilePointerEx(HANDLE h, LARGE_INTEGER d, PLARGE_INTEGER out, DWORD how) {
    off_t r = ::lseek(winfile::descriptor(h), d.QuadPart, how == FILE_BEGIN ? SEEK_SET : how == FILE_CURRENT ? SEEK_CUR : SEEK_END);
    if (r < 0) return winfile::fail(errno == EINVAL ? ERROR_NEGATIVE_SEEK : ERROR_INVALID_HANDLE);
    if (out) out->QuadPart = r;
    return TRUE;
}
BOOL GetFileSizeEx(HANDLE h, PLARGE_INTEGER out) {
    struct stat s;
    if (::fstat(winfile::descriptor(h), &s)) return winfile::fail(ERROR_INVALID_HANDLE);
    out->QuadPart = s.st_size;
    return TRUE;
}
BOOL FlushFileBuffers(HANDLE h) { return winfile::descriptor(h) >= 0 ? TRUE : winfile::fail(ERROR_INVALID_HANDLE); }
BOOL CloseHandle(HANDLE h) {
    if (winfile::descriptor(h) < 0) return winfile::fail(ERROR_INVALID_HANDLE);
    return ::close(winfile::descriptor(h)) == 0 ? TRUE : winfile::fail(ERROR_INVALID_HANDLE);
}
}
