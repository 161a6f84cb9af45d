// The part of the Windows API that lib/os_win32.cpp and lib/mutex_win32.cpp use, for the simulated kernel in kernel.cpp.
#pragma once
#include <stddef.h>
extern "C"
{
    typedef void* HANDLE; typedef void* LPVOID; typedef const void* LPCVOID;
    typedef unsigned int DWORD; typedef int BOOL; typedef unsigned char BOOLEAN; typedef unsigned long SIZE_T; typedef int LONG; typedef long long LONGLONG;
    typedef const char* LPCSTR; typedef const wchar_t* LPCWSTR; typedef void VOID;
    typedef union _LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
    typedef struct _SECURITY_ATTRIBUTES { DWORD nLength; void* lpSecurityDescriptor; BOOL bInheritHandle; } SECURITY_ATTRIBUTES;
    typedef struct _RTL_SRWLOCK { void* Ptr; } SRWLOCK, *PSRWLOCK;
#define TRUE 1
#define FALSE 0
#ifndef NULL
#define NULL 0
#endif
#define INFINITE 0xFFFFFFFFu
#define WAIT_IO_COMPLETION 0xC0u
#define INVALID_HANDLE_VALUE ((HANDLE)(long)-1)
#define SRWLOCK_INIT { 0 }
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define OPEN_EXISTING 3u
#define OPEN_ALWAYS 4u
#define FILE_ATTRIBUTE_NORMAL 0x80u
#define PAGE_READONLY 2u
#define PAGE_READWRITE 4u
#define PAGE_WRITECOPY 8u
#define FILE_MAP_WRITE 2u
#define FILE_MAP_READ 4u
#define FILE_MAP_COPY 1u
#define MEM_COMMIT 0x1000u
#define MEM_RESERVE 0x2000u
#define MEM_RELEASE 0x8000u
    void OutputDebugStringA(LPCSTR);
    BOOL QueryPerformanceCounter(LARGE_INTEGER*);
    BOOL QueryPerformanceFrequency(LARGE_INTEGER*);
    DWORD SleepEx(DWORD, BOOL);
    void Sleep(DWORD);
    unsigned long long GetTickCount64(void);
    DWORD GetLastError(void);
    HANDLE CreateFileW(LPCWSTR, DWORD access, DWORD share, SECURITY_ATTRIBUTES*, DWORD disposition, DWORD flags, HANDLE tmpl);
    BOOL CloseHandle(HANDLE);
    BOOL GetFileSizeEx(HANDLE, LARGE_INTEGER*);
    HANDLE CreateFileMappingW(HANDLE, SECURITY_ATTRIBUTES*, DWORD protect, DWORD hi, DWORD lo, LPCWSTR name);
    LPVOID MapViewOfFile(HANDLE, DWORD access, DWORD hi, DWORD lo, SIZE_T);
    BOOL UnmapViewOfFile(LPCVOID);
    LPVOID VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD);
    BOOL VirtualFree(LPVOID, SIZE_T, DWORD);
    void InitializeSRWLock(PSRWLOCK);
    void AcquireSRWLockExclusive(PSRWLOCK);
    void AcquireSRWLockShared(PSRWLOCK);
    BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK);
    BOOLEAN TryAcquireSRWLockShared(PSRWLOCK);
    void ReleaseSRWLockExclusive(PSRWLOCK);
    void ReleaseSRWLockShared(PSRWLOCK);
}
