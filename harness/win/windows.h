// A stand-in for the part of the Win32 interface lib/os_win32.cpp and lib/mutex_win32.cpp use (and some neighbours of it).
// Declarations only; the harness defines what they do. LONG and DWORD are 32 bits as there; wchar_t texts hold UTF-16.
#pragma once
extern "C"
{
    typedef int BOOL; typedef unsigned int DWORD, UINT, ULONG; typedef int LONG; typedef unsigned char BYTE, BOOLEAN; typedef long long LONGLONG; typedef unsigned long long ULONGLONG;
    typedef void* HANDLE; typedef void* PVOID; typedef void* LPVOID; typedef void const* LPCVOID; typedef unsigned long SIZE_T; typedef unsigned long ULONG_PTR;
    typedef char const* LPCSTR; typedef wchar_t const* LPCWSTR; typedef wchar_t WCHAR; typedef DWORD* LPDWORD; typedef void* LPSECURITY_ATTRIBUTES; typedef HANDLE* PHANDLE;
    typedef union { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
    typedef LARGE_INTEGER* PLARGE_INTEGER;
    typedef struct { PVOID Ptr; } SRWLOCK, *PSRWLOCK;

    void OutputDebugStringA(LPCSTR);
    BOOL QueryPerformanceCounter(LARGE_INTEGER*);
    BOOL QueryPerformanceFrequency(LARGE_INTEGER*);
    DWORD SleepEx(DWORD, BOOL);
    void Sleep(DWORD);
    DWORD GetLastError();
    void SetLastError(DWORD);
    HANDLE CreateFileW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE);
    BOOL CloseHandle(HANDLE);
    BOOL GetFileSizeEx(HANDLE, PLARGE_INTEGER);
    DWORD GetFileSize(HANDLE, LPDWORD);
    HANDLE CreateFileMappingW(HANDLE, LPSECURITY_ATTRIBUTES, DWORD, DWORD, DWORD, LPCWSTR);
    LPVOID MapViewOfFile(HANDLE, DWORD, DWORD, DWORD, SIZE_T);
    BOOL UnmapViewOfFile(LPCVOID);
    LPVOID VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD);
    BOOL VirtualFree(LPVOID, SIZE_T, DWORD);

    void InitializeSRWLock(PSRWLOCK);
    BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK);
    void AcquireSRWLockExclusive(PSRWLOCK);
    void ReleaseSRWLockExclusive(PSRWLOCK);
    BOOLEAN TryAcquireSRWLockShared(PSRWLOCK);
    void AcquireSRWLockShared(PSRWLOCK);
    void ReleaseSRWLockShared(PSRWLOCK);
}
#define WINAPI
#define TRUE 1
#define FALSE 0
#ifndef NULL
#define NULL 0
#endif
#define INFINITE 0xffffffffu
#define INVALID_HANDLE_VALUE ((HANDLE)(long)-1)
#define INVALID_FILE_SIZE 0xffffffffu
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define CREATE_NEW 1u
#define CREATE_ALWAYS 2u
#define OPEN_EXISTING 3u
#define OPEN_ALWAYS 4u
#define TRUNCATE_EXISTING 5u
#define FILE_ATTRIBUTE_NORMAL 0x80u
#define FILE_ATTRIBUTE_READONLY 1u
#define FILE_FLAG_SEQUENTIAL_SCAN 0x08000000u
#define FILE_FLAG_RANDOM_ACCESS 0x10000000u
#define FILE_FLAG_DELETE_ON_CLOSE 0x04000000u
#define PAGE_NOACCESS 1u
#define PAGE_READONLY 2u
#define PAGE_READWRITE 4u
#define PAGE_WRITECOPY 8u
#define FILE_MAP_COPY 1u
#define FILE_MAP_WRITE 2u
#define FILE_MAP_READ 4u
#define FILE_MAP_ALL_ACCESS 0xf001fu
#define MEM_COMMIT 0x1000u
#define MEM_RESERVE 0x2000u
#define MEM_RELEASE 0x8000u
#define MEM_TOP_DOWN 0x100000u
#define WAIT_IO_COMPLETION 0xc0u
#define ERROR_FILE_NOT_FOUND 2u
#define SRWLOCK_INIT { 0 }
