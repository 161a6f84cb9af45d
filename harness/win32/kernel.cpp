// A small simulated Windows kernel: locks, clock, sleep, debug output, files, mappings.  All state is plain static data,
// which the runtime restores before every run.
#include "kernel.h"
#include "windows.h"
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
using namespace k32;

namespace
{
    struct File { const char16_t* name; size_t len; char head[256]; size_t head_n; u64 size; };
    struct Obj { int kind; /* 0 closed 1 file 2 mapping */ int file; u64 size; int owner; };
    struct Mapped { u8* base; View v; };
    File files[16]; int nfiles;
    Obj objs[64];
    Mapped maps[128]; int nmaps;
    u64 fails[MAXF + 1], inject[MAXF + 1], misused;
    DWORD last_error;
    struct Lock { pthread_rwlock_t rw; void* at; bool ex; int shared; };
    Lock locks[64]; int nlocks;

    int me() { int s = self(); return s < 0 ? MAXF : s; }
    bool injected() { point(); if (decide(K_OSFAIL, 2)) { inject[me()]++; fails[me()]++; last_error = 8; point(); return true; } return false; }
    template<class T> T failed(T v, DWORD e) { fails[me()]++; last_error = e; return v; }
    constexpr u64 TAG = 0x5157000000000001ull;
    Lock& lock_of(SRWLOCK* p)
    {
        if (u64(p) % 8) fail("lock-storage", "a lock object is not aligned");
        u64 v; memcpy(&v, p, 8);
        if (v == 0)
        {
            int n = 0;
            while (n < nlocks && locks[n].at != p && is_live(locks[n].at, 8)) ++n; // a lock whose memory is gone leaves its place
            if (n >= 64) { dprintf(2, "kernel: too many locks\n"); _Exit(3); }
            if (n == nlocks) nlocks++;
            auto& l = locks[n]; memset(&l, 0, sizeof l); l.at = p; v = TAG + 2 * u64(n + 1); memcpy(static_cast<void*>(p), &v, 8);
        }
        u64 k = (v - TAG) / 2 - 1;
        if (k >= u64(nlocks) || locks[k].at != p) fail("lock-storage", "a lock operation on memory that holds no initialised lock");
        return locks[k];
    }
    Obj* obj(HANDLE h, int kind)
    {
        u64 v = u64(h);
        if (v % 4 || v / 4 == 0 || v / 4 > 64 || objs[v / 4 - 1].kind != kind) { misused++; return nullptr; }
        return &objs[v / 4 - 1];
    }
    HANDLE fresh(int kind, int file, u64 size, HANDLE none)
    {
        for (int i = 0; i < 64; ++i) if (!objs[i].kind) { objs[i] = { kind, file, size, me() }; return HANDLE(u64(i + 1) * 4); } // handle values are reused at once
        return none;
    }
}

namespace k32
{
    int add_file(const char16_t* name, size_t len, const std::string& head, u64 size)
    {
        auto& f = files[nfiles]; memset(&f, 0, sizeof f); f.name = name; f.len = len; f.head_n = head.size() < 256 ? head.size() : 256; memcpy(f.head, head.data(), f.head_n); f.size = size; return nfiles++;
    }
    void resize_file(int id, u64 size) { files[id].size = size; }
    int handles_of(int f) { int n = 0; for (auto& o : objs) n += o.kind && o.owner == f; return n; }
    int views_of(int f) { int n = 0; for (int i = 0; i < nmaps; ++i) n += maps[i].v.live && maps[i].v.owner == f; return n; }
    int handles() { int n = 0; for (auto& o : objs) n += o.kind != 0; return n; }
    int views() { int n = 0; for (int i = 0; i < nmaps; ++i) n += maps[i].v.live; return n; }
    bool view_at(const void* p, View& v) { for (int i = 0; i < nmaps; ++i) if (maps[i].v.live && maps[i].v.data == p) { v = maps[i].v; return true; } return false; }
    bool handle_open(const void* h) { u64 v = u64(h); return v % 4 == 0 && v / 4 >= 1 && v / 4 <= 64 && objs[v / 4 - 1].kind; }
    u64 failures_of(int f) { return fails[f < 0 ? MAXF : f]; }
    u64 injected_of(int f) { return inject[f < 0 ? MAXF : f]; }
    u64 misuse() { return misused; }
}

extern "C"
{
    void OutputDebugStringA(LPCSTR s)
    {
        if (!s) return;
        for (size_t n = strlen(s); n;) { ssize_t k = write(2, s, n); if (k > 0) s += k, n -= size_t(k); else if (k < 0 && errno != EINTR) return; }
    }
    BOOL QueryPerformanceCounter(LARGE_INTEGER* p) { point(); acc_write(p, 8); p->QuadPart = LONGLONG(now() / 100); point(); return TRUE; }
    BOOL QueryPerformanceFrequency(LARGE_INTEGER* p) { point(); acc_write(p, 8); p->QuadPart = 10000000; return TRUE; }
    unsigned long long GetTickCount64(void) { point(); return now() / 15625000 * 15625 / 1000; }
    DWORD GetLastError(void) { return last_error; }
    DWORD SleepEx(DWORD ms, BOOL alertable)
    {
        u64 ns = ms == INFINITE ? u64(1) << 62 : u64(ms) * 1000000;
        struct timespec ts{ time_t(ns / 1000000000), long(ns % 1000000000) };
        while (nanosleep(&ts, &ts) == -1 && errno == EINTR) if (alertable) return WAIT_IO_COMPLETION; // an APC ran
        return 0;
    }
    void Sleep(DWORD ms) { SleepEx(ms, FALSE); }

    HANDLE CreateFileW(LPCWSTR name, DWORD access, DWORD share, SECURITY_ATTRIBUTES*, DWORD disposition, DWORD, HANDLE)
    {
        if (injected()) return INVALID_HANDLE_VALUE;
        static_assert(sizeof(wchar_t) == 2, "");
        if (access != GENERIC_READ || disposition != OPEN_EXISTING) return failed(INVALID_HANDLE_VALUE, 5);
        (void)share;
        size_t n = 0; auto s = reinterpret_cast<const char16_t*>(name); while (s[n] && n < 2000) ++n;
        for (int i = 0; i < nfiles; ++i) if (files[i].len == n && !memcmp(files[i].name, s, n * 2)) return fresh(1, i, 0, INVALID_HANDLE_VALUE);
        return failed(INVALID_HANDLE_VALUE, 2);
    }
    BOOL CloseHandle(HANDLE h)
    {
        point();
        u64 v = u64(h);
        if (v % 4 || v / 4 == 0 || v / 4 > 64 || !objs[v / 4 - 1].kind) { misused++; return failed(FALSE, 6); }
        objs[v / 4 - 1].kind = 0; point();
        return TRUE;
    }
    BOOL GetFileSizeEx(HANDLE h, LARGE_INTEGER* p)
    {
        if (injected()) return FALSE;
        Obj* o = obj(h, 1); if (!o) return failed(FALSE, 6);
        acc_write(p, 8); p->QuadPart = LONGLONG(files[o->file].size); point();
        return TRUE;
    }
    HANDLE CreateFileMappingW(HANDLE h, SECURITY_ATTRIBUTES*, DWORD protect, DWORD hi, DWORD lo, LPCWSTR)
    {
        if (injected()) return nullptr;
        Obj* o = obj(h, 1); if (!o) return failed(HANDLE(nullptr), 6);
        if (protect != PAGE_READONLY && protect != PAGE_WRITECOPY) return failed(HANDLE(nullptr), 5);
        u64 want = u64(hi) << 32 | lo, size = files[o->file].size;
        if (want == 0) want = size;
        if (want == 0) return failed(HANDLE(nullptr), 1006);
        if (want > size) return failed(HANDLE(nullptr), 8); // a read-only mapping cannot extend the file
        return fresh(2, o->file, want, nullptr);
    }
    LPVOID MapViewOfFile(HANDLE h, DWORD access, DWORD hi, DWORD lo, SIZE_T n)
    {
        if (injected()) return nullptr;
        Obj* o = obj(h, 2); if (!o) return failed(LPVOID(nullptr), 6);
        u64 off = u64(hi) << 32 | lo;
        if (access & FILE_MAP_WRITE || off % 65536 || off > o->size || n > o->size - off || nmaps >= 128) return failed(LPVOID(nullptr), 5);
        u64 size = n ? n : o->size - off;
        u64 backed = size < 4096 ? size : 4096; // large views are windows onto their first page here
        u8* p = static_cast<u8*>(alloc(backed, 16)); memset(p, 0, backed); acc_write(p, backed);
        auto& f = files[o->file]; if (off < f.head_n) memcpy(p, f.head + off, f.head_n - off < backed ? f.head_n - off : backed);
        maps[nmaps++] = { p, { p, size, o->file, me(), true } }; point();
        return p;
    }
    BOOL UnmapViewOfFile(LPCVOID p)
    {
        point();
        for (int i = 0; i < nmaps; ++i) if (maps[i].v.live && maps[i].base == p) { maps[i].v.live = false; release(maps[i].base); return TRUE; }
        if (p) misused++;
        return failed(FALSE, 487);
    }
    LPVOID VirtualAlloc(LPVOID at, SIZE_T n, DWORD type, DWORD protect)
    {
        if (injected()) return nullptr;
        if (at || n == 0 || n > u64(1) << 40 || !(type & MEM_COMMIT) || protect != PAGE_READWRITE) return failed(LPVOID(nullptr), 87);
        u64 pages = (n + 4095) / 4096 * 4096; if (pages > 1 << 20) return failed(LPVOID(nullptr), 8);
        u8* p = static_cast<u8*>(alloc(pages, 4096)); acc_write(p, pages); memset(p, 0, pages); return p;
    }
    BOOL VirtualFree(LPVOID p, SIZE_T, DWORD) { release(p); return TRUE; }

    void InitializeSRWLock(SRWLOCK* p) { point(); if (!is_live(p, 8)) fail("lock-storage", "a lock object reaches outside the mutex storage"); u64 z = 0; acc_write(p, 8); memcpy(static_cast<void*>(p), &z, 8); point(); }
    void AcquireSRWLockExclusive(SRWLOCK* p) { point(); auto& l = lock_of(p); pthread_rwlock_wrlock(&l.rw); l.ex = true; }
    BOOLEAN TryAcquireSRWLockExclusive(SRWLOCK* p) { point(); auto& l = lock_of(p); if (pthread_rwlock_trywrlock(&l.rw)) return FALSE; l.ex = true; return TRUE; }
    void AcquireSRWLockShared(SRWLOCK* p) { point(); auto& l = lock_of(p); while (pthread_rwlock_rdlock(&l.rw) == EAGAIN) point(); l.shared++; }
    BOOLEAN TryAcquireSRWLockShared(SRWLOCK* p) { point(); auto& l = lock_of(p); int e; while ((e = pthread_rwlock_tryrdlock(&l.rw)) == EAGAIN) point(); if (e) return FALSE; l.shared++; return TRUE; }
    void ReleaseSRWLockExclusive(SRWLOCK* p) { auto& l = lock_of(p); if (!l.ex) fail("lock-misuse", "an exclusive release of a lock that is not held exclusively (STATUS_RESOURCE_NOT_OWNED)"); l.ex = false; pthread_rwlock_unlock(&l.rw); }
    void ReleaseSRWLockShared(SRWLOCK* p) { auto& l = lock_of(p); if (!l.shared) fail("lock-misuse", "a shared release of a lock that is not held shared (STATUS_RESOURCE_NOT_OWNED)"); l.shared--; pthread_rwlock_unlock(&l.rw); }
}
