// W02: the Windows mutexes over slim reader/writer locks: one holder, or any number of readers; holders are ordered.
// The locks are stand-ins with the documented contract: one word, no owner, not recursive, exclusive and shared releases not interchangeable.
#include "kit.h"
#include "ce/ce.h"
#undef CE_API_WIN32
#define CE_API_WIN32 1
#include "ce/mutex.h"
#include "team.h"
#include "win/windows.h"
#include <unistd.h>

// 0 free, -1 exclusive, n readers; a writer which waits keeps no one out
static std::atomic<long>& word(PSRWLOCK l) { return *reinterpret_cast<std::atomic<long>*>(&l->Ptr); }
static void misuse(char const* what)
{
    fprintf(stderr, "KIT-FAIL any:0 [misuse] %s\n", what);
    fflush(stderr);
    _exit(0x4b);
}
static std::atomic<uint64_t> g_calls{ 0 };
extern "C"
{
    void InitializeSRWLock(PSRWLOCK l) { new (&l->Ptr) std::atomic<long>(0); }
    BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK l) { long e = 0; g_calls.fetch_add(1, std::memory_order_relaxed); return word(l).compare_exchange_strong(e, -1, std::memory_order_acquire, std::memory_order_relaxed) ? 0x10 : 0; }
    void AcquireSRWLockExclusive(PSRWLOCK l)
    {
        g_calls.fetch_add(1, std::memory_order_relaxed);
        unsigned s = 0;
        for (long e = 0; !word(l).compare_exchange_weak(e, -1, std::memory_order_acquire, std::memory_order_relaxed); e = 0) kit::relax(s);
    }
    void ReleaseSRWLockExclusive(PSRWLOCK l)
    {
        if (word(l).load(std::memory_order_relaxed) != -1) misuse("an exclusive release of a lock not held exclusively");
        word(l).store(0, std::memory_order_release);
    }
    BOOLEAN TryAcquireSRWLockShared(PSRWLOCK l)
    {
        g_calls.fetch_add(1, std::memory_order_relaxed);
        long e = word(l).load(std::memory_order_relaxed);
        while (e >= 0) if (word(l).compare_exchange_weak(e, e + 1, std::memory_order_acquire, std::memory_order_relaxed)) return 0x10;
        return 0;
    }
    void AcquireSRWLockShared(PSRWLOCK l) { unsigned s = 0; while (!TryAcquireSRWLockShared(l)) kit::relax(s); }
    void ReleaseSRWLockShared(PSRWLOCK l)
    {
        if (word(l).load(std::memory_order_relaxed) <= 0) misuse("a shared release of a lock not held shared");
        word(l).fetch_sub(1, std::memory_order_release);
    }
}
#include "locks.h"
void kit_main(kit::K& k)
{
    k.section("size", 1, [](kit::Case& c)
    {
        c.ev();
        if (sizeof(ce::thread_mutex) != sizeof(SRWLOCK) || sizeof(ce::thread_shared_mutex) != sizeof(SRWLOCK)) c.fail("size", "%zu and %zu bytes hold a lock of %zu", sizeof(ce::thread_mutex), sizeof(ce::thread_shared_mutex), sizeof(SRWLOCK));
    });
    locks::sections<ce::thread_mutex>(k, "plain-");
    locks::sections<ce::thread_shared_mutex>(k, "shared-");
    k.section("calls", 1, [](kit::Case& c) { c.ev(); c.count("lock_calls", g_calls.load()); });
}
