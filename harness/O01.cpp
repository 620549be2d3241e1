// O01: timestamps never run backwards and keep to their frequency; a sleep lasts at least as long as asked, signals or not.
// Part of it in real time; part with the system's clock and sleep replaced by stand-ins which record and interrupt.
#include "kit.h"
#include "team.h"
#include "ce/ce.h"
#include <errno.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
using kit::Case;
typedef unsigned __int128 u128;

// ---- stand-ins, real unless `on`
struct World
{
    bool on = false;
    u128 now = 0; // ns
    u128 slept = 0;
    uint64_t calls = 0, clocks = 0, interrupted = 0, spins = 0;
    kit::Rng* rng = nullptr;
    unsigned interrupt = 0; // in 16
};
static World w;

static int stand_in(u128 want, timespec* rem)
{
    ++w.calls, w.spins = 0;
    if (w.calls > 100000) { fprintf(stderr, "KIT-FAIL virtual:0 [never] a sleep of %llu ns asks on and on\n", (unsigned long long)want); _exit(75); }
    if (w.rng && want && w.calls < 40 && w.rng->below(16) < w.interrupt)
    {
        u128 part = w.rng->chance(1, 3) ? 0 : u128(w.rng->next()) * want >> 64;
        w.now += part, w.slept += part;
        ++w.interrupted;
        u128 left = want - part;
        if (rem) rem->tv_sec = time_t(left / 1000000000u), rem->tv_nsec = long(left % 1000000000u);
        return EINTR;
    }
    w.now += want, w.slept += want;
    return 0;
}
static bool valid(timespec const* t) { return t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000; }

extern "C" int nanosleep(timespec const* req, timespec* rem)
{
    if (!w.on) { long r = syscall(SYS_nanosleep, req, rem); return int(r); }
    if (!valid(req)) { ++w.calls; errno = EINVAL; return -1; }
    int e = stand_in(u128(req->tv_sec) * 1000000000u + u128(req->tv_nsec), rem);
    if (e) { errno = e; return -1; }
    return 0;
}
extern "C" int clock_nanosleep(clockid_t id, int flags, timespec const* req, timespec* rem)
{
    if (!w.on) { long r = syscall(SYS_clock_nanosleep, id, flags, req, rem); return r < 0 ? errno : 0; }
    if (!valid(req)) { ++w.calls; return EINVAL; }
    u128 t = u128(req->tv_sec) * 1000000000u + u128(req->tv_nsec);
    if (flags & TIMER_ABSTIME) return stand_in(t > w.now ? t - w.now : 0, nullptr);
    return stand_in(t, rem);
}
extern "C" int usleep(useconds_t us)
{
    if (!w.on) { timespec t{ us / 1000000, long(us % 1000000) * 1000 }; return nanosleep(&t, nullptr); }
    int e = stand_in(u128(us) * 1000, nullptr);
    if (e) { errno = e; return -1; }
    return 0;
}
extern "C" int clock_gettime(clockid_t id, timespec* t)
{
    if (!w.on) return int(syscall(SYS_clock_gettime, id, t));
    ++w.clocks;
    // a loop which only looks at the clock gets there too
    if (++w.spins > 3) w.now += u128(1) << (w.spins > 66 ? 63 : w.spins - 3);
    t->tv_sec = time_t(w.now / 1000000000u), t->tv_nsec = long(w.now % 1000000000u);
    return 0;
}

static u128 real_now(clockid_t id = CLOCK_MONOTONIC)
{
    timespec t;
    syscall(SYS_clock_gettime, id, &t);
    return u128(t.tv_sec) * 1000000000u + u128(t.tv_nsec);
}
static std::atomic<long> g_signals{ 0 };
static void on_signal(int) { ++g_signals; }

void kit_main(kit::K& k)
{
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sigaction(SIGUSR1, &sa, nullptr);

    // every length of sleep, interrupted at any point any number of times
    k.section("virtual", 60000 * k.pick(1, 20), [](Case& c)
    {
        uint64_t ns = c.rng.chance(1, 4) ? uint64_t(c.rng.range(0, 5)) * 1000000000u + uint64_t(c.rng.range(-2, 2)) : c.rng.wide(63);
        if (int64_t(ns) < 0) ns = 0;
        w = World{};
        w.now = c.rng.wide(62), w.rng = &c.rng, w.interrupt = unsigned(c.rng.below(17));
        u128 start = w.now;
        w.on = true;
        ce::os::sleep_ns(ns);
        w.on = false;
        c.ev();
        if (w.calls + w.clocks == 0 && ns != 0) { c.count("no_stand_in"); return; }
        if (w.now - start < ns) return c.fail("short-sleep", "asked for %llu ns, slept %llu ns, interrupted %llu times", (unsigned long long)ns, (unsigned long long)(w.now - start), (unsigned long long)w.interrupted);
        // not much longer either (a stand-in oversleeps by nothing)
        if (w.clocks == 0 && w.now - start > u128(ns) + 1000000 + ns / 1000) return c.fail("long-sleep", "asked for %llu ns, slept %llu ns or more", (unsigned long long)ns, (unsigned long long)(w.now - start));
        c.count(w.interrupted ? "interrupted" : "undisturbed");
        c.cover("magnitudes", uint64_t(64 - __builtin_clzll(ns | 1)));
        c.distinct(kit::mix(ns) ^ w.interrupted);
    });
    // readings of a clock known exactly
    k.section("readings", 20000 * k.pick(1, 20), [](Case& c)
    {
        w = World{};
        w.now = c.rng.wide(62);
        // on the way over a power of two of seconds or nanoseconds
        if (c.rng.chance(1, 3)) w.now = (u128(1) << c.rng.range(20, 32)) * 1000000000u - c.rng.wide(50);
        else if (c.rng.chance(1, 5)) w.now = (u128(1) << c.rng.range(50, 62)) - c.rng.wide(50);
        w.on = true;
        uint64_t f = ce::os::monotonic_frequency();
        uint64_t first = ce::os::monotonic_timestamp(), last = first;
        u128 start = w.now;
        w.on = false;
        if (w.clocks == 0) { c.count("no_stand_in"); return; }
        for (int i = 0; i < 20; ++i)
        {
            w.now += c.rng.wide(unsigned(c.rng.range(0, 50)));
            w.spins = 0;
            w.on = true;
            uint64_t t = ce::os::monotonic_timestamp();
            w.on = false;
            c.ev();
            if (t < last) return c.fail("backwards", "%llu after %llu at %llu ns", (unsigned long long)t, (unsigned long long)last, (unsigned long long)w.now);
            u128 want = (w.now - start) * f / 1000000000u;
            u128 got = t - first;
            if (got + 1 < want || got > want + 1) return c.fail("rate", "%llu ns passed, %llu units at %llu per second", (unsigned long long)(w.now - start), (unsigned long long)got, (unsigned long long)f);
            last = t;
            c.cover("clock_bits", uint64_t(64 - __builtin_clzll(uint64_t(w.now) | 1)));
        }
        c.distinct(kit::mix(first) ^ last);
    });
    // the real ones
    k.section("sleeps", 12 * k.pick(1, 4), [](Case& c)
    {
        uint64_t ns = c.index % 12 == 0 ? 1000000000u + c.rng.below(50000000) : c.rng.wide(25);
        bool disturb = c.index % 2 == 0;
        std::atomic<bool> done{ false };
        pthread_t self = pthread_self();
        std::thread t([&] { while (disturb && !done.load()) { timespec s{ 0, 1000000 }; syscall(SYS_nanosleep, &s, nullptr); if (!done.load()) pthread_kill(self, SIGUSR1); } });
        u128 a = real_now();
        ce::os::sleep_ns(ns);
        u128 b = real_now();
        done.store(true);
        t.join();
        c.ev();
        if (b - a < ns) return c.fail("short-sleep", "asked for %llu ns, slept %llu ns (%s)", (unsigned long long)ns, (unsigned long long)(b - a), disturb ? "with signals" : "without signals");
        c.count("real_sleeps");
        c.count("signals", uint64_t(g_signals.exchange(0)));
        c.distinct(kit::mix(ns));
    });
    k.section("order", 6 * k.pick(1, 10), [](Case& c)
    {
        // handed from thread to thread: each reads after it has seen the last reading
        int n = int(c.rng.range(1, 6));
        kit::Team tm(n);
        struct alignas(128) { std::atomic<uint64_t> last{ 0 }; std::atomic<uint64_t> bad{ 0 }; } s;
        s.last.store(ce::os::monotonic_timestamp());
        const int per = int(c.k.pick(20000, 50000));
        tm.run([&](int)
        {
            uint64_t mine = 0;
            for (int i = 0; i < per; ++i)
            {
                uint64_t seen = s.last.load();
                uint64_t t = ce::os::monotonic_timestamp();
                if (t < seen || t < mine) s.bad++;
                mine = t;
                while (seen < t && !s.last.compare_exchange_weak(seen, t)) {}
            }
        });
        c.ev(uint64_t(per) * uint64_t(n));
        c.count("readings_in_order", uint64_t(per) * uint64_t(n));
        if (s.bad.load()) c.fail("backwards", "%llu readings in %d threads before one seen", (unsigned long long)s.bad.load(), n);
        c.distinct(kit::mix(c.index));
    });
    k.section("rate", 4 * k.pick(1, 4), [](Case& c)
    {
        uint64_t f = ce::os::monotonic_frequency();
        u128 a0 = real_now();
        uint64_t t0 = ce::os::monotonic_timestamp();
        u128 a1 = real_now();
        timespec s{ 0, 60000000 };
        syscall(SYS_nanosleep, &s, nullptr);
        u128 b0 = real_now();
        uint64_t t1 = ce::os::monotonic_timestamp();
        u128 b1 = real_now();
        double units = double(t1 - t0) / double(f) * 1e9;
        double least = double(b0 - a1), most = double(b1 - a0);
        c.ev();
        // the system's two clocks may differ by a fraction of a percent
        if (units < least * 0.99 || units > most * 1.01) c.fail("rate", "%.0f ns by the timestamps, between %.0f and %.0f by the system", units, least, most);
        c.distinct(kit::mix(c.index + 77));
        c.sample("%.0f ns by the timestamps, %.0f to %.0f by the system", units, least, most);
    });
}
