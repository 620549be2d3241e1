// O02: ticks of a clock over any history of readings equal the elapsed time at its rate, rounded down once.
// The timer is a stand-in of the harness, so every reading is known exactly.
#include "kit.h"
#include "ce/clock.h"
using kit::Case;
typedef unsigned __int128 u128;

static uint64_t t_now, t_freq = 1;
static uint64_t t_reads;
namespace ce { namespace os
{
    uint64_t monotonic_timestamp() { ++t_reads; return t_now; }
    uint64_t monotonic_frequency() { return t_freq; }
} }

// floor(a * n / d) with a remainder, a < 2^64 .. kept in 192 bits by parts; false if it does not fit 64 bits
static bool ticks_of(u128 a, uint64_t n, u128 d, uint64_t& q)
{
    // a < 2^64 and n < 2^64: the product fits 128 bits
    u128 t = a * n / d;
    q = uint64_t(t);
    return t >> 64 == 0;
}

template<uint64_t N, uint64_t D> static void history(Case& c, unsigned which)
{
    // timer frequency with (f * D) * (N + 1) < 2^64
    u128 top = ((u128(1) << 64) - 1) / (u128(N) + 1) / D;
    if (top == 0) return;
    static const uint64_t usual[] = { 1, 2, 3, 1000, 32768, 1193182, 3579545, 10000000, 1000000, 1000000000, 2400000000ull, 3123456789ull, 14318180, 60, 59, 61, 999999937 };
    uint64_t f = 0;
    switch (c.rng.below(4))
    {
    case 0: f = c.rng.pick(usual); break;
    case 1: f = uint64_t(top) - c.rng.below(3); break;
    case 2: f = 1 + c.rng.below(uint64_t(top)); break;
    default: f = c.rng.wide(64); break;
    }
    if (f == 0 || f > top) f = uint64_t(top);

    ce::clock<N, D> k;
    memset(&k, int(c.rng.u32() & 255), sizeof k);
    uint64_t h = kit::mix(which);
    const int restarts = int(c.rng.range(1, 3));
    for (int s = 0; s < restarts; ++s)
    {
        if (s && c.rng.chance(1, 2)) { f /= 1 + c.rng.below(1000); if (!f) f = 1; }
        t_freq = f;
        t_now = c.rng.wide(64);
        k.reset();
        u128 fd = u128(f) * D;
        u128 elapsed = 0;
        uint64_t total = 0;
        // the tick's length in timer units, to step around it
        uint64_t per = N ? uint64_t(fd / N) : 0;
        const int style = int(c.rng.below(6));
        const int n = int(c.rng.range(1, 120));
        for (int i = 0; i < n; ++i)
        {
            uint64_t step = 0;
            switch (style == 5 ? int(c.rng.below(5)) : style)
            {
            case 0: step = c.rng.below(4); break;
            case 1: step = per > 1 ? per - 1 + c.rng.below(3) : c.rng.below(3); break;
            case 2: step = per ? c.rng.below(per + 1) : c.rng.below(3); break;
            case 3: step = c.rng.wide(unsigned(c.rng.range(1, 56))); break;
            default: step = uint64_t(fd) * c.rng.below(5) + c.rng.range(-1, 1); if (int64_t(step) < 0) step = 1; break;
            }
            uint64_t want;
            // keep total ticks and elapsed time within 64 bits
            if (((elapsed + step) >> 63) != 0 || !ticks_of(elapsed + step, N, fd, want)) continue;
            elapsed += step;
            t_now += step; // may wrap, as a hardware counter would
            uint64_t before = total, reads = t_reads;
            bool cur = c.rng.chance(1, 3);
            uint64_t got = cur ? k.current() : k.elapsed();
            c.ev();
            total = cur ? got : before + got;
            if (t_reads != reads + 1) return c.fail("readings", "one call read the timer %llu times", (unsigned long long)(t_reads - reads));
            if (total != want)
                return c.fail("drift", "clock<%llu, %llu> at %llu per second: %llu units since reset after %d readings give %llu ticks, not %llu", (unsigned long long)N, (unsigned long long)D, (unsigned long long)f,
                    (unsigned long long)elapsed, i + 1, (unsigned long long)total, (unsigned long long)want);
            if (k.tick != want) return c.fail("tick", "tick is %llu, not %llu", (unsigned long long)k.tick, (unsigned long long)want);
            if (k.timestamp != t_now) return c.fail("timestamp", "last reading is %llu, not %llu", (unsigned long long)k.timestamp, (unsigned long long)t_now);
            h = kit::mix(h ^ step);
            if (elapsed * N % fd) c.count("fractions"); else c.count("exact");
        }
        if (t_now < uint64_t(elapsed)) c.count("timer_wrapped");
        if (s) c.count("restarts");
        c.cover("rate_and_frequency_bits", which * 64 + uint64_t(63 - __builtin_clzll(f)));
    }
    c.distinct(h ^ f);
}

void kit_main(kit::K& k)
{
    typedef void (*fn)(Case&, unsigned);
    static const fn all[] = {
        history<60, 1>, history<1, 1>, history<1000, 1>, history<1000000, 1>, history<1000000000, 1>, history<30000, 1001>, history<24000, 1001>, history<60000, 1001>,
        history<7, 3>, history<1, 10>, history<1, 86400>, history<44100, 1>, history<48000, 1>, history<90000, 1>, history<3, 1000000007>, history<4294967296ull, 1>,
        history<4294967295ull, 4294967291ull>, history<1, 9223372036854775807ull>, history<9223372036854775806ull, 1>, history<144, 1>, history<2, 3>, history<1000003, 999983>,
    };
    const unsigned n = unsigned(sizeof all / sizeof *all);
    k.section("histories", 66000 * k.pick(1, 30), [&](Case& c) { unsigned w = unsigned(c.index % n); all[w](c, w); });
    // two clocks over one timer do not disturb each other
    k.section("independent", 5000 * k.pick(1, 10), [&](Case& c)
    {
        t_freq = 1 + c.rng.below(1000000000);
        t_now = c.rng.wide(60);
        ce::clock<60> a; ce::clock<1000, 7> b;
        uint64_t a0 = t_now; a.reset();
        t_now += c.rng.below(1000000000);
        uint64_t b0 = t_now; b.reset();
        for (int i = 0; i < 50; ++i)
        {
            t_now += c.rng.wide(34);
            bool first = c.rng.chance(1, 2);
            uint64_t got = first ? a.current() : b.current();
            uint64_t want = first ? uint64_t(u128(t_now - a0) * 60 / t_freq) : uint64_t(u128(t_now - b0) * 1000 / (u128(t_freq) * 7));
            c.ev();
            if (got != want) return c.fail("drift", "clock %d of two: %llu ticks, not %llu", first ? 1 : 2, (unsigned long long)got, (unsigned long long)want);
        }
        c.distinct(kit::mix(t_now));
    });
}
