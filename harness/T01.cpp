// T01: every integer becomes exactly its decimal text, and nothing but that text is written.
#include "kit.h"
#include "ce/ce.h"

using kit::Case;

// a decimal counter kept as digits, advanced by one: independent of any division or table
struct Dec
{
    char d[24];
    int n; // digits d[24 - n .. 24)
    explicit Dec(unsigned __int128 v)
    {
        n = 0;
        do d[23 - n++] = char('0' + int(v % 10)), v /= 10; while (v);
    }
    void inc()
    {
        int i = 23;
        while (i >= 24 - n && d[i] == '9') d[i--] = '0';
        if (i < 24 - n) d[i] = '1', ++n;
        else ++d[i];
    }
    char const* s() const { return d + 24 - n; }
};

template<class T> static inline bool agrees(T v, bool neg, char const* s, int n)
{
    char b[40];
    memset(b, 0x7e, sizeof b);
    char* e = ce::to_text(b + 4, v);
    int k = neg ? 1 : 0;
    if (e != b + 4 + k + n) return false;
    if (neg && b[4] != '-') return false;
    if (memcmp(b + 4 + k, s, size_t(n))) return false;
    // nothing before the start or after the returned end
    if (*e != 0x7e || e[1] != 0x7e || b[3] != 0x7e || b[2] != 0x7e) return false;
    return b[30] == 0x7e && b[39] == 0x7e;
}

template<class T> static void bad(Case& c, char const* type, T v)
{
    char b[64];
    memset(b, 0x7e, sizeof b);
    char* e = ce::to_text(b + 4, v);
    c.fail("wrong-text", "to_text(%s) of %s%lld / %llu wrote %s (returned length %td)", type, v < T(0) ? "" : "+", (long long)v, (unsigned long long)v, kit::quote(b + 4, 36).c_str(), e - (b + 4));
}

template<class T> static void one(Case& c, char const* type, T v)
{
    bool neg = v < T(0);
    unsigned __int128 m = neg ? -(unsigned __int128)(__int128)v : (unsigned __int128)v;
    Dec d(m);
    if (!agrees(v, neg, d.s(), d.n)) bad(c, type, v);
    c.ev();
    c.distinct(kit::mix(uint64_t(v)) ^ sizeof(T) * 3 + (T(-1) < T(0)));
}

template<class T> static void small(Case& c, char const* type)
{
    for (long long v = (long long)(T(-1) < T(0) ? -(1ll << (sizeof(T) * 8 - 1)) : 0);; ++v)
    {
        one(c, type, T(v));
        if ((long long)T(v + 1) != v + 1) break;
    }
    c.count("exhausted_small_types");
    c.sample("every value of %s", type);
}

// all values of [hi * 2^24, (hi + 1) * 2^24)
template<class T> static void span32(Case& c, char const* type, uint64_t first, uint64_t count, bool neg)
{
    Dec d(first);
    for (uint64_t i = 0; i < count; ++i, d.inc())
    {
        T v = neg ? T(0 - (first + i)) : T(first + i);
        if (__builtin_expect(!agrees(v, neg, d.s(), d.n), 0)) { bad(c, type, v); if (c.k.failures.size() > 4) break; }
    }
    c.ev(count);
    c.k.counters["values_exhausted_32"] += count;
    c.distinct(kit::mix(first) ^ neg ^ 0x3232);
}

void kit_main(kit::K& k)
{
    k.section_exact("small", 1, [&](Case& c)
    {
        small<unsigned char>(c, "unsigned char");
        small<signed char>(c, "signed char");
        small<unsigned short>(c, "unsigned short");
        small<short>(c, "short");
    });

    // values next to every power of ten and two, for every wide type
    k.section_exact("edges", 1, [&](Case& c)
    {
        auto all = [&](uint64_t v)
        {
            one(c, "unsigned", unsigned(v)); one(c, "int", int(v)); one(c, "unsigned long", (unsigned long)v); one(c, "long", long(v));
            one(c, "unsigned long long", (unsigned long long)v); one(c, "long long", (long long)v);
            one(c, "long", long(0 - v)); one(c, "long long", (long long)(0 - v)); one(c, "int", int(0 - v));
        };
        uint64_t t = 1;
        for (int i = 0; i < 20; ++i, t *= 10)
            for (uint64_t m = 1; m < 10; ++m)
                for (int64_t d = -1000; d <= 1000; ++d) all(t * m + uint64_t(d));
        for (int i = 0; i < 64; ++i)
            for (int64_t d = -300; d <= 300; ++d) all((1ull << i) + uint64_t(d));
        c.sample("10^k * m + d, 2^k + d for every k, |d| <= 1000");
    });

    // 64 bit values are converted in blocks of 8 digits: drive every block through many values
    k.section("blocks", 256, [&](Case& c)
    {
        auto& r = c.rng;
        for (int i = 0; i < 20000; ++i)
        {
            uint64_t v;
            switch (r.below(5))
            {
            case 0: v = r.below(1844) * 10000000000000000ull + r.below(100000000) * 100000000ull + r.below(100000000); break;
            case 1: v = r.u32() * 100000000ull + r.below(100000000); break;                            // high block up to 32 bits
            case 2: { uint64_t p = 1; for (uint64_t n = r.below(20); n; --n) p *= 10; v = p * r.below(10) + r.below(p); } break; // every length
            case 3: { v = 0; for (int q = 0; q < 19; ++q) v = v * 10 + (r.chance(1, 3) ? 0 : r.chance(1, 2) ? 9 : r.below(10)); } break;
            default: v = r.wide(64); break;
            }
            one(c, "unsigned long long", (unsigned long long)v);
            one(c, "long long", (long long)v);
            one(c, "long", -(long)(v >> 1));
            one(c, "unsigned long", (unsigned long)v);
            one(c, "int", int(v));
            one(c, "unsigned", unsigned(v));
        }
    });

    // 2^32 values: every low block, every high block (strided in quick)
    uint64_t step = k.pick(61, 1);
    k.section_exact("low_block", k.pick(16, 256), [&](Case& c)
    {
        uint64_t n = 100000000 / (k.thorough ? 256 : 16) + 1, hi = c.rng.range(1, 1ll << 31), h2 = c.rng.range(0, 1843);
        for (uint64_t x = c.index * n; x < (c.index + 1) * n && x < 100000000; x += k.pick(7, 1))
        {
            uint64_t v = (hi + (1ull << 32) / 100000000) * 100000000 + x;
            Dec d(v);
            if (!agrees((unsigned long long)v, false, d.s(), d.n)) bad(c, "unsigned long long", (unsigned long long)v);
            v = h2 * 10000000000000000ull + x * 100000000 + x;
            if (v < 10000000000000000ull) v += 10000000000000000ull;
            Dec e(v);
            if (!agrees((unsigned long)v, false, e.s(), e.n)) bad(c, "unsigned long", (unsigned long)v);
            c.ev(2);
        }
        c.distinct(c.index);
    });
    k.section_exact("high_block", 64, [&](Case& c)
    {
        uint64_t lo = c.rng.below(100000000);
        for (uint64_t u = c.index << 26; u < (c.index + 1) << 26; u += step)
        {
            uint64_t v = u * 100000000 + lo;
            Dec d(v);
            if (!agrees((long long)v, false, d.s(), d.n)) bad(c, "long long", (long long)v);
            if (v && !agrees(-(long long)v, true, d.s(), d.n)) bad(c, "long long", -(long long)v);
            c.ev(2);
        }
        c.distinct(c.index);
    });

    if (k.scale >= 1) // optimised build: every 32 bit value
    {
        k.section_exact("u32", 256, [&](Case& c) { span32<unsigned>(c, "unsigned", c.index << 24, 1 << 24, false); });
        k.section_exact("i32", 129, [&](Case& c)
        {
            if (c.index == 128)
                one(c, "int", int(0x80000000));
            else
                span32<int>(c, "int", (c.index << 24) + (c.index == 0), (1 << 24) - (c.index == 0), true), span32<int>(c, "int", c.index << 24, 1 << 24, false);
        });
    }
}
