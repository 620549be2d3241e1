// M07: conversion to polar gives the nearest length and the angle within one unit, in every quadrant, and undoes the conversion to cartesian.
#include "kit.h"
#include "ce/math.h"
#include <cmath>
using kit::Case;
static long double const Pi = acosl(-1.0L);

static void polar(Case& c, int32_t x, int32_t y)
{
    long double h = hypotl(x, y), an = atan2l(y, x) / (2 * Pi) * 2147483648.0L;
    if (h > 2147483640.0L || h == 0) return;
    auto p = ce::to_polar(x, y);
    c.ev(4);
    auto off = [&](int32_t got) { long double d = fabsl(got - an); return d > 1073741824.0L ? fabsl(2147483648.0L - d) : d; }; // half a turn either way is the same
    if (fabsl(p.x - h) > 0.5L + h * 0x1p-32L + 1e-5L) c.fail("length", "length of (%d, %d) is %d, not %.3Lf", x, y, p.x, h);
    if (off(p.y) > 1.25L) c.fail("angle", "angle of (%d, %d) is %d, not %.3Lf", x, y, p.y, an);
    if (p.y < -0x40000000 || p.y > 0x40000000) c.fail("angle-range", "angle of (%d, %d) is %d", x, y, p.y);
    if (ce::polar_mag(x, y) != p.x) c.fail("forms", "polar_mag(%d, %d) differs from to_polar", x, y);
    if (ce::polar_ang(x, y) != p.y || ce::atan2_2pi(y, x) != p.y) c.fail("forms", "polar_ang or atan2 of (%d, %d) differs from to_polar", x, y);
    // and back
    auto v = ce::to_cartesian(p.x, p.y);
    long double e = 1.5L + h * 0x1p-27L;
    if (h < 2147000000.0L && (fabsl((long double)v.x - x) > e || fabsl((long double)v.y - y) > e))
        c.fail("round-trip", "(%d, %d) comes back as (%d, %d)", x, y, v.x, v.y);
    c.cover("length_bits_eighth", uint64_t(ilogbl(h)) * 8 + uint64_t((x < 0) * 4 + (y < 0) * 2 + (llabs(x) < llabs(y))));
}

void kit_main(kit::K& k)
{
    k.section("random", 200000 * k.pick(1, 20), [](Case& c)
    {
        long double m = ldexpl(1.0L, int(c.rng.range(0, 31))) * (1 - (c.rng.next() >> 11) * 0x1p-54L), t = (c.rng.next() >> 11) * 0x1p-53L * 2 * Pi;
        int32_t x, y;
        switch (c.rng.below(6))
        {
        case 0: t = Pi / 4 * (long double)(c.rng.below(8)); break;
        case 1: t = Pi / 2 * (long double)(c.rng.below(4)) + (c.rng.range(-9, 9)) / m; break; // next to the axes
        }
        x = int32_t(m * cosl(t)), y = int32_t(m * sinl(t));
        if (c.rng.chance(1, 6)) { int32_t v = int32_t(c.rng.wide(30)); x = c.rng.chance(1, 2) ? v : -v, y = c.rng.chance(1, 2) ? v : -v; }
        polar(c, x, y);
        c.distinct(kit::mix(uint64_t(uint32_t(x)) << 32 | uint32_t(y)));
        c.sample("(%d, %d)", x, y);
    });
    k.section_exact("small", 1, [](Case& c)
    {
        for (int x = -100; x <= 100; ++x) for (int y = -100; y <= 100; ++y) polar(c, x, y);
        c.count("small", 201 * 201);
    });
    k.section_exact("axes", 1, [](Case& c)
    {
        for (int b = 0; b < 31; ++b)
            for (int o = -1; o <= 1; ++o)
            {
                int32_t v = int32_t((1u << b) + uint32_t(o));
                if (v <= 0) continue;
                for (int s = 0; s < 4; ++s) polar(c, s & 1 ? v : 0, s & 1 ? 0 : v), polar(c, s & 1 ? -v : 0, s & 1 ? 0 : -v), polar(c, v / 2, s & 1 ? -1 : 1), polar(c, -v / 2, s & 1 ? -1 : 1);
            }
    });
}
