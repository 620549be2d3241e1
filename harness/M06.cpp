// M06: rotation and the trigonometric functions are within half a unit, plus 2^-30 of the magnitude, of the exact value for every angle.
#include "kit.h"
#include "ce/math.h"
#include <cmath>
using kit::Case;
static long double const Pi = acosl(-1.0L);

static long double radians(int32_t z) { return (long double)(z) * 2 * Pi / 2147483648.0L; }
static long double bound(long double m) { return 0.5L + m * 0x1p-30L + 1e-5L; }

static void rotation(Case& c, int32_t x, int32_t y, int32_t z)
{
    long double m = hypotl(x, y), a = radians(z), ex = x * cosl(a) - y * sinl(a), ey = x * sinl(a) + y * cosl(a);
    if (m > 2147483645.0L) return;
    auto v = ce::cordic::rotate(x, y, z);
    c.ev();
    if (fabsl(v.x - ex) > bound(m) || fabsl(v.y - ey) > bound(m))
        c.fail("rotate", "(%d, %d) by %08x is (%d, %d), not (%.3Lf, %.3Lf)", x, y, uint32_t(z), v.x, v.y, ex, ey);
    c.cover("magnitude_bits_quadrant", uint64_t(m < 1 ? 0 : ilogbl(m) + 1) * 8 + (uint32_t(z) >> 28 & 7));
}

static void trig(Case& c, int32_t r, int32_t z)
{
    long double a = radians(z), ec = r * cosl(a), es = r * sinl(a), b = bound(fabsl((long double)r));
    if (r < -2147483645) return;
    int32_t gc = ce::cos_2pi(r, z), gs = ce::sin_2pi(r, z);
    auto v = ce::to_cartesian(r, z);
    c.ev(3);
    if (fabsl(gc - ec) > b) c.fail("cos", "%d cos %08x is %d, not %.3Lf", r, uint32_t(z), gc, ec);
    if (fabsl(gs - es) > b) c.fail("sin", "%d sin %08x is %d, not %.3Lf", r, uint32_t(z), gs, es);
    if (fabsl(v.x - ec) > b || fabsl(v.y - es) > b) c.fail("cartesian", "polar (%d, %08x) is (%d, %d), not (%.3Lf, %.3Lf)", r, uint32_t(z), v.x, v.y, ec, es);
}

static int32_t angle_of(Case& c)
{
    switch (c.rng.below(5))
    {
    case 0: return int32_t(uint32_t(c.rng.below(8) << 28) + uint32_t(c.rng.range(-3, 3)));  // at and next to the eighths
    case 1: return int32_t(uint32_t(c.rng.below(8) << 28) + uint32_t(c.rng.swide(28)));
    case 2: { static int32_t const e[] = { INT32_MIN, INT32_MAX, INT32_MIN + 1, 0, -1, 1, 0x1fffffff, 0x20000000, 0x5fffffff, 0x60000000 }; return c.rng.pick(e); }
    default: return int32_t(c.rng.u32());
    }
}

void kit_main(kit::K& k)
{
    k.section("rotations", 150000 * k.pick(1, 20), [](Case& c)
    {
        int32_t z = angle_of(c);
        long double m = ldexpl(1.0L, int(c.rng.range(0, 31))) * (c.rng.next() >> 11) * 0x1p-53L, t = (c.rng.next() >> 11) * 0x1p-53L * 2 * Pi;
        if (c.rng.chance(1, 8)) m = 2147483640.0L;
        if (c.rng.chance(1, 4)) t = Pi / 4 * (long double)(c.rng.below(8));
        int32_t x = int32_t(m * cosl(t)), y = int32_t(m * sinl(t));
        rotation(c, x, y, z);
        trig(c, int32_t(c.rng.swide(32)), z);
        // a whole turn apart is the same angle
        c.distinct(kit::mix(uint64_t(uint32_t(x)) << 32 | uint32_t(y)) ^ uint32_t(z));
        c.sample("(%d, %d) by %08x", x, y, uint32_t(z));
    });
    // every 2^16th angle, and all around the eighths
    k.section_exact("angles", 256, [](Case& c)
    {
        for (uint32_t i = 0; i < 256; ++i)
        {
            int32_t z = int32_t(uint32_t(c.index) << 24 | i << 16);
            trig(c, 1 << 23, z); trig(c, INT32_MAX, z); trig(c, -1000, z); trig(c, 1, z);
            rotation(c, 1000000, -777777, z);
        }
        c.count("angle_sweep", 256);
    });
    k.section_exact("degrees", 1, [](Case& c)
    {
        auto check = [&](int64_t d)
        {
            uint32_t a = uint32_t(ce::degrees_to_angle(int32_t(d)));
            // exact angle modulo a turn (2^31), in 45ths
            __int128 e = __int128(d) * (1 << 28), t = __int128(45) * (__int128(1) << 31);
            __int128 diff = (__int128(a) * 45 - e) % t;
            if (diff < 0) diff += t;
            if (diff > t / 2) diff = t - diff;
            c.ev();
            // up to a turn it is that angle itself, not one as good
            if (d >= -360 && d <= 360 && (a - uint32_t(e / 45) + 1 > 2 || (d % 45 == 0 && a != uint32_t(e / 45)))) c.fail("degrees", "%lld degrees is %08x", (long long)d, a);
            if (d % 45 == 0 ? diff != 0 : diff >= 45) c.fail("degrees", "%lld degrees is %08x", (long long)d, a);
        };
        for (int64_t d = -100000; d <= 100000; ++d) check(d);
        for (int i = 0; i < 100000; ++i) check(c.rng.swide(32));
        check(INT32_MIN); check(INT32_MAX);
        c.count("degrees", 300003);
        // the angles with names are those degrees, and turn a vector exactly there
        ce::angle const named[] = { ce::_0, ce::_45, ce::_90, ce::_135, ce::_180, ce::_225, ce::_270, ce::_315, ce::_360 };
        for (int i = 0; i < 9; ++i)
        {
            c.ev();
            if (uint32_t(named[i]) != uint32_t(i) << 28 || uint32_t(ce::degrees_to_angle(i * 45)) != uint32_t(named[i])) c.fail("named", "%d degrees is %08x", i * 45, uint32_t(named[i]));
            auto v = ce::to_cartesian(1 << 20, named[i]);
            static int const xs[] = { 1, 1, 0, -1, -1, -1, 0, 1, 1 }, ys[] = { 0, 1, 1, 1, 0, -1, -1, -1, 0 };
            int len = i & 1 ? 741455 : 1 << 20;
            if (v.x != xs[i] * len || v.y != ys[i] * len) c.fail("named-turn", "%d degrees points at %d, %d", i * 45, v.x, v.y);
            c.count("named_angles");
        }
    });
}
