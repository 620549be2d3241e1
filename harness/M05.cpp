// M05: integer roots and lengths are rounded to the nearest integer over their whole domain; normalised vectors have unit length.
#include "kit.h"
#include "ce/math.h"
#include <cmath>
using kit::Case;
typedef __int128 i128;
static constexpr int64_t Top = int64_t(0x7fffffff) * 0x7fffffff;

// |r - sqrt(v)| <= 1/2 + 2^-20, in integers: (2r - 1 - e)^2 <= 4v <= (2r + 1 + e)^2 with e = 2^-19, scaled by 2^38
static bool nearest(int64_t v, int64_t r)
{
    i128 s = i128(1) << 19, lo = (2 * i128(r) - 1) * s - 1, hi = (2 * i128(r) + 1) * s + 1, q = i128(4) * v * s * s;
    return r >= 0 && (lo < 0 || lo * lo <= q) && q <= hi * hi;
}

static void root(Case& c, int64_t v)
{
    if (v < 0 || v > Top) return;
    int32_t r = ce::isqrt(v);
    c.ev();
    if (!nearest(v, r)) c.fail("isqrt", "isqrt(%lld) is %d", (long long)v, r);
    if (v < (1ll << 48) && !(i128(4) * v > i128(2 * int64_t(r) - 1) * (2 * int64_t(r) - 1) * (r > 0) - (r == 0) && i128(4) * v < i128(2 * int64_t(r) + 1) * (2 * int64_t(r) + 1)))
        c.fail("isqrt-nearest", "isqrt(%lld) is %d, which is not the nearest", (long long)v, r);
    c.cover("root_bits", v ? 64 - __builtin_clzll(uint64_t(v)) : 0);
}

static void length(Case& c, int32_t x, int32_t y)
{
    i128 s = i128(x) * x + i128(y) * y;
    if (s > Top) return;
    int32_t r = ce::hypot(x, y);
    c.ev();
    if (!nearest(int64_t(s), r)) c.fail("hypot", "hypot(%d, %d) is %d", x, y, r);
    c.count("lengths");
}

void kit_main(kit::K& k)
{
    k.section("roots", 200000 * k.pick(1, 10), [](Case& c)
    {
        int64_t r = int64_t(c.rng.wide(31)), v;
        switch (c.rng.below(4))
        {
        case 0: // exact squares are exact
            if (ce::isqrt(r * r) != r) c.fail("isqrt-square", "isqrt(%lld^2) is %d", (long long)r, ce::isqrt(r * r));
            v = r * r; break;
        case 1: v = r * r + c.rng.range(-2, 2); break;
        case 2: v = r * r + r + c.rng.range(-2, 2); break; // where the nearest changes
        default: v = int64_t(c.rng.wide(62)); break;
        }
        root(c, v);
        if (v > 0 && v <= Top && ce::isqrt(v - 1) > ce::isqrt(v)) c.fail("isqrt-order", "isqrt(%lld) is below isqrt(%lld)", (long long)v, (long long)v - 1);
        c.distinct(kit::mix(uint64_t(v)));
        c.sample("isqrt(%lld)", (long long)v);
    });
    k.section_exact("all_small", 64, [](Case& c) { for (int64_t v = int64_t(c.index) << 16; v < int64_t(c.index + 1) << 16; ++v) root(c, v); });
    k.section("lengths", 200000 * k.pick(1, 10), [](Case& c)
    {
        int32_t x = int32_t(c.rng.swide(32)), y = int32_t(c.rng.swide(32));
        int64_t m = c.rng.range(1, 4000), n = c.rng.range(1, 4000);
        switch (c.rng.below(6))
        {
        case 0: y = 0; break;
        case 1: // a pythagorean pair: exact
        {
            int64_t a = m * m - n * n, b = 2 * m * n, s = c.rng.range(1, 60), h = (m * m + n * n) * s;
            if (h <= 0x7fffffff)
            {
                x = int32_t(a * s * (c.rng.chance(1, 2) ? 1 : -1)), y = int32_t(b * s * (c.rng.chance(1, 2) ? 1 : -1));
                if (ce::hypot(x, y) != h) c.fail("hypot-exact", "hypot(%d, %d) is %d, not %lld", x, y, ce::hypot(x, y), (long long)h);
                if (ce::hypot(y, x) != h) c.fail("hypot-exact", "hypot(%d, %d) is %d, not %lld", y, x, ce::hypot(y, x), (long long)h);
            }
            break;
        }
        case 2: x = int32_t(c.rng.range(-0x5a827999, 0x5a827999)), y = int32_t(c.rng.range(-0x5a827999, 0x5a827999)); break;
        case 3: x = INT32_MAX - int32_t(c.rng.below(3)), y = int32_t(c.rng.below(3)); break;
        }
        length(c, x, y); length(c, y, x);
        c.distinct(kit::mix(uint64_t(uint32_t(x)) << 32 | uint32_t(y)) + 1);
    });
    k.section("normals", 60000 * k.pick(1, 10), [](Case& c)
    {
        auto f = [&] { return std::ldexp(float(c.rng.range(-(1 << 23), 1 << 23)), int(c.rng.range(-60, 10))); };
        ce::vec3<float> v{ f(), f(), f() };
        if (c.rng.chance(1, 4)) v.x = 0;
        if (c.rng.chance(1, 4)) v.y = 0;
        if (c.rng.chance(1, 3)) { int e = int(c.rng.range(-50, 50)); auto g = [&] { return std::ldexp(float(c.rng.range(-999, 999)), e); }; v = { g(), g(), g() }; }
        double m = std::sqrt(double(v.x) * v.x + double(v.y) * v.y + double(v.z) * v.z);
        if (m < 1e-15 || m > 1e15) return;
        auto n = ce::normal(v);
        double e = 1.0 / 1024;
        c.ev();
        c.count("normals");
        if (std::fabs(n.x - v.x / m) > e || std::fabs(n.y - v.y / m) > e || std::fabs(n.z - v.z / m) > e)
            c.fail("normal", "normal of (%a, %a, %a) is (%g, %g, %g)", double(v.x), double(v.y), double(v.z), double(n.x), double(n.y), double(n.z));
    });
}
