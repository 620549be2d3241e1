// Z01: z-order codes interleave the coordinates' bits, so they are distinct, rise with each coordinate, and boxes can be tested on them.
#include "kit.h"
#include "ce/zorder.h"
#include <algorithm>
using kit::Case;

static uint64_t slow(int32_t x, int32_t y)
{
    uint64_t z = 0;
    uint32_t u = uint32_t(int64_t(x) + 2147483648ll), v = uint32_t(int64_t(y) + 2147483648ll);
    for (int i = 0; i < 32; ++i)
        z |= uint64_t(u >> i & 1) << (2 * i) | uint64_t(v >> i & 1) << (2 * i + 1);
    return z;
}

void kit_main(kit::K& k)
{
    k.section_exact("bits", 32 * 32 * 4, [](Case& c)
    {
        // one or all-but-one bit of each coordinate
        uint32_t x = 1u << (c.index & 31), y = 1u << (c.index >> 5 & 31);
        if (c.index >> 10 & 1) x = ~x;
        if (c.index >> 11 & 1) y = ~y;
        c.ev();
        if (ce::z_encode(int32_t(x), int32_t(y)) != slow(int32_t(x), int32_t(y))) c.fail("code", "(%d, %d)", int32_t(x), int32_t(y));
        c.distinct(slow(int32_t(x), int32_t(y)));
    });
    k.section("codes", 300000 * k.pick(1, 10), [](Case& c)
    {
        int32_t x = int32_t(c.rng.swide(32)), y = int32_t(c.rng.swide(32));
        auto z = ce::z_encode(x, y);
        c.ev(3);
        if (z != slow(x, y)) c.fail("code", "(%d, %d) gives %016llx, not %016llx", x, y, (unsigned long long)z, (unsigned long long)slow(x, y));
        if (x < INT32_MAX && !(z < ce::z_encode(x + 1, y))) c.fail("monotonic", "(%d, %d) and its right neighbour", x, y);
        if (y < INT32_MAX && !(z < ce::z_encode(x, y + 1))) c.fail("monotonic", "(%d, %d) and its upper neighbour", x, y);
        c.distinct(z);
        c.sample("(%d, %d) -> %016llx", x, y, (unsigned long long)z);
    });
    k.section("boxes", 300000 * k.pick(1, 10), [](Case& c)
    {
        auto coord = [&](int32_t near) { return c.rng.chance(1, 2) ? int32_t(c.rng.swide(32)) : int32_t(uint32_t(near) + uint32_t(c.rng.range(-2, 2))); };
        int32_t x0 = coord(0), x1 = coord(x0), y0 = coord(0), y1 = coord(y0);
        if (c.rng.chance(7, 8))
        {
            if (x0 > x1) std::swap(x0, x1);
            if (y0 > y1) std::swap(y0, y1);
        }
        auto lo = ce::z_encode(x0, y0), hi = ce::z_encode(x1, y1);
        for (int i = 0; i < 8; ++i)
        {
            int32_t x = coord(c.rng.chance(1, 2) ? x0 : x1), y = coord(c.rng.chance(1, 2) ? y0 : y1);
            if (c.rng.chance(1, 3) && x0 <= x1) x = int32_t(c.rng.range(x0, x1));
            if (c.rng.chance(1, 3) && y0 <= y1) y = int32_t(c.rng.range(y0, y1));
            bool want = x0 <= x && x <= x1 && y0 <= y && y <= y1;
            c.ev();
            if (ce::z_inside(lo, hi, ce::z_encode(x, y)) != want)
                c.fail("inside", "(%d, %d) in [%d, %d] x [%d, %d] is %d", x, y, x0, x1, y0, y1, !want);
            c.count(want ? "inside" : "outside");
            c.distinct(kit::mix(lo) ^ kit::mix(hi + 1) ^ slow(x, y));
        }
    });
    // all of a small box around the origin (every sign), and around the ends of the range
    k.section_exact("small", 9, [](Case& c)
    {
        int32_t ox = int32_t(c.index % 3), oy = int32_t(c.index / 3);
        auto at = [](int32_t o, int32_t i) { return o == 0 ? i - 4 : o == 1 ? INT32_MIN + i : INT32_MAX - 8 + i; };
        for (int32_t a = 0; a < 8; ++a) for (int32_t b = 0; b < 8; ++b) for (int32_t e = a; e < 8; ++e) for (int32_t f = b; f < 8; ++f)
            for (int32_t x = 0; x < 8; ++x) for (int32_t y = 0; y < 8; ++y)
            {
                bool want = a <= x && x <= e && b <= y && y <= f;
                c.ev();
                if (ce::z_inside(ce::z_encode(at(ox, a), at(oy, b)), ce::z_encode(at(ox, e), at(oy, f)), ce::z_encode(at(ox, x), at(oy, y))) != want)
                    c.fail("inside", "small box %d %d %d %d, point %d %d", a, b, e, f, x, y);
            }
        c.cover("small_boxes", c.index);
        c.distinct(c.index);
    });
    // every pair of coordinates around the origin and the ends of the range
    k.section_exact("squares", 9, [](Case& c)
    {
        constexpr int32_t W = 1024;
        auto at = [](size_t o, int32_t i) { return o == 0 ? i - W / 2 : o == 1 ? INT32_MIN + i : INT32_MAX - W + 1 + i; };
        size_t ox = c.index % 3, oy = c.index / 3;
        std::vector<uint64_t> xs(W), ys(W);
        for (int32_t i = 0; i < W; ++i) xs[size_t(i)] = slow(at(ox, i), INT32_MIN), ys[size_t(i)] = slow(INT32_MIN, at(oy, i));
        for (int32_t y = 0; y < W; ++y)
            for (int32_t x = 0; x < W; ++x)
                if (ce::z_encode(at(ox, x), at(oy, y)) != (xs[size_t(x)] | ys[size_t(y)])) return c.fail("code", "(%d, %d)", at(ox, x), at(oy, y));
        c.ev(W * W);
        c.distinct(c.index);
    });
    // each value of one coordinate (all of them in thorough runs)
    if (kit::swift)
        k.section_exact("axes", k.pick(8, 256), [step = uint64_t(k.pick(32, 1))](Case& c)
        {
            static std::vector<uint64_t> const spread = [] { std::vector<uint64_t> v(65536); for (uint32_t i = 0; i < 65536; ++i) v[i] = slow(int32_t(i ^ 0x80000000), INT32_MIN); return v; }();
            uint32_t block = uint32_t(c.index * step) << 24;
            int32_t other = int32_t(c.rng.u32());
            uint64_t as_y = slow(INT32_MIN, other), as_x = slow(other, INT32_MIN);
            for (uint32_t i = 0; i < 1u << 24; ++i)
            {
                uint32_t v = block + i;
                uint64_t s = spread[v & 0xffff] | spread[v >> 16] << 32;
                int32_t at = int32_t(v ^ 0x80000000);
                if (ce::z_encode(at, other) != (s | as_y)) return c.fail("code", "(%d, %d)", at, other);
                if (ce::z_encode(other, at) != (s << 1 | as_x)) return c.fail("code", "(%d, %d)", other, at);
            }
            c.ev(2u << 24);
            c.count("axis_values", 2u << 24);
            c.distinct(c.index);
        });
}
