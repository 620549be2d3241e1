// M08: the intersection of two lines is within one unit of the exact point, and refused exactly for parallel lines.
#include "kit.h"
#include "ce/math.h"
using kit::Case;
typedef __int128 i128;
typedef ce::vec2<int32_t> V;

// floor(n / d), exactly
static i128 fdiv(i128 n, i128 d) { i128 q = n / d; return n % d != 0 && (n < 0) != (d < 0) ? q - 1 : q; }

static void judge(Case& c, V p0, V p1, V q0, V q1)
{
    int64_t px = int64_t(p1.x) - p0.x, py = int64_t(p1.y) - p0.y, qx = int64_t(q1.x) - q0.x, qy = int64_t(q1.y) - q0.y;
    i128 d = i128(px) * qy - i128(py) * qx, t = i128(int64_t(q0.x) - p0.x) * qy - i128(int64_t(q0.y) - p0.y) * qx;
    V r{ 0x5555, 0x5555 };
    auto say = [&] { return kit::fmt("(%d, %d)-(%d, %d) with (%d, %d)-(%d, %d)", p0.x, p0.y, p1.x, p1.y, q0.x, q0.y, q1.x, q1.y); };
    if (d == 0)
    {
        bool got = ce::intersect(p0, p1, q0, q1, r);
        c.ev();
        c.count("parallel");
        if (got) c.fail("parallel", "%s: parallel lines intersect", say().c_str());
        if (r.x != p0.x || r.y != p0.y) c.fail("parallel-result", "%s: the result is not the first point", say().c_str());
        return;
    }
    // the point relative to p0; only when it is representable
    i128 nx = i128(px) * t, ny = i128(py) * t, fx = fdiv(nx, d), fy = fdiv(ny, d), cx = fx + (nx % d != 0), cy = fy + (ny % d != 0);
    i128 lim = (i128(1) << 31) - 2 - (1 << 29);
    if (fx < -lim || cx > lim || fy < -lim || cy > lim) { c.count("too_far"); return; }
    bool got = ce::intersect(p0, p1, q0, q1, r);
    c.ev();
    c.count("crossing");
    if (fx == cx && fy == cy) c.count("exact");
    i128 gx = i128(r.x) - p0.x, gy = i128(r.y) - p0.y;
    if (!got) c.fail("refused", "%s: lines which cross are refused", say().c_str());
    else if (gx < fx || gx > cx || gy < fy || gy > cy)
        c.fail("point", "%s: (%d, %d), not within a unit of (%lld, %lld)", say().c_str(), r.x, r.y, (long long)(fx + p0.x), (long long)(fy + p0.y));
}

// the result may be kept in one of the points it is computed from
static void in_place(Case& c, V p0, V p1, V q0, V q1)
{
    V r{ };
    int64_t px = int64_t(p1.x) - p0.x, py = int64_t(p1.y) - p0.y, qx = int64_t(q1.x) - q0.x, qy = int64_t(q1.y) - q0.y;
    i128 d = i128(px) * qy - i128(py) * qx, t = i128(int64_t(q0.x) - p0.x) * qy - i128(int64_t(q0.y) - p0.y) * qx;
    i128 lim = (i128(1) << 31) - 2 - (1 << 29);
    if (d != 0 && (px * t / d < -lim || px * t / d > lim || py * t / d < -lim || py * t / d > lim)) return;
    bool got = ce::intersect(p0, p1, q0, q1, r);
    for (int i = 0; i < 4; ++i)
    {
        V v[4] = { p0, p1, q0, q1 };
        bool b = ce::intersect(v[0], v[1], v[2], v[3], v[i]);
        c.ev();
        if (b != got || v[i].x != r.x || v[i].y != r.y)
            return c.fail("in-place", "(%d, %d)-(%d, %d) with (%d, %d)-(%d, %d) into point %d: %d (%d, %d), and %d (%d, %d) elsewhere", p0.x, p0.y, p1.x, p1.y, q0.x, q0.y, q1.x, q1.y, i, b, v[i].x, v[i].y, got, r.x, r.y);
    }
    c.count("in_place");
}

static void lines(Case& c)
{
    int bits = 2 + int(c.rng.below(29));
    int64_t m = std::min<int64_t>(1ll << (bits - 1), 1 << 29);
    auto co = [&] { return int32_t(c.rng.chance(1, 10) ? (c.rng.chance(1, 2) ? m : -m) : c.rng.range(-m, m)); };
    V p0{ co(), co() }, p1{ co(), co() }, q0{ co(), co() }, q1{ co(), co() };
    auto in = [](int64_t v) { return int32_t(v > (1 << 29) ? 1 << 29 : v < -(1 << 29) ? -(1 << 29) : v); };
    switch (c.rng.below(9))
    {
    case 7: { auto t = c.rng.thin(2 + unsigned(c.rng.below(28))); p1 = { in(p0.x + t.ax), in(p0.y + t.ay) }, q0 = { in(p0.x + c.rng.range(-2, 2)), in(p0.y + c.rng.range(-2, 2)) }, q1 = { in(q0.x + t.bx), in(q0.y + t.by) }; break; }
    case 0: q1 = { in(int64_t(q0.x) + (p1.x - p0.x)), in(int64_t(q0.y) + (p1.y - p0.y)) }; break;     // parallel
    case 1: q1 = { in(int64_t(q0.x) - (p1.x - p0.x) / 2 * 2), in(int64_t(q0.y) - (p1.y - p0.y) / 2 * 2) }; break;
    case 2: p1 = { in(p0.x + c.rng.range(-3, 3)), in(p0.y + c.rng.range(-3, 3)) }; break;                                // a short line
    case 3: q1 = { in(int64_t(q0.x) + (p1.x - p0.x) + c.rng.range(-1, 1)), in(int64_t(q0.y) + (p1.y - p0.y)) }; break;   // nearly parallel
    case 4: { int32_t f = int32_t(c.rng.range(1, 6)); q0 = p0; q1 = { in(p0.x + int64_t(p0.y - p1.y) / f), in(p0.y + int64_t(p1.x - p0.x) / f) }; break; } // meeting at p0
    case 5: q0 = p1; break;                                                                                                // meeting at p1
    case 6: p1.y = p0.y, q1.x = q0.x; break;                                                                               // axis parallel
    }
    judge(c, p0, p1, q0, q1);
    judge(c, q0, q1, p0, p1);
    judge(c, p1, p0, q0, q1);
    in_place(c, p0, p1, q0, q1);
    V v[4] = { p0, p1, q0, q1 };
    c.cover("coordinate_bits", unsigned(bits));
    c.distinct(kit::hash_bytes(v, sizeof v));
    c.sample("(%d, %d)-(%d, %d) with (%d, %d)-(%d, %d)", p0.x, p0.y, p1.x, p1.y, q0.x, q0.y, q1.x, q1.y);
}

void kit_main(kit::K& k)
{
    k.section("lines", 150000 * k.pick(1, 10), lines);
    k.section_exact("small", 1, [](Case& c)
    {
        for (int i = 0; i < 1 << 16; ++i)
        {
            int x = i;
            V v[4];
            for (auto& p : v) p = { x & 3, x >> 2 & 3 }, x >>= 4;
            judge(c, v[0], v[1], v[2], v[3]);
        }
    });
    k.section("muldiv", 100000 * k.pick(1, 10), [](Case& c)
    {
        V b{ int32_t(c.rng.swide(32)), int32_t(c.rng.swide(32)) };
        int64_t n = c.rng.swide(64), d = c.rng.swide(64);
        if (d == 0) d = 1;
        if (c.rng.chance(1, 2)) n = d / 2 + c.rng.range(-2, 2);
        auto fits = [](i128 v) { return v >= INT32_MIN && v <= INT32_MAX; };
        i128 x = i128(b.x) * n / d, y = i128(b.y) * n / d;
        if (fits(x) && fits(y))
        {
            auto g = ce::muldiv(b, n, d);
            c.ev();
            c.count("scaled64");
            if (g.x > x + 1 || g.x < x - 1 || g.y > y + 1 || g.y < y - 1) c.fail("muldiv64", "(%d, %d) * %lld / %lld is (%d, %d)", b.x, b.y, (long long)n, (long long)d, g.x, g.y);
        }
        int32_t n2 = int32_t(c.rng.swide(32)), d2 = int32_t(c.rng.swide(32));
        if (d2 == 0) d2 = -1;
        if (c.rng.chance(1, 2)) n2 = int32_t(d2 / 2 + c.rng.range(-2, 2));
        x = i128(b.x) * n2 / d2, y = i128(b.y) * n2 / d2;
        if (fits(x) && fits(y))
        {
            auto g = ce::muldiv(b, n2, d2);
            c.ev();
            c.count("scaled32");
            if (g.x != x || g.y != y) c.fail("muldiv32", "(%d, %d) * %d / %d is (%d, %d)", b.x, b.y, n2, d2, g.x, g.y);
        }
        c.distinct(kit::hash_bytes(&b, sizeof b) ^ kit::mix(uint64_t(n) + uint64_t(d)));
    });
}
