// M03: the range predicates decide "nearer than" exactly, at and next to the boundary.
#include "kit.h"
#include "ce/math.h"
using kit::Case;
typedef __int128 i128;

struct Truth { bool point, line, edge, ray, segment; };
// by squared distances, in exact arithmetic; coordinates up to 2^30
static Truth truth(int64_t px, int64_t py, int64_t rr, int64_t dx, int64_t dy)
{
    i128 pp = i128(px) * px + i128(py) * py, dd = i128(dx) * dx + i128(dy) * dy, dot = i128(px) * dx + i128(py) * dy, cr = i128(px) * dy - i128(py) * dx;
    i128 ee = i128(px - dx) * (px - dx) + i128(py - dy) * (py - dy);
    bool near0 = pp < rr, near1 = ee < rr;
    bool nearline = dd == 0 ? near0 : cr * cr < i128(rr) * dd;
    Truth t;
    t.point = near0;
    t.line = nearline;
    t.edge = dot >= 0 && dot <= dd && nearline;
    t.ray = near0 || (dot >= 0 && nearline);
    t.segment = near0 || near1 || (dot >= 0 && dot <= dd && nearline);
    return t;
}

static void judge(Case& c, int32_t px, int32_t py, int64_t rr, int32_t dx, int32_t dy)
{
    Truth t = truth(px, py, rr, dx, dy);
    c.ev(5);
    auto say = [&](char const* what, bool got, bool want)
    {
        c.count(want ? "within" : "not_within");
        if (got != want) c.fail(what, "%s: (%d, %d) rr %lld to (%d, %d) is %d", what, px, py, (long long)rr, dx, dy, got);
    };
    say("point", ce::in_range_rr(px, py, rr), t.point);
    say("line", ce::in_range_rr_line(px, py, rr, dx, dy), t.line);
    say("edge", ce::in_range_rr_edge(px, py, rr, dx, dy), t.edge);
    say("ray", ce::in_range_rr_ray(px, py, rr, dx, dy), t.ray);
    say("segment", ce::in_range_rr_segment(px, py, rr, dx, dy), t.segment);
}

static void ranges(Case& c)
{
    int bits = 2 + int(c.rng.below(29)); // |coordinate| <= 2^30
    int64_t m = 1ll << (bits - 1 < 30 ? bits - 1 : 30);
    auto co = [&] { return int32_t(c.rng.chance(1, 8) ? (c.rng.chance(1, 2) ? m : -m) : c.rng.chance(1, 8) ? 0 : c.rng.range(-m, m)); };
    int32_t px = co(), py = co(), dx = co(), dy = co();
    switch (c.rng.below(8))
    {
    case 0: dx = dy = 0; break;
    case 1: px = int32_t(int64_t(dx) * c.rng.range(-4, 8) / 4), py = int32_t(int64_t(dy) * c.rng.range(-4, 8) / 4); break; // next to the line
    case 2: { int32_t f = int32_t(c.rng.range(-1, 1)); px = -dy * f, py = dx * f; break; }           // straight across one end
    case 3: { px = dx - dy, py = dy + dx; break; }                                           // straight across the far end
    case 4: px = dx, py = dy; break;
    }
    auto clamp = [](int32_t& v) { if (v > (1 << 30)) v = 1 << 30; if (v < -(1 << 30)) v = -(1 << 30); };
    clamp(px); clamp(py);
    // radii at and around every boundary
    i128 cr = i128(px) * dy - i128(py) * dx, dd = i128(dx) * dx + i128(dy) * dy;
    int64_t at[6] = { 0, int64_t(px) * px + int64_t(py) * py, (int64_t(px) - dx) * (int64_t(px) - dx) + (int64_t(py) - dy) * (int64_t(py) - dy),
        dd ? int64_t(cr * cr / dd) : 0, int64_t(c.rng.wide(62)), int64_t(c.rng.below(uint64_t(m) * 3)) };
    for (int64_t v : at)
        for (int64_t o = -1; o <= 2; ++o)
            if (v + o >= 0 && v + o <= (1ll << 62)) judge(c, px, py, v + o, dx, dy);
    int32_t v[4] = { px, py, dx, dy };
    c.distinct(kit::hash_bytes(v, sizeof v));
    c.cover("coordinate_bits", unsigned(bits));
    c.sample("(%d, %d) and (%d, %d)", px, py, dx, dy);
}

static void ball(Case& c)
{
    int bits = 2 + int(c.rng.below(28));
    int64_t m = 1ll << (bits - 1);
    auto co = [&] { return int32_t(c.rng.chance(1, 8) ? (c.rng.chance(1, 2) ? m : -m) : c.rng.range(-m, m)); };
    ce::vec2<int32_t> p{ co(), co() }, a{ co(), co() }, b{ co(), co() };
    if (c.rng.chance(1, 10)) b = a;
    if (c.rng.chance(1, 6)) p = { int32_t(a.x + (b.y - a.y)), int32_t(a.y - (b.x - a.x)) };
    i128 x = int64_t(p.x) - a.x, y = int64_t(p.y) - a.y, dx = int64_t(b.x) - a.x, dy = int64_t(b.y) - a.y, cr = x * dy - y * dx, dd = dx * dx + dy * dy;
    if (x > (1 << 30) || x < -(1 << 30) || y > (1 << 30) || y < -(1 << 30)) return;
    int64_t at[4] = { int64_t(x * x + y * y), dd ? int64_t(cr * cr / dd) : 0, int64_t(c.rng.wide(60)), int64_t(c.rng.below(uint64_t(m) * uint64_t(m) + 1)) };
    for (int64_t v : at)
        for (int64_t o = -1; o <= 1; ++o)
        {
            int64_t rr = v + o;
            if (rr < 0) continue;
            Truth t = truth(int64_t(x), int64_t(y), rr, int64_t(dx), int64_t(dy));
            c.ev(2);
            if (ce::ball_hits_edge(p, rr, a, b) != t.edge) c.fail("ball-edge", "ball at (%d, %d) rr %lld, edge (%d, %d) (%d, %d): not %d", p.x, p.y, (long long)rr, a.x, a.y, b.x, b.y, t.edge);
            if (ce::ball_hits_ray(p, rr, a, b) != t.ray) c.fail("ball-ray", "ball at (%d, %d) rr %lld, ray (%d, %d) (%d, %d): not %d", p.x, p.y, (long long)rr, a.x, a.y, b.x, b.y, t.ray);
            c.count("ball");
        }
    c.distinct(kit::hash_bytes(&p, sizeof p) ^ kit::mix(kit::hash_bytes(&a, sizeof a) + kit::hash_bytes(&b, sizeof b)));
}

void kit_main(kit::K& k)
{
    k.section("small", 1, [](Case& c)
    {
        for (int px = -4; px <= 4; ++px) for (int py = -4; py <= 4; ++py) for (int dx = -3; dx <= 3; ++dx) for (int dy = -3; dy <= 3; ++dy)
            for (int rr = 0; rr <= 33; ++rr) judge(c, px, py, rr, dx, dy);
    });
    k.section("ranges", 60000 * k.pick(1, 10), ranges);
    k.section("ball", 60000 * k.pick(1, 10), ball);
}
