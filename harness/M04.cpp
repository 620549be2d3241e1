// M04: the polygon test returns the winding number of any closed polygon around any point off its boundary.
#include "kit.h"
#include "ce/math.h"
#include <algorithm>
using kit::Case;
typedef __int128 i128;
typedef ce::vec2<int32_t> V;

// winding number by crossings of the ray going up from the point (the code under test looks along x);
// returns false on the boundary
static bool winding(V p, std::vector<V> const& q, long& w)
{
    w = 0;
    for (size_t i = 0, n = q.size(); i < n; ++i)
    {
        V a = q[i], b = q[(i + 1) % n];
        i128 cr = i128(int64_t(b.x) - a.x) * (int64_t(p.y) - a.y) - i128(int64_t(b.y) - a.y) * (int64_t(p.x) - a.x);
        if (cr == 0 && p.x >= std::min(a.x, b.x) && p.x <= std::max(a.x, b.x) && p.y >= std::min(a.y, b.y) && p.y <= std::max(a.y, b.y)) return false;
        if (a.x <= p.x && p.x < b.x) { if (cr < 0) --w; }      // passes above, going right: clockwise
        else if (b.x <= p.x && p.x < a.x) { if (cr > 0) ++w; }  // passes above, going left
    }
    // counted with upward crossings of a polygon listed counter clockwise: leftwards above the point is +1
    return true;
}

// on the boundary, but only inside slanted edges: these count for nothing, the others are crossed by the ray to the right
static bool on_edges(V p, std::vector<V> const& q, long& w)
{
    w = 0;
    for (size_t i = 0, n = q.size(); i < n; ++i)
    {
        V a = q[i], b = q[(i + 1) % n];
        if ((a.y > p.y) == (b.y > p.y))
        {
            // on a level edge or at a vertex: not judged
            if (a.y == p.y && b.y == p.y && p.x >= std::min(a.x, b.x) && p.x <= std::max(a.x, b.x)) return false;
            if ((a.x == p.x && a.y == p.y) || (b.x == p.x && b.y == p.y)) return false;
            continue;
        }
        if ((a.x == p.x && a.y == p.y) || (b.x == p.x && b.y == p.y)) return false;
        i128 cr = i128(int64_t(b.x) - a.x) * (int64_t(p.y) - a.y) - i128(int64_t(b.y) - a.y) * (int64_t(p.x) - a.x);
        if (b.y > a.y ? cr > 0 : cr < 0) w += b.y > a.y ? 1 : -1; // to the right of the point
    }
    return true;
}

template<class P> static void judge_as(Case& c, V p, std::vector<V> const& q, long w, char const* what)
{
    std::vector<P> v(q.size());
    for (size_t i = 0; i < q.size(); ++i) v[i] = { decltype(P::x)(q[i].x), decltype(P::y)(q[i].y) };
    P pp{ decltype(P::x)(p.x), decltype(P::y)(p.y) };
    size_t got = ce::in_polygon(pp, v.size(), v.data());
    c.ev();
    if (got != size_t(w))
    {
        std::string t;
        for (size_t i = 0; i < q.size() && i < 20; ++i) t += kit::fmt("(%d, %d) ", q[i].x, q[i].y);
        c.fail("winding", "%s: (%d, %d) in %s: %ld, not %ld", what, p.x, p.y, t.c_str(), long(got), w);
    }
}

static void judge(Case& c, V p, std::vector<V> const& q, char const* what)
{
    long w;
    if (!winding(p, q, w))
    {
        c.count("on_boundary");
        if (on_edges(p, q, w)) c.count("inside_an_edge"), judge_as<V>(c, p, q, w, what), judge_as<ce::vec2<int64_t>>(c, p, q, w, what);
        return;
    }
    c.cover("winding_numbers", uint64_t(w + 1000));
    c.count(w ? "inside" : "outside");
    judge_as<V>(c, p, q, w, what);
    judge_as<ce::vec2<int64_t>>(c, p, q, w, what);
}

static void polygon(Case& c)
{
    size_t n = c.rng.chance(1, 20) ? c.rng.below(4) : c.rng.below(4) ? 3 + c.rng.below(12) : 3 + c.rng.below(100);
    int64_t m = c.rng.chance(1, 2) ? 2 + int64_t(c.rng.below(12)) : (1ll << c.rng.range(3, 30)) - 1;
    std::vector<V> q(n);
    auto co = [&] { return int32_t(c.rng.range(-m, m)); };
    int shape = int(c.rng.below(4));
    for (size_t i = 0; i < n; ++i)
    {
        q[i] = { co(), co() };
        if (shape == 1 && i) { if (i & 1) q[i].y = q[i - 1].y; else q[i].x = q[i - 1].x; }                           // axis parallel
        if (shape == 2 && i && c.rng.chance(1, 3)) q[i] = q[c.rng.below(i)];                                    // revisited vertices
        if (shape == 3) { static int const dx[] = { 1, 0, -1, 0 }, dy[] = { 0, 1, 0, -1 }; int64_t r = m - int64_t(i / 4) % (m / 2 + 1); q[i] = { int32_t(dx[i % 4] * r), int32_t(dy[i % 4] * r) }; } // spiral: high winding numbers
    }
    if (c.rng.chance(1, 2)) std::reverse(q.begin(), q.end());
    if (shape == 3 && c.rng.chance(1, 2)) std::rotate(q.begin(), q.begin() + ptrdiff_t(c.rng.below(n ? n : 1)), q.end());
    for (int i = 0; i < 12; ++i)
    {
        V p{ co(), co() };
        if (n)
        {
            // level with a vertex
            auto& v = q[c.rng.below(n)];
            auto& v1 = q[size_t(&v - q.data() + 1) % n];
            switch (c.rng.below(6))
            {
            case 5: // next to an edge, as closely as a lattice point can be
            {
                int64_t dx = int64_t(v1.x) - v.x, dy = int64_t(v1.y) - v.y, r0 = dx, r1 = dy, s0 = 1, s1 = 0, t0 = 0, t1 = 1;
                while (r1 != 0) { int64_t k = r0 / r1, t; t = r0 - k * r1, r0 = r1, r1 = t; t = s0 - k * s1, s0 = s1, s1 = t; t = t0 - k * t1, t0 = t1, t1 = t; }
                int64_t x = v.x - t0, y = v.y + s0; // cross product with the edge is +- its gcd
                if (c.rng.chance(1, 2)) x = int64_t(v1.x) - (x - v.x), y = int64_t(v1.y) - (y - v.y);
                if (x < (1 << 30) && x > -(1 << 30) && y < (1 << 30) && y > -(1 << 30)) p = { int32_t(x), int32_t(y) }, c.count("beside_an_edge");
                break;
            }
            case 0: p.y = v.y; break;
            case 1: p.x = v.x; break;
            case 2: { int64_t x = v.x + c.rng.range(-1, 1), y = v.y + c.rng.range(-1, 1); if (x < (1 << 30) && x > -(1 << 30) && y < (1 << 30) && y > -(1 << 30)) p = { int32_t(x), int32_t(y) }; break; }
            }
        }
        judge(c, p, q, shape == 1 ? "axis parallel" : shape == 2 ? "revisiting" : shape == 3 ? "spiral" : "random");
    }
    if (m <= 5)
        for (int x = -6; x <= 6; ++x) for (int y = -6; y <= 6; ++y) judge(c, { x, y }, q, "lattice");
    c.distinct(kit::hash_bytes(q.data(), n * sizeof(V)));
    c.sample("%zu vertices, coordinates to %lld, shape %d", n, (long long)m, shape);
}

// every triangle and a stride of the quadrilaterals on a small lattice, every point
static void lattice(Case& c)
{
    for (int i = 0; i < 4096; ++i)
    {
        int x = i;
        std::vector<V> q;
        for (int k = 0; k < 3; ++k) q.push_back({ x & 3, x >> 2 & 3 }), x >>= 4;
        if (c.index) q.push_back({ int(c.index - 1) & 3, int(c.index - 1) >> 2 });
        for (int px = -1; px <= 4; ++px) for (int py = -1; py <= 4; ++py) judge(c, { px, py }, q, "lattice");
    }
}

// more than 2^32 vertices: all but the first and last few are the origin
static void vast(Case& c)
{
    size_t n = (size_t(1) << 32) + c.rng.below(200000), e = 30;
    kit::Vast mem(n * sizeof(V));
    auto a = mem.at<V>();
    if (!a) return;
    std::vector<V> q;
    auto co = [&] { return int32_t(c.rng.range(-9, 9)); };
    for (size_t i = 0; i < e; ++i) q.push_back(a[i] = { co(), co() });
    q.push_back({ 0, 0 });
    for (size_t i = n - e; i < n; ++i) q.push_back(a[i] = { co(), co() });
    // around which neither the first nor the last ones alone go as often
    V p;
    long w = 0, w1, w2;
    auto ptr = q.begin() + ptrdiff_t(e);
    std::vector<V> first(q.begin(), ptr), last(ptr, q.end());
    for (int i = 0;; ++i)
    {
        p = { co(), co() };
        if (winding(p, q, w) && winding(p, first, w1) && winding(p, last, w2) && ((w && w != w1 && w != w2) || i > 1000)) break;
        if (i > 100000) return;
    }
    size_t got = ce::in_polygon(p, n, a);
    c.ev();
    c.count("vast");
    if (got != size_t(w)) c.fail("vast", "(%d, %d) in %zu vertices: %ld, not %ld", p.x, p.y, n, long(got), w);
    c.distinct(kit::mix(n));
}

void kit_main(kit::K& k)
{
    if (kit::swift) k.section_exact("vast", k.pick(1, 4), vast);
    k.section("lattice", 17, lattice);
    k.section("polygons", 30000 * k.pick(1, 10), polygon);
}
