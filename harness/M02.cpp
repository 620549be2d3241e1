// M02: the orientation test is the exact sign of the cross product, breaks every tie consistently, and puts every
// interior point of a triangulation in exactly one triangle.
#include "kit.h"
#include "ce/math.h"
#include <algorithm>
using kit::Case;
typedef __int128 i128;
typedef ce::vec2<int32_t> V;
typedef ce::vec2<int64_t> W;

static int cross(int64_t ax, int64_t ay, int64_t bx, int64_t by) { i128 d = i128(ax) * by - i128(ay) * bx; return d < 0 ? -1 : d > 0 ? 1 : 0; }

template<class P> static void pair(Case& c, P a, P b)
{
    int s = cross(a.x, a.y, b.x, b.y);
    bool ab = ce::inside(a, b), ba = ce::inside(b, a);
    c.ev(2);
    auto t = [&] { return kit::fmt("(%lld, %lld) (%lld, %lld)", (long long)a.x, (long long)a.y, (long long)b.x, (long long)b.y); };
    if (s != 0)
    {
        if (ab != (s < 0)) c.fail("sign", "inside of %s is %d, the cross product is %s", t().c_str(), ab, s < 0 ? "negative" : "positive");
        if (ba != (s > 0)) c.fail("sign", "inside of %s reversed is %d", t().c_str(), ba);
    }
    else if (a.x == b.x && a.y == b.y)
    {
        c.count("same");
        if (ab || ba) c.fail("same", "inside of %s, the same twice, is true", t().c_str());
    }
    else
    {
        c.count("collinear");
        if (ab == ba) c.fail("tie", "inside of collinear %s is %d both ways", t().c_str(), ab);
    }
}

static void pairs(Case& c)
{
    V a{ int32_t(c.rng.swide(32)), int32_t(c.rng.swide(32)) }, b{ int32_t(c.rng.swide(32)), int32_t(c.rng.swide(32)) };
    switch (c.rng.below(10))
    {
    case 7: case 8: // the closest to collinear there is
    {
        auto t = c.rng.thin(1 + unsigned(c.rng.below(31)));
        a = { int32_t(t.ax), int32_t(t.ay) }, b = { int32_t(t.bx), int32_t(t.by) };
        c.count(cross(t.ax, t.ay, t.bx, t.by) ? "thinnest" : "thin_collinear");
        break;
    }
    case 0: // collinear multiples
    {
        int32_t x = int32_t(c.rng.swide(16)), y = int32_t(c.rng.swide(16)), m = int32_t(c.rng.swide(15)), n = int32_t(c.rng.swide(15));
        a = { x * m, y * m }, b = { x * n, y * n };
        break;
    }
    case 1: b = a; break;
    case 2: b = { 0, 0 }; break;
    case 3: // nearly collinear: large vectors whose cross product is tiny
    {
        int64_t x = c.rng.range(1, 1 << 15), y = c.rng.range(1, 1 << 15), m = c.rng.range(1, 1 << 14);
        a = { int32_t(x * m), int32_t(y * m) }, b = { int32_t(x * (m + 1) + c.rng.range(-1, 1)), int32_t(y * (m + 1) + c.rng.range(-1, 1)) };
        if (c.rng.chance(1, 2)) a = { -a.x, a.y }, b = { -b.x, b.y };
        if (c.rng.chance(1, 2)) a = { a.x, -a.y }, b = { b.x, -b.y };
        break;
    }
    case 4: { static int32_t const e[] = { INT32_MIN, INT32_MAX, 0, 1, -1, INT32_MIN + 1 }; a = { c.rng.pick(e), c.rng.pick(e) }, b = { c.rng.pick(e), c.rng.pick(e) }; break; }
    case 5: b.y = a.y; break;
    case 6: b.x = a.x; break;
    }
    pair(c, a, b);
    int64_t f = c.rng.range(1, 1); // 64 bit coordinates: those whose products fit
    W wa{ a.x * f, a.y * f }, wb{ b.x * f, b.y * f };
    if (c.rng.chance(1, 3)) wa = { c.rng.swide(32) * 3 / 4, c.rng.swide(32) * 3 / 4 };
    pair(c, wa, wb);
    c.distinct(kit::hash_bytes(&a, sizeof a) ^ kit::mix(kit::hash_bytes(&b, sizeof b)));
}

// a triangulation built by inserting points and flipping edges, in exact arithmetic; triangles clockwise
struct Mesh
{
    struct T { int v[3]; };
    std::vector<V> p;
    std::vector<T> t;
    int orient(int a, int b, int q) const
    {
        i128 d = i128(int64_t(p[b].x) - p[a].x) * (int64_t(p[q].y) - p[a].y) - i128(int64_t(p[b].y) - p[a].y) * (int64_t(p[q].x) - p[a].x);
        return d < 0 ? -1 : d > 0 ? 1 : 0;
    }
    bool insert(V q)
    {
        for (auto& x : p) if (x.x == q.x && x.y == q.y) return false;
        int n = int(p.size());
        p.push_back(q);
        for (size_t i = 0; i < t.size(); ++i)
        {
            T k = t[i];
            int s[3];
            bool out = false;
            for (int e = 0; e < 3; ++e) s[e] = orient(k.v[e], k.v[(e + 1) % 3], n), out = out || s[e] > 0;
            if (out) continue;
            int on = -1;
            for (int e = 0; e < 3; ++e) if (s[e] == 0) on = e;
            if (on < 0)
            {
                t[i] = { { k.v[0], k.v[1], n } };
                t.push_back({ { k.v[1], k.v[2], n } });
                t.push_back({ { k.v[2], k.v[0], n } });
                return true;
            }
            int a = k.v[on], b = k.v[(on + 1) % 3], o = k.v[(on + 2) % 3];
            t[i] = { { a, n, o } };
            t.push_back({ { n, b, o } });
            for (size_t j = 0; j < t.size(); ++j)
                for (int e = 0; e < 3; ++e)
                    if (t[j].v[e] == b && t[j].v[(e + 1) % 3] == a)
                    {
                        int r = t[j].v[(e + 2) % 3];
                        t[j] = { { b, n, r } };
                        t.push_back({ { n, a, r } });
                        return true;
                    }
            return true; // on the hull
        }
        p.pop_back();
        return false;
    }
    void flip(kit::Rng& r)
    {
        size_t i = r.below(t.size());
        int e = int(r.below(3)), a = t[i].v[e], b = t[i].v[(e + 1) % 3], o = t[i].v[(e + 2) % 3];
        for (size_t j = 0; j < t.size(); ++j)
            for (int f = 0; f < 3; ++f)
                if (t[j].v[f] == b && t[j].v[(f + 1) % 3] == a)
                {
                    int q = t[j].v[(f + 2) % 3];
                    if (orient(q, b, o) < 0 && orient(o, a, q) < 0) // strictly convex
                        t[i] = { { q, b, o } }, t[j] = { { o, a, q } };
                    return;
                }
    }
};

static void partition(Case& c)
{
    Mesh m;
    int32_t s = c.rng.chance(1, 2) ? int32_t(c.rng.range(4, 40)) : c.rng.chance(1, 2) ? 1 << 29 : int32_t(c.rng.range(100, 1 << 20));
    int32_t ox = int32_t(c.rng.range(-(1 << 29), 1 << 29)), oy = int32_t(c.rng.range(-(1 << 29), 1 << 29));
    if (c.rng.chance(1, 3)) ox = oy = 0;
    m.p = { { ox, oy }, { ox + s, oy }, { ox + s, oy + s }, { ox, oy + s } };
    m.t = { { { 0, 2, 1 } }, { { 0, 3, 2 } } };
    int n = int(c.rng.below(40));
    for (int i = 0; i < n; ++i)
    {
        // on shared rows, columns and diagonals as often as not
        V q{ ox + int32_t(c.rng.range(0, s)), oy + int32_t(c.rng.range(0, s)) };
        auto const& o = m.p[c.rng.below(m.p.size())];
        switch (c.rng.below(5))
        {
        case 0: q.x = o.x; break;
        case 1: q.y = o.y; break;
        case 2: { int32_t d = int32_t(c.rng.range(0, s)) - (o.x - ox); q = { o.x + d, o.y + d }; break; }
        }
        if (q.x < ox || q.x > ox + s || q.y < oy || q.y > oy + s) continue;
        m.insert(q);
        if (c.rng.chance(1, 2)) m.flip(c.rng);
    }
    for (int i = 0; i < 40; ++i) m.flip(c.rng);
    auto query = [&](V q, char const* what)
    {
        bool strictly = q.x > ox && q.x < ox + s && q.y > oy && q.y < oy + s, beyond = q.x < ox || q.x > ox + s || q.y < oy || q.y > oy + s;
        int in = 0;
        for (auto& t : m.t)
        {
            V a = m.p[t.v[0]] - q, b = m.p[t.v[1]] - q, d = m.p[t.v[2]] - q;
            in += ce::inside(a, b) && ce::inside(b, d) && ce::inside(d, a);
        }
        c.ev();
        c.count(what);
        if (strictly ? in != 1 : beyond ? in != 0 : in > 1)
            c.fail("partition", "%s (%d, %d) is inside %d of %zu triangles", what, q.x, q.y, in, m.t.size());
    };
    for (size_t i = 0; i < m.p.size(); ++i) query(m.p[i], "vertices");
    for (auto& t : m.t)
        for (int e = 0; e < 3; ++e)
        {
            V a = m.p[t.v[e]], b = m.p[t.v[(e + 1) % 3]];
            // a lattice point on the edge
            int64_t dx = int64_t(b.x) - a.x, dy = int64_t(b.y) - a.y, g = std::__gcd(dx < 0 ? -dx : dx, dy < 0 ? -dy : dy);
            int64_t k = g > 1 ? c.rng.range(1, g - 1) : 0;
            query({ int32_t(a.x + dx / g * k), int32_t(a.y + dy / g * k) }, k ? "on_edges" : "vertices");
        }
    for (int i = 0; i < 30; ++i) query({ ox + int32_t(c.rng.range(0, s)), oy + int32_t(c.rng.range(0, s)) }, "anywhere");
    for (int i = 0; i < 4; ++i) query({ ox + int32_t(c.rng.range(-s / 4 - 1, s + s / 4)), oy + int32_t(c.rng.range(-s / 4 - 1, s + s / 4)) }, "around");
    if (s <= 12)
        for (int x = -1; x <= s + 1; ++x)
            for (int y = -1; y <= s + 1; ++y) query({ ox + x, oy + y }, "all_lattice");
    c.distinct(kit::hash_bytes(m.p.data(), m.p.size() * sizeof(V)));
    c.sample("%zu points, %zu triangles, side %d at (%d, %d)", m.p.size(), m.t.size(), s, ox, oy);
}

void kit_main(kit::K& k)
{
    k.section("pairs", 300000 * k.pick(1, 10), pairs);
    k.section("small", 1, [](Case& c)
    {
        for (int a = -5; a <= 5; ++a) for (int b = -5; b <= 5; ++b) for (int x = -5; x <= 5; ++x) for (int y = -5; y <= 5; ++y)
            pair(c, V{ a, b }, V{ x, y }), pair(c, W{ a, b }, W{ x, y });
    });
    k.section("partition", 5000 * k.pick(1, 10), partition);
}
