// C04: locate finds the face which holds a point, whatever the hint, and nothing for points outside.
#include "mesh.h"
#include <cmath>
using namespace mesh;

template<size_t Q, size_t N> static void queries(Case& c, int most, int per)
{
    Held<Q, N> m(int(c.rng.below(256)));
    m->reset();
    std::vector<std::unique_ptr<Places>> pl;
    for (int i = 0, n = c.rng.chance(1, 2) ? 1 : 3; i < n; ++i) pl.emplace_back(new Places(c, Q));
    unsigned e = unsigned(c.rng.below(4));
    int n = int(c.rng.range(0, most));
    for (int i = 0; i < n; ++i) apply(*m, step(c, *pl[c.rng.below(pl.size())], m->size, e, 4));
    Shot t = shot(*m);
    const int64_t S = int64_t(1) << Q, lim = int64_t(1) << 30;
    auto user = [&](P g) { return P{ g.x * S, g.y * S }; };
    for (int i = 0; i < per; ++i)
    {
        // points in user units: anywhere, next to and on corners, on edges, on and beyond the border
        auto& f = t.f[c.rng.below(t.f.size())];
        P a = user(f.p[0]), b = user(f.p[1]), d = user(f.p[2]), p;
        uint64_t what = c.rng.below(8);
        int64_t k = c.rng.range(0, 64);
        switch (what)
        {
        case 0: p = { c.rng.range(LO * S, HI * S), c.rng.range(LO * S, HI * S) }; break;
        case 1: p = a; break;
        case 2: p = { a.x + c.rng.range(-2, 2), a.y + c.rng.range(-2, 2) }; break;
        case 3: p = { (a.x + b.x) / 2, (a.y + b.y) / 2 }; break;
        case 4: p = { a.x + (b.x - a.x) / 64 * k, a.y + (b.y - a.y) / 64 * k }; break;
        case 5: p = { (a.x + b.x + d.x) / 3, (a.y + b.y + d.y) / 3 }; break;
        case 6: {
            p = { c.rng.range(LO * S, HI * S), c.rng.range(LO * S, HI * S) };
            int64_t s = c.rng.range(-2, 2) + (c.rng.chance(1, 2) ? LO * S : HI * S);
            (c.rng.chance(1, 2) ? p.x : p.y) = s;
            break;
        }
        default: p = { c.rng.swide(31), c.rng.swide(31) }; break;
        }
        if (p.x < -lim || p.x > lim || p.y < -lim || p.y > lim) continue;
        bool out = p.x < LO * S || p.x > HI * S || p.y < LO * S || p.y > HI * S;
        bool border = !out && (p.x == LO * S || p.x == HI * S || p.y == LO * S || p.y == HI * S);
        // what holds it, closed
        std::set<uint32_t> in;
        for (size_t j = 0; j < t.f.size(); ++j)
        {
            P u = user(t.f[j].p[0]), v = user(t.f[j].p[1]), w = user(t.f[j].p[2]);
            if (cross(u, v, p) <= 0 && cross(v, w, p) <= 0 && cross(w, u, p) <= 0) in.insert(Shot::id(j) + 3);
        }
        if (in.empty() != out) return c.fail("harness", "%s held by %zu faces", show(p).c_str(), in.size());
        uint32_t first = 0;
        for (int h = 0; h < 4; ++h)
        {
            uint32_t hh = uint32_t(h == 0 ? 0 : hint(c, m->size));
            uint32_t r = h == 1 && Q % 2 ? m->locate(v2(p), hh) : m->locate(int32_t(p.x), int32_t(p.y), hh);
            c.ev();
            auto say = [&](char const* w) { c.fail(w, "%s with hint %u in %zu faces: face %u, held by %zu faces, first %u", show(p).c_str(), hh, t.f.size(), r, in.size(), in.empty() ? 0 : *in.begin()); };
            if (out && r != 0) return say("outside");
            if (!out && !border && r == 0) return say("not-found");
            if (r != 0 && !in.count(r)) return say("wrong-face");
            if (r != 0 && (!ce::is_face(r) || ce::is_edge(r))) return say("not-a-face");
            if (!border && h > 0 && r != first) return say("hint-matters");
            if (h == 0) first = r;
        }
        c.count(out ? "outside" : border ? "border" : in.size() > 2 ? "corner" : in.size() == 2 ? "on_edge" : "in_face");
        c.distinct(kit::mix(t.hash() ^ kit::mix(uint64_t(p.x) << 32 ^ uint64_t(uint32_t(p.y)))));
    }
    // the search left the mesh alone
    if (!(shot(*m) == t)) return c.fail("changed", "locating changed the mesh");
    c.cover("sizes", m->size);
    c.sample("%zu faces, %d points in 4 hints each", t.f.size(), per);
}

// every point asked for from many faces of a mesh of 4 units a step
template<class M> static void from_everywhere(Case& c, M& m, Shot const& t, P mid, int64_t reach)
{
    for (int i = 0; i < 200; ++i)
    {
        P p{ c.rng.range(LO * 4 + 1, HI * 4 - 1), c.rng.range(LO * 4 + 1, HI * 4 - 1) };
        if (i % 2) p = { std::clamp<int64_t>(mid.x + c.rng.range(-reach, reach), LO * 4 + 1, HI * 4 - 1), std::clamp<int64_t>(mid.y + c.rng.range(-reach, reach), LO * 4 + 1, HI * 4 - 1) };
        std::set<uint32_t> in;
        for (size_t j = 0; j < t.f.size(); ++j)
        {
            P u{ t.f[j].p[0].x * 4, t.f[j].p[0].y * 4 }, v{ t.f[j].p[1].x * 4, t.f[j].p[1].y * 4 }, w{ t.f[j].p[2].x * 4, t.f[j].p[2].y * 4 };
            if (cross(u, v, p) <= 0 && cross(v, w, p) <= 0 && cross(w, u, p) <= 0) in.insert(Shot::id(j) + 3);
        }
        for (size_t j = 0; j < t.f.size(); j += 1 + t.f.size() / 50)
        {
            uint32_t r = m.locate(v2(p), Shot::id(j) + uint32_t(c.rng.below(4)));
            c.ev();
            if (!in.count(r)) return c.fail(r ? "wrong-face" : "not-found", "%s from face %zu of %zu: %u", show(p).c_str(), j, t.f.size(), r);
        }
    }
}

// the points next to every corner, asked for from every side of every face
template<size_t Q, size_t N> static void beside(Case& c, int most)
{
    Held<Q, N> m(0x33);
    m->reset();
    Places pl(c, Q);
    unsigned e = 1 + unsigned(c.rng.below(3));
    for (int i = 0, n = int(c.rng.range(1, most)); i < n; ++i) apply(*m, step(c, pl, m->size, e, 4));
    Shot t = shot(*m);
    const int64_t S = int64_t(1) << Q;
    auto at = [&](P g) { return P{ g.x * S, g.y * S }; };
    std::set<P> ask;
    for (auto& f : t.f)
        for (P g : f.p)
            for (int d = 0; d < 9; ++d)
            {
                P p{ g.x * S + d % 3 - 1, g.y * S + d / 3 - 1 };
                if (p.x > LO * S && p.x < HI * S && p.y > LO * S && p.y < HI * S) ask.insert(p);
            }
    for (P p : ask)
    {
        std::set<uint32_t> in;
        for (size_t j = 0; j < t.f.size(); ++j)
        {
            P u = at(t.f[j].p[0]), v = at(t.f[j].p[1]), w = at(t.f[j].p[2]);
            if (cross(u, v, p) <= 0 && cross(v, w, p) <= 0 && cross(w, u, p) <= 0) in.insert(Shot::id(j) + 3);
        }
        uint32_t first = 0;
        for (size_t j = 0; j < t.f.size() * 4; ++j)
        {
            uint32_t h = Shot::id(j / 4) + uint32_t(j % 4), r = m->locate(v2(p), h);
            c.ev();
            if (j == 0) first = r;
            if (!in.count(r)) return c.fail(r ? "wrong-face" : "not-found", "%s from %u of %zu faces: %u", show(p).c_str(), h, t.f.size(), r);
            if (r != first) return c.fail("hint-matters", "%s from %u of %zu faces: %u, not %u", show(p).c_str(), h, t.f.size(), r, first);
        }
    }
    c.count("beside", ask.size());
    c.distinct(t.hash());
}

void kit_main(kit::K& k)
{
    k.section("small", 4000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(4))
        {
        case 0: queries<0, 64>(c, 10, 40); break;
        case 1: queries<4, 64>(c, 10, 40); break;
        case 2: queries<14, 64>(c, 10, 40); break;
        default: queries<13, 64>(c, 10, 40); break;
        }
    });
    k.section("medium", 400 * k.pick(1, 10), [](Case& c) { if (c.rng.chance(1, 2)) queries<6, 512>(c, 150, 150); else queries<14, 512>(c, 150, 150); });
    k.section("large", 12 * k.pick(1, 10), [](Case& c) { queries<3, 8192>(c, 6000, 200); });
    k.section("walls", 60 * k.pick(1, 10), [](Case& c)
    {
        // constrained combs and spirals, where a walk can go round in a circle
        Held<2, 4096> m(0x11);
        m->reset();
        int n = int(c.rng.range(2, 24));
        int64_t cx = c.rng.range(-9000, 9000) * 4, cy = c.rng.range(-9000, 9000) * 4, r = c.rng.range(10, 20000) * 4;
        P last{ cx, cy };
        for (int i = 0; i < n; ++i)
        {
            static const int dx[] = { 1, 0, -1, 0, 1, -1, -1, 1 }, dy[] = { 0, 1, 0, -1, 1, 1, -1, -1 };
            int d = c.rng.chance(1, 2) ? i % 4 : i % 8;
            int64_t s = r * (i + 1) / n + c.rng.range(-8, 8);
            P p{ cx + dx[d] * s, cy + dy[d] * s };
            m->insert_edge(v2(last), v2(p), hint(c, m->size));
            last = p;
        }
        Shot t = shot(*m);
        from_everywhere(c, *m, t, { cx, cy }, r);
        c.count("walls");
        c.distinct(t.hash());
    });
    k.section("wheels", 300 * k.pick(1, 10), [](Case& c)
    {
        // constrained rings of triangles turned against each other, which hide one another in a circle from the middle
        Held<2, 4096> m(0x22);
        m->reset();
        int n = int(c.rng.range(3, 16)), rings = int(c.rng.range(1, 4));
        int64_t cx = c.rng.range(-9000, 9000) * 4, cy = c.rng.range(-9000, 9000) * 4, reach = 0;
        double turn = (double(c.rng.below(2001)) / 1000 - 1) * 3.2 / n, r = double(c.rng.range(8, 800)) * 4, grow = 1.05 + double(c.rng.below(1000)) / 400, at = double(c.rng.below(6283)) / 1000;
        bool other = c.rng.chance(1, 2);
        auto jitter = c.rng.chance(1, 2) ? 0 : c.rng.range(0, int64_t(r / 8));
        std::vector<P> was, now;
        for (int k = 0; k <= rings && cx + r < HI * 4 && cx - r > LO * 4 && cy + r < HI * 4 && cy - r > LO * 4; ++k, r *= grow, at += turn)
        {
            now.clear();
            for (int i = 0; i < n; ++i)
                now.push_back({ cx + int64_t(r * cos(at + i * 6.283185307 / n)) + c.rng.range(-jitter, jitter), cy + int64_t(r * sin(at + i * 6.283185307 / n)) + c.rng.range(-jitter, jitter) });
            for (int i = 0; i < n; ++i)
            {
                m->insert_edge(v2(now[i]), v2(now[(i + 1) % n]), hint(c, m->size));
                if (k == 0) continue;
                m->insert_edge(v2(was[i]), v2(now[i]), hint(c, m->size));
                m->insert_edge(v2(was[other ? (i + 1) % n : i]), v2(now[other ? i : (i + 1) % n]), hint(c, m->size));
            }
            was = now;
            reach = int64_t(r);
        }
        Shot t = shot(*m);
        from_everywhere(c, *m, t, { cx, cy }, reach + 1);
        c.count("wheels");
        c.distinct(t.hash());
    });
    k.section("beside", 800 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(3))
        {
        case 0: beside<0, 64>(c, 16); break;
        case 1: beside<1, 64>(c, 16); break;
        default: beside<14, 64>(c, 12); break;
        }
    });
}
