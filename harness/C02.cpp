// C02: with points alone, no corner is ever strictly inside the circle through a face, in exact arithmetic.
#include "mesh.h"
using namespace mesh;

// the corner opposite each edge decides for the whole mesh (a locally Delaunay triangulation is Delaunay)
static std::string locally(Shot const& s, uint64_t* ties)
{
    for (size_t i = 0; i < s.f.size(); ++i)
        for (int j = 0; j < 3; ++j)
        {
            long t = s.face_of(s.f[i].twin[j]);
            if (t < 0) continue;
            P o = s.f[size_t(t)].p[s.f[i].twin[j] % 4];
            auto& p = s.f[i].p;
            auto in = incircle(p[2], p[1], p[0], o);
            if (in > 0) return "the circle through " + show(p[0]) + ", " + show(p[1]) + ", " + show(p[2]) + " holds " + show(o);
            *ties += in == 0;
        }
    return "";
}
static std::string globally(Shot const& s)
{
    auto all = s.corners();
    for (auto& f : s.f)
        for (P o : all)
            if (incircle(f.p[2], f.p[1], f.p[0], o) > 0) return "the circle through " + show(f.p[0]) + ", " + show(f.p[1]) + ", " + show(f.p[2]) + " holds " + show(o);
    return "";
}

template<size_t Q, size_t N> static void history(Case& c, int most, int every)
{
    Held<Q, N> m(int(c.rng.below(256)));
    m->reset();
    std::vector<std::unique_ptr<Places>> pl;
    for (int i = 0, n = c.rng.chance(1, 2) ? 1 : 3; i < n; ++i) pl.emplace_back(new Places(c, Q));
    int n = int(c.rng.range(1, most));
    uint64_t ties = 0;
    Shot t;
    for (int i = 0; i < n; ++i)
    {
        auto& p = *pl[c.rng.below(pl.size())];
        Step s = step(c, p, m->size, 0, 1);
        bool ok = apply(*m, s);
        c.count(ok ? "points" : "refused");
        if (i + 1 != n && i % every != 0) continue;
        c.ev();
        t = shot(*m);
        if (!ok && m->size < N) { auto q = snap(s.p, Q); if (q.x > LO && q.x < HI && q.y > LO && q.y < HI) return c.fail("refused", "operation %d, %s", i, show(s).c_str()); }
        auto w = locally(t, &ties);
        if (w.empty() && m->size < 40) w = globally(t), c.count("all_corners");
        if (!w.empty()) return c.fail("delaunay", "after %d points, last %s: %s", i + 1, show(s).c_str(), w.c_str());
        c.cover("sizes", m->size);
    }
    for (auto& f : t.f)
    {
        // how large the triangles decided on were
        int64_t r = 0;
        for (int j = 0; j < 3; ++j) r = std::max(r, std::max(std::abs(f.p[j].x - f.p[(j + 1) % 3].x), std::abs(f.p[j].y - f.p[(j + 1) % 3].y)));
        c.cover("extents", uint64_t(64 - __builtin_clzll(uint64_t(r) | 1)));
    }
    for (auto& p : pl) c.cover("kinds", uint64_t(p->kind));
    c.count("cocircular", ties);
    c.distinct(t.hash());
    c.sample("%d points: %zu corners, %llu cocircular neighbours", n, size_t(m->size), (unsigned long long)ties);
}

void kit_main(kit::K& k)
{
    k.section("few", 12000 * k.pick(1, 10), [](Case& c) { if (c.rng.chance(1, 2)) history<0, 64>(c, 12, 1); else history<6, 64>(c, 12, 1); });
    k.section("some", 500 * k.pick(1, 10), [](Case& c) { if (c.rng.chance(1, 2)) history<0, 512>(c, 200, 1); else history<14, 512>(c, 200, 1); });
    k.section("lattices", 500 * k.pick(1, 4), [](Case& c)
    {
        // every point of a small lattice, in random order: all ties; any spacing up to the whole domain
        Held<0, 128> m(0x5a);
        m->reset();
        int w = int(c.rng.range(2, 9)), h = int(c.rng.range(2, 9));
        int64_t s = c.rng.range(1, 32000 / std::max(w, h)) * 2;
        int64_t x0 = c.rng.range(-16000, 16000 - 0) / 2 * 2, y0 = c.rng.range(-16000, 16000) / 2 * 2;
        std::vector<P> ps;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x)
        {
            P p{ x0 + x * s, y0 + y * s };
            if (p.x < HI && p.y < HI && p.x > LO && p.y > LO) ps.push_back(p);
        }
        c.rng.shuffle(ps);
        uint64_t ties = 0;
        Shot t;
        for (P p : ps)
        {
            if (!m->insert_point(v2(p), hint(c, m->size))) return c.fail("refused", "%s", show(p).c_str());
            c.ev();
            t = shot(*m);
            auto e = locally(t, &ties);
            if (!e.empty()) return c.fail("delaunay", "lattice %dx%d spaced %d, after %s: %s", w, h, int(s), show(p).c_str(), e.c_str());
        }
        c.count("cocircular", ties);
        if (!ps.empty()) c.distinct(t.hash());
    });
    k.section("large", 16 * k.pick(1, 10), [](Case& c) { history<3, 8192>(c, 9000, 1999); });
}
