// C05: fill labels the faces reachable without crossing a constraint and nothing else; labels are inherited by split faces.
#include "mesh.h"
using namespace mesh;

struct Labels
{
    static std::vector<size_t> region(Shot const& s, size_t from)
    {
        std::vector<char> seen(s.f.size());
        std::vector<size_t> todo{ from }, r;
        seen[from] = 1;
        while (!todo.empty())
        {
            size_t i = todo.back();
            todo.pop_back();
            r.push_back(i);
            for (int j = 0; j < 3; ++j)
            {
                long t = s.face_of(s.f[i].twin[j]);
                if (t >= 0 && !s.f[i].c[j] && !seen[size_t(t)]) seen[size_t(t)] = 1, todo.push_back(size_t(t));
            }
        }
        return r;
    }
};

template<size_t Q, size_t N> static void fills(Case& c, ce::cdt<Q, N>& m, int n)
{
    Shot s = shot(m);
    std::vector<uint16_t> want;
    for (auto& f : s.f) want.push_back(f.info);
    for (auto l : want) if (l != want[0]) return c.fail("label", "faces of an unlabelled mesh have different labels");
    for (int i = 0; i < n; ++i)
    {
        size_t from = c.rng.below(s.f.size());
        uint16_t label = uint16_t(c.rng.chance(1, 2) ? c.rng.range(1, 3) : int64_t(c.rng.wide(16)));
        auto region = Labels::region(s, from);
        // what a region which has the label in part becomes is not specified
        bool has = false;
        for (size_t j : region) has |= want[j] == label;
        bool all = true;
        for (size_t j : region) all &= want[j] == label;
        if (has && !all) { c.count("partial_skipped"); continue; }
        m.fill(Shot::id(from) + uint32_t(c.rng.below(4)), label);
        for (size_t j : region) want[j] = label;
        Shot t = shot(m);
        c.ev(t.f.size());
        if (t.f.size() != s.f.size()) return c.fail("mesh", "the fill changed the number of faces");
        for (size_t j = 0; j < t.f.size(); ++j)
        {
            if (t.f[j].info != want[j]) return c.fail(want[j] == label ? "missed" : "leaked", "fill %d from face %zu with %u (region of %zu of %zu): face %zu has %u, not %u", i, from, label, region.size(), t.f.size(), j, t.f[j].info, want[j]);
            s.f[j].info = want[j];
        }
        if (!(t == s)) return c.fail("mesh", "the fill changed more than labels");
        c.cover("region_sizes", uint64_t(64 - __builtin_clzll(region.size())));
        c.count(region.size() == t.f.size() ? "whole" : "part");
        c.distinct(kit::mix(t.hash() ^ from));
    }
    m.fill(uint32_t(c.rng.below(4)), 77); // no face
    if (!(shot(m) == s)) return c.fail("mesh", "filling from no face changed the mesh");
}

// is the face's inside in one face of the old mesh, and which?
static long parent(Shot const& old, Face const& f)
{
    P a{ f.p[0].x + f.p[1].x + f.p[2].x, f.p[0].y + f.p[1].y + f.p[2].y };
    for (size_t i = 0; i < old.f.size(); ++i)
    {
        bool in = true;
        for (int j = 0; j < 3; ++j)
        {
            P u = old.f[i].p[j], v = old.f[i].p[(j + 1) % 3];
            in &= cross({ u.x * 3, u.y * 3 }, { v.x * 3, v.y * 3 }, a) <= 0;
        }
        if (in) return long(i);
    }
    return -1;
}

template<size_t Q, size_t N> static void history(Case& c, int most, int later)
{
    Held<Q, N> m(int(c.rng.below(256)));
    m->reset();
    Places pl(c, Q);
    int n = int(c.rng.range(1, most));
    unsigned e = unsigned(c.rng.below(3));
    for (int i = 0; i < n; ++i) apply(*m, step(c, pl, m->size, e + 1, 4));
    fills(c, *m, 6);
    // uniformly labelled regions stay so when points are added: flips never cross a constraint
    Shot s = shot(*m);
    for (size_t i = 0; i < s.f.size(); ++i)
        for (int j = 0; j < 3; ++j)
        {
            long t = s.face_of(s.f[i].twin[j]);
            if (t >= 0 && !s.f[i].c[j] && s.f[i].info != s.f[size_t(t)].info) return; // a skipped one
        }
    for (int i = 0; i < later; ++i)
    {
        Step q = step(c, pl, m->size, 0, 1);
        apply(*m, q);
        Shot t = shot(*m);
        for (auto& f : t.f)
        {
            long p = parent(s, f);
            if (p < 0) return c.fail("harness", "a face has no parent");
            c.ev();
            // the middle is in the closed old face; on an inner edge both sides have the same label, on a constraint it cannot be
            if (f.info != s.f[size_t(p)].info) return c.fail("inherit", "after %s: a face labelled %u within one labelled %u", show(q).c_str(), f.info, s.f[size_t(p)].info);
            c.count("inherited");
        }
    }
}

void kit_main(kit::K& k)
{
    k.section("regions", 4000 * k.pick(1, 10), [](Case& c) { if (c.rng.chance(1, 2)) history<4, 400>(c, 30, 4); else history<0, 400>(c, 30, 4); });
    k.section("rooms", 150 * k.pick(1, 10), [](Case& c)
    {
        // a grid of walls with gaps, filled with points: rooms of every shape
        Held<1, 2048> m(0x77);
        m->reset();
        int w = int(c.rng.range(2, 7));
        int64_t s = 2048, o = -int64_t(w) * s / 2;
        auto wall = [&](P a, P b) { if (!c.rng.chance(1, 3)) m->insert_edge(v2({ a.x * 2, a.y * 2 }), v2({ b.x * 2, b.y * 2 }), 0); };
        for (int y = 0; y <= w; ++y)
            for (int x = 0; x <= w; ++x)
            {
                if (x < w) wall({ o + x * s, o + y * s }, { o + x * s + s, o + y * s });
                if (y < w) wall({ o + x * s, o + y * s }, { o + x * s, o + y * s + s });
            }
        for (int i = 0, n = int(c.rng.range(0, 1000)); i < n; ++i) m->insert_point(v2({ c.rng.range(2 * o - 2000, -2 * o + 2000), c.rng.range(2 * o - 2000, -2 * o + 2000) }), hint(c, m->size));
        fills(c, *m, 12);
        c.count("rooms");
    });
    k.section("large", 10 * k.pick(1, 6), [](Case& c)
    {
        // regions much larger than any work list: everywhere, clusters, lattices
        Held<0, 8192> m(0x99);
        m->reset();
        Places pl(c, 0);
        int n = int(c.rng.range(3000, 8300));
        int kind = int(c.index % 3);
        int64_t side = 90;
        for (int i = 0; i < n; ++i)
        {
            P p = kind == 0 ? pl.any() : kind == 1 ? pl.draw() : P{ -20000 + i % side * 400, -20000 + i / side * 400 };
            m->insert_point(v2(p), 0);
        }
        c.cover("large_kinds", uint64_t(kind));
        fills(c, *m, 8);
    });
}
