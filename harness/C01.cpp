// C01: after every operation of any history the faces triangulate the domain, and every view of the mesh agrees with them.
#include "mesh.h"
using namespace mesh;

template<size_t Q, size_t N> static void history(Case& c, unsigned edges, unsigned of, int most, int every)
{
    Held<Q, N> m(int(c.rng.below(256)));
    m->reset();
    std::vector<std::unique_ptr<Places>> pl;
    for (int i = 0, n = c.rng.chance(1, 2) ? 1 : 3; i < n; ++i) pl.emplace_back(new Places(c, Q));
    int n = int(c.rng.range(1, most));
    Shot last = shot(*m);
    std::set<P> before = last.corners(), given;
    if (before.size() != 4 || last.f.size() != 2) return c.fail("reset", "%zu corners, %zu faces after a reset", before.size(), last.f.size());
    size_t kinds = 0;
    for (int i = 0; i < n; ++i)
    {
        auto& p = *pl[c.rng.below(pl.size())];
        kinds |= size_t(1) << p.kind;
        Step s = step(c, p, m->size, edges, of);
        bool ok = apply(*m, s);
        c.count(s.edge ? ok ? "edges" : "edges_refused" : ok ? "points" : "points_refused");
        given.insert(snap(s.p, Q)), given.insert(snap(s.q, Q));
        bool look = i + 1 == n || i % every == 0;
        if (!look) continue;
        c.ev();
        Shot t = shot(*m);
        auto w = invalid(*m, t);
        if (w.empty()) w = disagree(*m, t);
        if (!w.empty()) return c.fail("invalid", "operation %d, %s (hint %llu): %s", i, show(s).c_str(), (unsigned long long)s.hint, w.c_str());
        auto now = t.corners();
        for (P a : before) if (!now.count(a)) return c.fail("corner-lost", "operation %d, %s: %s", i, show(s).c_str(), show(a).c_str());
        if (every == 1)
        {
            // which corners may appear: the given ones, and for edges the points they are split at
            if (ok && (!now.count(snap(s.p, Q)) || !now.count(snap(s.q, Q)))) return c.fail("corner-missing", "operation %d, %s was accepted", i, show(s).c_str());
            size_t fresh = 0;
            for (P a : now)
                if (!before.count(a) && a != snap(s.p, Q) && a != snap(s.q, Q))
                {
                    ++fresh;
                    if (!s.edge) return c.fail("corner-added", "operation %d, %s added %s", i, show(s).c_str(), show(a).c_str());
                    P u = snap(s.p, Q), v = snap(s.q, Q);
                    // split points lie on the edge up to rounding; at least in its box
                    if (a.x < std::min(u.x, v.x) - 1 || a.x > std::max(u.x, v.x) + 1 || a.y < std::min(u.y, v.y) - 1 || a.y > std::max(u.y, v.y) + 1)
                        return c.fail("split-outside", "operation %d, %s added %s", i, show(s).c_str(), show(a).c_str());
                }
            c.count("split_points", fresh);
        }
        before = now;
        c.cover("sizes", m->size);
        last = t;
    }
    for (auto& p : pl) c.cover("kind_edges", uint64_t(p->kind) * 2 + (edges != 0));
    c.distinct(last.hash());
    c.sample("%d operations: %zu corners, %zu faces, %zu constraints", n, size_t(m->size), last.f.size(), constraints(last).size());
}

void kit_main(kit::K& k)
{
    k.section("points", 300 * k.pick(1, 10), [](Case& c)
    {
        if (c.rng.chance(1, 2)) history<0, 512>(c, 0, 1, 100, 1); else history<5, 512>(c, 0, 1, 100, 1);
    });
    k.section("few", 3000 * k.pick(1, 10), [](Case& c) { history<4, 64>(c, unsigned(c.rng.below(3)), 3, 8, 1); });
    k.section("mixed", 1500 * k.pick(1, 10), [](Case& c)
    {
        unsigned e = unsigned(1 + c.rng.below(4));
        switch (c.rng.below(4))
        {
        case 0: history<0, 512>(c, e, 4, 60, 1); break;
        case 1: history<1, 300>(c, e, 4, 60, 1); break;
        case 2: history<9, 512>(c, e, 4, 60, 1); break;
        default: history<14, 512>(c, e, 4, 60, 1); break;
        }
    });
    k.section("large", 16 * k.pick(1, 10), [](Case& c)
    {
        if (c.rng.chance(1, 2)) history<3, 8192>(c, 0, 1, 9000, 997); else history<3, 8192>(c, 1, 8, 3000, 499);
    });
}
