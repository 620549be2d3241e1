// C03: accepted edges exist as constrained chains between their end points, constraints persist, and only edges make constraints.
#include "mesh.h"
using namespace mesh;

template<size_t Q, size_t N> static void history(Case& c, unsigned edges, unsigned of, int most)
{
    Held<Q, N> m(int(c.rng.below(256)));
    m->reset();
    std::vector<std::unique_ptr<Places>> pl;
    for (int i = 0, n = c.rng.chance(1, 2) ? 1 : 3; i < n; ++i) pl.emplace_back(new Places(c, Q));
    int n = int(c.rng.range(1, most));
    auto before = constraints(shot(*m));
    std::vector<Side> exact; // accepted, and straight then
    size_t corners = 4;
    for (int i = 0; i < n; ++i)
    {
        auto& pp = *pl[c.rng.below(pl.size())];
        Step s = step(c, pp, m->size, edges, of);
        P u = snap(s.p, Q), v = snap(s.q, Q);
        Shot t0 = shot(*m);
        auto was = t0.corners();
        bool there = false; // the mesh already has the edge, constrained or not
        if (s.edge && was.count(u) && was.count(v))
        {
            std::set<Side> all;
            for (auto& f : t0.f) for (int j = 0; j < 3; ++j) all.insert({ f.p[j], f.p[(j + 1) % 3] });
            there = Lines(all).straight(u, v);
        }
        bool ok = apply(*m, s);
        Shot t = shot(*m);
        auto now = constraints(t);
        Lines l(now);
        c.ev();
        auto what = [&](char const* w) { return kit::fmt("operation %d, %s (%s): %s", i, show(s).c_str(), ok ? "accepted" : "refused", w); };
        for (auto& e : before)
            if (!l.straight(e.first, e.second)) return c.fail("constraint-lost", "%s", what(("no longer covered: " + show(e.first) + " - " + show(e.second)).c_str()).c_str());
        std::set<Side> fresh; // not part of an earlier one
        {
            Lines o(before);
            for (auto& e : now)
                if (!before.count(e))
                {
                    bool part = false;
                    for (auto& b : before) if (cross(b.first, b.second, e.first) == 0 && cross(b.first, b.second, e.second) == 0 && within(b.first, b.second, e.first) && within(b.first, b.second, e.second)) part = true;
                    if (!part) fresh.insert(e);
                }
        }
        if (!s.edge && !fresh.empty()) return c.fail("constraint-by-point", "%s", what(show(fresh.begin()->first).c_str()).c_str());
        if (!s.edge) { c.count("points"); before = now; continue; }
        if (u == v && !fresh.empty()) return c.fail("constraint-by-point", "%s", what("one point").c_str());
        auto inbox = [&](P a, int64_t d) { return a.x >= std::min(u.x, v.x) - d && a.x <= std::max(u.x, v.x) + d && a.y >= std::min(u.y, v.y) - d && a.y <= std::max(u.y, v.y) + d; };
        for (auto& e : fresh)
            if (!inbox(e.first, 1) || !inbox(e.second, 1)) return c.fail("constraint-elsewhere", "%s", what((show(e.first) + " - " + show(e.second)).c_str()).c_str());
        // what an edge cannot avoid: corners next to it, and crossings which are not on the grid
        bool near = false, crossing = false, offgrid = false;
        i128 whole = i128(v.x - u.x) * (v.x - u.x) + i128(v.y - u.y) * (v.y - u.y);
        for (P a : was)
        {
            auto x = cross(u, v, a);
            near |= x != 0 && x * x <= 4 * whole && inbox(a, 2);
        }
        // sides of faces next to its end points
        for (auto* z : { &t0, &t })
            for (auto& f : z->f)
                for (int j = 0; j < 3; ++j)
                    for (P e : { u, v })
                    {
                        P a = f.p[j], b = f.p[(j + 1) % 3];
                        if (a == e || b == e) continue;
                        auto x = cross(a, b, e);
                        near |= x * x <= 4 * (i128(b.x - a.x) * (b.x - a.x) + i128(b.y - a.y) * (b.y - a.y)) && within({ std::min(a.x, b.x) - 2, std::min(a.y, b.y) - 2 }, { std::max(a.x, b.x) + 2, std::max(a.y, b.y) + 2 }, e);
                    }
        for (auto& b : before)
            if (crosses(u, v, b.first, b.second))
            {
                crossing = true;
                i128 d = cross(u, v, b.second) - cross(u, v, b.first), t = -cross(u, v, b.first);
                offgrid |= i128(b.second.x - b.first.x) * t % d != 0 || i128(b.second.y - b.first.y) * t % d != 0;
            }
        bool border = false;
        for (P a : { u, v }) border |= a != P{ LO, LO } && (a.x <= LO || a.y <= LO || a.x >= HI || a.y >= HI);
        if (ok && u != v && (u == P{ LO, LO } || v == P{ LO, LO })) c.count("at_the_corner");
        bool easy = !near && !offgrid && !border && m->size < N;
        if (easy) c.count(crossing ? "crossing_on_grid" : "free");
        if (easy && crossing && ok) c.count("crossing_on_grid_accepted");
        // rounding of the points it is split at can make it run into itself, and then it is refused; without any it cannot
        bool split = false;
        for (P a : t.corners()) split |= !was.count(a) && a != u && a != v;
        if (easy && !crossing && !ok && split) c.count("free_refused_after_split");
        if (easy && !crossing && !ok && !split) return c.fail("edge-refused", "%s", what("nothing is in its way").c_str());
        if (there) c.count("already_there");
        if (there && !ok) return c.fail("edge-refused", "%s", what("the mesh has this edge").c_str());
        if (!ok) { c.count("refused"); before = now; continue; }
        c.count("accepted");
        if (u == v) { before = now; continue; }
        size_t added = 0;
        for (P a : t.corners()) added += !was.count(a) && a != u && a != v;
        if (!l.joined(u, v, [&](P a) { return inbox(a, 1); })) return c.fail("edge-missing", "%s", what("its end points are not joined by constraints").c_str());
        bool straight = l.straight(u, v);
        if (!added && easy && !straight) return c.fail("edge-bent", "%s", what("nothing is in its way").c_str());
        if (!added && easy) c.count("must_be_straight");
        // corners of new constraints: ends in pairs, but at the edge's ends and on earlier constraints
        std::map<P, int> degree;
        for (auto& e : fresh) ++degree[e.first], ++degree[e.second];
        for (auto& d : degree)
            if (d.second % 2 && d.first != u && d.first != v)
            {
                bool on = false;
                for (auto& b : before) on |= cross(b.first, b.second, d.first) == 0 && within(b.first, b.second, d.first);
                if (!on) return c.fail("loose-end", "%s", what(show(d.first).c_str()).c_str());
            }
        c.count(straight ? crossing ? "straight_crossing" : "straight_free" : crossing ? "bent_crossing" : "bent_free");
        if (added) c.count("split");
        // without a crossing only the rounding of its split points bends it, rarely far (a few in a million; some in ten thousand of those which end in the corner of the domain)
        if (!crossing)
        {
            static uint64_t whole_n, astray_n;
            ++whole_n;
            if (!l.joined(u, v, [&](P a) { auto x = cross(u, v, a); return inbox(a, 1) && x * x <= whole * 64; }))
            {
                c.count("strayed");
                if (++astray_n > 4 + whole_n / 2000 || c.k.only_index >= 0)
                    return c.fail("edge-astray", "%s", what(kit::fmt("nothing crosses it, but it strays from its line, as %llu of %llu do", (unsigned long long)astray_n, (unsigned long long)whole_n).c_str()).c_str());
            }
        }
        c.distinct(t.hash());
        c.cover("split_points", added);
        before = now;
        corners = m->size;
    }
    c.sample("%d operations: %zu corners, %zu constraints", n, corners, before.size());
}

void kit_main(kit::K& k)
{
    k.section("few", 6000 * k.pick(1, 10), [](Case& c) { if (c.rng.chance(1, 2)) history<4, 200>(c, 1, 1, 8); else history<4, 200>(c, 1, 2, 12); });
    k.section("mixed", 1500 * k.pick(1, 10), [](Case& c) { if (c.rng.chance(1, 2)) history<0, 512>(c, 1, 3, 60); else history<11, 512>(c, 1, 3, 60); });
}
