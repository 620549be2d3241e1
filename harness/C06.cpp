// C06: duplicates, points outside, full meshes and rounding to the grid.
#include "mesh.h"
using namespace mesh;

template<size_t Q, size_t N> static void limits(Case& c, int most, bool watch)
{
    typedef ce::cdt<Q, N> M;
    const size_t cap = N < 8192 ? N : 8192;
    const int64_t S = int64_t(1) << Q;
    Held<Q, N> m(int(c.rng.below(256)));
    m->reset();
    std::set<P> have{ { LO, LO }, { LO, HI }, { HI, LO }, { HI, HI } };
    Places pl(c, Q);
    Shot s = shot(*m);
    for (int i = 0; i < most; ++i)
    {
        // any 32 bit position; places inside; again; the corners and the border
        P p;
        uint64_t kind = c.rng.below(8);
        switch (kind)
        {
        case 0: p = { c.rng.swide(32), c.rng.swide(32) }; break;
        case 1: p = { c.rng.chance(1, 2) ? LO * S : HI * S, c.rng.chance(1, 2) ? LO * S : HI * S }; p.x += c.rng.range(-3, 3), p.y += c.rng.range(-3, 3); break;
        case 2: p = pl.any(); (c.rng.chance(1, 2) ? p.x : p.y) = (c.rng.chance(1, 2) ? LO * S : HI * S) + c.rng.range(-2, 2); break;
        case 3: p = pl.again(); p.x += c.rng.range(-1, 1), p.y += c.rng.range(-1, 1); break;
        default: p = pl.draw(); break;
        }
        p.x = std::max<int64_t>(INT32_MIN, std::min<int64_t>(INT32_MAX, p.x)), p.y = std::max<int64_t>(INT32_MIN, std::min<int64_t>(INT32_MAX, p.y));
        P g = snap(p, Q);
        bool dup = have.count(g) != 0;
        bool out = g.x < LO || g.x > HI || g.y < LO || g.y > HI;
        bool border = !out && !dup && (g.x == LO || g.x == HI || g.y == LO || g.y == HI);
        bool full = have.size() >= cap;
        bool want = dup || (!out && !border && !full);
        // an edge from a point to itself is its point; one to nowhere or from nowhere is refused
        uint64_t how = c.rng.below(6);
        bool ok;
        uint64_t h = hint(c, m->size);
        if (how == 0) ok = m->insert_edge(v2(p), v2(p), h);
        else ok = m->insert_point(v2(p), h);
        c.ev();
        c.count(dup ? "duplicates" : out ? "outside" : border ? "on_border" : full ? "full" : "new");
        auto say = [&](char const* k, char const* w) { c.fail(k, "point %s of grid %s in a mesh of %zu of %zu (hint %llu): %s", show(p).c_str(), show(g).c_str(), have.size(), cap, (unsigned long long)h, w); };
        if (ok != want) return say(want ? "refused" : "accepted", dup ? "is there" : out ? "is outside" : border ? "is on the border" : full ? "mesh is full" : "is new");
        if (!dup && ok) have.insert(g);
        if (m->size != have.size()) return say("size", kit::fmt("size is %zu", size_t(m->size)).c_str());
        if (watch || i + 1 == most || !ok)
        {
            if (!watch && i + 1 != most && !c.rng.chance(1, 50)) continue;
            Shot t = shot(*m);
            if (watch && (dup || !ok) && !(t == s)) return say("changed", dup ? "duplicate changed the mesh" : "refused point changed the mesh");
            if (t.corners() != have) return say("corners", "the corners are not those accepted");
            auto w = invalid(*m, t);
            if (!w.empty()) return say("invalid", w.c_str());
            s = t;
        }
    }
    c.cover("capacities_full", have.size() >= cap ? cap : 0);
    c.distinct(s.hash());
    c.sample("capacity %zu, scale 2^%zu: %zu corners", cap, Q, have.size());
}

// edges at the limits: the mesh stays valid, only gains, and never beyond its capacity
template<size_t Q, size_t N> static void edges(Case& c, int most)
{
    const int64_t S = int64_t(1) << Q;
    Held<Q, N> m(int(c.rng.below(256)));
    m->reset();
    Places pl(c, Q);
    std::set<P> before = shot(*m).corners();
    for (int i = 0; i < most; ++i)
    {
        Step s = step(c, pl, m->size, 2, 3);
        bool beyond = c.rng.chance(1, 6);
        if (beyond && s.edge)
        {
            P far{ c.rng.swide(32), c.rng.swide(32) };
            if (c.rng.chance(1, 2)) far.x = (c.rng.chance(1, 2) ? LO * S - 1 : (HI + 1) * S);
            (c.rng.chance(1, 2) ? s.p : s.q) = far;
        }
        bool full = m->size >= N;
        Shot a = shot(*m);
        bool ok = apply(*m, s);
        c.ev();
        Shot t = shot(*m);
        auto w = invalid(*m, t);
        if (w.empty() && m->size > N) w = "beyond its capacity";
        if (w.empty()) for (P p : before) if (!t.corners().count(p)) w = "lost " + show(p);
        P u = snap(s.p, Q), v = snap(s.q, Q);
        auto outside = [](P g) { return g.x < LO || g.x > HI || g.y < LO || g.y > HI; };
        auto now = t.corners();
        if (w.empty() && ok && (outside(u) || outside(v))) w = "an end is outside, but it was accepted";
        if (w.empty() && ok && (!now.count(u) || !now.count(v))) w = "an end is missing, but it was accepted";
        if (w.empty() && outside(u) && !(t == a)) w = "its start is outside, but it changed the mesh";
        if (w.empty() && full && now.size() != before.size()) w = "grew when full";
        if (!w.empty()) return c.fail("edge-limit", "operation %d, %s in a mesh of %zu of %zu: %s", i, show(s).c_str(), before.size(), N, w.c_str());
        c.count(full ? "edge_when_full" : outside(u) || outside(v) ? "edge_outside" : ok ? "edge_accepted" : "edge_refused");
        before = now;
    }
    c.distinct(shot(*m).hash());
}

// every residue of the scale, negative positions too: rounded down to even grid positions
template<size_t Q> static void rounding(Case& c)
{
    const int64_t S = int64_t(1) << Q;
    Held<Q, 16> m(0x33);
    m->reset();
    int64_t gx = c.rng.range(LO / 2 + 1, HI / 2 - 1) * 2, gy = c.rng.range(LO / 2 + 1, HI / 2 - 1) * 2;
    auto any = [&](int64_t g) { return g * S + (c.rng.chance(1, 3) ? 0 : c.rng.chance(1, 2) ? 2 * S - 1 : c.rng.range(0, 2 * S - 1)); };
    P p{ any(gx), any(gy) }, q{ any(gx), any(gy) };
    bool e = c.rng.chance(1, 3);
    bool ok = e ? m->insert_edge(v2(p), v2(q), 0) : m->insert_point(v2(p), 0) && m->insert_point(v2(q), 0);
    c.ev();
    auto k = shot(*m).corners();
    if (!ok || k.size() != 5 || !k.count({ gx, gy })) c.fail("rounding", "%s and %s (scale 2^%zu): accepted %d, %zu corners, grid %s", show(p).c_str(), show(q).c_str(), Q, ok, k.size(), show(P{ gx, gy }).c_str());
    c.cover("residues", uint64_t(Q) << 32 ^ uint64_t(p.x - gx * S) << 16 ^ uint64_t(p.y - gy * S));
    c.distinct(kit::mix(uint64_t(p.x)) ^ uint64_t(p.y));
}

void kit_main(kit::K& k)
{
    k.section("tiny", 3000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(7))
        {
        case 0: limits<0, 4>(c, 30, true); break;
        case 1: limits<3, 5>(c, 30, true); break;
        case 2: limits<14, 6>(c, 30, true); break;
        case 3: limits<1, 8>(c, 40, true); break;
        case 4: limits<15, 16>(c, 60, true); break;
        case 5: limits<4, 33>(c, 100, true); break;
        default: limits<0, 64>(c, 150, true); break;
        }
    });
    k.section("big", 8 * k.pick(1, 5), [](Case& c) { if (c.rng.chance(1, 2)) limits<0, 8192>(c, 26000, false); else limits<2, 10000>(c, 26000, false); });
    k.section("edges", 3000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(5))
        {
        case 0: edges<0, 4>(c, 20); break;
        case 1: edges<3, 5>(c, 20); break;
        case 2: edges<1, 9>(c, 20); break;
        case 3: edges<14, 20>(c, 30); break;
        default: edges<4, 64>(c, 60); break;
        }
    });
    k.section("rounding", 20000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(5))
        {
        case 0: rounding<0>(c); break;
        case 1: rounding<1>(c); break;
        case 2: rounding<4>(c); break;
        case 3: rounding<9>(c); break;
        default: rounding<15>(c); break;
        }
    });
}
