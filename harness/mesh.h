// What a monitor sees of a mesh through its public views, and the exact geometry to judge it with.
#pragma once
#include "kit.h"
#include "ce/cdt.h"
#include <algorithm>
#include <memory>

namespace mesh
{
    typedef __int128 i128;
    using kit::Case;

    struct P
    {
        int64_t x, y;
        bool operator<(P const& o) const { return x != o.x ? x < o.x : y < o.y; }
        bool operator==(P const& o) const { return x == o.x && y == o.y; }
        bool operator!=(P const& o) const { return !(*this == o); }
    };
    inline i128 cross(P a, P b, P c) { return i128(b.x - a.x) * (c.y - a.y) - i128(b.y - a.y) * (c.x - a.x); }
    // > 0 when d is strictly inside the circle through a, b, c (counter clockwise)
    inline i128 incircle(P a, P b, P c, P d)
    {
        i128 ax = a.x - d.x, ay = a.y - d.y, bx = b.x - d.x, by = b.y - d.y, cx = c.x - d.x, cy = c.y - d.y;
        return (ax * ax + ay * ay) * (bx * cy - by * cx) + (bx * bx + by * by) * (cx * ay - cy * ax) + (cx * cx + cy * cy) * (ax * by - ay * bx);
    }
    inline std::string show(P p) { return kit::fmt("(%lld, %lld)", (long long)p.x, (long long)p.y); }

    // positions are in mesh units: user coordinates >> Q
    struct Face { P p[3]; uint32_t twin[3]; bool c[3]; uint16_t info; };
    inline bool operator==(Face const& a, Face const& b)
    {
        for (int i = 0; i < 3; ++i) if (a.p[i] != b.p[i] || a.twin[i] != b.twin[i] || a.c[i] != b.c[i]) return false;
        return a.info == b.info;
    }

    struct Shot
    {
        std::vector<Face> f; // face i has id 24 + 4 i
        bool operator==(Shot const& o) const { return f == o.f; }
        static uint32_t id(size_t i) { return uint32_t(24 + 4 * i); }
        // twin edge -> face index; -1 none
        long face_of(uint32_t e) const { return e == 0 ? -1 : e < 24 || (e - 24) / 4 >= f.size() || e % 4 == 3 ? -2 : long((e - 24) / 4); }
        uint64_t hash() const
        {
            uint64_t h = f.size();
            for (auto& a : f)
                for (int i = 0; i < 3; ++i) h = kit::mix(h ^ uint64_t(a.p[i].x + 70000) ^ uint64_t(a.p[i].y + 70000) << 20 ^ uint64_t(a.c[i]) << 63), h = kit::mix(h ^ a.twin[i] ^ uint64_t(a.info) << 32);
            return h;
        }
        std::set<P> corners() const { std::set<P> s; for (auto& a : f) for (auto& q : a.p) s.insert(q); return s; }
    };

    template<size_t Q, size_t N> Shot shot(ce::cdt<Q, N> const& m)
    {
        Shot s;
        for (auto a : m.faces())
        {
            Face b;
            for (int i = 0; i < 3; ++i)
                b.p[i] = { a.ps[i].x / (int64_t(1) << Q), a.ps[i].y / (int64_t(1) << Q) }, b.twin[i] = uint32_t(a.es[i]), b.c[i] = a.cs[i];
            b.info = a.data;
            s.f.push_back(b);
            if (s.f.size() > 4 * 8192) break;
        }
        return s;
    }

    enum { LO = -32768, HI = 32767 };

    // empty, or what is wrong with the triangulation
    template<size_t Q, size_t N> std::string invalid(ce::cdt<Q, N> const& m, Shot const& s)
    {
        size_t nv = m.size;
        if (nv < 4) return "fewer than 4 corners";
        if (s.f.size() != 2 * nv - 6) return kit::fmt("%zu faces for %zu corners", s.f.size(), nv);
        auto corners = s.corners();
        if (corners.size() != nv) return kit::fmt("the faces have %zu corners, not %zu", corners.size(), nv);
        for (P q : { P{ LO, LO }, P{ LO, HI }, P{ HI, LO }, P{ HI, HI } })
            if (!corners.count(q)) return "a corner of the domain is missing: " + show(q);
        i128 area = 0;
        for (size_t i = 0; i < s.f.size(); ++i)
        {
            auto& a = s.f[i];
            for (auto& q : a.p)
                if (q.x < LO || q.x > HI || q.y < LO || q.y > HI) return "corner outside the domain: " + show(q);
            auto d = cross(a.p[0], a.p[1], a.p[2]);
            if (d >= 0) return kit::fmt("face %zu is degenerate or turned over", i);
            area -= d;
            for (int j = 0; j < 3; ++j)
            {
                P u = a.p[(j + 1) % 3], v = a.p[(j + 2) % 3];
                bool border = (u.x == v.x && (u.x == LO || u.x == HI)) || (u.y == v.y && (u.y == LO || u.y == HI));
                long t = s.face_of(a.twin[j]);
                if (t == -1)
                {
                    if (!border) return kit::fmt("face %zu has no neighbour at inner edge %d", i, j);
                    if (!a.c[j]) return kit::fmt("face %zu: border edge %d is not constrained", i, j);
                    continue;
                }
                if (t < 0) return kit::fmt("face %zu: neighbour %u is no edge", i, a.twin[j]);
                auto& b = s.f[size_t(t)];
                int k = int(a.twin[j] % 4);
                if (b.twin[k] != Shot::id(i) + uint32_t(j)) return kit::fmt("face %zu: the neighbour of its neighbour at edge %d is another", i, j);
                if (b.p[(k + 1) % 3] != v || b.p[(k + 2) % 3] != u) return kit::fmt("face %zu and its neighbour at edge %d do not share its ends", i, j);
                if (b.c[k] != a.c[j]) return kit::fmt("face %zu and its neighbour disagree about the constraint at edge %d", i, j);
            }
        }
        if (area != i128(HI - LO) * (HI - LO) * 2) return "the faces do not cover the domain once";
        return "";
    }

    // the other views against the faces
    template<size_t Q, size_t N> std::string disagree(ce::cdt<Q, N> const& m, Shot const& s)
    {
        typedef ce::cdt<Q, N> M;
        int64_t S = int64_t(1) << Q;
        size_t n = 0, primaries = 0, borders = 0;
        auto is = [&](ce::vec2<int32_t> const& v, P q) { return v.x == q.x * S && v.y == q.y * S; };
        for (auto e : m.edges())
        {
            size_t i = n / 3, j = n % 3;
            if (i >= s.f.size()) return "more edges than the faces have";
            auto& a = s.f[i];
            uint32_t id = Shot::id(i) + uint32_t(j);
            P u = a.p[(j + 1) % 3], v = a.p[(j + 2) % 3];
            if (!is(e.u, u) || !is(e.v, v)) return kit::fmt("edge %zu has other ends than in its face", n);
            if (e.constrained != a.c[j]) return kit::fmt("edge %zu: constrained %d", n, e.constrained);
            if (e.primary != (a.twin[j] < id)) return kit::fmt("edge %zu: primary %d", n, e.primary);
            auto d = m[typename M::edge_id_t(id)];
            if (!is(d.u, u) || !is(d.v, v) || d.constrained != e.constrained || d.primary != e.primary) return kit::fmt("edge %u by id differs from the view", id);
            if (!is(m.edge_vert_a(id), u) || !is(m.edge_vert_b(id), v) || !is(m.edge_vert_o(id), a.p[j])) return kit::fmt("the corners of edge %u by id differ", id);
            if (M::next_edge(id) != Shot::id(i) + (j + 1) % 3) return kit::fmt("the edge after %u is not the next of its face", id);
            primaries += e.primary, borders += a.twin[j] == 0;
            ++n;
        }
        if (n != s.f.size() * 3) return kit::fmt("%zu edges for %zu faces", n, s.f.size());
        if (primaries * 2 != n + borders) return "not exactly one of each pair of twin edges is primary";
        return "";
    }

    // ---- workloads
    struct Op { bool edge; P p, q; uint64_t hint; };

    // places in user units; `even` mesh grid positions are p >> Q & ~1
    inline int64_t grid(int64_t user, size_t q) { return user >> q & ~int64_t(1); }

    // a way to draw points: each gives other degeneracies
    struct Places
    {
        Case& c;
        size_t q;
        int kind;
        int64_t S, r, cx, cy;
        P a, b;
        std::vector<P> pool;

        Places(Case& c, size_t q) : c(c), q(q)
        {
            S = int64_t(1) << q;
            kind = int(c.rng.below(9));
            r = int64_t(1) << c.rng.range(1, 15);
            if (r > 32700) r = 32700;
            auto centre = [&] { return c.rng.chance(1, 2) ? 0 : c.rng.range(LO + r + 2, HI - r - 2); };
            cx = centre(), cy = centre();
            a = any(), b = any();
        }
        int64_t one() { int64_t whole = c.rng.range(LO + 1, HI - 1); return whole * S + c.rng.range(0, S - 1); }
        P any() { int64_t x = one(); return { x, one() }; }
        // takes a pair in braces, which every compiler evaluates in the same order
        P at(P v)
        {
            int64_t x = v.x, y = v.y;
            auto k = [](int64_t v) { return std::max<int64_t>(LO + 2, std::min<int64_t>(HI - 1, v)); };
            return { k(x) * S, k(y) * S };
        }
        P draw()
        {
            auto& g = c.rng;
            P p;
            switch (kind)
            {
            case 0: p = any(); break; // anywhere
            case 1: p = at({ cx + g.range(-r, r), cy + g.range(-r, r) }); break; // a cluster
            case 2: { int64_t s = std::max<int64_t>(2, r / 8); p = at({ cx + g.range(-8, 8) * s, cy + g.range(-8, 8) * s }); break; } // a lattice: cocircular and collinear
            case 3: { // lines
                int64_t t = g.range(0, 64);
                if (g.chance(1, 8)) { p = any(); break; }
                p = { a.x + (b.x - a.x) / 64 * t, a.y + (b.y - a.y) / 64 * t };
                break;
            }
            case 4: { // a circle, with its exact lattice points
                static const int tri[][2] = { { 3, 4 }, { 5, 12 }, { 8, 15 }, { 7, 24 }, { 20, 21 }, { 0, 1 } };
                auto& t = tri[g.below(6)];
                int64_t u = t[0], v = t[1], h = int64_t(__builtin_sqrt(double(u * u + v * v)) + 0.5), k = std::max<int64_t>(1, r / h) & ~1;
                if (k == 0) k = 2;
                if (g.chance(1, 2)) std::swap(u, v);
                p = at({ cx + (g.chance(1, 2) ? u : -u) * k, cy + (g.chance(1, 2) ? v : -v) * k });
                break;
            }
            case 5: // near the border and the corners
            {
                auto near = [&] { int64_t d = 1 + int64_t(g.wide(6)); return g.chance(1, 2) ? LO + d : HI - d; };
                p = at({ g.chance(1, 2) ? near() : g.range(LO, HI), g.chance(1, 2) ? near() : g.range(LO, HI) });
                break;
            }
            case 6: { int64_t up = g.chance(1, 2) ? 1 : -1; p = at({ cx + g.range(-1, 1) * 2, cy + int64_t(g.wide(14)) * up }); break; } // slivers
            case 7: { // every magnitude around the centre
                p = at({ cx + g.swide(16), cy + g.swide(16) });
                break;
            }
            default: p = any(), p.x = grid(p.x, q) / 4096 * 4096 * S, p.y = grid(p.y, q) / 4096 * 4096 * S; break; // a coarse lattice over everything
            }
            // the corner of the domain which even positions reach, and the borders which meet there
            if (g.chance(1, 40))
            {
                auto lo = [&] { return LO * S + g.range(0, 2 * S - 1); };
                p = { lo(), lo() };
                if (g.chance(1, 3)) (g.chance(1, 2) ? p.x : p.y) = any().x;
            }
            if (!pool.empty() && g.chance(1, 12)) p = g.chance(1, 2) ? pool[g.below(pool.size())] : mid();
            pool.push_back(p);
            return p;
        }
        P mid() { P u = pool[c.rng.below(pool.size())], v = pool[c.rng.below(pool.size())]; return { (u.x + v.x) / 2, (u.y + v.y) / 2 }; }
        P again() { return pool.empty() ? draw() : pool[c.rng.below(pool.size())]; }
    };
    inline uint64_t hint(Case& c, size_t size)
    {
        switch (c.rng.below(6))
        {
        case 0: return 0;
        case 1: return c.rng.below(24);
        case 2: return c.rng.below(size * 8 + 16);
        case 3: return c.rng.wide(32);
        case 4: return size * 8 - 1 - c.rng.below(8);
        default: return 24 + c.rng.below(size * 8 - 24);
        }
    }
    inline ce::vec2<int32_t> v2(P p) { return { int32_t(p.x), int32_t(p.y) }; }
    inline P snap(P p, size_t q) { return { grid(p.x, q), grid(p.y, q) }; }

    // a mesh alone on the heap, in memory of known content
    template<size_t Q, size_t N> struct Held
    {
        typedef ce::cdt<Q, N> M;
        M* m;
        explicit Held(int fill) { m = static_cast<M*>(malloc(sizeof(M))); memset(static_cast<void*>(m), fill, sizeof(M)); }
        ~Held() { free(m); }
        Held(Held const&) = delete;
        M& operator*() { return *m; }
        M* operator->() { return m; }
    };
}

namespace mesh
{
    // one operation of a random history; returns whether it was accepted
    struct Step { bool edge; P p, q; uint64_t hint; };
    inline Step step(Case& c, Places& pl, size_t size, unsigned edges, unsigned of)
    {
        Step s;
        s.edge = c.rng.chance(edges, of);
        s.p = c.rng.chance(1, 3) && s.edge ? pl.again() : pl.draw();
        s.q = s.edge ? c.rng.chance(1, 3) ? pl.again() : pl.draw() : s.p;
        s.hint = hint(c, size);
        return s;
    }
    template<size_t Q, size_t N> bool apply(ce::cdt<Q, N>& m, Step const& s)
    {
        return s.edge ? m.insert_edge(v2(s.p), v2(s.q), s.hint) : m.insert_point(v2(s.p), s.hint);
    }
    inline std::string show(Step const& s) { return s.edge ? "edge " + show(s.p) + " - " + show(s.q) : "point " + show(s.p); }

    typedef std::pair<P, P> Side;
    // the constrained edges, each once, smaller end first
    inline std::set<Side> constraints(Shot const& s)
    {
        std::set<Side> r;
        for (auto& f : s.f)
            for (int i = 0; i < 3; ++i)
                if (f.c[i])
                {
                    P u = f.p[(i + 1) % 3], v = f.p[(i + 2) % 3];
                    r.insert(u < v ? Side{ u, v } : Side{ v, u });
                }
        return r;
    }
    // is the segment u v exactly covered by edges of the set (a chain of collinear edges)?
    struct Lines
    {
        std::map<P, std::vector<P>> at;
        explicit Lines(std::set<Side> const& s) { for (auto& e : s) at[e.first].push_back(e.second), at[e.second].push_back(e.first); }
        bool straight(P u, P v) const
        {
            while (u != v)
            {
                auto a = at.find(u);
                if (a == at.end()) return false;
                bool found = false;
                for (P w : a->second)
                {
                    // w on the segment, further along
                    if (cross(u, v, w) != 0) continue;
                    i128 along = i128(w.x - u.x) * (v.x - u.x) + i128(w.y - u.y) * (v.y - u.y);
                    i128 whole = i128(v.x - u.x) * (v.x - u.x) + i128(v.y - u.y) * (v.y - u.y);
                    if (along <= 0 || along > whole) continue;
                    u = w, found = true;
                    break;
                }
                if (!found) return false;
            }
            return true;
        }
        // connected by any edges whose corners pass the test
        template<class F> bool joined(P u, P v, F const& ok) const
        {
            std::set<P> seen;
            std::vector<P> todo{ u };
            while (!todo.empty())
            {
                P a = todo.back();
                todo.pop_back();
                if (a == v) return true;
                if (!seen.insert(a).second) continue;
                auto i = at.find(a);
                if (i == at.end()) continue;
                for (P b : i->second) if (ok(b)) todo.push_back(b);
            }
            return false;
        }
    };
    // do the open segments cross or touch anywhere but in a common end?
    inline int sgn(i128 v) { return v < 0 ? -1 : v > 0; }
    inline bool within(P a, P b, P p) { return std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
    inline bool crosses(P a, P b, P c, P d)
    {
        return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
    }
}
