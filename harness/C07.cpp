// C07: the same history gives the same mesh, whatever was in its memory before and however it is built (the digests of all builds must agree).
#include "mesh.h"
using namespace mesh;

template<size_t Q, size_t N> static void history(Case& c, int most)
{
    typedef ce::cdt<Q, N> M;
    // three places: clean, dirty, and one that had another mesh and is reset
    Held<Q, N> a(0), b(int(1 + c.rng.below(255))), d(int(c.rng.below(256)));
    d->reset();
    {
        Places pl(c, Q);
        for (int i = 0, n = int(c.rng.range(1, most)); i < n; ++i) apply(*d, step(c, pl, d->size, 1, 3));
        if (c.rng.chance(1, 2)) d->fill(24, uint16_t(c.rng.wide(16)));
    }
    a->reset(), b->reset(), d->reset();
    Places pl(c, Q);
    unsigned e = unsigned(c.rng.below(3));
    int n = int(c.rng.range(1, most));
    for (int i = 0; i < n; ++i)
    {
        Step s = step(c, pl, a->size, e, 3);
        int what = int(c.rng.below(8));
        if (what == 0)
        {
            uint32_t f = Shot::id(c.rng.below(2 * a->size - 6));
            f += uint32_t(c.rng.below(4));
            uint16_t l = uint16_t(c.rng.below(5));
            a->fill(f, l), b->fill(f, l), d->fill(f, l);
            c.count("fills");
        }
        else if (what == 1)
        {
            P p = pl.any();
            uint32_t h = uint32_t(hint(c, a->size));
            uint32_t x = a->locate(int32_t(p.x), int32_t(p.y), h), y = b->locate(int32_t(p.x), int32_t(p.y), h), z = d->locate(int32_t(p.x), int32_t(p.y), h);
            if (x != y || x != z) return c.fail("memory", "operation %d of %d, locate %s with hint %u: %u, %u, %u", i, n, show(p).c_str(), h, x, y, z);
            c.digest(x);
            c.count("locates");
        }
        else
        {
            bool x = apply(*a, s), y = apply(*b, s), z = apply(*d, s);
            if (x != y || x != z) return c.fail("memory", "operation %d of %d, %s: %d in clean memory, %d in dirty, %d after a reset", i, n, show(s).c_str(), x, y, z);
            c.digest(x);
            c.count(s.edge ? "edges" : "points");
        }
        Shot u = shot(*a), v = shot(*b), w = shot(*d);
        c.ev();
        if (!(u == v)) return c.fail("memory", "after operation %d of %d, %s: differs in dirty memory", i, n, show(s).c_str());
        if (!(u == w)) return c.fail("memory", "after operation %d of %d, %s: differs after a reset", i, n, show(s).c_str());
        c.digest(u.hash());
    }
    // a copy is the same mesh, and goes on in the same way
    M* k = static_cast<M*>(malloc(sizeof(M)));
    memset(static_cast<void*>(k), 0x6b, sizeof(M));
    *k = *a;
    for (int i = 0; i < 3; ++i)
    {
        Step s = step(c, pl, a->size, e, 3);
        bool x = apply(*a, s), y = apply(*k, s);
        if (x != y || !(shot(*a) == shot(*k))) { c.fail("copy", "%s differs in a copy", show(s).c_str()); break; }
    }
    free(k);
    c.distinct(shot(*a).hash());
    c.sample("%d operations in clean, dirty and reused memory: %zu corners", n, size_t(a->size));
}

void kit_main(kit::K& k)
{
    k.section("histories", 3000 * k.pick(1, 6), [](Case& c)
    {
        switch (c.rng.below(4))
        {
        case 0: history<0, 256>(c, 40); break;
        case 1: history<5, 24>(c, 40); break;
        case 2: history<14, 256>(c, 40); break;
        default: history<3, 256>(c, 12); break;
        }
    });
    k.section("long", 30 * k.pick(1, 6), [](Case& c) { history<2, 1024>(c, 400); });
}
