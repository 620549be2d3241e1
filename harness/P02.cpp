// P02: the pool's slot allocator never hands out a slot which is in use, nor the null slot, and runs out only when all are in use.
#include "kit.h"
#include "ce/pool.h"
using kit::Case;

template<size_t N, class I> static void history(Case& c)
{
    using P = ce::pool<N, int, I>;
    auto mem = static_cast<P*>(malloc(sizeof(P)));
    P& p = *mem;
    uint64_t h = N;
    for (int round = 0; round < 2; ++round)
    {
        // reset() is what makes a pool, whatever its memory held: nothing, all ones, noise, or parts of what another pool left
        if (round == 0 || c.rng.chance(1, 2))
        {
            auto junk = [&](void* at, size_t n) { int how = int(c.rng.below(6)); for (size_t i = 0; i < n; ++i) static_cast<unsigned char*>(at)[i] = how == 0 ? 0 : how == 1 ? 0xff : how == 2 ? 0xa5 : how == 3 ? 1 : (unsigned char)c.rng.below(256); };
            junk(mem, sizeof(P));
            if (c.rng.chance(1, 2)) junk(&p.size, sizeof p.size);
            if (c.rng.chance(1, 2)) junk(&p.next, sizeof p.next);
        }
        p.reset();
        std::set<size_t> used, ever;
        std::vector<size_t> order;
        int ops = 1 + int(c.rng.below(N < 300 ? N * 4 + 20 : 1500)), shape = int(c.rng.below(4));
        for (int o = 0; o < ops; ++o)
        {
            c.ev();
            bool in = used.empty() || c.rng.below(10) < (shape == 0 ? 8u : shape == 1 ? 4u : 5u);
            h = kit::mix(h ^ in);
            if (in)
            {
                size_t n = p.alloc_index();
                if (n == 0)
                {
                    c.count("exhausted");
                    if (used.size() != N - 1) { c.fail("exhausted", "pool<%zu> ran out with %zu slots in use", N, used.size()); o = ops; }
                }
                else if (n >= N || !used.insert(n).second) { c.fail("double", "pool<%zu> handed out slot %zu (%zu in use)", N, n, used.size()); o = ops; }
                else ever.insert(n), order.push_back(n), p.data[n] = int(n);
            }
            else if (c.rng.chance(1, 20))
                p.free_index(0), c.count("freed_null"); // no effect
            else
            {
                size_t at = c.rng.chance(1, 3) ? order.size() - 1 : c.rng.chance(1, 2) ? 0 : c.rng.below(order.size()), n = order[at];
                order.erase(order.begin() + ptrdiff_t(at));
                used.erase(n);
                if (p.data[n] != int(n)) { c.fail("clobbered", "slot %zu changed while in use", n); o = ops; }
                p.free_index(I(n));
            }
        }
        // whatever happened, every slot can still be had
        if (c.rng.chance(1, 2) && !c.failed)
        {
            for (size_t n; (n = p.alloc_index()) != 0;)
                if (n >= N || !used.insert(n).second) { c.fail("double", "pool<%zu> handed out slot %zu while refilling", N, n); break; }
            if (used.size() != N - 1 && !c.failed) c.fail("leak", "pool<%zu>: only %zu slots can be had", N, used.size());
            c.count("refilled");
        }
    }
    if (P::capacity() != N) c.fail("capacity", "pool<%zu> says %zu", N, P::capacity());
    free(mem);
    c.distinct(h);
    c.sample("pool<%zu> %zu byte index", N, sizeof(I));
}

void kit_main(kit::K& k)
{
    k.section("histories", 12000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(7))
        {
        case 0: return history<1, uint16_t>(c);
        case 1: return history<2, unsigned char>(c);
        case 2: return history<3, uint16_t>(c);
        case 3: return history<16, uint32_t>(c);
        case 4: return history<100, uint16_t>(c);
        case 5: return history<256, unsigned char>(c);
        default: return history<1000, uint16_t>(c);
        }
    });
}
