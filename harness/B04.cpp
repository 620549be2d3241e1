// B04: a fixed size bit set: each bit reads back what was last written to it, whatever happens to the others.
#include "kit.h"
#include "ce/ce.h"
using kit::Case;

template<size_t N> static void history(Case& c)
{
    struct Slot { unsigned char before[16]; ce::bitset<N> b; unsigned char after[16]; };
    auto s = static_cast<Slot*>(malloc(sizeof(Slot)));
    memset(static_cast<void*>(s), 0xa5, sizeof(Slot));
    auto& b = s->b;
    std::vector<bool> m(N);
    if (c.rng.chance(1, 2)) b.set(), m.assign(N, true); else b.reset();
    int ops = 1 + int(c.rng.below(100));
    uint64_t h = N;
    for (int o = 0; o < ops; ++o)
    {
        size_t i = c.rng.below(N);
        int op = c.rng.chance(1, 30) ? int(c.rng.below(2)) : 2 + int(c.rng.below(4));
        switch (op)
        {
        case 0: b.set(); m.assign(N, true); break;
        case 1: b.reset(); m.assign(N, false); break;
        case 2: b.set(i); m[i] = true; break;
        case 3: b.reset(i); m[i] = false; break;
        case 4: b.set(i, true); m[i] = true; break;
        case 5: b.set(i, false); m[i] = false; break;
        }
        h = kit::mix(h ^ (i * 8 + unsigned(op)));
        c.ev();
        c.cover("op_bit", unsigned(op) * 8 + i % 8);
        ce::bitset<N> const& cb = b;
        for (size_t q = 0; q < N; ++q)
            if (cb[q] != m[q]) { c.fail("bits", "bitset<%zu> operation %d on bit %zu: bit %zu reads %d", N, op, i, q, int(cb[q])); o = ops; break; }
    }
    if (b.get_size() != N) c.fail("size", "bitset<%zu> says %zu", N, b.get_size());
    ce::bitset<N> copy = b;
    for (size_t q = 0; q < N; ++q) if (copy[q] != m[q]) { c.fail("copy", "bitset<%zu> bit %zu", N, q); break; }
    for (unsigned char g : s->before) if (g != 0xa5) { c.fail("bounds", "wrote before the set"); break; }
    for (unsigned char g : s->after) if (g != 0xa5) { c.fail("bounds", "wrote past the set"); break; }
    free(s);
    c.distinct(h);
    c.sample("bitset<%zu>, %d operations", N, ops);
}

// more bits than 32 bit numbers, of bits or of bytes, can tell apart
static void vast(Case& c)
{
    constexpr size_t N = (size_t(1) << 35) + 77;
    using B = ce::bitset<N>;
    kit::Vast mem(sizeof(B));
    auto b = mem.at<B>();
    if (!b) return;
    if (b->get_size() != N || sizeof(B) != (N + 7) / 8) c.fail("vast", "size %zu of %zu", size_t(b->get_size()), N);
    std::set<size_t> set;
    std::vector<size_t> seen;
    for (int i = 0; i < 300; ++i)
    {
        size_t at = c.rng.chance(1, 2) && !seen.empty() ? seen[c.rng.below(seen.size())] ^ (c.rng.chance(1, 2) ? 0 : size_t(1) << c.rng.below(36)) : c.rng.chance(1, 2) ? c.rng.wide(36) : N - 1 - c.rng.below(100);
        if (at >= N) continue;
        seen.push_back(at);
        switch (c.rng.below(4))
        {
        case 0: b->set(at); set.insert(at); break;
        case 1: b->reset(at); set.erase(at); break;
        case 2: b->set(at, true); set.insert(at); break;
        default: b->set(at, false); set.erase(at); break;
        }
        c.ev();
        for (size_t x : seen)
            if ((*b)[x] != bool(set.count(x))) return c.fail("vast", "bit %zu of %zu is wrong after bit %zu was written", x, N, at);
        if (seen.size() > 40) seen.erase(seen.begin(), seen.begin() + 20);
    }
    for (size_t x : set) if (!(*b)[x]) return c.fail("vast", "bit %zu of %zu was lost", x, N);
    c.count("vast");
    c.distinct(kit::hash_bytes(seen.data(), seen.size() * 8));
}

void kit_main(kit::K& k)
{
    k.section("histories", 20000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(9))
        {
        case 0: return history<1>(c);
        case 1: return history<7>(c);
        case 2: return history<8>(c);
        case 3: return history<9>(c);
        case 4: return history<31>(c);
        case 5: return history<64>(c);
        case 6: return history<65>(c);
        case 7: return history<100>(c);
        default: return history<300>(c);
        }
    });
    k.section("large", 60 * k.pick(1, 10), [](Case& c)
    {
        switch (c.index % 4)
        {
        case 0: return history<1025>(c);
        case 1: return history<2300>(c);
        case 2: return history<5000>(c);
        default: return c.rng.chance(1, 3) ? history<70001>(c) : history<4097>(c);
        }
    });
    k.section_exact("vast", k.pick(60, 600), vast);
    // all bits of 2^35, in the same megabyte again and again
    if (kit::swift)
        k.section_exact("whole", k.pick(1, 3), [](Case& c)
        {
            constexpr size_t period = 1 << 20, N = (size_t(1) << 35) + 77;
            kit::Vast mem(sizeof(ce::bitset<N>), period);
            auto b = mem.start<ce::bitset<N>>();
            if (!b) return;
            auto all = [&](uint8_t v)
            {
                for (size_t i = 0; i < period; ++i) if (mem.start<uint8_t>()[i] != v) return false;
                return (*b)[0] == bool(v) && (*b)[N - 1] == bool(v) && (*b)[N / 2] == bool(v);
            };
            b->set();
            if (!all(0xff)) c.fail("vast", "not all of %zu bits are set", N);
            b->reset();
            if (!all(0)) c.fail("vast", "not all of %zu bits are reset", N);
            b->set(N - 1);
            if (!(*b)[N - 1]) c.fail("vast", "bit %zu is not set", N - 1);
            c.ev(3);
            c.count("vast");
            c.distinct(N);
        });
}
