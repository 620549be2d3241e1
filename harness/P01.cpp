// P01: queues sharing one pool behave as independent sequences; together they hold every slot in use.
#include "kit.h"
#include "ce/pool.h"
#include <deque>
using kit::Case;

struct Item { unsigned v; unsigned char pad[3]; };
static Item make(unsigned v, Item*) { return { v, { uint8_t(v), uint8_t(v >> 8), 7 } }; }
static unsigned make(unsigned v, unsigned*) { return v; }
static unsigned val(Item const& i) { return i.pad[2] == 7 && i.pad[0] == uint8_t(i.v) ? i.v : ~0u; }
static unsigned val(unsigned i) { return i; }

template<size_t N, class T, class I> static void history(Case& c)
{
    using P = ce::pool<N, T, I>;
    struct Slot { unsigned char before[16]; P p; unsigned char after[16]; };
    auto s = static_cast<Slot*>(malloc(sizeof(Slot)));
    memset(static_cast<void*>(s), 0xa5, sizeof(Slot));
    P& p = s->p;
    p.reset();
    constexpr size_t Q = 4;
    typename P::queue_t q[Q];
    std::deque<unsigned> m[Q];
    size_t used = 0;
    unsigned next = 1;
    int ops = 1 + int(c.rng.below(N < 300 ? N * 3 + 20 : 700)), shape = int(c.rng.below(4));
    uint64_t h = N;
    std::string log;
    auto check = [&](size_t i)
    {
        if (p.is_empty(q[i]) != m[i].empty()) return c.fail("empty", "pool<%zu> queue %zu of %zu items: is_empty %d after %s", N, i, m[i].size(), int(p.is_empty(q[i])), log.c_str()), false;
        if (m[i].empty()) return true;
        if (val(p.head(q[i])) != m[i].front()) return c.fail("order", "pool<%zu> queue %zu of %zu: head %u, expected %u after %s", N, i, m[i].size(), val(p.head(q[i])), m[i].front(), log.c_str()), false;
        if (val(p.tail(q[i])) != m[i].back()) return c.fail("order", "pool<%zu> queue %zu of %zu: tail %u, expected %u after %s", N, i, m[i].size(), val(p.tail(q[i])), m[i].back(), log.c_str()), false;
        return true;
    };
    bool ok = true;
    for (int o = 0; ok && (o < ops || used > 0); ++o)
    {
        size_t i = c.rng.below(Q);
        bool drain = o >= ops;
        int op = drain ? 2 : int(c.rng.below(shape == 0 ? 3 : shape == 1 ? 4 : 6)) % 4;
        c.ev();
        h = kit::mix(h ^ (i * 10 + unsigned(op)));
        if (op == 0 || op == 1 || op == 3)
        {
            bool head = op == 0;
            T item = make(next, (T*)nullptr);
            bool got = head ? p.insert_head(q[i], item) : p.append_tail(q[i], item);
            bool want = used < N - 1;
            if (log.size() < 500) log += kit::fmt("%s(%zu) ", head ? "head" : "tail", i);
            if (got != want) { c.fail("capacity", "pool<%zu> with %zu in use: insert returned %d after %s", N, used, int(got), log.c_str()); break; }
            if (got) { ++used; head ? m[i].push_front(next) : m[i].push_back(next); }
            else c.count("refused");
            ++next;
        }
        else
        {
            bool got = p.remove_head(q[i]);
            if (log.size() < 500) log += kit::fmt("pop(%zu) ", i);
            if (got == m[i].empty()) { c.fail("remove", "pool<%zu> queue of %zu: remove_head returned %d after %s", N, m[i].size(), int(got), log.c_str()); break; }
            if (got) m[i].pop_front(), --used;
            else c.count("removed_from_empty");
        }
        for (size_t z = 0; z < Q && ok; ++z) ok = check(z);
        c.cover("fill", N * 10 + (used == 0 ? 0 : used == N - 1 ? 2 : 1));
    }
    for (unsigned char g : s->before) if (g != 0xa5) { c.fail("bounds", "wrote before the pool"); break; }
    for (unsigned char g : s->after) if (g != 0xa5) { c.fail("bounds", "wrote past the pool"); break; }
    free(s);
    c.distinct(h);
    c.sample("pool<%zu> %zu byte index: %s", N, sizeof(I), log.substr(0, 150).c_str());
}

template<class T> static void any_size(Case& c)
{
    switch (c.rng.below(8))
    {
    case 0: return history<1, T, uint16_t>(c);
    case 1: return history<2, T, uint16_t>(c);
    case 2: return history<3, T, unsigned char>(c);
    case 3: return history<9, T, uint16_t>(c);
    case 4: return history<30, T, uint32_t>(c);
    case 5: return history<256, T, unsigned char>(c);
    case 6: return history<300, T, uint16_t>(c);
    default: return history<17, T, uint16_t>(c);
    }
}

void kit_main(kit::K& k)
{
    k.section("histories", 8000 * k.pick(1, 10), [](Case& c) { return c.rng.chance(1, 2) ? any_size<unsigned>(c) : any_size<Item>(c); });
    k.section("full_width", k.pick(1, 10), [](Case& c)
    {
        // every slot of the largest pool a 16 bit index allows
        using P = ce::pool<65536, unsigned, uint16_t>;
        auto p = static_cast<P*>(malloc(sizeof(P)));
        p->reset();
        P::queue_t a, b;
        size_t n = 0;
        while (n < 70000 && (n % 3 ? p->append_tail(a, unsigned(n)) : p->append_tail(b, unsigned(n)))) ++n;
        if (n != 65535) c.fail("capacity", "a pool of 65536 held %zu items", n);
        for (size_t i = 0; i < n; ++i)
        {
            auto& q = i % 3 ? a : b;
            if (p->is_empty(q) || p->head(q) != i || !p->remove_head(q)) { c.fail("order", "item %zu of a full pool", i); break; }
        }
        if (!p->is_empty(a) || !p->is_empty(b)) c.fail("empty", "drained queue is not empty");
        free(p);
        c.ev(n);
        c.distinct(65536);
    });
}
