// B03: the bounded priority queue hands out a least item each time and keeps exactly the items put in.
#include "kit.h"
#include "ce/ce.h"
using kit::Case;

struct Item { int key; unsigned id; };
static bool operator<(Item const& a, Item const& b) { return a.key < b.key; }
KIT_ORDERED(Item)
static int key(Item const& i) { return i.key; }
static int key(int i) { return i; }
static int key(unsigned char i) { return i; }
static unsigned id(Item const& i) { return i.id; }
template<class T> static unsigned id(T) { return 0; }
template<class T> static T make(int k, unsigned) { return T(k); }
template<> Item make<Item>(int k, unsigned i) { return { k, i }; }

template<size_t N, class T> static void history(Case& c)
{
    struct Slot { unsigned char before[16]; ce::min_priority_queue<N, T> q; unsigned char after[16]; };
    auto s = static_cast<Slot*>(malloc(sizeof(Slot)));
    memset(static_cast<void*>(s), 0xa5, sizeof(Slot));
    auto& q = s->q;
    q.size = 0;
    std::multiset<std::pair<int, unsigned>> m;
    unsigned next = 0;
    int range = c.rng.chance(1, 3) ? 3 : c.rng.chance(1, 2) ? 20 : 250, shape = int(c.rng.below(5));
    int ops = 1 + int(c.rng.below(N * 4 + 20)), up = 0;
    uint64_t h = N;
    size_t deepest = 0;
    for (int o = 0; o < ops || !m.empty(); ++o)
    {
        bool drain = o >= ops;
        bool in = !drain && (m.empty() || c.rng.below(10) < (shape == 0 ? 9u : shape == 1 ? 3u : 5u + unsigned(o % 2)));
        c.ev();
        if (in)
        {
            int v = shape == 3 ? up++ % 250 : shape == 4 ? 250 - up++ % 250 : int(c.rng.below(unsigned(range)));
            T item = make<T>(v, next++);
            bool ok = q.enqueue(item);
            if (ok != (m.size() < N)) { c.fail("capacity", "%zu of %zu: enqueue returned %d", m.size(), N, ok); break; }
            if (ok) m.insert({ key(item), id(item) }); else c.count("refused");
            h = kit::mix(h ^ unsigned(v));
        }
        else
        {
            T hd = q.head();
            T x = q.dequeue();
            auto it = m.find({ key(x), id(x) });
            if (it == m.end()) { c.fail("conservation", "dequeued key %d id %u which is not in the queue (%zu left)", key(x), id(x), m.size()); break; }
            if (key(x) != m.begin()->first || key(hd) != key(x)) { c.fail("order", "dequeued key %d (head %d), the least of %zu is %d", key(x), key(hd), m.size(), m.begin()->first); break; }
            m.erase(it);
            h = kit::mix(h ^ 12345);
        }
        if (q.size != m.size() || q.empty() != m.empty()) { c.fail("size", "size %zu, expected %zu", q.size, m.size()); break; }
        if (m.size() > deepest) deepest = m.size();
    }
    for (unsigned char g : s->before) if (g != 0xa5) { c.fail("bounds", "wrote before the queue"); break; }
    for (unsigned char g : s->after) if (g != 0xa5) { c.fail("bounds", "wrote past the queue"); break; }
    free(s);
    c.cover("deepest", N * 1000 + deepest);
    c.distinct(h);
    c.sample("capacity %zu, %d operations, deepest %zu", N, ops, deepest);
}

template<class T> static void any_size(Case& c)
{
    switch (c.rng.below(6))
    {
    case 0: return history<1, T>(c);
    case 1: return history<2, T>(c);
    case 2: return history<3, T>(c);
    case 3: return history<8, T>(c);
    case 4: return history<33, T>(c);
    default: return history<200, T>(c);
    }
}

// more than 2^32 items, of which all but a few are equal
template<class T> static void vast(Case& c)
{
    constexpr size_t N = (size_t(1) << 32) + 3000;
    using Q = ce::min_priority_queue<N, T>;
    kit::Vast mem(sizeof(Q));
    auto q = mem.at<Q>();
    if (!q) return;
    std::multiset<int> less, more; // than the zeros
    size_t zeros = c.rng.chance(1, 2) ? N - c.rng.below(40) : (size_t(1) << (31 + c.rng.below(2))) + c.rng.below(100) - 50;
    q->size = zeros;
    for (int i = 0; i < 200; ++i)
    {
        size_t n = zeros + less.size() + more.size();
        c.ev();
        if (q->empty()) c.fail("vast", "%zu items: empty", n);
        if (c.rng.chance(1, 2))
        {
            int x = int(c.rng.range(-100, 100));
            bool ok = q->enqueue(T(x));
            if (ok != (n < N)) { c.fail("vast", "%zu items of %zu: enqueue returned %d", n, N, ok); break; }
            if (ok) { if (x == 0) ++zeros; else (x < 0 ? less : more).insert(x); }
            else c.count("vast_refused");
        }
        else
        {
            int want = less.empty() ? 0 : *less.begin(), head = int(q->head()), got = int(q->dequeue());
            if (head != want || got != want) { c.fail("vast", "%zu items: %d then %d, not %d", n, head, got, want); break; }
            if (less.empty()) --zeros; else less.erase(less.begin());
        }
        if (q->size != zeros + less.size() + more.size()) { c.fail("vast", "%zu items counted as %zu", zeros + less.size() + more.size(), size_t(q->size)); break; }
    }
    c.count("vast");
    c.distinct(kit::mix(zeros * 300 + less.size()) + more.size());
}

void kit_main(kit::K& k)
{
    k.section("histories", 20000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(3))
        {
        case 0: return any_size<int>(c);
        case 1: return any_size<unsigned char>(c);
        default: return any_size<Item>(c);
        }
    });
    k.section("large", 24 * k.pick(1, 10), [](Case& c)
    {
        switch (c.index % 6)
        {
        case 0: return history<700, int>(c);
        case 1: return history<700, Item>(c);
        case 2: return history<5000, Item>(c);
        case 3: return history<5000, unsigned char>(c);
        case 4: return history<5000, int>(c);
        default: return history<70000, Item>(c);
        }
    });
    k.section_exact("permutations", 8, [](Case& c)
    {
        // every order of insertion and every prefix drained in between, up to 7 items (with ties in the upper half of the cases)
        int n = int(c.index % 8);
        std::vector<int> p;
        for (int i = 0; i < n; ++i) p.push_back(i);
        do
        {
            ce::min_priority_queue<8, int> q{ };
            std::multiset<int> m;
            for (int i = 0; i < n; ++i)
            {
                q.enqueue(p[size_t(i)] / 2 * 2);
                m.insert(p[size_t(i)] / 2 * 2);
                if (i == n / 2) { int x = q.dequeue(); if (x != *m.begin()) c.fail("order", "permutation of %d", n); m.erase(m.begin()); }
            }
            while (!m.empty()) { int x = q.dequeue(); if (x != *m.begin()) { c.fail("order", "permutation of %d", n); break; } m.erase(m.begin()); }
            c.ev();
            c.distinct(kit::hash_bytes(p.data(), p.size() * sizeof(int)));
            size_t i = p.size();
            while (i > 1 && p[i - 2] > p[i - 1]) --i;
            if (i <= 1) break;
            size_t j = p.size() - 1;
            while (p[j] < p[i - 2]) --j;
            std::swap(p[i - 2], p[j]);
            for (size_t a = i - 1, b = p.size() - 1; a < b; ++a, --b) std::swap(p[a], p[b]);
        } while (true);
    });
    k.section_exact("vast", k.pick(30, 300), [](Case& c) { if (c.rng.chance(1, 2)) vast<signed char>(c); else vast<int>(c); });
}
