// S01: sorting leaves the range ascending and a permutation of what it was, and touches nothing outside it.
#include "kit.h"
#include "ce/sort.h"
#include <algorithm>
using kit::Case;

struct Item
{
    uint32_t key, id;
    friend bool operator<(Item const& a, Item const& b) { return a.key < b.key; }
};
// large element, ordered by a part of it
struct Fat
{
    int64_t pad[3];
    int16_t key, zero; // no padding: elements are compared as bytes
    uint32_t id;
    friend bool operator<(Fat const& a, Fat const& b) { return a.key < b.key; }
};
// a pointer like element which owns what it points at: copies which lose or double an element show
static uint64_t g_compares;
struct Counted
{
    int v;
    uint32_t id;
    friend bool operator<(Counted const& a, Counted const& b) { ++g_compares; return a.v < b.v; }
};

KIT_ORDERED(Item)
KIT_ORDERED(Fat)
KIT_ORDERED(Counted)

template<class T> struct Make { static T at(uint64_t key, uint32_t) { return T(key); } };
template<> struct Make<Item> { static Item at(uint64_t key, uint32_t id) { return { uint32_t(key), id }; } };
template<> struct Make<Fat> { static Fat at(uint64_t key, uint32_t id) { return { { int64_t(id), 7, int64_t(key) }, int16_t(key), 0, id }; } };
template<> struct Make<Counted> { static Counted at(uint64_t key, uint32_t id) { return { int(key), id }; } };
template<> struct Make<double> { static double at(uint64_t key, uint32_t) { return double(int64_t(key)) / 3; } };
template<> struct Make<char const*> { static char const* at(uint64_t key, uint32_t) { static char const block[4096] = {}; return block + key % 4096; } };

template<class T> static std::vector<std::string> bytes_sorted(T const* p, size_t n)
{
    std::vector<std::string> r;
    r.reserve(n);
    for (size_t i = 0; i < n; ++i)
    {
        T t;
        memset(static_cast<void*>(&t), 0, sizeof t);
        t = p[i];
        r.emplace_back(reinterpret_cast<char const*>(&t), sizeof(T));
    }
    std::sort(r.begin(), r.end());
    return r;
}

static uint64_t key_of(kit::Rng& r, int shape, size_t i, size_t n, uint64_t spread)
{
    switch (shape)
    {
    case 0: return r.next();
    case 1: return i * spread;                            // rising
    case 2: return (n - i) * spread;                      // falling
    case 3: return r.below(spread % 7 + 1);               // few different
    case 4: return 42;                                    // all the same
    case 5: return i < n / 2 ? i : n - i;                 // organ pipe
    case 6: return i % (spread % 13 + 2);                 // saw
    case 7: return r.chance(1, 20) ? r.next() : i;        // nearly sorted
    case 8: return i + 1 == n ? 0 : i + 1;                // smallest last
    case 9: return i == 0 ? n : i - 1;                    // largest first
    case 10: return i & 1 ? i : n - i;                    // interleaved
    case 11: return r.wide(64);
    case 12: return n / 2 - i;                            // through zero, signed
    default: return r.below(2) ? UINT64_MAX : 0;          // extremes
    }
}

template<class T> static bool same(T const& a, T const& b) { return memcmp(static_cast<void const*>(&a), static_cast<void const*>(&b), sizeof(T)) == 0; }

template<class T> static void one(Case& c)
{
    enum { Guard = 3 };
    int shape = int(c.rng.below(14));
    size_t n;
    switch (c.rng.below(8))
    {
    case 0: n = c.rng.below(4); break;
    case 1: case 2: n = c.rng.below(20); break;
    case 3: n = 120 + c.rng.below(20); break;
    case 4: n = c.rng.below(300); break;
    case 5: n = 250 + c.rng.below(12); break;
    case 6: n = (1ull << c.rng.below(11)) + c.rng.below(3) - 1; break;
    default: n = c.rng.below(3000); break;
    }
    auto mem = static_cast<T*>(calloc(n + 2 * Guard, sizeof(T)));
    uint64_t spread = 1 + c.rng.below(1000);
    // an insertion sort of a long range takes quadratic time
    int which = int(c.rng.below(8));
    if (which == 7 && n > 700) which = 0;
    for (size_t i = 0; i < Guard; ++i)
        mem[i] = Make<T>::at(c.rng.next(), 0xdead), mem[Guard + n + i] = Make<T>::at(c.rng.next(), 0xbeef);
    T* a = mem + Guard;
    T* b = a + n;
    for (size_t i = 0; i < n; ++i)
        a[i] = Make<T>::at(key_of(c.rng, shape, i, n, spread), uint32_t(i));
    uint64_t h = kit::hash_bytes(a, n * sizeof(T), uint64_t(which));
    std::vector<T> before(mem, mem + n + 2 * Guard);
    switch (which)
    {
    case 0: ce::intro_sort(a, b); break;
    case 1: ce::intro_sort<1>(a, b); break;
    case 2: ce::intro_sort<2>(a, b); break;
    case 3: ce::intro_sort<3>(a, b); break;
    case 4: ce::intro_sort<8>(a, b); break;
    case 5: ce::intro_sort<16>(a, b); break;
    case 6: ce::intro_sort<1000>(a, b); break;
    case 7: ce::insertion_sort(a, b); break;
    }
    c.ev();
    c.cover("type_entry_shape", sizeof(T) * 10000 + uint64_t(which) * 100 + uint64_t(shape));
    c.count("elements", n);
    for (size_t i = 1; i < n; ++i)
        if (a[i] < a[i - 1])
        {
            c.fail("order", "entry %d, %zu elements of %zu bytes, shape %d: element %zu is less than the one before", which, n, sizeof(T), shape, i);
            break;
        }
    for (size_t i = 0; i < Guard; ++i)
        if (!same(mem[i], before[i]) || !same(mem[Guard + n + i], before[Guard + n + i]))
            c.fail("outside", "entry %d, %zu elements, shape %d: something next to the range changed", which, n, shape);
    if (bytes_sorted(a, n) != bytes_sorted(before.data() + Guard, n))
        c.fail("permutation", "entry %d, %zu elements of %zu bytes, shape %d: elements were lost or duplicated", which, n, sizeof(T), shape);
    free(mem);
    if (n > 1)
        c.distinct(h);
    c.sample("entry %d, %zu elements of %zu bytes, shape %d", which, n, sizeof(T), shape);
}

// every permutation and every tie pattern of short ranges
static void small(Case& c)
{
    size_t n = 1 + c.index % 7;
    std::vector<int> v(n);
    auto check = [&](std::vector<int> const& in)
    {
        auto want = in;
        std::sort(want.begin(), want.end());
        for (int which = 0; which < 4; ++which)
        {
            auto x = in;
            switch (which)
            {
            case 0: ce::intro_sort<1>(x.data(), x.data() + n); break;
            case 1: ce::intro_sort<2>(x.data(), x.data() + n); break;
            case 2: ce::intro_sort<3>(x.data(), x.data() + n); break;
            default: ce::insertion_sort(x.data(), x.data() + n); break;
            }
            c.ev();
            if (x != want)
            {
                std::string t;
                for (int i : in) t += kit::fmt("%d ", i);
                c.fail("small", "entry %d does not sort %s", which, t.c_str());
            }
        }
        c.distinct(kit::hash_bytes(in.data(), n * sizeof(int)));
    };
    for (size_t i = 0; i < n; ++i) v[i] = int(i);
    do check(v); while (std::next_permutation(v.begin(), v.end()));
    // all ranges over three values
    size_t all = 1;
    for (size_t i = 0; i < n; ++i) all *= 3;
    for (size_t x = 0; x < all; ++x)
    {
        size_t y = x;
        for (size_t i = 0; i < n; ++i) v[i] = int(y % 3), y /= 3;
        check(v);
    }
    c.count("small_lengths");
}

void kit_main(kit::K& k)
{
    k.section_exact("small", 7, small);
    k.section("ranges", 30000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(9))
        {
        case 0: return one<int>(c);
        case 1: return one<unsigned char>(c);
        case 2: return one<uint64_t>(c);
        case 3: return one<double>(c);
        case 4: return one<Item>(c);
        case 5: return one<Fat>(c);
        case 6: return one<int16_t>(c);
        case 7: return one<char const*>(c);
        default: return one<Counted>(c);
        }
    });
    // empty and reversed (a > b is not a range; a == b is)
    k.section_exact("empty", 1, [](Case& c)
    {
        int x[2] = { 2, 1 };
        ce::intro_sort(x, x); ce::intro_sort<1>(x + 1, x + 1); ce::insertion_sort(x, x);
        c.ev();
        if (x[0] != 2 || x[1] != 1) c.fail("empty", "sorting an empty range changed something");
    });
}
