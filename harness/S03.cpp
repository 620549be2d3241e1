// S03: the binary searches return the first element not below, or above, the key.
#include "kit.h"
#include "ce/sort.h"
#include <algorithm>
using kit::Case;

struct Item
{
    int key, id;
    friend bool operator<(Item const& a, Item const& b) { return a.key < b.key; }
};
KIT_ORDERED(Item)

template<class T> static void check(Case& c, T const* a, size_t n, T k, char const* what)
{
    T const* lo = a;
    while (lo < a + n && *lo < k) ++lo;
    T const* hi = lo;
    while (hi < a + n && !(k < *hi)) ++hi;
    T const* l = ce::lower_bound(a, a + n, k);
    T const* u = ce::upper_bound(a, a + n, k);
    c.ev(2);
    if (l != lo) c.fail("lower", "%s: lower bound of %zu elements is at %td, not %td", what, n, l - a, lo - a);
    if (u != hi) c.fail("upper", "%s: upper bound of %zu elements is at %td, not %td", what, n, u - a, hi - a);
    if (hi - lo > 1) c.count("tied");
    if (lo == a) c.count("at_begin");
    if (lo == a + n) c.count("at_end");
}

template<class T, class F> static void one(Case& c, F make)
{
    size_t n = c.rng.chance(1, 3) ? c.rng.below(10) : c.rng.chance(1, 3) ? (size_t(1) << c.rng.below(9)) + c.rng.below(3) - 1 : c.rng.below(500);
    uint64_t values = c.rng.chance(1, 3) ? 1 + c.rng.below(5) : c.rng.chance(1, 2) ? 1 + c.rng.below(n + 1) : ~0ull;
    auto a = static_cast<T*>(malloc(n * sizeof(T) + !n));
    for (size_t i = 0; i < n; ++i) a[i] = make(c.rng.below(values));
    std::sort(a, a + n);
    for (int i = 0; i < 8; ++i)
        check<T>(c, a, n, n && c.rng.chance(1, 2) ? a[c.rng.below(n)] : make(c.rng.below(values)), "random");
    if (n < 40)
        for (size_t i = 0; i < n; ++i)
            check<T>(c, a, n, a[i], "present");
    if (n)
    {
        check<T>(c, a, n, a[0], "first");
        check<T>(c, a, n, a[n - 1], "last");
        check<T>(c, a, n, make(0), "zero");
        check<T>(c, a, n, make(~0ull), "top");
    }
    c.distinct(kit::hash_bytes(a, n * sizeof(T)));
    c.sample("%zu elements of %zu bytes", n, sizeof(T));
    free(a);
}

// ranges of more than 2^32 elements: all but the first and last few are zero
template<class T> static void vast(Case& c, size_t n)
{
    kit::Vast mem(n * sizeof(T));
    auto a = mem.at<T>();
    if (!a) return;
    size_t below = std::is_signed_v<T> ? c.rng.below(900) : 0, above = c.rng.below(900), between = c.rng.below(above + 1);
    for (size_t i = 0; i < below; ++i) a[i] = T(-5);
    for (size_t i = 0; i < above; ++i) a[n - 1 - i] = i < between ? T(9) : T(5);
    struct { int key; size_t l, u; } want[] = {
        { 0, below, n - above }, { 1, n - above, n - above }, { 5, n - above, n - between }, { 7, n - between, n - between }, { 9, n - between, n }, { 11, n, n },
        { -5, 0, below }, { -6, 0, 0 }, { -1, below, below } };
    for (auto& w : want)
    {
        if (w.key < 0 && !std::is_signed_v<T>) continue;
        c.ev(2);
        size_t l = size_t(ce::lower_bound<T>(a, a + n, T(w.key)) - a), u = size_t(ce::upper_bound<T>(a, a + n, T(w.key)) - a);
        if (l != w.l) c.fail("lower", "%zu elements of %zu bytes, key %d: lower bound %zu, not %zu", n, sizeof(T), w.key, l, w.l);
        if (u != w.u) c.fail("upper", "%zu elements of %zu bytes, key %d: upper bound %zu, not %zu", n, sizeof(T), w.key, u, w.u);
    }
    c.count("vast");
    c.distinct(kit::mix(n) + below * 1000000 + above * 1000 + between);
}

void kit_main(kit::K& k)
{
    // every sorted range of up to 7 elements over 4 values, every key
    k.section_exact("small", 8, [](Case& c)
    {
        size_t n = c.index;
        int all = 1;
        for (size_t i = 0; i < n; ++i) all *= 4;
        for (int x = 0; x < all; ++x)
        {
            int v[8], y = x;
            bool sorted = true;
            for (size_t i = 0; i < n; ++i) v[i] = 2 * (y % 4), y /= 4, sorted = sorted && (i == 0 || v[i - 1] <= v[i]);
            if (!sorted) continue;
            for (int key = -1; key < 8; ++key) check<int>(c, v, n, key, "small");
            c.distinct(kit::mix(uint64_t(x) * 8 + n));
        }
    });
    k.section("ranges", 20000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(5))
        {
        case 0: return one<int>(c, [](uint64_t x) { return int(x); });
        case 1: return one<unsigned char>(c, [](uint64_t x) { return static_cast<unsigned char>(x); });
        case 2: return one<uint64_t>(c, [](uint64_t x) { return x; });
        case 3: return one<double>(c, [](uint64_t x) { return double(int64_t(x)) * 0.37; });
        default: return one<Item>(c, [](uint64_t x) { static int id; return Item{ int(x), ++id }; });
        }
    });
    k.section_exact("vast", k.pick(40, 400), [](Case& c)
    {
        size_t n = (size_t(1) << (31 + c.rng.below(3))) + size_t(c.rng.range(-2000, 200000));
        switch (c.rng.below(3))
        {
        case 0: return vast<unsigned char>(c, n);
        case 1: return vast<int>(c, n);
        default: return vast<int64_t>(c, n);
        }
    });
}
