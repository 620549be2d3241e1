// S02: the general sort stays within a n log n bound of comparisons and a small stack for every input.
#include "kit.h"
#include "ce/sort.h"
#include <algorithm>
#include <cmath>
using kit::Case;

static uint64_t g_compares, g_limit;
static char* g_low;
static bool g_over;

struct Value
{
    uint32_t v;
    friend bool operator<(Value const& a, Value const& b)
    {
        char* here = static_cast<char*>(__builtin_frame_address(0));
        if (here < g_low) g_low = here;
        ++g_compares;
        return a.v < b.v;
    }
};
KIT_ORDERED(Value)

// the killer adversary (McIlroy 1999): decides the order while it is asked
static std::vector<uint32_t> g_val;
static uint32_t g_solid, g_candidate, g_gas;
struct Gas
{
    uint32_t i;
    friend bool operator<(Gas const& a, Gas const& b)
    {
        char* here = static_cast<char*>(__builtin_frame_address(0));
        if (here < g_low) g_low = here;
        ++g_compares;
        if (g_val[a.i] == g_gas && g_val[b.i] == g_gas)
        {
            if (a.i == g_candidate) g_val[a.i] = g_solid++;
            else g_val[b.i] = g_solid++;
        }
        if (g_val[a.i] == g_gas) g_candidate = a.i;
        else if (g_val[b.i] == g_gas) g_candidate = b.i;
        return g_val[a.i] < g_val[b.i];
    }
};
KIT_ORDERED(Gas)

// comparisons: a constant times n log2 n for the partitions and heaps, plus n times the cutoff for the short ranges
static double bound(size_t n, size_t cutoff) { return 5.0 * double(n) * std::log2(double(n) + 2) + 1.0 * double(cutoff) * double(n) + 200; }
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(address_sanitizer) || defined(__SANITIZE_ADDRESS__)
enum { StackLimit = 1024 * 1024 };
#else
enum { StackLimit = 128 * 1024 };
#endif

template<size_t N, class T> __attribute__((noinline)) static void sort_it(std::vector<T>& v) { ce::intro_sort<N>(v.data(), v.data() + v.size()); }

template<size_t N, class T> static void measure(Case& c, std::vector<T>& v, char const* what)
{
    g_compares = 0;
    char* top = static_cast<char*>(__builtin_frame_address(0));
    g_low = top;
    sort_it<N>(v);
    c.ev();
    double used = double(g_compares), b = bound(v.size(), N);
    size_t stack = size_t(top - g_low);
    c.count("comparisons", g_compares);
    c.cover("comparisons_per_n_log_n_x10", uint64_t(10 * used / (double(v.size()) * std::log2(double(v.size()) + 2))));
    c.cover("stack_kb", stack / 1024);
    if (used > b) c.fail("time", "intro_sort<%zu> of %zu elements, %s: %.0f comparisons, more than %.0f", N, v.size(), what, used, b);
    if (stack > StackLimit) c.fail("stack", "intro_sort<%zu> of %zu elements, %s: %zu bytes of stack", N, v.size(), what, stack);
    c.sample("intro_sort<%zu> %zu elements, %s: %.0f comparisons (bound %.0f), %zu bytes of stack", N, v.size(), what, used, b, stack);
}

template<size_t N> static void killer(Case& c)
{
    size_t n = size_t(1) << (8 + c.rng.below(c.k.thorough ? 11 : 9));
    n += c.rng.below(n);
    std::vector<Gas> g(n);
    for (uint32_t i = 0; i < n; ++i) g[i].i = i;
    if (c.rng.chance(1, 2)) c.rng.shuffle(g);
    auto order = g;
    g_gas = uint32_t(n);
    g_solid = g_candidate = 0;
    g_val.assign(n, g_gas);
    measure<N>(c, g, "against the adversary");
    for (size_t i = 1; i < n; ++i)
        if (g_val[g[i].i] < g_val[g[i - 1].i]) { c.fail("order", "the adversary's order was not found"); break; }
    // the same input again, with the order now fixed; forwards, backwards, rotated, doubled
    for (int k = 0; k < 4; ++k)
    {
        std::vector<Value> v(n);
        for (size_t i = 0; i < n; ++i)
            v[i].v = g_val[order[k == 1 ? n - 1 - i : k == 2 ? (i + n / 3) % n : i].i];
        if (k == 3)
            for (auto& x : v) x.v = uint32_t(n) - x.v;
        measure<N>(c, v, "killer sequence");
    }
    c.count("adversary_runs");
    c.distinct(kit::mix(n) ^ kit::hash_bytes(g_val.data(), n * 4));
}

template<size_t N> static void pattern(Case& c)
{
    size_t n = size_t(1) << (6 + c.rng.below(c.k.thorough ? 13 : 11));
    n += c.rng.below(n);
    std::vector<Value> v(n);
    int shape = int(c.rng.below(12));
    uint64_t m = 1 + c.rng.below(20);
    for (size_t i = 0; i < n; ++i)
    {
        uint64_t x;
        switch (shape)
        {
        case 0: x = 7; break;                                  // all equal
        case 1: x = i; break;
        case 2: x = n - i; break;
        case 3: x = i < n / 2 ? i : n - i; break;              // organ pipe
        case 4: x = i % m; break;
        case 5: x = c.rng.below(m); break;
        case 6: x = i & 1 ? i : n - i; break;
        case 7: x = i * i % (n | 1); break;
        case 8: x = (i + n / 2) % n; break;                    // rotated
        case 9: x = i < n / 2 ? 2 * i : 2 * (i - n / 2) + 1; break; // two runs
        case 10: x = i / m; break;                             // steps
        default: x = c.rng.next(); break;
        }
        v[i].v = uint32_t(x);
    }
    uint64_t h = kit::hash_bytes(v.data(), n * 4);
    static char const* const name[] = { "equal", "rising", "falling", "organ pipe", "saw", "few values", "interleaved", "squares", "rotated", "two runs", "steps", "random" };
    measure<N>(c, v, name[shape]);
    for (size_t i = 1; i < n; ++i)
        if (v[i].v < v[i - 1].v) { c.fail("order", "%s not sorted", name[shape]); break; }
    c.distinct(h);
    c.cover("shapes", uint64_t(shape));
}

void kit_main(kit::K& k)
{
    k.section("adversary", 40 * k.pick(1, 4), [](Case& c)
    {
        switch (c.rng.below(4))
        {
        case 0: return killer<2>(c);
        case 1: return killer<16>(c);
        case 2: return killer<64>(c);
        default: return killer<128>(c);
        }
    });
    k.section("patterns", 200 * k.pick(1, 4), [](Case& c)
    {
        switch (c.rng.below(4))
        {
        case 0: return pattern<2>(c);
        case 1: return pattern<16>(c);
        case 2: return pattern<64>(c);
        default: return pattern<128>(c);
        }
    });
    // the sizes a recursion proportional to n would not survive
    k.section_exact("large", 4, [](Case& c)
    {
        size_t n = c.k.thorough ? 4000000 : 1000000;
        std::vector<Value> v(n);
        for (size_t i = 0; i < n; ++i)
            v[i].v = uint32_t(c.index == 0 ? 5 : c.index == 1 ? i : c.index == 2 ? n - i : i % 3);
        measure<128>(c, v, "large");
        c.distinct(c.index);
    });
}
