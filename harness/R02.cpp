// R02: ranged results are below n, and the unbiased form gives every result from equally many generator outputs.
#include "kit.h"
#include "ce/ce.h"
using kit::Case;

// a scripted generator: the first output is chosen by the monitor, later ones follow from it
namespace script
{
    struct Gen
    {
        uint32_t v;
        uint32_t steps;
    };
    inline uint32_t read(Gen g)
    {
        return g.steps == 0 ? g.v : uint32_t(kit::mix(g.v + (uint64_t(g.steps) << 32)) >> 16);
    }
    inline Gen step(Gen g) { return { g.v, g.steps + 1 }; }
    // outputs from a list
    struct List { uint32_t const* at; };
    inline uint32_t read(List l) { return *l.at; }
    inline List step(List l) { return { l.at + 1 }; }
}

// every one of the 2^32 outputs, for one n
static void all_outputs(Case& c, uint32_t n)
{
    std::vector<uint8_t> seen;
    std::vector<uint32_t> counts;
    bool single = n > (1u << 26); // then every result is had from at most 64 outputs: a byte each
    if (single) seen.assign(n, 0);
    else counts.assign(n, 0);
    uint64_t accepted = 0, wrong = 0;
    uint32_t last = 0, run = 0; // outputs which give the same result come in runs
    auto flush = [&] { if (single) seen[last] = uint8_t(std::min<uint32_t>(255, seen[last] + run)); else counts[last] += run; run = 0; };
    for (uint64_t v = 0; v < (1ull << 32); ++v)
    {
        script::Gen g{ uint32_t(v), 0 };
        uint32_t r = ce::next_unbiased(g, n);
        if (r >= n) { ++wrong; continue; }
        if (g.steps != 1) continue;
        ++accepted;
        if (r != last) flush(), last = r;
        ++run;
    }
    flush();
    c.ev(1ull << 32);
    if (wrong) c.fail("range", "next_unbiased(%u): %llu outputs give a result which is not below it", n, (unsigned long long)wrong);
    uint32_t lo = UINT32_MAX, hi = 0;
    for (uint32_t i = 0; i < n; ++i)
    {
        uint32_t x = single ? seen[i] : counts[i];
        lo = std::min(lo, x), hi = std::max(hi, x);
    }
    if (lo != hi) c.fail("biased", "next_unbiased(%u): results are had from %u to %u outputs, not equally many", n, lo, hi);
    if (accepted * 2 < (1ull << 32)) c.fail("wasteful", "next_unbiased(%u) accepts only %llu outputs", n, (unsigned long long)accepted);
    c.count("outputs_enumerated", 1ull << 32);
    c.distinct(n);
    c.sample("n = %u: every result from %u of 2^32 outputs", n, lo);
}

static uint32_t some_n(Case& c)
{
    uint32_t n = uint32_t(c.rng.wide(32));
    return n ? n : 1;
}

// the outputs around the edges of every bucket which can be accepted or refused, for many n
static void edges(Case& c)
{
    uint32_t n = some_n(c);
    // a result's outputs: those v with floor(v * n / 2^32) == r; which of them are refused must leave the same number for each r
    uint64_t kept = ~0ull;
    uint32_t r0 = 0;
    for (int k = 0; k < 24; ++k)
    {
        uint32_t r = k == 0 ? 0 : k == 1 ? n - 1 : uint32_t(c.rng.below(n));
        uint64_t a = ((uint64_t(r) << 32) + n - 1) / n, b = k == 1 && r == n - 1 ? 1ull << 32 : ((uint64_t(r + 1ull) << 32) + n - 1) / n;
        if (r == n - 1) b = 1ull << 32;
        if (b - a > 4096) { c.count("bucket_too_big"); return; }
        uint64_t ok = 0;
        for (uint64_t v = a; v < b; ++v)
        {
            script::Gen g{ uint32_t(v), 0 };
            uint32_t got = ce::next_unbiased(g, n);
            c.ev();
            if (got >= n) return c.fail("range", "next_unbiased(%u) gives %u", n, got);
            if (g.steps == 1)
            {
                if (got != r) { c.count("not_monotone"); return; } // another way to map outputs: not judged here
                ++ok;
            }
        }
        if (kept == ~0ull) kept = ok, r0 = r;
        else if (ok != kept) return c.fail("biased", "next_unbiased(%u): result %u is had from %llu outputs, result %u from %llu", n, r, (unsigned long long)ok, r0, (unsigned long long)kept);
    }
    c.count("bucket_sets");
    c.distinct(kit::mix(n));
}

// a generator which is refused again and again: how many outputs are used, and that exactly those are
static void refused(Case& c)
{
    uint32_t n = some_n(c);
    uint32_t out[65];
    std::vector<uint32_t> bad, good;
    for (int i = 0; i < 400; ++i)
    {
        // near the start of a bucket, where outputs are refused, if any
        uint32_t r = uint32_t(c.rng.below(n));
        uint32_t v = c.rng.chance(1, 3) ? c.rng.u32() : uint32_t(((uint64_t(r) << 32) + n - 1) / n + c.rng.below(2));
        script::Gen g{ v, 0 };
        (void)ce::next_unbiased(g, n);
        (g.steps == 1 ? good : bad).push_back(v);
    }
    if (good.empty()) return;
    size_t k = bad.empty() ? 0 : c.rng.below(64);
    for (size_t i = 0; i < k; ++i) out[i] = bad[c.rng.below(bad.size())];
    out[k] = good[c.rng.below(good.size())];
    script::List l{ out };
    uint32_t got = ce::next_unbiased(l, n);
    script::Gen g{ out[k], 0 };
    uint32_t want = ce::next_unbiased(g, n);
    c.ev();
    c.cover("refused_in_a_row", k);
    if (size_t(l.at - out) != k + 1) c.fail("outputs-used", "next_unbiased(%u): %zu refused outputs and one good: %td were used", n, k, l.at - out);
    if (got != want) c.fail("memory", "next_unbiased(%u): the result depends on refused outputs: %u, not %u", n, got, want);
    c.distinct(kit::hash_bytes(out, 4 * (k + 1), n));
}

static void ranged(Case& c)
{
    uint32_t n = some_n(c), out[2] = { uint32_t(c.rng.wide(32)), 0 };
    script::List l{ out };
    uint32_t r = ce::next_ranged(l, n);
    c.ev();
    if (r >= n) c.fail("ranged-range", "next_ranged(%u) gives %u", n, r);
    if (l.at != out + 1) c.fail("ranged-outputs-used", "next_ranged(%u) used %td outputs", n, l.at - out);
    ce::pcg32_64_t g{ c.rng.next() }, h = g;
    r = ce::next_ranged(g, n);
    (void)ce::next(h);
    if (uint64_t(g) != uint64_t(h)) c.fail("ranged-state", "next_ranged does not leave the generator one step on");
    if (r >= n) c.fail("ranged-range", "next_ranged(%u) gives %u", n, r);
    uint32_t u = ce::next_unbiased(g, n);
    for (int i = 0; i < 2000 && uint64_t(g) != uint64_t(h); ++i) (void)ce::next(h);
    if (uint64_t(g) != uint64_t(h)) c.fail("unbiased-state", "next_unbiased leaves the generator's sequence");
    if (u >= n) c.fail("range", "next_unbiased(%u) gives %u", n, u);
    c.distinct(kit::mix(n) + out[0]);
}

// the spread of the ranged form: no result is had from more than one output more than another
static void ranged_spread(Case& c)
{
    uint32_t n = 1 + uint32_t(c.rng.below(1u << (1 + c.rng.below(16))));
    if (c.index == 6) n = 3;
    std::vector<uint32_t> counts(n, 0);
    uint32_t last = 0, run = 0;
    for (uint64_t i = 0; i < (1ull << 32); ++i)
    {
        script::Gen g{ uint32_t(i), 0 };
        uint32_t r = ce::next_ranged(g, n);
        if (r >= n) return c.fail("ranged-range", "next_ranged(%u) gives %u", n, r);
        if (r != last) counts[last] += run, run = 0, last = r;
        ++run;
    }
    counts[last] += run;
    c.ev(1ull << 32);
    uint32_t lo = UINT32_MAX, hi = 0;
    for (uint32_t x : counts) lo = std::min(lo, x), hi = std::max(hi, x);
    if (hi - lo > 1) c.fail("ranged-spread", "next_ranged(%u): results are had from %u to %u outputs", n, lo, hi);
    c.count("outputs_enumerated", 1ull << 32);
    c.distinct(n + 1);
}

void kit_main(kit::K& k)
{
    if (k.scale >= 1)
    {
        k.section_exact("all_outputs", k.pick(8, 56), [](Case& c)
        {
            if (!c.k.thorough && (c.index == 1 || c.index == 2 || c.index == 3)) return; // large n: half of all outputs refused, slow
            if (c.index % 8 >= 6) return ranged_spread(c);
            static uint32_t const fixed[] = { 3, 0x80000001u, 0xc0000000u, 0xaaaaaaabu };
            uint32_t n = c.index < 4 ? fixed[c.index] : uint32_t(c.rng.wide(32)) | 1;
            if (c.index >= 4 && c.index % 2 == 0) n = uint32_t(c.rng.range(1 << 20, 1 << 26));
            all_outputs(c, n ? n : 1);
        });
    }
    k.section("edges", 40000 * k.pick(1, 10), edges);
    k.section("refused", 4000 * k.pick(1, 10), refused);
    k.section("ranged", 400000 * k.pick(1, 10), ranged);
}
