// R01: each generator yields exactly the published sequence of its algorithm, from every state, and seeding is a fixed function of the seed.
#include "kit.h"
#include "ce/ce.h"
using kit::Case;

// ---- reference implementations, after the published ones (written with arithmetic, not copied shifts)
typedef unsigned __int128 u128;
static uint32_t rot32(uint32_t x, unsigned k) { return uint32_t((uint64_t(x) * (1ull << (k % 32))) | (uint64_t(x) * (1ull << (k % 32)) >> 32)); }
static uint64_t rot64(uint64_t x, unsigned k) { u128 y = u128(x) * (u128(1) << (k % 64)); return uint64_t(y) | uint64_t(y >> 64); }

struct Ref64ss
{
    uint32_t s[2];
    uint32_t next()
    {
        uint32_t const s0 = s[0];
        uint32_t s1 = s[1];
        uint32_t const result = rot32(s0 * 0x9E3779BBu, 5) * 5u;
        s1 ^= s0;
        s[0] = rot32(s0, 26) ^ s1 ^ (s1 * 512u);
        s[1] = rot32(s1, 13);
        return result;
    }
};
struct Ref128pp
{
    uint64_t s[2];
    uint64_t next()
    {
        uint64_t const s0 = s[0];
        uint64_t s1 = s[1];
        uint64_t const result = rot64(s0 + s1, 17) + s0;
        s1 ^= s0;
        s[0] = rot64(s0, 49) ^ s1 ^ (s1 * (1ull << 21));
        s[1] = rot64(s1, 28);
        return result;
    }
};
struct RefPcg
{
    uint64_t state;
    uint32_t next()
    {
        uint64_t old = state;
        state = uint64_t(u128(old) * 6364136223846793005ull + 0xda3e39cb94b95bdbull);
        uint32_t xorshifted = uint32_t(((old / (1ull << 18)) ^ old) >> 27);
        uint32_t r = uint32_t(old >> 59);
        for (uint32_t i = 0; i < r; ++i) xorshifted = (xorshifted >> 1) | (xorshifted & 1 ? 0x80000000u : 0);
        return xorshifted;
    }
};
static uint32_t crc_bits(uint32_t poly, uint32_t crc, unsigned char const* p, size_t n)
{
    crc = ~crc;
    while (n--)
    {
        crc ^= *p++;
        for (int i = 0; i < 8; ++i) crc = crc & 1 ? crc >> 1 ^ poly : crc >> 1;
    }
    return ~crc;
}
static uint64_t fnv(unsigned char const* p, size_t n, uint64_t h)
{
    for (size_t i = 0; i < n; ++i) h = uint64_t(u128(h ^ p[i]) * 1099511628211ull);
    return h;
}

static uint64_t state_of(Case& c) { return c.rng.chance(1, 4) ? c.rng.wide(64) : c.rng.next(); }

static void ss(Case& c)
{
    Ref64ss r{ { uint32_t(state_of(c)), uint32_t(state_of(c)) } };
    ce::xoroshiro64ss g{ r.s[0], r.s[1] };
    c.distinct(kit::mix(r.s[0]) ^ r.s[1]);
    int n = 1 + int(c.rng.below(64));
    for (int i = 0; i < n; ++i)
    {
        c.ev();
        int call = int(c.rng.below(3));
        if (call == 2)
        {
            uint64_t hi = r.next(), want = hi << 32 | r.next(), got = next64(g);
            if (got != want) return c.fail("xoroshiro64**", "step %d: next64 gives %llx, not %llx", i, (unsigned long long)got, (unsigned long long)want);
        }
        else
        {
            uint32_t want = r.next(), got = call ? next32(g) : next(g);
            if (got != want) return c.fail("xoroshiro64**", "step %d: next gives %x, not %x", i, got, want);
        }
    }
    if (g.a != r.s[0] || g.b != r.s[1]) c.fail("xoroshiro64**-state", "state differs after %d steps", n);
}
static void pp(Case& c)
{
    Ref128pp r{ { state_of(c), state_of(c) } };
    ce::xoroshiro128pp g{ r.s[0], r.s[1] };
    c.distinct(kit::mix(r.s[0]) ^ r.s[1]);
    int n = 1 + int(c.rng.below(64));
    for (int i = 0; i < n; ++i)
    {
        c.ev();
        int call = int(c.rng.below(3));
        uint64_t want = r.next(), got;
        if (call == 0) got = next(g);
        else if (call == 1) got = next64(g);
        else got = next32(g), want = uint32_t(want);
        if (got != want) return c.fail("xoroshiro128++", "step %d call %d gives %llx, not %llx", i, call, (unsigned long long)got, (unsigned long long)want);
    }
    if (g.a != r.s[0] || g.b != r.s[1]) c.fail("xoroshiro128++-state", "state differs after %d steps", n);
}
static void pcg(Case& c)
{
    // every rotation count, with the rest of the state random
    RefPcg r{ state_of(c) };
    if (c.rng.chance(1, 2)) r.state = (r.state & ~(31ull << 59)) | (c.rng.below(32) << 59);
    ce::pcg32_64_t g{ r.state };
    c.distinct(r.state);
    int n = 1 + int(c.rng.below(64));
    for (int i = 0; i < n; ++i)
    {
        c.ev();
        c.cover("pcg_rotation", r.state >> 59);
        uint32_t peek = read(g), want = r.next(), got = ce::next(g);
        if (got != want || peek != want) return c.fail("pcg32", "step %d gives %x (read %x), not %x", i, got, peek, want);
        if (uint64_t(g) != r.state) return c.fail("pcg32-state", "state differs after %d steps", i);
    }
    auto s = step(g);
    r.next();
    if (uint64_t(s) != r.state) c.fail("pcg32-state", "step gives another state than next");
}

static void seeding(Case& c)
{
    size_t n = c.rng.chance(1, 4) ? c.rng.below(3000) : c.rng.below(40);
    auto p = static_cast<unsigned char*>(malloc(n + !n));
    for (size_t i = 0; i < n; ++i) p[i] = static_cast<unsigned char>(c.rng.next());
    c.ev(4);
    ce::pcg32_64_t g{ c.rng.next() }, g2{ c.rng.next() };
    uint64_t s = state_of(c);
    seed(g, s);
    RefPcg r{ 0 };
    r.next(); r.state += s; r.next();
    if (uint64_t(g) != r.state) c.fail("pcg32-seed", "seed(%llu) gives another state than pcg32_srandom", (unsigned long long)s);
    seed(g, n, p);
    seed(g2, fnv(p, n, 14695981039346656037ull));
    if (uint64_t(g) != uint64_t(g2)) c.fail("pcg32-seed-data", "%zu bytes of seed give another state than their 64 bit hash", n);

    ce::xoroshiro128pp x{ c.rng.next(), c.rng.next() };
    seed(x, n, p);
    uint64_t a = fnv(p, n, 14695981039346656037ull);
    if (x.a != a || x.b != fnv(p, n, a)) c.fail("xoroshiro128++-seed", "%zu bytes of seed", n);

    ce::xoroshiro64ss y{ c.rng.u32(), c.rng.u32() };
    seed(y, n, p);
    uint32_t ya = crc_bits(0x82f63b78u, 0, p, n / 2);
    uint32_t yb = crc_bits(0x82f63b78u, ya, p + n / 2, n - n / 2);
    if (y.a != ya || y.b != yb) c.fail("xoroshiro64**-seed", "%zu bytes of seed give %x %x, not %x %x", n, y.a, y.b, ya, yb);
    c.distinct(kit::hash_bytes(p, n, s));
    c.cover("seed_size_parity", n % 4);
    c.sample("%zu bytes of seed: %s", n, kit::quote(p, n < 20 ? n : 20).c_str());
    free(p);
}

// more than 2^32 bytes of seed: all but the first and last few are zero
static void vast(Case& c)
{
    constexpr size_t k = 100, block = 1 << 20;
    size_t n = (size_t(c.index == 2 ? 2 : 1) << 32) + c.rng.below(200000);
    kit::Vast mem(n);
    auto p = mem.at<unsigned char>();
    if (!p) return;
    for (size_t i = 0; i < k; ++i) p[i] = static_cast<unsigned char>(c.rng.next()), p[n - 1 - i] = static_cast<unsigned char>(c.rng.next());
    auto hash = [&](uint64_t h)
    {
        uint64_t zeros = n - 2 * k, power = 1;
        for (int i = 63; i >= 0; --i) power = power * power * (zeros >> i & 1 ? 0x100000001b3ull : 1);
        return fnv(p + n - k, k, fnv(p, k, h) * power);
    };
    if (c.index == 0)
    {
        ce::pcg32_64_t g{ 0 }, g2{ 1 };
        seed(g, n, p), seed(g2, hash(14695981039346656037ull));
        if (uint64_t(g) != uint64_t(g2)) c.fail("vast", "pcg32 from %zu bytes of seed is not as from their 64 bit hash", n);
    }
    else if (c.index == 1)
    {
        ce::xoroshiro128pp x{ c.rng.next(), c.rng.next() };
        seed(x, n, p);
        uint64_t a = hash(14695981039346656037ull);
        if (x.a != a || x.b != hash(a)) c.fail("vast", "xoroshiro128++ from %zu bytes of seed", n);
    }
    else
    {
        std::vector<unsigned char> zero(block);
        uint32_t none = crc_bits(0x82f63b78u, 0, zero.data(), block), bit[32];
        for (int i = 0; i < 32; ++i) bit[i] = crc_bits(0x82f63b78u, 1u << i, zero.data(), block);
        auto skip = [&](uint32_t v, size_t bytes)
        {
            for (size_t i = 0; i < bytes / block; ++i)
            {
                uint32_t r = none;
                for (int b = 0; b < 32; ++b) if (v >> b & 1) r ^= bit[b] ^ none;
                v = r;
            }
            return crc_bits(0x82f63b78u, v, zero.data(), bytes % block);
        };
        ce::xoroshiro64ss y{ c.rng.u32(), c.rng.u32() };
        seed(y, n, p);
        uint32_t a = skip(crc_bits(0x82f63b78u, 0, p, k), n / 2 - k), b = crc_bits(0x82f63b78u, skip(a, n - n / 2 - k), p + n - k, k);
        if (y.a != a || y.b != b) c.fail("vast", "xoroshiro64** from %zu bytes of seed: %x %x, not %x %x", n, y.a, y.b, a, b);
    }
    c.ev();
    c.count("vast");
    c.distinct(kit::mix(n));
}

// long streams: the period is not short and the stream stays with the reference
static void stream(Case& c)
{
    uint64_t n = 3000000;
    Ref64ss r{ { c.rng.u32() | 1, c.rng.u32() } };
    ce::xoroshiro64ss g{ r.s[0], r.s[1] };
    Ref128pp r2{ { c.rng.next() | 1, c.rng.next() } };
    ce::xoroshiro128pp g2{ r2.s[0], r2.s[1] };
    RefPcg r3{ c.rng.next() };
    ce::pcg32_64_t g3{ r3.state };
    for (uint64_t i = 0; i < n; ++i)
        if (next(g) != r.next() || next(g2) != r2.next() || ce::next(g3) != r3.next())
            return c.fail("stream", "a stream left the reference after %llu steps", (unsigned long long)i);
    c.ev(3 * n);
    c.count("stream_steps", 3 * n);
}

void kit_main(kit::K& k)
{
    k.section("xoroshiro64ss", 20000 * k.pick(1, 10), ss);
    k.section("xoroshiro128pp", 20000 * k.pick(1, 10), pp);
    k.section("pcg32", 20000 * k.pick(1, 10), pcg);
    k.section("seeding", 20000 * k.pick(1, 10), seeding);
    if (kit::swift) k.section_exact("vast", 3, vast);
    k.section("stream", 6 * k.pick(1, 10), stream);
}
