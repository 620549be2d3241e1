// H02: fnv-1a equals its byte definition for every element width, signedness and starting basis.
#include "kit.h"
#include "ce/ce.h"
using kit::Case;

template<class H> static H ref(H h, H prime, std::vector<uint8_t> const& b)
{
    for (uint8_t v : b) h = H(h ^ v) * prime;
    return h;
}

template<class U> static void fuzz(Case& c, char const* type)
{
    size_t n = c.rng.chance(1, 1000) ? c.rng.below(140000) : c.rng.chance(1, 10) ? c.rng.below(500) : c.rng.below(20);
    std::vector<U> d(n); // exact allocation
    std::vector<uint8_t> bytes;
    for (auto& v : d)
    {
        v = U(c.rng.wide(64) * (c.rng.chance(1, 2) ? 1 : ~0ull));
        for (size_t i = 0; i < sizeof(U); ++i) bytes.push_back(uint8_t(ce::uint64_t(v) >> (8 * i)));
    }
    uint32_t w32 = ref<uint32_t>(0x811c9dc5u, 0x01000193u, bytes);
    ce::uint64_t w64 = ref<ce::uint64_t>(0xcbf29ce484222325ull, 0x100000001b3ull, bytes);
    auto bad = [&](char const* what, ce::uint64_t got, ce::uint64_t want)
    {
        if (got != want) c.fail("fnv", "%s of %zu %s elements %s: %llx, byte by byte %llx", what, n, type, kit::quote(bytes.data(), bytes.size()).c_str(), got, want);
        c.ev();
    };
    bad("fnv1a32", ce::hash::fnv1a32(n, d.data()), w32);
    bad("fnv1a64", ce::hash::fnv1a64(n, d.data()), w64);
    uint32_t b32 = c.rng.u32();
    ce::uint64_t b64 = c.rng.next();
    bad("fnv1a32 from a basis", ce::hash::fnv1a32(n, d.data(), b32), ref<uint32_t>(b32, 0x01000193u, bytes));
    bad("fnv1a64 from a basis", ce::hash::fnv1a64(n, d.data(), b64), ref<ce::uint64_t>(b64, 0x100000001b3ull, bytes));
    // hashing in two parts continues from the first
    size_t s = c.rng.below(n + 1);
    bad("fnv1a32 in parts", ce::hash::fnv1a32(n - s, d.data() + s, ce::hash::fnv1a32(s, d.data())), w32);
    bad("fnv1a64 in parts", ce::hash::fnv1a64(n - s, d.data() + s, ce::hash::fnv1a64(s, d.data())), w64);
    c.distinct(kit::hash_bytes(bytes.data(), bytes.size(), sizeof(U)));
    c.sample("%zu %s elements", n, type);
}

// more than 2^32 elements: all but the first and last few are zero
template<class U> static void vast(Case& c)
{
    size_t n = (size_t(1) << 32) + c.rng.below(200000), k = 100;
    kit::Vast mem(n * sizeof(U));
    auto a = mem.at<U>();
    if (!a) return;
    std::vector<uint8_t> head, tail;
    auto put = [](std::vector<uint8_t>& v, U u) { for (size_t i = 0; i < sizeof(U); ++i) v.push_back(uint8_t(ce::uint64_t(u) >> (8 * i))); };
    for (size_t i = 0; i < k; ++i) put(head, a[i] = U(c.rng.next())), put(tail, a[n - k + i] = U(c.rng.next()));
    ce::uint64_t basis = c.rng.next(), zeros = (n - 2 * k) * sizeof(U), p64 = 1, p32 = 1;
    for (int i = 63; i >= 0; --i)
    {
        p64 = p64 * p64 * (zeros >> i & 1 ? 0x100000001b3ull : 1);
        p32 = uint32_t(p32 * p32) * (zeros >> i & 1 ? 0x01000193ull : 1);
    }
    ce::uint64_t w64 = ref<ce::uint64_t>(ref<ce::uint64_t>(basis, 0x100000001b3ull, head) * p64, 0x100000001b3ull, tail), g64 = ce::hash::fnv1a64(n, a, basis);
    if (g64 != w64) c.fail("vast", "fnv1a64 of %zu elements of %zu bytes: %llx, not %llx", n, sizeof(U), g64, w64);
    uint32_t w32 = ref<uint32_t>(ref<uint32_t>(uint32_t(basis), 0x01000193u, head) * uint32_t(p32), 0x01000193u, tail), g32 = ce::hash::fnv1a32(n, a, uint32_t(basis));
    if (g32 != w32) c.fail("vast", "fnv1a32 of %zu elements of %zu bytes: %x, not %x", n, sizeof(U), g32, w32);
    c.ev(2);
    c.count("vast");
    c.distinct(kit::mix(n) ^ basis);
}

// a text of more than 2^32 characters
static void vast_text(Case& c)
{
    constexpr size_t period = 1 << 20;
    std::vector<char> p(period);
    for (auto& b : p) b = char(1 + c.rng.below(255));
    size_t n = (size_t(1) << 32) + c.rng.below(200000);
    kit::Vast mem(n + 1, period, p.data());
    auto a = mem.start<char>();
    if (!a) return;
    a[n] = '\0';
    uint32_t want = 0x811c9dc5u, got = ce::hash::fnv1a(a);
    for (size_t i = 0; i < n; ++i) want = (want ^ uint8_t(p[i % period])) * 0x01000193u;
    if (got != want) c.fail("vast", "text of %zu characters: %x, not %x", n, got, want);
    c.ev();
    c.count("vast");
    c.distinct(kit::mix(n));
}

void kit_main(kit::K& k)
{
    k.section("widths", 60000 * k.pick(1, 15), [](Case& c)
    {
        unsigned t = unsigned(c.rng.below(9));
        c.cover("types", t);
        switch (t)
        {
        case 0: fuzz<uint8_t>(c, "uint8"); break;
        case 1: fuzz<signed char>(c, "int8"); break;
        case 2: fuzz<char>(c, "char"); break;
        case 3: fuzz<uint16_t>(c, "uint16"); break;
        case 4: fuzz<int16_t>(c, "int16"); break;
        case 5: fuzz<uint32_t>(c, "uint32"); break;
        case 6: fuzz<int32_t>(c, "int32"); break;
        case 7: fuzz<ce::uint64_t>(c, "uint64"); break;
        case 8: fuzz<ce::int64_t>(c, "int64"); break;
        }
    });
    k.section("text", 60000 * k.pick(1, 10), [](Case& c)
    {
        std::vector<uint8_t> b(c.rng.chance(1, 500) ? c.rng.below(140000) : c.rng.chance(1, 20) ? c.rng.below(600) : c.rng.below(60));
        for (auto& v : b) v = uint8_t(1 + c.rng.below(255));
        std::vector<char> z(b.begin(), b.end());
        z.push_back(0);
        uint32_t want = ref<uint32_t>(0x811c9dc5u, 0x01000193u, b), got = ce::hash::fnv1a(z.data());
        if (got != want) c.fail("text", "%s: %08x, byte by byte %08x", kit::quote(b.data(), b.size()).c_str(), got, want);
        c.ev();
        c.distinct(kit::hash_bytes(b.data(), b.size(), 99));
    });
    k.section_exact("constexpr", 1, [](Case& c)
    {
        constexpr auto a = ce::hash::fnv1a("Mallori, Jimmy, Sydney");
        constexpr int v[] = { -1, 70000, 5 };
        constexpr auto b = ce::hash::fnv1a64(3, v);
        std::vector<uint8_t> bytes((uint8_t const*)v, (uint8_t const*)(v + 3));
        if (a != 0xaaad3b41 || b != ref<ce::uint64_t>(0xcbf29ce484222325ull, 0x100000001b3ull, bytes)) c.fail("constexpr", "%08x %016llx", a, b);
        c.ev();
        c.distinct(a);
    });
    if (kit::swift)
        k.section_exact("vast", k.pick(2, 4), [](Case& c)
        {
            switch (c.index)
            {
            case 0: return vast<uint8_t>(c);
            case 1: return vast_text(c);
            case 2: return vast<int16_t>(c);
            default: return vast<char>(c);
            }
        });
}
