// H01: crc32 equals the bitwise definition for every polynomial, data, word width and way of cutting the data.
#include "kit.h"
#include "ce/ce.h"
using kit::Case;

// bit by bit, reflected, init and final xor 0xffffffff, resumable
static uint32_t ref(uint32_t poly, uint32_t crc, uint8_t const* p, size_t n)
{
    uint32_t v = crc ^ 0xffffffffu;
    for (size_t i = 0; i < n; ++i)
        for (int b = 0; b < 8; ++b)
        {
            bool bit = (v ^ (p[i] >> b)) & 1;
            v >>= 1;
            if (bit) v ^= poly;
        }
    return v ^ 0xffffffffu;
}

template<class T> static void fuzz(Case& c, uint32_t poly)
{
    std::vector<uint8_t> d(c.rng.chance(1, 3000) ? c.rng.below(1200000) : c.rng.chance(1, 8) ? c.rng.below(3000) : c.rng.below(70));
    int kind = int(c.rng.below(4));
    for (auto& b : d) b = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? uint8_t(1u << c.rng.below(8)) : uint8_t(c.rng.u32());
    uint32_t start = c.rng.chance(1, 2) ? 0 : c.rng.u32();
    uint32_t want = ref(poly, start, d.data(), d.size());
    // cut it: a random sequence of byte, 4 byte and 8 byte runs
    T crc = T(start);
    size_t i = 0;
    std::string how;
    while (i < d.size())
    {
        size_t left = d.size() - i;
        switch (c.rng.below(3))
        {
        case 0:
        {
            size_t n = c.rng.below(left + 1);
            std::vector<uint8_t> v(d.begin() + ptrdiff_t(i), d.begin() + ptrdiff_t(i + n)); // exact allocation: over reads are seen
            crc = ce::crc32(crc, n, v.data());
            i += n;
            how += kit::fmt("b%zu ", n);
            c.cover("widths", 1);
            break;
        }
        case 1:
        {
            size_t n = c.rng.below(left / 4 + 1);
            std::vector<uint32_t> v(n);
            for (size_t q = 0; q < n; ++q) for (int s = 3; s >= 0; --s) v[q] = v[q] << 8 | d[i + q * 4 + size_t(s)];
            crc = ce::crc32(crc, n, v.data());
            i += n * 4;
            how += kit::fmt("w%zu ", n);
            c.cover("widths", 4);
            break;
        }
        default:
        {
            size_t n = c.rng.below(left / 8 + 1);
            std::vector<ce::uint64_t> v(n);
            for (size_t q = 0; q < n; ++q) for (int s = 7; s >= 0; --s) v[q] = v[q] << 8 | d[i + q * 8 + size_t(s)];
            crc = ce::crc32(crc, n, v.data());
            i += n * 8;
            how += kit::fmt("q%zu ", n);
            c.cover("widths", 8);
            break;
        }
        }
    }
    if (uint32_t(crc) != want)
        c.fail("crc", "polynomial %08x start %08x data %s cut %s: %08x, bitwise %08x", poly, start, kit::quote(d.data(), d.size()).c_str(), how.substr(0, 200).c_str(), uint32_t(crc), want);
    c.ev();
    c.distinct(kit::hash_bytes(d.data(), d.size(), poly ^ start));
    c.sample("polynomial %08x start %08x, %zu bytes, cut %s", poly, start, d.size(), how.substr(0, 80).c_str());
}

template<class T> static void tables(Case& c, uint32_t poly)
{
    // every byte value from several states, alone and in every lane of a 4 and 8 byte word
    for (uint32_t b = 0; b < 256; ++b)
        for (uint32_t s : { 0u, ~0u, 0x12345678u, 1u << 31 })
        {
            uint8_t one = uint8_t(b);
            if (uint32_t(ce::crc32(T(s), 1, &one)) != ref(poly, s, &one, 1))
                c.fail("crc", "polynomial %08x start %08x byte %02x", poly, s, b);
            for (int lane = 0; lane < 8; ++lane)
            {
                uint8_t bytes[8]{};
                bytes[lane] = one;
                ce::uint64_t q = ce::uint64_t(b) << (8 * lane);
                if (uint32_t(ce::crc32(T(s), 1, &q)) != ref(poly, s, bytes, 8))
                    c.fail("crc", "polynomial %08x start %08x 8 byte word %016llx", poly, s, q);
                if (lane < 4)
                {
                    uint32_t w = b << (8 * lane);
                    if (uint32_t(ce::crc32(T(s), 1, &w)) != ref(poly, s, bytes, 4))
                        c.fail("crc", "polynomial %08x start %08x 4 byte word %08x", poly, s, w);
                }
                c.ev();
            }
        }
    c.distinct(poly);
    c.count("table_entries", 256);
}

template<class T> static void empty(Case& c)
{
    if (uint32_t(ce::crc32(T(5), 0, (uint8_t const*)nullptr)) != 5 || uint32_t(ce::crc32(T(5), 0, (uint32_t const*)nullptr)) != 5 || uint32_t(ce::crc32(T(5), 0, (ce::uint64_t const*)nullptr)) != 5)
        c.fail("empty", "the checksum of nothing changed the running value");
    c.ev();
}

// more than 2^32 bytes or words: the same random bytes again and again
template<class T, class W> static void vast(Case& c, uint32_t poly)
{
    constexpr size_t period = 1 << 20;
    std::vector<uint8_t> p(period);
    for (auto& b : p) b = uint8_t(c.rng.u32());
    size_t words = (size_t(1) << 32) + c.rng.below(200000), n = words * sizeof(W), tail = n % period;
    kit::Vast mem(n, period, p.data());
    auto a = mem.start<W>();
    if (!a) return;
    // what one period makes of each bit of the running value
    uint32_t zero = ref(poly, 0, p.data(), period), bit[32], want = c.rng.u32(), start = want;
    for (int i = 0; i < 32; ++i) bit[i] = ref(poly, 1u << i, p.data(), period) ^ zero;
    for (size_t i = 0; i < n / period; ++i)
    {
        uint32_t v = zero;
        for (int b = 0; b < 32; ++b) if (want >> b & 1) v ^= bit[b];
        want = v;
    }
    want = ref(poly, want, p.data(), tail);
    uint32_t got = uint32_t(ce::crc32(T(start), words, const_cast<W const*>(a)));
    if (got != want) c.fail("vast", "polynomial %08x start %08x, %zu words of %zu bytes: %08x, not %08x", poly, start, words, sizeof(W), got, want);
    c.ev();
    c.count("vast");
    c.distinct(kit::mix(words) ^ start);
}

#define LITERAL(S) { static constexpr uint32_t at_compile_time = ce::crc32c(S); uint32_t at_run_time = ce::crc32c(S); \
    uint32_t w = ref(0x82f63b78, 0, (uint8_t const*)S, sizeof(S) - 1); \
    if (at_compile_time != w || at_run_time != w) c.fail("literal", "%s: %08x compile time, %08x run time, bitwise %08x", S, at_compile_time, at_run_time, w); c.ev(); }

#define POLYS(F) F(0x82f63b78) F(0xedb88320) F(0xeb31d82e) F(0xd5828281) F(0x992c1a4c) F(0x80000000) F(0x00000001) F(0xffffffff)

void kit_main(kit::K& k)
{
    k.section_exact("literals", 1, [](Case& c)
    {
        LITERAL("") LITERAL("a") LITERAL("123456789") LITERAL("The quick brown fox jumps over the lazy dog") LITERAL("\xff\xfe\x80\x01") LITERAL("a\0b")
        LITERAL("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef")
        if (ce::crc32c("123456789") != 0xe3069283) c.fail("literal", "check value");
        empty<ce::crc32c_t>(c);
        empty<ce::crc32_t<0xedb88320>>(c);
        constexpr ce::uint64_t q[] = { 0x0123456789abcdef, 0xfedcba9876543210 };
        constexpr uint32_t w[] = { 0x89abcdef, 0x01234567, 0x76543210, 0xfedcba98 };
        constexpr auto a = ce::crc32(ce::crc32_t<0xedb88320>::initial, 2, q);
        constexpr auto b = ce::crc32(ce::crc32_t<0xedb88320>::initial, 4, w);
        if (uint32_t(a) != ref(0xedb88320, 0, (uint8_t const*)q, 16) || a != b) c.fail("literal", "compile time words: %08x %08x", uint32_t(a), uint32_t(b));
    });
    k.section_exact("tables", 1, [](Case& c)
    {
#define T(P) tables<ce::crc32_t<P>>(c, P);
        POLYS(T)
    });
    k.section("cuts", 200000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(8))
        {
            int n;
#define F(P) case __COUNTER__ - base: fuzz<ce::crc32_t<P>>(c, P); break;
            enum { base = __COUNTER__ + 1 };
            POLYS(F)
            default: (void)n;
        }
    });
    if (kit::swift)
        k.section_exact("vast", k.pick(1, 4), [](Case& c)
        {
            switch (c.index)
            {
            case 0: return vast<ce::crc32c_t, uint8_t>(c, 0x82f63b78);
            case 1: return vast<ce::crc32_t<0xedb88320>, uint32_t>(c, 0xedb88320);
            case 2: return vast<ce::crc32c_t, ce::uint64_t>(c, 0x82f63b78);
            default: return vast<ce::crc32_t<0x992c1a4c>, uint8_t>(c, 0x992c1a4c);
            }
        });
}
