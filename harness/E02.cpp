// E02: lziii decode inverts every valid stream (literals, spans of 3..18 at 1..4096 back) with exact sizes and bounds.
#include "kit.h"
#include "ce/lziii.h"
using kit::Case;

struct Stream { std::vector<uint8_t> enc, dec; size_t spans = 0, overlap = 0, far = 0; };

struct Writer
{
    Stream& s;
    size_t control = 0;
    unsigned n = 8;
    void bit(bool literal)
    {
        if (n == 8) control = s.enc.size(), s.enc.push_back(0), n = 0;
        if (literal) s.enc[control] |= uint8_t(1u << n);
        ++n;
    }
    void literal(uint8_t v) { bit(true); s.enc.push_back(v); s.dec.push_back(v); }
    void span(size_t back, size_t length)
    {
        bit(false);
        size_t f = 4096 - back; // stored offset
        s.enc.push_back(uint8_t(f));
        s.enc.push_back(uint8_t((length - 3) << 4 | f >> 8));
        s.spans++;
        if (back < length) s.overlap++;
        if (back > 4000) s.far++;
        for (size_t i = 0; i < length; ++i) s.dec.push_back(s.dec[s.dec.size() - back]);
    }
};

static void check(Case& c, Stream const& s)
{
    std::vector<uint8_t> enc(s.enc); // exact allocation
    size_t size = ce::lziii::size(enc.size(), enc.data());
    if (size != s.dec.size()) return c.fail("size", "%zu encoded bytes: size %zu, expected %zu (spans %zu)", enc.size(), size, s.dec.size(), s.spans);
    std::vector<uint8_t> out(size + 16, 0xa5);
    // nothing before the output may be read as data: fill differs from what was decoded
    for (int i = 0; i < 8; ++i) out[size_t(i)] = uint8_t(0xa5 + i);
    std::vector<uint8_t> exact(size);
    ce::lziii::decode(size, out.data() + 8, enc.data());
    ce::lziii::decode(size, exact.data(), enc.data());
    if (size && memcmp(out.data() + 8, s.dec.data(), size) != 0)
    {
        size_t i = 0;
        while (out[8 + i] == s.dec[i]) ++i;
        return c.fail("decode", "%zu bytes differ from %zu on: %02x, expected %02x", size, i, out[8 + i], s.dec[i]);
    }
    if (size && memcmp(exact.data(), s.dec.data(), size) != 0) return c.fail("decode", "second decode differs");
    for (int i = 0; i < 8; ++i)
        if (out[size_t(i)] != uint8_t(0xa5 + i) || out[size + 8 + size_t(i)] != 0xa5) return c.fail("bounds", "wrote outside of %zu bytes", size);
    c.ev();
    c.count("spans", s.spans);
    c.count("overlapping_spans", s.overlap);
    c.count("far_spans", s.far);
    c.distinct(kit::hash_bytes(enc.data(), enc.size()));
    c.sample("%zu bytes from %zu, %zu spans, %zu overlapping", size, enc.size(), s.spans, s.overlap);
}

struct src_a
{
    // "abcabcabcabcX": literals a b c, span back 3 length 9, literal X
    static constexpr size_t size = 7;
    unsigned char data[7] = { 0x17, 'a', 'b', 'c', 0xfd, 0x6f, 'X' };
};

void kit_main(kit::K& k)
{
    auto random = [](Case& c, size_t items)
    {
        Stream s;
        Writer w{ s };
        unsigned literals = unsigned(c.rng.below(10));
        int alphabet = c.rng.chance(1, 2) ? 256 : 3;
        for (size_t i = 0; i < items; ++i)
        {
            if (s.dec.empty() || c.rng.below(10) < literals)
                w.literal(uint8_t(c.rng.below(unsigned(alphabet))));
            else
            {
                size_t most = s.dec.size() < 4096 ? s.dec.size() : 4096, back;
                switch (c.rng.below(4))
                {
                case 0: back = most; break;
                case 1: back = 1 + c.rng.below(most < 20 ? most : 20); break;
                case 2: back = 1; break;
                default: back = 1 + c.rng.below(most); break;
                }
                size_t length = c.rng.chance(1, 3) ? (c.rng.chance(1, 2) ? 3 : 18) : 3 + c.rng.below(16);
                w.span(back, length);
                c.cover("span_lengths", length);
                c.cover("span_distances", back);
            }
        }
        check(c, s);
        c.cover("encoded_bits", 64 - unsigned(__builtin_clzll(s.enc.size() | 1)));
    };
    k.section("streams", 30000 * k.pick(1, 12), [&](Case& c) { random(c, c.rng.chance(1, 10) ? c.rng.below(3000) : c.rng.below(60)); });
    // beyond what 16 bits count, encoded or only decoded
    k.section_exact("long", k.pick(8, 60), [&](Case& c) { random(c, 30000 + c.rng.below(c.index % 2 ? 20000 : 200000)); });
    k.section("compressed", 1500 * k.pick(1, 12), [](Case& c)
    {
        // a greedy encoder over structured data
        std::vector<uint8_t> d;
        size_t n = c.rng.below(9000);
        static char const* const words[] = { "the ", "quick ", "brown ", "fox", "\n", "jumps over ", "aaaaaaaaaaaaaaaaaaaaaaaaaaa", "x", "0123456789" };
        int mode = int(c.rng.below(3));
        while (d.size() < n)
        {
            if (mode == 0) { char const* p = c.rng.pick(words); d.insert(d.end(), p, p + strlen(p)); }
            else if (mode == 1) d.push_back(uint8_t(c.rng.below(4)));
            else for (size_t i = 0, v = c.rng.u32(), q = 1 + c.rng.below(300); i < q; ++i) d.push_back(uint8_t(v + i * (v >> 8 & 3)));
        }
        Stream s;
        Writer w{ s };
        std::map<uint32_t, std::vector<size_t>> at;
        for (size_t i = 0; i < d.size();)
        {
            size_t best = 0, back = 0;
            if (i + 3 <= d.size())
            {
                auto& v = at[uint32_t(d[i] | d[i + 1] << 8 | d[i + 2] << 16)];
                for (size_t q = v.size(); q-- > 0 && i - v[q] <= 4096 && v.size() - q < 50;)
                {
                    size_t l = 0;
                    while (l < 18 && i + l < d.size() && d[v[q] + l] == d[i + l]) ++l;
                    if (l > best) best = l, back = i - v[q];
                }
            }
            size_t l = best >= 3 ? best : 1;
            if (best >= 3) w.span(back, best); else w.literal(d[i]);
            for (size_t e = i + l; i < e; ++i)
                if (i + 3 <= d.size()) at[uint32_t(d[i] | d[i + 1] << 8 | d[i + 2] << 16)].push_back(i);
        }
        if (s.dec != d) { c.fail("harness", "encoder broken"); return; }
        check(c, s);
    });
    k.section_exact("compile_time", 1, [](Case& c)
    {
        static constexpr ce::lziii::decoder<src_a> a;
        if (sizeof a.data != 13 || memcmp(a.data, "abcabcabcabcX", 13) != 0) c.fail("compile-time", "%s", kit::quote(a.data, sizeof a.data).c_str());
        c.ev();
        c.distinct(1);
    });
    // more than 2^32 decoded bytes: the same stream again and again
    if (kit::swift)
        k.section_exact("vast", k.pick(1, 4), [](Case& c)
        {
            constexpr size_t period = 1 << 20, window = 1 << 20;
            Stream s;
            Writer w{ s };
            for (int i = 0; i < 8; ++i) w.literal(uint8_t(c.rng.u32()));
            // groups of 8 which fill it exactly
            while (s.enc.size() < period)
            {
                size_t left = period - s.enc.size(), spans = left <= 17 ? left - 9 : left <= 34 ? (left - 18) / 2 : c.rng.below(9);
                if (left > 34 && left - 9 - spans < 18) spans = 0;
                for (size_t i = 0; i < 8; ++i)
                {
                    size_t most = s.dec.size() < 4096 ? s.dec.size() : 4096;
                    if (i < spans) w.span(1 + c.rng.below(most), c.rng.chance(1, 2) ? 18 : 3 + c.rng.below(16)); else w.literal(uint8_t(c.rng.u32()));
                }
            }
            size_t times = (size_t(1) << 32) / s.dec.size() + 1 + c.rng.below(3), n = times * s.dec.size();
            if (c.index == 1) times = (size_t(1) << 32) / period + 3, n = times * s.dec.size(); // encoded, too
            kit::Vast src(times * period, period, s.enc.data()), dst(n, window);
            auto e = src.start<uint8_t>(), d = dst.start<uint8_t>();
            if (!e || !d) return;
            if (s.enc.size() != period) return c.fail("vast", "the stream is not as long as planned");
            size_t size = ce::lziii::size(times * period, e);
            if (size != n) return c.fail("vast", "%zu encoded bytes: size %zu, not %zu", times * period, size, n);
            ce::lziii::decode(n, d, e);
            for (size_t i = n - window; i < n; ++i)
                if (d[i] != s.dec[i % s.dec.size()]) return c.fail("vast", "%zu decoded bytes: byte %zu is %02x, not %02x", n, i, d[i], s.dec[i % s.dec.size()]);
            c.ev(2);
            c.count("vast");
            c.distinct(kit::mix(n));
        });
}
