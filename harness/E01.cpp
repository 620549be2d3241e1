// E01: base64 decode inverts a reference encoder, writes exactly size() bytes and reads nothing past the text.
#include "kit.h"
#include "ce/ce.h"
using kit::Case;

static char const digits[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string encode(std::vector<uint8_t> const& d, bool pad)
{
    std::string r;
    unsigned acc = 0;
    int bits = 0;
    for (uint8_t b : d)
    {
        acc = acc << 8 | b;
        bits += 8;
        while (bits >= 6) bits -= 6, r += digits[acc >> bits & 63];
    }
    if (bits) r += digits[acc << (6 - bits) & 63];
    if (pad) while (r.size() % 4) r += '=';
    return r;
}

struct text_a { static constexpr char const* data = "aGVsbG8gd29ybGQ="; };
struct text_b { static constexpr char const* data = "/+7dzLuqmYh3ZlVEMyIRAA"; };
struct text_c { static constexpr char const* data = "AA=="; };

void kit_main(kit::K& k)
{
    k.section("round_trip", 150000 * k.pick(1, 12), [](Case& c)
    {
        std::vector<uint8_t> d(c.rng.chance(1, 20) ? c.rng.below(3000) : c.rng.below(50));
        int kind = int(c.rng.below(4));
        for (auto& b : d) b = kind == 0 ? 0 : kind == 1 ? 0xff : uint8_t(c.rng.u32());
        static char const* const ends[] = { "", "=", "==", "===", "-AAAA", "_", " ", "\n", "\x80", "\xff" "AA", "@", "[", "`", "{", ":", ",", ".", "*" };
        std::string t = encode(d, c.rng.chance(1, 3));
        size_t n = t.find('=') == std::string::npos ? t.size() : t.find('=');
        if (t.size() == n) t += c.rng.pick(ends);
        std::vector<char> src(t.begin(), t.end());
        src.push_back(0);
        size_t size = ce::base64::size(src.data());
        if (size != d.size() || ce::base64::size(n) != d.size())
            return c.fail("size", "%s: %zu (from %zu digits: %zu), expected %zu", kit::quote(t).c_str(), size, n, ce::base64::size(n), d.size());
        // the digits only, in an exact allocation: what decode may read
        std::vector<char> exact(src.begin(), src.begin() + ptrdiff_t(n));
        std::vector<uint8_t> out(size + 16, 0xa5);
        ce::base64::decode(size, out.data() + 8, exact.data());
        for (size_t i = 0; i < 8; ++i)
            if (out[i] != 0xa5 || out[size + 8 + i] != 0xa5) return c.fail("bounds", "%s: wrote outside of %zu bytes", kit::quote(t).c_str(), size);
        if (size && memcmp(out.data() + 8, d.data(), size) != 0)
            return c.fail("decode", "%s decoded to %s, expected %s", kit::quote(t).c_str(), kit::quote(out.data() + 8, size).c_str(), kit::quote(d.data(), size).c_str());
        // a shorter destination takes a prefix
        size_t part = c.rng.below(size + 1);
        std::vector<uint8_t> out2(part);
        ce::base64::decode(part, out2.data(), exact.data());
        if (part && memcmp(out2.data(), d.data(), part) != 0) c.fail("prefix", "%s first %zu bytes", kit::quote(t).c_str(), part);
        c.ev();
        c.cover("length_mod_3_and_kind", size % 3 * 4 + unsigned(kind));
        c.distinct(kit::hash_bytes(d.data(), d.size()));
        c.sample("%s", t.substr(0, 60).c_str());
    });
    k.section_exact("long", k.pick(6, 60), [](Case& c)
    {
        // beyond what 16 bits count, in text and in bytes
        std::vector<uint8_t> d(c.index == 0 ? 49152 : c.index == 1 ? 65536 : 40000 + c.rng.below(c.index % 2 ? 30000 : 400000));
        for (auto& b : d) b = uint8_t(c.rng.u32());
        std::string t = encode(d, true);
        if (ce::base64::size(t.c_str()) != d.size()) return c.fail("size", "%zu bytes: %zu", d.size(), ce::base64::size(t.c_str()));
        std::vector<uint8_t> out(d.size());
        ce::base64::decode(d.size(), out.data(), t.c_str());
        if (out != d) return c.fail("decode", "%zu bytes differ", d.size());
        c.ev();
        c.cover("long", c.index);
        c.distinct(kit::hash_bytes(d.data(), d.size()));
    });
    k.section_exact("alphabet", 256, [](Case& c)
    {
        // each byte value: a digit exactly when it is in the alphabet, and then its position
        char ch = char(c.index);
        char const* p = ch ? strchr(digits, ch) : nullptr;
        for (int at = 0; at < 8; ++at)
        {
            char s[16] = "AAAAAAAAAAA";
            s[at] = ch;
            size_t want = p ? 11 : size_t(at);
            if (ce::base64::size(s) != ce::base64::size(want)) c.fail("alphabet", "byte %02x at %d: size %zu", unsigned(c.index), at, ce::base64::size(s));
            if (p)
            {
                uint8_t o[8];
                ce::base64::decode(8, o, s);
                unsigned bit = unsigned(at) * 6;
                unsigned v = unsigned(p - digits);
                uint8_t w[9]{};
                for (unsigned b = 0; b < 6; ++b) if (v >> (5 - b) & 1) w[(bit + b) / 8] |= uint8_t(0x80 >> ((bit + b) % 8));
                if (memcmp(o, w, 8) != 0) c.fail("alphabet", "digit %c at %d decodes to %s", ch, at, kit::quote(o, 8).c_str());
            }
            c.ev();
        }
        if (ce::ascii::is_base64(ch) != (p != nullptr)) c.fail("alphabet", "byte %02x classified wrong", unsigned(c.index));
        if (ce::ascii::is_base10(ch) != (ch >= '0' && ch <= '9') || ce::ascii::is_upper(ch) != (ch >= 'A' && ch <= 'Z') || ce::ascii::is_lower(ch) != (ch >= 'a' && ch <= 'z') ||
            ce::ascii::is_alpha(ch) != ((ch | 32) >= 'a' && (ch | 32) <= 'z') || ce::ascii::is_base16(ch) != (ch && strchr("0123456789abcdefABCDEF", ch)))
            c.fail("ascii", "byte %02x classified wrong", unsigned(c.index));
        c.distinct(c.index);
    });
    k.section("sizes", 2000, [](Case& c)
    {
        for (int i = 0; i < 200; ++i)
        {
            ce::uint64_t n = i < 100 && c.index == 0 ? ce::uint64_t(i) : c.rng.wide(64);
            ce::uint64_t want = ce::uint64_t((unsigned __int128)(n) * 3 / 4);
            if (ce::base64::size(n) != want) c.fail("size", "%llu digits: %zu, expected %llu", n, ce::base64::size(n), want);
            c.ev();
        }
        c.distinct(c.rng.s);
    });
    k.section_exact("compile_time", 1, [](Case& c)
    {
        static constexpr ce::base64::decoder<text_a> a;
        static constexpr ce::base64::decoder<text_b> b;
        static constexpr ce::base64::decoder<text_c> z;
        if (sizeof a.data != 11 || memcmp(a.data, "hello world", 11) != 0 || sizeof b.data != 16 || memcmp(b.data, "\xff\xee\xdd\xcc\xbb\xaa\x99\x88\x77\x66\x55\x44\x33\x22\x11", 16) != 0 || sizeof z.data != 1 || z.data[0] != 0)
            c.fail("compile-time", "a compile time decoder gave other bytes");
        c.ev(3);
        c.distinct(1);
    });
    // more than 2^32 digits and bytes: the same text again and again
    if (kit::swift)
        k.section_exact("vast", k.pick(1, 4), [](Case& c)
        {
            constexpr size_t bytes = 3 << 20, digits_n = 4 << 20;
            std::vector<uint8_t> p(bytes);
            // mostly of one kind of digit, which is faster
            std::string t(digits_n, 0);
            for (auto& d : t) d = digits[c.rng.below(c.rng.chance(1, 100) ? 64 : 26)];
            for (size_t i = 0; i < bytes; i += 3)
            {
                uint32_t v = 0;
                for (size_t j = 0; j < 4; ++j) v = v << 6 | uint32_t(strchr(digits, t[i / 3 * 4 + j]) - digits);
                for (size_t j = 0; j < 3; ++j) p[i + j] = uint8_t(v >> (16 - 8 * j));
            }
            size_t n = (size_t(1) << 32) + c.rng.below(2000000), text = n / 3 * 4 + (n % 3 ? n % 3 + 1 : 0);
            kit::Vast src(text + 1, digits_n, t.data()), dst(n, bytes);
            char* s = src.start<char>();
            auto d = dst.start<uint8_t>();
            if (!s || !d) return;
            s[text] = '\0';
            size_t size = ce::base64::size(s);
            if (size != n) return c.fail("vast", "%zu digits: %zu bytes, not %zu", text, size, n);
            ce::base64::decode(n, d, s);
            if (memcmp(d, p.data(), bytes) != 0) return c.fail("vast", "%zu bytes decoded to others", n);
            c.ev(2);
            c.count("vast");
            c.distinct(kit::mix(n));
        });
}
