// Z02: a range query reports every stored code inside the box exactly as often as it is stored, ascending, and nothing the box's
// splits along the curve leave out.
#include "kit.h"
#include "ce/zorder.h"
#include <algorithm>
using kit::Case;
typedef uint64_t u64;

static u64 code(int32_t x, int32_t y)
{
    u64 z = 0;
    uint32_t u = uint32_t(x) ^ 0x80000000u, v = uint32_t(y) ^ 0x80000000u;
    for (int i = 0; i < 32; ++i) z |= u64(u >> i & 1) << (2 * i) | u64(v >> i & 1) << (2 * i + 1);
    return z;
}
static bool inside(u64 lo, u64 hi, u64 z)
{
    u64 m[2] = { 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull };
    for (u64 a : m) if ((z & a) < (lo & a) || (z & a) > (hi & a)) return false;
    return true;
}
// may z be reported?  The box is halved at the highest bit its corners differ in for as long as the halves are more than a cell (16 bits) apart
static bool allowed(u64 lo, u64 hi, u64 z)
{
    for (;;)
    {
        if (z < lo || (z > hi && z - hi > 0xffff)) return false;
        u64 d = lo ^ hi;
        if (d == 0) return true;
        int top = 63 - __builtin_clzll(d);
        // the bits of the same coordinate, from top down
        u64 m = 0;
        for (int i = top; i >= 0; i -= 2) m |= u64(1) << i;
        u64 out = (hi & ~m) | (m & ~(u64(1) << top)), in = (lo & ~m) | u64(1) << top;
        out &= ~u64(0xffff), in &= ~u64(0xffff);
        if (in - out <= 0x10000) return true;
        if (z > out + 0xffff) lo = in; else hi = out;
    }
}

static void query(Case& c, std::vector<u64> const& d, int32_t x0, int32_t y0, int32_t x1, int32_t y1)
{
    u64 lo = ce::z_encode(x0, y0), hi = ce::z_encode(x1, y1);
    size_t n = d.size();
    // exactly sized, so reading or writing past the end is caught
    auto data = static_cast<u64*>(malloc(n * sizeof(u64) + !n)), out = static_cast<u64*>(malloc(n * sizeof(u64) + !n));
    for (size_t i = 0; i < n; ++i) data[i] = d[i], out[i] = 0x1111;
    size_t got = ce::z_query(out, lo, hi, n, data);
    c.ev();
    auto box = [&] { return kit::fmt("[%d, %d] x [%d, %d] in %zu codes", x0, x1, y0, y1, n); };
    if (got > n) c.fail("count", "%s: %zu results", box().c_str(), got);
    else
    {
        size_t j = 0, in = 0, extra = 0;
        for (size_t i = 0; i < n; ++i)
        {
            bool want = inside(lo, hi, d[i]);
            bool reported = j < got && out[j] == d[i];
            in += want;
            if (reported)
            {
                ++j;
                if (!want) ++extra;
                if (!want && !allowed(lo, hi, d[i])) { c.fail("extra", "%s: reports %016llx (corners %016llx, %016llx)", box().c_str(), (unsigned long long)d[i], (unsigned long long)lo, (unsigned long long)hi); break; }
            }
            else if (want) { c.fail("missed", "%s: %016llx is not reported (corners %016llx, %016llx)", box().c_str(), (unsigned long long)d[i], (unsigned long long)lo, (unsigned long long)hi); break; }
        }
        if (!c.failed && j != got) c.fail("not-stored", "%s: result %zu of %zu, %016llx, is not stored or not in its place", box().c_str(), j, got, (unsigned long long)out[j]);
        c.count("inside", in);
        c.count("extra_allowed", extra);
        c.count("left_out", n - got);
        if (in && in < n) c.count("partial");
        for (size_t i = got; i < n; ++i) if (out[i] != 0x1111) { c.fail("beyond", "%s: wrote beyond the results", box().c_str()); break; }
    }
    for (size_t i = 0; i < n; ++i) if (data[i] != d[i]) { c.fail("stored", "%s: the stored codes changed", box().c_str()); break; }
    free(data), free(out);
    c.distinct(kit::hash_bytes(d.data(), n * 8, lo ^ kit::mix(hi)));
}

static void random_case(Case& c)
{
    int sh = int(c.rng.below(32));
    auto R = [&] { return c.rng.chance(1, 6) ? c.rng.chance(1, 2) ? INT32_MAX : INT32_MIN : int32_t(c.rng.u32()) >> sh; };
    int32_t cx = c.rng.chance(1, 2) ? 0 : R(), cy = c.rng.chance(1, 2) ? 0 : R(); // clusters which straddle high bits
    auto X = [&](int32_t o) { return int32_t(uint32_t(o) + uint32_t(R())); };
    size_t n = c.rng.chance(1, 300) ? 3000 + c.rng.below(70000) : c.rng.chance(1, 10) ? c.rng.below(3000) : c.rng.below(80);
    if (c.rng.chance(1, 3)) // a narrow long box splits most
    {
        int32_t x0 = X(cx), x1 = int32_t(std::min<int64_t>(INT32_MAX, int64_t(x0) + int64_t(c.rng.wide(9)))), y0 = X(cy), y1 = X(cy);
        if (y0 > y1) std::swap(y0, y1);
        std::vector<u64> d;
        for (size_t i = 0; i < n; ++i)
        {
            int32_t x = c.rng.chance(1, 2) ? int32_t(c.rng.range(x0, x1)) : int32_t(uint32_t(x0) + uint32_t(c.rng.range(-1024, 1024))), y = c.rng.chance(3, 4) ? int32_t(c.rng.range(y0, y1)) : X(cy);
            bool t = c.index & 1;
            d.push_back(t ? code(y, x) : code(x, y));
        }
        std::sort(d.begin(), d.end());
        return c.index & 1 ? query(c, d, y0, x0, y1, x1) : query(c, d, x0, y0, x1, y1);
    }
    int32_t x0 = X(cx), x1 = X(cx), y0 = X(cy), y1 = X(cy);
    if (c.rng.chance(1, 8)) x1 = x0;
    if (c.rng.chance(1, 8)) y1 = y0;
    if (x0 > x1) std::swap(x0, x1);
    if (y0 > y1) std::swap(y0, y1);
    std::vector<u64> d;
    for (size_t i = 0; i < n; ++i)
    {
        int32_t x = X(cx), y = X(cy);
        switch (c.rng.below(6))
        {
        case 0: x = int32_t(c.rng.range(x0, x1)), y = int32_t(c.rng.range(y0, y1)); break;
        case 1: x = c.rng.chance(1, 2) ? x0 : x1, y = int32_t(c.rng.range(y0, y1)); break;
        case 2: x = int32_t(c.rng.range(x0, x1)), y = c.rng.chance(1, 2) ? y0 : y1; break;
        case 3: x = int32_t(uint32_t(c.rng.chance(1, 2) ? x0 : x1) + uint32_t(c.rng.range(-300, 300))), y = int32_t(uint32_t(c.rng.chance(1, 2) ? y0 : y1) + uint32_t(c.rng.range(-300, 300))); break;
        default: break;
        }
        d.push_back(code(x, y));
        while (c.rng.chance(1, 8)) d.push_back(code(x, y));
    }
    std::sort(d.begin(), d.end());
    c.sample("[%d, %d] x [%d, %d] in %zu codes", x0, x1, y0, y1, d.size());
    query(c, d, x0, y0, x1, y1);
}

void kit_main(kit::K& k)
{
    k.section("random", 60000 * k.pick(1, 10), random_case);
    // every point of a grid of cells stored; boxes of whole and part cells
    k.section("dense", 300 * k.pick(1, 5), [](Case& c)
    {
        int32_t step = int32_t(1) << c.rng.below(12), ox = c.rng.chance(1, 4) ? INT32_MIN : int32_t(c.rng.swide(30)) & ~(step - 1), oy = c.rng.chance(1, 4) ? INT32_MAX - 60 * step : int32_t(c.rng.swide(30));
        std::vector<u64> d;
        for (int i = 0; i < 60; ++i) for (int j = 0; j < 60; ++j) d.push_back(code(ox + i * step, oy + j * step));
        std::sort(d.begin(), d.end());
        for (int i = 0; i < 20; ++i)
        {
            int64_t a = c.rng.range(-1, 60), b = c.rng.range(a, 60), e = c.rng.range(-1, 60), f = c.rng.range(e, 60);
            auto clamp = [](int64_t v) { return int32_t(std::max<int64_t>(INT32_MIN, std::min<int64_t>(INT32_MAX, v))); };
            query(c, d, clamp(ox + a * step), clamp(oy + e * step), clamp(ox + b * step), clamp(oy + f * step));
        }
        c.count("dense");
    });
    // more results than 16 bits count
    k.section_exact("many", 12, [](Case& c)
    {
        static size_t const sizes[] = { 65535, 65536, 65537, 70000, 131072, 200000 };
        std::vector<u64> d;
        int32_t step = c.index < 6 ? 1 : 1000;
        for (size_t i = 0; i < sizes[c.index % 6]; ++i) d.push_back(code(int32_t(i % 300) * step, int32_t(i / 300) * step));
        std::sort(d.begin(), d.end());
        query(c, d, -1, -1, 1000 * step, 1000 * step);
        query(c, d, 0, 0, 299 * step, int32_t(c.rng.below(700)) * step);
    });
    // boxes whose halves nest deepest: corners alternating bits
    k.section("deep", 4000 * k.pick(1, 10), [](Case& c)
    {
        int a = int(c.rng.below(31)), b = int(c.rng.below(31));
        int32_t x0 = int32_t(1) + int32_t(c.rng.below(3)) - (INT32_MAX >> a), x1 = (INT32_MAX >> a) - int32_t(c.rng.below(3)), y0 = 1 - (INT32_MAX >> b) + int32_t(c.rng.below(3)), y1 = (INT32_MAX >> b) - int32_t(c.rng.below(3));
        if (x0 > x1) std::swap(x0, x1);
        if (y0 > y1) std::swap(y0, y1);
        std::vector<u64> d;
        for (int i = 0; i < 300; ++i)
        {
            // runs from the low corner up: each further into the nest
            int s = i % 31;
            int32_t x = int32_t(c.rng.range(x0, std::min<int64_t>(x1, int64_t(x0) + (int64_t(1) << s)))), y = int32_t(c.rng.range(y0, std::min<int64_t>(y1, int64_t(y0) + (int64_t(1) << s))));
            d.push_back(code(x, y));
        }
        d.push_back(code(x1, y1));
        std::sort(d.begin(), d.end());
        query(c, d, x0, y0, x1, y1);
        c.count("deep");
    });
    k.section("lower_bound", 20000 * k.pick(1, 10), [](Case& c)
    {
        std::vector<u64> d(c.rng.chance(1, 3) ? c.rng.below(6) : c.rng.below(300));
        u64 m = c.rng.chance(1, 2) ? ~0ull : c.rng.below(50) + 1;
        for (auto& v : d) v = c.rng.next() % m;
        std::sort(d.begin(), d.end());
        auto a = static_cast<u64*>(malloc(d.size() * 8 + !d.size()));
        if (!d.empty()) memcpy(a, d.data(), d.size() * 8);
        for (int i = 0; i < 8; ++i)
        {
            u64 z = !d.empty() && c.rng.chance(1, 2) ? d[c.rng.below(d.size())] + c.rng.below(3) - 1 : c.rng.wide(64);
            c.ev();
            auto at = size_t(ce::z_lower_bound(a, a + d.size(), z) - a), want = size_t(std::lower_bound(d.begin(), d.end(), z) - d.begin());
            if (at != want) c.fail("lower-bound", "%zu codes: %zu, not %zu", d.size(), at, want);
        }
        free(a);
        c.count("bounds");
    });
    // more than 2^32 codes, all but the last few the lowest there is
    k.section_exact("vast", k.pick(20, 200), [](Case& c)
    {
        size_t n = (size_t(1) << (31 + c.rng.below(3))) + size_t(c.rng.range(-2000, 200000));
        kit::Vast mem(n * sizeof(u64));
        auto a = mem.at<u64>();
        if (!a) return;
        std::vector<u64> d;
        for (int i = 0; i < 400; ++i) d.push_back(code(int32_t(c.rng.range(-300, 300)) * 1000, int32_t(c.rng.range(-300, 300)) * 1000));
        std::sort(d.begin(), d.end());
        for (size_t i = 0; i < d.size(); ++i) a[n - d.size() + i] = d[i];
        for (int i = 0; i < 6; ++i)
        {
            int32_t x0 = int32_t(c.rng.range(-300000, 300000)), y0 = int32_t(c.rng.range(-300000, 300000)), x1 = int32_t(c.rng.range(x0, 300000)), y1 = int32_t(c.rng.range(y0, 300000));
            u64 lo = code(x0, y0), hi = code(x1, y1);
            std::vector<u64> out(d.size() + 8), got, want;
            size_t r = ce::z_query(out.data(), lo, hi, n, a);
            c.ev();
            if (r > d.size()) { c.fail("vast", "%zu codes: %zu found", n, r); break; }
            for (size_t j = 0; j < r; ++j)
            {
                if ((j && out[j] < out[j - 1]) || !allowed(lo, hi, out[j]) || !std::binary_search(d.begin(), d.end(), out[j])) c.fail("vast", "%zu codes: %llx found", n, (unsigned long long)out[j]);
                if (inside(lo, hi, out[j])) got.push_back(out[j]);
            }
            for (u64 z : d) if (inside(lo, hi, z)) want.push_back(z);
            if (got != want) c.fail("vast", "%zu codes: %zu in the box, %zu found", n, want.size(), got.size());
            u64 z = d[c.rng.below(d.size())] + c.rng.below(3) - 1;
            size_t at = size_t(ce::z_lower_bound(a, a + n, z) - a), first = n - d.size() + size_t(std::lower_bound(d.begin(), d.end(), z) - d.begin());
            if (at != first) c.fail("vast", "%zu codes: lower bound %zu, not %zu", n, at, first);
        }
        c.count("vast");
        c.distinct(kit::mix(n) ^ d[0]);
    });
}
