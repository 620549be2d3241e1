// M01: the wide product comparison decides a * b < c * d exactly for all 64 bit arguments.
#include "kit.h"
#include "ce/math.h"
using kit::Case;

// sign and magnitude in 32 bit limbs: independent of the compiler's 128 bit arithmetic
struct Wide { int sign; uint32_t m[4]; };
static Wide mul(int64_t a, int64_t b)
{
    uint64_t x = a < 0 ? 0 - uint64_t(a) : uint64_t(a), y = b < 0 ? 0 - uint64_t(b) : uint64_t(b);
    uint32_t p[2] = { uint32_t(x), uint32_t(x >> 32) }, q[2] = { uint32_t(y), uint32_t(y >> 32) };
    Wide w{ 0, { 0, 0, 0, 0 } };
    for (int i = 0; i < 2; ++i)
    {
        uint64_t carry = 0;
        for (int j = 0; j < 2; ++j)
        {
            uint64_t t = uint64_t(p[i]) * q[j] + w.m[i + j] + carry;
            w.m[i + j] = uint32_t(t);
            carry = t >> 32;
        }
        w.m[i + 2] = uint32_t(carry);
    }
    bool zero = !(w.m[0] | w.m[1] | w.m[2] | w.m[3]);
    w.sign = zero ? 0 : (a < 0) != (b < 0) ? -1 : 1;
    return w;
}
static int cmp(Wide const& a, Wide const& b)
{
    if (a.sign != b.sign) return a.sign < b.sign ? -1 : 1;
    for (int i = 3; i >= 0; --i)
        if (a.m[i] != b.m[i]) return (a.m[i] < b.m[i]) == (a.sign >= 0) ? -1 : 1;
    return 0;
}

static void judge(Case& c, int64_t a, int64_t b, int64_t x, int64_t y)
{
    int o = cmp(mul(a, b), mul(x, y));
    bool got = ce::ab_less_cd(a, b, x, y);
    c.ev();
    c.count(o < 0 ? "less" : o > 0 ? "greater" : "equal");
    if (got != (o < 0))
        c.fail("wrong", "%lld * %lld < %lld * %lld is %s", (long long)a, (long long)b, (long long)x, (long long)y, got ? "true" : "false");
}

void kit_main(kit::K& k)
{
    k.section("wide", 400000 * k.pick(1, 10), [](Case& c)
    {
        int64_t v[4];
        for (auto& x : v) x = c.rng.swide(64);
        switch (c.rng.below(8))
        {
        case 0: v[2] = v[1], v[3] = v[0]; break;                                   // equal
        case 1: v[2] = v[0], v[3] = int64_t(uint64_t(v[1]) + c.rng.below(3) - 1); break; // off by one factor
        case 2: v[2] = int64_t(0 - uint64_t(v[0])), v[3] = int64_t(0 - uint64_t(v[1])); break;
        case 3: v[2] = int64_t(0 - uint64_t(v[0])), v[3] = v[1]; break;
        case 4: // products with equal high halves which differ only in the low half
        {
            int s = int(c.rng.below(32));
            v[0] = int64_t(c.rng.wide(62 - s)) << s; v[1] = c.rng.swide(62);
            v[2] = v[0] >> s; v[3] = int64_t((uint64_t(v[1]) << s) + c.rng.below(3) - 1);
            break;
        }
        case 5: v[1] = 1, v[3] = 1; v[2] = int64_t(uint64_t(v[0]) + c.rng.below(3) - 1); break;
        case 6: for (auto& x : v) { static int64_t const e[] = { INT64_MIN, INT64_MAX, 0, 1, -1, INT64_MIN + 1, 1ll << 32, -(1ll << 32), (1ll << 32) - 1 }; x = c.rng.pick(e); } break;
        default: break;
        }
        judge(c, v[0], v[1], v[2], v[3]);
        c.distinct(kit::hash_bytes(v, sizeof v));
        c.sample("%lld * %lld < %lld * %lld", (long long)v[0], (long long)v[1], (long long)v[2], (long long)v[3]);
    });
    k.section_exact("small", 1, [](Case& c)
    {
        for (int a = -6; a <= 6; ++a)
            for (int b = -6; b <= 6; ++b)
                for (int x = -6; x <= 6; ++x)
                    for (int y = -6; y <= 6; ++y) judge(c, a, b, x, y);
    });
}
