// T02: float and double text parses back to the same value, and fits its bound.
#include "kit.h"
#include "ce/ce.h"
#include <cfenv>
#include <clocale>
#include <locale>
#include <math.h>
#include <xmmintrin.h>

using kit::Case;

static float back(char const* s, float) { return strtof(s, nullptr); }
static double back(char const* s, double) { return strtod(s, nullptr); }

static std::string text_of(double v) { char t[64]; std::string s(t, ce::to_text(t, v)); return s[0] == '-' ? s.substr(1) : s; }

template<class T, class U> static inline void one(Case& c, U bits)
{
    T v;
    memcpy(&v, &bits, sizeof v);
    char b[48];
    memset(b, 0x7e, sizeof b);
    char* e = ce::to_text(b + 4, v);
    ptrdiff_t n = e - (b + 4);
    if (n < 1 || n > 32 || *e != 0x7e || b[3] != 0x7e || b[40] != 0x7e)
        return c.fail("bounds", "%zu byte float bits %llx: length %td, bytes %s", sizeof(T), (unsigned long long)bits, n, kit::quote(b, 44).c_str());
    *e = 0;
    T w = back(b + 4, T());
    if (v != v || (v - v) != 0)
    {
        // one text for infinity and one for not-a-number, each at most with a sign
        static std::string const fixed[2] = { text_of(INFINITY), text_of(NAN) };
        char const* u = b + 4 + (b[4] == '-');
        if (fixed[v != v] != u) return c.fail("fixed", "%zu byte float bits %llx gave %s, others %s", sizeof(T), (unsigned long long)bits, b + 4, fixed[v != v].c_str());
    }
    if (v != v)
    {
        if (w == w) c.fail("nan", "nan bits %llx gave %s", (unsigned long long)bits, b + 4);
        return;
    }
    U wb;
    memcpy(&wb, &w, sizeof w);
    // the whole text must be a number (no trailing garbage)
    char* q = nullptr;
    (void)strtod(b + 4, &q);
    if (wb != bits || q != e)
        c.fail("round-trip", "%zu byte float bits %llx gave %s which reads back as bits %llx", sizeof(T), (unsigned long long)bits, b + 4, (unsigned long long)wb);
}

extern int user_calls, user_width;
extern double user_value;
extern char* user_at;
char* user_one(char* text, float v);
char* user_one(char* text, double v);
char* user_parts(char* text, int a, float v, char const* s, double w);

// CE_USER_TO_TEXT_FROM_IEEE754: the user's own conversion stands for every value, once, where its text goes, and what follows goes on from its end
template<class T, class U> static void users(Case& c)
{
    U b = U(c.rng.chance(1, 3) ? c.rng.next() & c.rng.next() & c.rng.next() : c.rng.next());
    T v;
    memcpy(&v, &b, sizeof v);
    if (v != v) v = T(1) / T(3), memcpy(&b, &v, sizeof v);
    char buf[512];
    memset(buf, 0x7e, sizeof buf);
    char* at = buf + c.rng.below(30);
    user_calls = 0;
    char* e = user_one(at, v);
    double seen = user_value;
    uint64_t sb, vb;
    double dv = double(v);
    memcpy(&sb, &seen, 8), memcpy(&vb, &dv, 8);
    if (user_calls != 1 || user_width != sizeof(T) || sb != vb || user_at != at || e != at + vb % 40)
        return c.fail("users-own", "%zu byte %a: the user's conversion ran %d times, on %d byte %a, at %td, and ended at %td of %d", sizeof(T), dv, user_calls, user_width, seen, user_at - at, e - at, int(vb % 40));
    std::string one(at, e), two;
    int a = int(c.rng.next());
    double w = double(c.rng.swide(50)) / 7;
    char t[64], u[64];
    float fv = float(v);
    if (fv != fv || (double(fv) - double(fv)) != 0) fv = 0.25f;
    std::string f1(t, user_one(t, fv)), w1(u, user_one(u, w));
    user_calls = 0;
    std::string all(buf, user_parts(buf, a, fv, ":", w)), want = std::to_string(a) + f1 + ":" + w1 + f1;
    if (all != want || user_calls != 3) c.fail("users-parts", "%d, %a, \":\", %a, %a became %s with %d conversions, not %s", a, double(fv), w, double(fv), all.c_str(), user_calls, want.c_str());
    c.count("users_own");
    c.ev();
}

// the program's locale and how the thread rounds are no part of a number
static bool other_locale()
{
    static int state = -1;
    if (state < 0)
    {
        state = 0;
        char dir[] = "locale.XXXXXX", full[4096];
        if (mkdtemp(dir) && realpath(dir, full))
        {
            std::string make = std::string("localedef -i de_DE -f UTF-8 '") + full + "/de_DE' >/dev/null 2>&1";
            setenv("LOCPATH", full, 1);
            state = system(make.c_str()) != -1 && setlocale(LC_ALL, "de_DE") && localeconv()->decimal_point[0] == ',';
            setlocale(LC_ALL, "C");
        }
    }
    return state > 0;
}
static std::string texts_of(double d, float f, int64_t i)
{
    char t[256], *e = ce::to_text(t, d);
    *e++ = ' ', e = ce::to_text(e, f), *e++ = ' ', e = ce::to_text(e, i), *e++ = ' ', e = ce::to_text(e, uint64_t(i)), *e++ = ' ', e = ce::to_text(e, int32_t(i));
    ce::as_string a{ d, ' ', f, ' ', i };
    return std::string(t, e) + " " + a.as;
}
static void surroundings(Case& c)
{
    static int const rounding[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
    bool german = other_locale();
    for (int n = 0; n < 300; ++n)
    {
        uint64_t b = c.rng.next();
        double d;
        float f;
        memcpy(&d, &b, 8), memcpy(&f, &b, 4);
        switch (c.rng.below(4))
        {
        case 0: d = double(c.rng.range(-100000000, 100000000)) / double(1 << c.rng.below(20)), f = float(d); break;
        case 1: d = double(c.rng.swide(64)) / 100, f = float(c.rng.swide(30)) / 10; break;
        default: break;
        }
        if (!(d - d == 0)) d = 0.1;
        if (!(f - f == 0)) f = 0.1f;
        int64_t i = c.rng.swide(64);
        std::string want = texts_of(d, f, i);
        int r = int(c.rng.below(4));
        bool l = german && c.rng.chance(2, 3);
        if (l) std::locale::global(std::locale("de_DE"));
        std::fesetround(rounding[r]);
        std::string got = texts_of(d, f, i);
        std::fesetround(FE_TONEAREST);
        if (l) std::locale::global(std::locale::classic()), c.count("other_locale");
        if (r) c.count("other_rounding");
        c.ev();
        c.distinct(b);
        if (got != want) return c.fail("surroundings", "\"%s\" in another locale (%d) or rounding otherwise (%d) is \"%s\"", want.c_str(), l, r, got.c_str());
    }
}

void kit_main(kit::K& k)
{
    k.section("surroundings", 64, surroundings);
    k.section("users", 3000 * k.pick(1, 20), [&](Case& c) { c.index % 2 ? users<float, uint32_t>(c) : users<double, uint64_t>(c); });
    k.section("f32", 64, [&](Case& c)
    {
        // one sign/exponent/mantissa stratum each, plus random bits
        uint64_t step = k.thorough && k.scale >= 1 ? 1 : 499;
        uint64_t n = (1ull << 32) / 64;
        for (uint64_t i = c.index % 64 * n + c.rng.below(step); i < (c.index % 64 + 1) * n; i += step)
            one<float>(c, uint32_t(i)), c.ev();
        c.distinct(c.index);
        c.sample("every %llu-th float bit pattern from %llx", (unsigned long long)step, (unsigned long long)(c.index % 64 * n));
    });
    k.section_exact("f32_exponents", 512, [&](Case& c)
    {
        for (uint32_t m = 0; m < 2048; ++m)
        {
            one<float>(c, uint32_t(c.index << 23 | m));
            one<float>(c, uint32_t(c.index << 23 | (0x7fffff - m)));
            c.ev(2);
        }
        c.distinct(c.index ^ 0xf32000);
    });
    k.section_exact("f64_exponents", 4096, [&](Case& c)
    {
        for (uint64_t m = 0; m < 64; ++m)
        {
            one<double>(c, uint64_t(c.index << 52 | m));
            one<double>(c, uint64_t(c.index << 52 | (0xfffffffffffffull - m)));
            one<double>(c, uint64_t(c.index << 52 | (c.rng.next() >> 12)));
            c.ev(3);
        }
        c.distinct(c.index ^ 0xf64000);
    });
    k.section("f64", 64 * k.pick(1, 40), [&](Case& c)
    {
        for (int i = 0; i < 20000; ++i)
        {
            uint64_t b;
            double d;
            switch (c.rng.below(5))
            {
            case 0: d = double(c.rng.swide(64)); memcpy(&b, &d, 8); break;
            case 1: d = double(c.rng.swide(40)) / pow(10, double(c.rng.below(30))); memcpy(&b, &d, 8); break;
            case 2: d = double(c.rng.swide(54)) * pow(10, double(c.rng.below(280))); memcpy(&b, &d, 8); break;
            case 3: d = ldexp(1.0, int(c.rng.range(-1074, 1023))); memcpy(&b, &d, 8); b += uint64_t(c.rng.range(-2, 2)); break;
            default: b = c.rng.next(); break;
            }
            one<double>(c, b);
            c.distinct(b);
            c.ev();
            if (i == 0) { memcpy(&d, &b, 8); c.sample("double %a", d); }
        }
    });
}
