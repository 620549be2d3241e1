// G02: members of aggregates by number, counts of arrays and arguments, swapping, reading a value as another type, and preprocessor helpers.
#include "kit.h"
#include <string>
#include <vector>
#include <type_traits>
#include "ce/ce.h"
#include "ce/math.h"
using kit::Case;

template<class T> using alias = T;
enum E8 : unsigned char { };
enum class Colour : short { red, green, blue = -7 };
struct Inner { int a; double b; };
struct Deep { Inner in; char c; Inner jn; };
struct One { int only; };
struct Text { std::string s; int n; };
static int live_owners;
struct Owner
{
    int* p;
    Owner() : Owner(0) { }
    explicit Owner(int v) : p(new int(v)) { ++live_owners; }
    Owner(Owner const& o) : p(new int(*o.p)) { ++live_owners; }
    Owner& operator=(Owner const& o) { *p = *o.p; return *this; }
    ~Owner() { --live_owners; delete p; }
};
struct Fixed { int v; Fixed(int n, int) : v(n) { } };
static bool eq(Fixed const& a, Fixed const& b) { return a.v == b.v; }
static bool eq(Inner const& a, Inner const& b) { return a.a == b.a && a.b == b.b; }
static bool eq(Deep const& a, Deep const& b) { return eq(a.in, b.in) && a.c == b.c && eq(a.jn, b.jn); }
static bool eq(One const& a, One const& b) { return a.only == b.only; }
static bool eq(Text const& a, Text const& b) { return a.s == b.s && a.n == b.n; }
static bool eq(Owner const& a, Owner const& b) { return *a.p == *b.p; }
static bool eq(ce::tuple<int, char> const& a, ce::tuple<int, char> const& b) { return a._0 == b._0 && a._1 == b._1; }
template<class T> static bool eq(T const& a, T const& b) { return a == b; }

static char const* const words[] = { "", "a", "some longer text which is kept elsewhere", "b\tc" };
static int ints[8];
static void f0(int) { }
static void f1(int) { }
template<class T> struct maker { static T make(kit::Rng& r) { return T(r.next()); } };
template<> struct maker<bool> { static bool make(kit::Rng& r) { return r.chance(1, 2); } };
template<> struct maker<float> { static float make(kit::Rng& r) { return float(r.range(-100000, 100000)) / 8; } };
template<> struct maker<double> { static double make(kit::Rng& r) { return double(r.swide(52)) / 1024; } };
template<> struct maker<char const*> { static char const* make(kit::Rng& r) { return words[r.below(4)]; } };
template<> struct maker<int*> { static int* make(kit::Rng& r) { return r.chance(1, 4) ? nullptr : ints + r.below(8); } };
template<> struct maker<void (*)(int)> { static void (*make(kit::Rng& r))(int) { return r.chance(1, 2) ? f0 : f1; } };
template<> struct maker<Inner> { static Inner make(kit::Rng& r) { return { int(r.u32()), double(r.u32()) }; } };
template<> struct maker<One> { static One make(kit::Rng& r) { return { int(r.u32()) }; } };
template<> struct maker<Deep> { static Deep make(kit::Rng& r) { return { maker<Inner>::make(r), char(r.u32()), maker<Inner>::make(r) }; } };
template<> struct maker<std::string> { static std::string make(kit::Rng& r) { return std::string(r.below(40), char('a' + r.below(26))); } };
template<> struct maker<Text> { static Text make(kit::Rng& r) { return { maker<std::string>::make(r), int(r.u32()) }; } };
template<> struct maker<Owner> { static Owner make(kit::Rng& r) { return Owner(int(r.u32())); } };
template<> struct maker<Fixed> { static Fixed make(kit::Rng& r) { return Fixed(int(r.u32()), 0); } };
template<> struct maker<std::vector<int>> { static std::vector<int> make(kit::Rng& r) { return std::vector<int>(r.below(9), int(r.u32())); } };
template<> struct maker<ce::tuple<int, char>> { static ce::tuple<int, char> make(kit::Rng& r) { return { int(r.u32()), char(r.u32()) }; } };
template<> struct maker<ce::vec2<int>> { static ce::vec2<int> make(kit::Rng& r) { return { int(r.u32() >> 1), -int(r.u32() >> 1) }; } };
template<class T> static std::remove_cv_t<T> some(kit::Rng& r) { return maker<std::remove_cv_t<T>>::make(r); }

template<class T> static uint64_t type_hash() { return kit::hash_bytes(__PRETTY_FUNCTION__, strlen(__PRETTY_FUNCTION__)); }
template<size_t N, class T, class Got, class M, class V> static void member(Case& c, Got const& got, M const& held, V const& put, char const* what)
{
    c.ev();
    if (!std::is_same<Got, T>::value) return c.fail("get-type", "get<%zu> is of another type than %s", N, what);
    if (!eq(got, put)) return c.fail("get", "get<%zu> is not %s", N, what);
    if (!eq(held, put)) return c.fail("get-changes", "get changed %s", what);
    c.count("members");
    c.cover("member_type", type_hash<T>());
    c.cover("member_number", N);
}

static int hits;
static int hit() { return ++hits; }
static char const* const text = "text";
static int array[5];
static void* void_star;
struct Count { char const* what; size_t (*run)(); size_t want; };
struct Text_ { char const* what; char const* got; char const* want; };
#define STR(...) STR_(__VA_ARGS__)
#define STR_(...) #__VA_ARGS__
#define NAMED(X) "<" #X ">"
#define MAPPED(...) "" __VA_ARGS__
#include "values.inc"

template<class As, class From> static void reinterpret(Case& c, From v)
{
    As want;
    static_assert(sizeof(As) == sizeof(From), "");
    memcpy(&want, &v, sizeof want);
    As got = ce::as_cast<As, From>{ v }.as;
    c.ev();
    if (memcmp(&got, &want, sizeof got)) c.fail("as_cast", "reading a value as another type gave other bytes");
    c.count("reinterpreted");
}
template<class E> static void enumerated(Case& c, uint64_t v)
{
    using U = std::underlying_type_t<E>;
    auto x = ce::as_cast{ E(U(v)) };
    c.ev();
    if (!std::is_same<decltype(x.as), U>::value) c.fail("as_cast-type", "an enumeration is read as another type than its own");
    if (x.as != U(v)) c.fail("as_cast-enum", "%llx read from an enumeration", (unsigned long long)v);
    if (!std::is_same<ce::underlying_type_t<E>, U>::value) c.fail("underlying", "another underlying type");
}
enum class E16 : uint16_t { };
enum class E64 : int64_t { };
template<class T> static void swapped(Case& c, T a, T b)
{
    T x(a), y(b);
    ce::core::swap(x, y);
    c.ev();
    if (!eq(x, b) || !eq(y, a)) c.fail("swap", "swapping two values lost one");
    ce::core::swap(x, x);
    if (!eq(x, b)) c.fail("swap-self", "swapping a value with itself changed it");
    c.count("swapped");
}
template<class T> static void colour(Case& c)
{
    T r = some<T>(c.rng), g = some<T>(c.rng), b = some<T>(c.rng), a = some<T>(c.rng);
    ce::rgba<T> const p{ r, g, b, a };
    T const (&v)[4] = p;
    T const (&w)[4] = p();
    c.ev();
    if (!eq(v[0], r) || !eq(v[1], g) || !eq(v[2], b) || !eq(v[3], a) || static_cast<void const*>(v) != &p || static_cast<void const*>(w) != &p || sizeof p != 4 * sizeof(T)) c.fail("rgba", "the array of a colour is not r, g, b, a");
    c.count("colours");
}
template<class...Ts> static std::vector<int> folded(Ts...ts)
{
    std::vector<int> o;
    CE_FOLD_LEFT_COMMA(o.push_back(ts));
    return o;
}
template<int...Ns> static void fold(Case& c)
{
    std::vector<int> want{ Ns... };
    c.ev();
    if (folded(Ns...) != want) c.fail("fold", "%zu things were done in another order or number", want.size());
}

char const* without_bindings(uint64_t r); // G02old.cpp

void kit_main(kit::K& k)
{
    size_t n = sizeof members / sizeof *members;
    k.section_exact("members", n * k.pick(60, 300), [&](Case& c)
    {
        int before = live_owners;
        members[c.index % n](c);
        if (live_owners != before) c.fail("get-lifetime", "%d objects left alive after get", live_owners - before);
        c.distinct(c.index);
    });
    k.section_exact("counts", sizeof counts / sizeof *counts, [](Case& c)
    {
        auto& x = counts[c.index];
        hits = 0;
        size_t got = x.run();
        c.ev();
        if (got != x.want) c.fail("count", "%zu counted in %s, not %zu", got, x.what, x.want);
        if (hits) c.fail("evaluated", "counting evaluated %s", x.what);
        c.count("counts");
        c.distinct(kit::hash_bytes(x.what, strlen(x.what)));
        if (c.index % 40 == 7) c.sample("%s counts %zu", x.what, x.want);
    });
    k.section_exact("macros", sizeof texts / sizeof *texts, [](Case& c)
    {
        auto& x = texts[c.index];
        c.ev();
        if (strcmp(x.got, x.want)) c.fail("macro", "CE_PP_%s gives %s, not %s", x.what, kit::quote(std::string(x.got)).c_str(), kit::quote(std::string(x.want)).c_str());
        c.count("macros");
        c.cover("macro_kinds", kit::hash_bytes(x.what, strlen(x.what)));
    });
    k.section("others", 3000 * k.pick(1, 10), [](Case& c)
    {
        auto& r = c.rng;
        reinterpret<uint32_t>(c, some<float>(r)), reinterpret<uint64_t>(c, some<double>(r)), reinterpret<int64_t>(c, r.next()), reinterpret<uint8_t>(c, char(r.u32()));
        { uint32_t v = uint32_t(r.wide(32)); reinterpret<float>(c, v); } // any bits
        reinterpret<uint64_t>(c, some<int*>(r));
        enumerated<E8>(c, r.next()), enumerated<Colour>(c, r.next()), enumerated<E16>(c, r.next()), enumerated<E64>(c, r.next());
        swapped(c, some<int>(r), some<int>(r)), swapped(c, some<std::string>(r), some<std::string>(r)), swapped(c, some<Deep>(r), some<Deep>(r)), swapped(c, some<double>(r), some<double>(r));
        int before = live_owners;
        swapped(c, some<Owner>(r), some<Owner>(r));
        if (live_owners != before) c.fail("swap-lifetime", "%d objects left alive", live_owners - before);
        colour<unsigned char>(c), colour<float>(c), colour<unsigned short>(c), colour<double>(c), colour<E8>(c);
        fold<>(c), fold<4>(c), fold<1, 2, 3>(c), fold<9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 9>(c);
        c.distinct(r.s);
    });
    k.section("without_bindings", 3000 * k.pick(1, 10), [](Case& c)
    {
        char const* wrong = without_bindings(c.rng.next());
        c.ev(12);
        if (wrong) c.fail("without-bindings", "without structured bindings: %s", wrong);
        c.count("without_bindings");
    });
    k.section_exact("kinds", 1, [](Case& c)
    {
        auto is = [&](bool ok, char const* what) { c.ev(); if (!ok) c.fail("kind", "%s", what); };
#define KIND(T, SIZE, SIGNED) is(sizeof(ce::T) == SIZE && std::is_signed<ce::T>::value == SIGNED && std::is_integral<ce::T>::value, #T)
        KIND(int8_t, 1, true); KIND(uint8_t, 1, false); KIND(int16_t, 2, true); KIND(uint16_t, 2, false);
        KIND(int32_t, 4, true); KIND(uint32_t, 4, false); KIND(int64_t, 8, true); KIND(uint64_t, 8, false);
        KIND(size_t, sizeof(void*), false); KIND(ptrdiff_t, sizeof(void*), true);
        is(ce::tuple<>::count == 0 && ce::tuple<int>::count == 1 && ce::tuple<int, char>::count == 2 && ce::tuple<int, int, int>::count == 3 && ce::tuple<int, int, int, int>::count == 4, "tuple::count");
        c.distinct(1);
    });
}
