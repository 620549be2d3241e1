// T03: text composed from any mix of values is the values' texts in order, and the bounded form never exceeds its storage and is terminated.
#include "kit.h"
#include "ce/ce.h"
#include <type_traits>
using kit::Case;

enum Plain : int { p0, p1 = 7, p2 = 255 };
enum class Wide : int64_t { lo = INT64_MIN, m = -1, hi = INT64_MAX };
enum class Small : unsigned char { a = 0, b = 200 };
struct Opaque { int x; };
struct Big { char x[100]; };

// '\1' in an expected text stands for one or more decimal digits (an address)
static bool match(char const* got, size_t n, std::string const& want)
{
    size_t i = 0;
    for (char w : want)
    {
        if (w == '\1')
        {
            if (i >= n || got[i] < '0' || got[i] > '9') return false;
            while (i < n && got[i] >= '0' && got[i] <= '9') ++i;
        }
        else if (i >= n || got[i++] != w) return false;
    }
    return i == n;
}

static std::string text(kit::Rng& r, size_t n)
{
    std::string s;
    while (s.size() < n) s += char(r.chance(1, 8) ? 1 + r.below(255) : 32 + r.below(95));
    for (auto& ch : s) if (ch == '\1' || ch == 0) ch = '?';
    return s;
}
template<class T> static std::string num(T v) { return std::to_string((long long)v); }
template<> std::string num(uint64_t v) { return std::to_string(v); }
template<> std::string num(unsigned long long v) { return std::to_string(v); }
template<class T> static std::string flt(T v) { char b[64]; return std::string(b, ce::to_text(b, v)); }

// Val<T>: a random value, its text composed directly (t) and in the bounded form (s)
template<class T> struct Val
{
    T v;
    std::string t, s;
    Val(kit::Rng& r)
    {
        if constexpr (std::is_same_v<T, bool>) v = r.chance(1, 2), t = v ? "#<T>" : "#<F>";
        else if constexpr (std::is_same_v<T, char>) v = char(2 + r.below(126)), t = std::string(1, v);
        else if constexpr (std::is_floating_point_v<T>) v = r.chance(1, 2) ? T(r.swide(40)) / 1024 : T(r.swide(64)) * T(1e-20), t = flt(v);
        else if constexpr (std::is_enum_v<T>) { typedef std::underlying_type_t<T> U; v = T(U(r.swide(int(8 * sizeof(U))))); t = "#<enum " + num(U(v)) + ">"; }
        else v = T(r.swide(int(8 * sizeof(T)))), t = num(v);
        if (std::is_integral_v<T> && sizeof(T) == 8 && T(-1) > T(0) && r.chance(1, 2)) v = T(r.next()), t = num(v);
        s = t;
    }
};
template<> struct Val<decltype(nullptr)> { decltype(nullptr) v = nullptr; std::string t = "#<nil>", s = t; Val(kit::Rng&) { } };
template<> struct Val<int*>
{
    int* v; std::string t, s; int i = 0;
    Val(kit::Rng& r) { v = r.chance(1, 3) ? nullptr : reinterpret_cast<int*>(r.next() >> 16); t = s = v ? "#<ptr " + num(uint64_t(v)) + ">" : "#<nil>"; }
};
template<> struct Val<void const*>
{
    void const* v; std::string t, s;
    Val(kit::Rng& r) { v = r.chance(1, 3) ? nullptr : reinterpret_cast<void const*>(r.next()); t = s = v ? "#<ptr " + num(uint64_t(v)) + ">" : "#<nil>"; }
};
template<> struct Val<Opaque> { Opaque v{ 3 }; std::string t = "#<ref \1>", s = t; Val(kit::Rng&) { } };
template<> struct Val<Big> { Big v{ }; std::string t = "#<ref \1>", s = t; Val(kit::Rng&) { } };
// strings through pointers: exactly sized copies, so reading past the terminator is caught
template<class P> struct Str
{
    P v; std::string t, s; char* mem;
    Str(kit::Rng& r)
    {
        size_t n = r.chance(1, 6) ? 1015 + r.below(20) : r.chance(1, 8) ? r.below(3000) : r.below(40);
        if (r.chance(1, 8)) { mem = nullptr; v = nullptr; t = s = "#<nil>"; return; }
        t = text(r, n);
        s = t.substr(0, 1024);
        mem = static_cast<char*>(malloc(n + 1));
        memcpy(mem, t.c_str(), n + 1);
        v = mem;
    }
    ~Str() { free(mem); }
    Str(Str const&) = delete;
};
template<> struct Val<char const*> : Str<char const*> { using Str::Str; };
template<> struct Val<char*> : Str<char*> { using Str::Str; };
// character arrays, terminated or full
template<size_t N> struct Val<char[N]>
{
    char* mem;
    char (&v)[N];
    std::string t, s;
    Val(kit::Rng& r) : mem(static_cast<char*>(malloc(N))), v(*reinterpret_cast<char(*)[N]>(mem))
    {
        size_t n = r.chance(1, 3) ? N : r.below(N);
        std::string x = text(r, N);
        memcpy(v, x.data(), N);
        if (n < N) v[n] = 0;
        t = s = x.substr(0, n);
    }
    ~Val() { free(mem); }
    Val(Val const&) = delete;
};
template<> struct Val<int[3]>
{
    int v[3]; std::string t, s = "#<ptr \1>";
    Val(kit::Rng& r) { for (int& x : v) x = int(r.swide(32)); t = "[" + num(v[0]) + ", " + num(v[1]) + ", " + num(v[2]) + "]"; }
};
template<> struct Val<ce::vec2<int>> { ce::vec2<int> v; std::string t, s; Val(kit::Rng& r) { v = { int(r.swide(32)), int(r.swide(32)) }; t = s = "[" + num(v.x) + ", " + num(v.y) + "]"; } };
template<> struct Val<ce::vec3<float>> { ce::vec3<float> v; std::string t, s; Val(kit::Rng& r) { v = { float(r.swide(20)) / 8, float(r.swide(20)) / 8, 1e-20f }; t = s = "[" + flt(v.x) + ", " + flt(v.y) + ", " + flt(v.z) + "]"; } };
template<> struct Val<ce::vec4<unsigned char>> { ce::vec4<unsigned char> v; std::string t, s; Val(kit::Rng& r) { for (auto* p : { &v.x, &v.y, &v.z, &v.w }) *p = static_cast<unsigned char>(r.next()); t = s = "[" + num(v.x) + ", " + num(v.y) + ", " + num(v.z) + ", " + num(v.w) + "]"; } };

static void report(Case& c, char const* form, char const* got, size_t n, std::string const& want)
{
    c.ev();
    if (!match(got, n, want)) c.fail(form, "%s: %s, not %s", form, kit::quote(got, n).c_str(), kit::quote(want).c_str());
    c.cover("length_bucket", n / 16);
}

static void finish(Case& c, char* mem, char* end, size_t room, std::string const& want)
{
    if (end < mem || end > mem + room) c.fail("end", "composed text ends outside its buffer");
    else report(c, "composed", mem, size_t(end - mem), want);
    free(mem);
    c.distinct(kit::hash_bytes(want.data(), want.size()));
}
static std::string joined(std::initializer_list<std::string const*> l) { std::string r; for (auto s : l) r += *s; return r; }

template<class...Ts> static void composed(Case& c, Val<Ts>&...vs)
{
    std::string want = joined({ &vs.t... });
    size_t room = want.size() + 64 * sizeof...(Ts) + 64;
    auto mem = static_cast<char*>(malloc(room));
    memset(mem, 0x5a, room);
    char* end = ce::to_text(mem, vs.v...);
    finish(c, mem, end, room, want);
}

static void stored_n(Case& c, char const* as, size_t cap, std::string const& want);
template<class S> static void stored(Case& c, S const& s, std::string const& want) { stored_n(c, s.as, sizeof s.as, want); }
static void stored_n(Case& c, char const* as, size_t cap, std::string const& want)
{
    size_t n = 0;
    while (n < cap && as[n]) ++n;
    if (n == cap) c.fail("not-terminated", "text in %zu bytes of storage is not terminated: %s", cap, kit::quote(as, cap).c_str());
    else report(c, "bounded", as, n, want);
    if (n + 1 == cap) c.count("storage_filled");
    if (want.size() > 1000) c.count("long_bounded");
}

template<class...Ts> static void bounded(Case& c, Val<Ts>&...vs)
{
    std::string want = joined({ &vs.s... });
    typedef decltype(ce::as_string{ vs.v... }) S;
    // on the heap, alone: anything past its end is caught
    auto mem = static_cast<char*>(malloc(sizeof(S)));
    memset(mem, 0x5a, sizeof(S));
    auto s = ::new (static_cast<void*>(mem)) S{ vs.v... };
    if constexpr (sizeof...(Ts) == 1 && (std::is_same_v<Ts, char const*> && ...))
    {
        // a single string is passed through as it is
        c.ev();
        if (((static_cast<char const*>(s->as) != vs.v) || ...)) c.fail("single-string", "a single string is not passed through");
    }
    else
        stored(c, *s, want);
    free(mem);
}

template<class A> static void single(Case& c) { Val<A> a(c.rng); composed<A>(c, a); bounded<A>(c, a); c.count("singles"); }
template<class A, class B> static void pair(Case& c) { Val<A> a(c.rng); Val<B> b(c.rng); composed<A, B>(c, a, b); bounded<A, B>(c, a, b); c.count("pairs"); }
template<class A, class B, class D> static void triple(Case& c) { Val<A> a(c.rng); Val<B> b(c.rng); Val<D> d(c.rng); composed<A, B, D>(c, a, b, d); bounded<A, B, D>(c, a, b, d); c.count("triples"); }

template<class...> struct List { };
typedef List<int8_t, uint8_t, int16_t, uint16_t, int, unsigned, long, unsigned long, long long, unsigned long long, char, bool, float, double, Plain, Wide, Small,
    decltype(nullptr), int*, void const*, Opaque, Big, char const*, char*, char[1], char[8], char[200], int[3], ce::vec2<int>, ce::vec3<float>, ce::vec4<unsigned char>> All;
typedef List<int8_t, unsigned, long long, char, bool, double, Wide, decltype(nullptr), int*, Opaque, char const*, char*, char[8], char[200], int[3], ce::vec2<int>> Some;
typedef List<int8_t, unsigned long, char, char const*, char[8], ce::vec2<int>> Few;

typedef void (*Fn)(Case&);
static std::vector<Fn> g_single, g_pair, g_triple;
template<class...Ts> static void add_single(List<Ts...>) { (g_single.push_back(single<Ts>), ...); }
template<class A, class...Ts> static void add_pair1(List<Ts...>) { (g_pair.push_back(pair<A, Ts>), ...); }
template<class...Ts> static void add_pair(List<Ts...> l) { (add_pair1<Ts>(l), ...); }
template<class A, class B, class...Ts> static void add_triple2(List<Ts...>) { (g_triple.push_back(triple<A, B, Ts>), ...); }
template<class A, class...Ts> static void add_triple1(List<Ts...> l) { (add_triple2<A, Ts>(l), ...); }
template<class...Ts> static void add_triple(List<Ts...> l) { (add_triple1<Ts>(l), ...); }

void kit_main(kit::K& k)
{
    add_single(All());
    add_pair(Some());
    add_triple(Few());
    k.section("singles", g_single.size() * 1000 * k.pick(1, 10), [](Case& c) { g_single[c.index % g_single.size()](c); c.cover("types", c.index % g_single.size()); });
    k.section("pairs", g_pair.size() * 100 * k.pick(1, 10), [](Case& c) { g_pair[c.index % g_pair.size()](c); c.cover("type_pairs", c.index % g_pair.size()); });
    k.section("triples", g_triple.size() * 80 * k.pick(1, 10), [](Case& c) { g_triple[c.index % g_triple.size()](c); c.cover("type_triples", c.index % g_triple.size()); });
    // long argument lists and literals
    k.section("many", 5000 * k.pick(1, 10), [](Case& c)
    {
        Val<int> a(c.rng); Val<char const*> b(c.rng); Val<char[8]> d(c.rng); Val<long long> e(c.rng); Val<bool> f(c.rng);
        std::string want = "x = " + a.s + ", " + b.s + d.s + "!" + e.s + f.s + "" + a.s;
        auto s = ce::as_string{ "x = ", a.v, ", ", b.v, d.v, '!', e.v, f.v, "", a.v };
        stored(c, s, want);
        auto l = ce::as_string{ "a single literal" };
        if (strcmp(l.as, "a single literal") != 0) c.fail("literal", "a single literal");
        c.distinct(kit::hash_bytes(want.data(), want.size()));
        c.sample("%s", kit::quote(want).c_str());
    });
}
