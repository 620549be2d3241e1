// A01: every history of concurrent operations on one atomic value is explained by some order of whole operations; nothing is lost.
#include "kit.h"
#include "team.h"
#include "ce/atomic.h"
#include <algorithm>
#include <type_traits>
using kit::Case;

#ifndef KIT_BIT_OPERATIONS
#define KIT_BIT_OPERATIONS true // the implementation has xor, and, or
#endif

enum Kind { LOAD, STORE, EXCHANGE, CAS, ADD, SUB, XOR, AND, OR, KINDS };

enum class E8 : uint8_t {};
enum class E32 : int32_t {};
enum class E64 : uint64_t {};
struct alignas(8) Two { int32_t a, b; };
static bool operator==(Two x, Two y) { return x.a == y.a && x.b == y.b; }

// values as 64 bit patterns
template<class T> static uint64_t bits(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof v); return r; }
template<class T> static T from(uint64_t b) { T v; memcpy(&v, &b, sizeof v); return v; }

template<class T> struct Traits
{
    static constexpr bool number = std::is_arithmetic<T>::value, real = std::is_floating_point<T>::value, ptr = std::is_pointer<T>::value;
    static constexpr bool logic = std::is_integral<T>::value && !std::is_same<T, bool>::value;
};
template<class T> static bool has(int k)
{
    if (k <= CAS) return true;
    if (k <= SUB) return (Traits<T>::number && !std::is_same<T, bool>::value) || Traits<T>::ptr;
    return KIT_BIT_OPERATIONS && Traits<T>::logic;
}

struct Op { int kind; uint64_t a, b; uint64_t got; bool ok; uint64_t t0, t1; };

static int64_t g_array[64];

// what the operation does to `v` (a pattern) and must return
template<class T> static void model(Op const& o, uint64_t& v, uint64_t& got, bool& ok)
{
    got = v, ok = true;
    switch (o.kind)
    {
    case LOAD: return;
    case STORE: v = o.a, got = 0; return;
    case EXCHANGE: v = o.a; return;
    case CAS: ok = v == o.b; got = v; if (ok) v = o.a; return;
    default: break;
    }
    if constexpr (Traits<T>::real)
    {
        T x = from<T>(v), y = from<T>(o.a);
        v = bits<T>(T(o.kind == ADD ? x + y : x - y));
    }
    else if constexpr (Traits<T>::ptr)
        v = o.kind == ADD ? v + o.a * sizeof(int64_t) : v - o.a * sizeof(int64_t);
    else if constexpr (Traits<T>::logic)
    {
        typedef typename std::make_unsigned<T>::type U;
        U x = U(v), y = U(o.a);
        switch (o.kind)
        {
        case ADD: v = U(x + y); break;
        case SUB: v = U(x - y); break;
        case XOR: v = U(x ^ y); break;
        case AND: v = U(x & y); break;
        default: v = U(x | y); break;
        }
    }
}

template<class T> static void perform(ce::atomic<T>& a, Op& o)
{
    o.ok = true, o.got = 0;
    switch (o.kind)
    {
    case LOAD: o.got = bits<T>(ce::atomic_load(a)); return;
    case STORE: ce::atomic_store(a, from<T>(o.a)); return;
    case EXCHANGE: o.got = bits<T>(ce::atomic_exchange(a, from<T>(o.a))); return;
    case CAS: { T e = from<T>(o.b); o.ok = ce::atomic_compare_exchange(a, e, from<T>(o.a)); o.got = bits<T>(e); return; }
    default: break;
    }
    if constexpr (Traits<T>::ptr)
    {
        if (o.kind == ADD) o.got = bits<T>(ce::atomic_fetch_add(a, ptrdiff_t(o.a)));
        else o.got = bits<T>(ce::atomic_fetch_sub(a, ptrdiff_t(o.a)));
    }
    else if constexpr (Traits<T>::number && !std::is_same<T, bool>::value)
    {
        if (o.kind == ADD) { o.got = bits<T>(ce::atomic_fetch_add(a, from<T>(o.a))); return; }
        if (o.kind == SUB) { o.got = bits<T>(ce::atomic_fetch_sub(a, from<T>(o.a))); return; }
        if constexpr (KIT_BIT_OPERATIONS && Traits<T>::logic)
        {
            if (o.kind == XOR) o.got = bits<T>(ce::atomic_fetch_xor(a, from<T>(o.a)));
            else if (o.kind == AND) o.got = bits<T>(ce::atomic_fetch_and(a, from<T>(o.a)));
            else o.got = bits<T>(ce::atomic_fetch_or(a, from<T>(o.a)));
        }
    }
}

template<class T> static uint64_t value(kit::Rng& g, bool few)
{
    if constexpr (std::is_same<T, bool>::value) return g.below(2);
    else if constexpr (Traits<T>::ptr) return uint64_t(uintptr_t(g_array + 20 + g.below(few ? 3 : 20)));
    else if constexpr (Traits<T>::real)
        return few ? bits<T>(T(int(g.below(3)))) : bits<T>(T(g.swide(24)) / T(1 << g.below(20)));
    else return few ? bits<T>(from<T>(g.below(3))) : bits<T>(from<T>(g.wide(sizeof(T) * 8)));
}
template<class T> static Op draw(kit::Rng& g, bool few, int mix)
{
    Op o{};
    do o.kind = mix == 0 ? int(g.below(KINDS)) : mix == 1 ? (g.chance(1, 2) ? int(CAS) : int(g.below(4))) : int(ADD + g.below(5));
    while (!has<T>(o.kind) && (mix != 2 || (mix = 0, true)));
    o.a = value<T>(g, few), o.b = value<T>(g, few);
    if (Traits<T>::ptr && o.kind >= ADD) o.a = g.below(few ? 2 : 4);
    return o;
}
template<class T> static std::string show(Op const& o)
{
    static char const* const names[] = { "load", "store", "exchange", "compare_exchange", "add", "sub", "xor", "and", "or" };
    std::string s = kit::fmt("%s", names[o.kind]);
    if (o.kind == CAS) s += kit::fmt("(%llx -> %llx)", (unsigned long long)o.b, (unsigned long long)o.a);
    else if (o.kind != LOAD) s += kit::fmt("(%llx)", (unsigned long long)o.a);
    if (o.kind == CAS) s += o.ok ? " ok" : " failed";
    if (o.kind != STORE) s += kit::fmt(" = %llx", (unsigned long long)o.got);
    return s;
}

// is there an order of the operations, each thread's kept (and those which did not overlap), which explains all results and the last value?
template<class T> struct Explain
{
    std::vector<std::vector<Op>> const& h;
    uint64_t last;
    bool timed;
    std::set<std::pair<uint64_t, uint64_t>> dead;
    uint64_t states = 0;

    bool go(std::vector<unsigned>& at, uint64_t v)
    {
        ++states;
        uint64_t key = 0;
        bool end = true;
        uint64_t first_return = ~0ull;
        for (size_t t = 0; t < h.size(); ++t)
        {
            key = key * 64 + at[t];
            if (at[t] < h[t].size()) end = false, first_return = std::min(first_return, h[t][at[t]].t1);
        }
        if (end) return v == last;
        if (dead.count({ key, v })) return false;
        for (size_t t = 0; t < h.size(); ++t)
        {
            if (at[t] >= h[t].size()) continue;
            Op const& o = h[t][at[t]];
            if (timed && o.t0 > first_return) continue;
            uint64_t w = v, got;
            bool ok;
            model<T>(o, w, got, ok);
            if (ok != o.ok || (o.kind != STORE && got != o.got)) continue;
            ++at[t];
            bool yes = go(at, w);
            --at[t];
            if (yes) return true;
        }
        dead.insert({ key, v });
        return false;
    }
};

static kit::Team* g_team[5];
static kit::Team& team(int n) { if (!g_team[n]) g_team[n] = new kit::Team(n); return *g_team[n]; }

template<class T> static void histories(Case& c, char const* name, uint64_t id)
{
    int n = int(c.rng.range(2, 4));
    auto& tm = team(n);
    for (int round = 0; round < 8; ++round)
    {
        bool few = c.rng.chance(2, 3), timed = c.rng.chance(1, 2);
        int mix = int(c.rng.below(3));
        std::vector<std::vector<Op>> h(static_cast<size_t>(n));
        size_t per = size_t(c.rng.range(2, 8));
        for (auto& v : h) for (size_t i = 0; i < per; ++i) v.push_back(draw<T>(c.rng, few, mix));
        uint64_t start = value<T>(c.rng, few);
        struct alignas(64) { std::atomic<uint64_t> v{ 1 }; } clock;
        struct alignas(64) Place { ce::atomic<T> v; char rest[64]; Place(T x) : v{ x } {} } place{ from<T>(start) };
        uint64_t wait[4];
        for (auto& w : wait) w = c.rng.below(40);
        tm.run([&](int t)
        {
            kit::jitter(wait[t]);
            auto& mine = h[size_t(t)];
            if (timed)
                for (auto& o : mine) o.t0 = clock.v.fetch_add(1), perform(place.v, o), o.t1 = clock.v.fetch_add(1);
            else
                for (auto& o : mine) perform(place.v, o);
        });
        uint64_t last = bits<T>(ce::atomic_load(place.v));
        if (bits<T>(place.v.data) != last) return c.fail("data", "%s: the data member differs from the value", name);
        // what overlapped
        bool mixed = false;
        if (timed)
            for (auto& a : h) for (auto& b : h) if (&a != &b) mixed |= a.front().t0 < b.back().t1 && b.front().t0 < a.back().t1;
        Explain<T> x{ h, last, timed, {}, 0 };
        std::vector<unsigned> at(static_cast<size_t>(n));
        c.ev(per * size_t(n));
        bool ok = x.go(at, start);
        c.count("histories");
        c.count("states_searched", x.states);
        if (mixed) c.count("overlapping");
        uint64_t hash = kit::mix(id * 64 + size_t(n));
        for (auto& v : h) for (auto& o : v) hash = kit::mix(hash ^ o.got ^ uint64_t(o.kind) << 56 ^ uint64_t(o.ok) << 60), c.cover("type_kind_result", (id * KINDS + uint64_t(o.kind)) * 2 + o.ok);
        c.distinct(hash);
        if (!ok)
        {
            std::string s;
            for (auto& v : h) { s += " |"; for (auto& o : v) s += " " + show<T>(o) + (timed ? kit::fmt(" @%llu-%llu;", (unsigned long long)o.t0, (unsigned long long)o.t1) : std::string(";")); }
            return c.fail("not-linearizable", "%s from %llx to %llx:%s", name, (unsigned long long)start, (unsigned long long)last, s.substr(0, 1200).c_str());
        }
    }
}

template<class T> static void alone(Case& c, char const* name, uint64_t id)
{
    uint64_t v = value<T>(c.rng, false);
    ce::atomic<T> a{ from<T>(v) };
    for (int i = 0; i < 40; ++i)
    {
        Op o = draw<T>(c.rng, c.rng.chance(1, 4), 0);
        if (o.kind == CAS && c.rng.chance(1, 2)) o.b = v;
        if (Traits<T>::ptr && o.kind >= ADD && (int64_t(v) < int64_t(uintptr_t(g_array + 6)) || int64_t(v) > int64_t(uintptr_t(g_array + 58)))) continue;
        uint64_t got, was = v;
        bool ok;
        model<T>(o, v, got, ok);
        perform(a, o);
        c.ev();
        if (o.ok != ok || (o.kind != STORE && o.got != got) || bits<T>(ce::atomic_load(a)) != v)
            return c.fail("alone", "%s: %s on %llx leaves %llx, not %llx", name, show<T>(o).c_str(), (unsigned long long)was, (unsigned long long)bits<T>(ce::atomic_load(a)), (unsigned long long)v);
        c.distinct(kit::mix(id ^ kit::mix(was ^ kit::mix(o.a ^ uint64_t(o.kind) << 60))));
    }
}

// nothing is lost: long runs of one kind of update from several threads
template<class T> static void totals(Case& c, char const* name, uint64_t id)
{
    int n = int(c.rng.range(2, 4));
    auto& tm = team(n);
    const unsigned per = unsigned(c.k.pick(4000, 20000));
    struct alignas(64) Place { ce::atomic<T> v; char rest[64]; Place(T x) : v{ x } {} };
    std::vector<std::vector<uint64_t>> got(static_cast<size_t>(n), std::vector<uint64_t>(per));
    c.cover("type_totals", id);
    auto all = [&]
    {
        std::vector<uint64_t> r;
        for (auto& g : got) r.insert(r.end(), g.begin(), g.end());
        std::sort(r.begin(), r.end());
        return r;
    };
    if constexpr (Traits<T>::number && !std::is_same<T, bool>::value)
    {
        bool sub = c.rng.chance(1, 2);
        // wraps or counts: the values seen must be each count's exactly once (8 bit: equally often)
        Place p{ T(0) };
        tm.run([&](int t) { for (unsigned i = 0; i < per; ++i) got[size_t(t)][i] = bits<T>(sub ? ce::atomic_fetch_sub(p.v, T(1)) : ce::atomic_fetch_add(p.v, T(1))); });
        c.ev(per * size_t(n));
        auto seen = all();
        std::vector<uint64_t> want;
        if constexpr (Traits<T>::real)
            for (size_t i = 0; i < per * size_t(n); ++i) want.push_back(bits<T>(sub ? T(0) - T(i) : T(i)));
        else
            for (size_t i = 0; i < per * size_t(n); ++i) want.push_back(bits<T>(T(sub ? 0 - i : i)));
        std::sort(want.begin(), want.end());
        if constexpr (Traits<T>::real) if (sub) for (auto& w : want) if (from<T>(w) == 0) w = bits<T>(T(0));
        std::sort(want.begin(), want.end());
        if (seen != want) return c.fail("lost-update", "%s: %u %s by each of %d threads: the values seen are not each count once", name, per, sub ? "subtractions" : "additions", n);
        c.count("counted", want.size());
    }
    if constexpr (KIT_BIT_OPERATIONS && Traits<T>::logic)
    {
        // each bit flipped by one thread, in and out
        typedef typename std::make_unsigned<T>::type U;
        const int w = int(sizeof(T) * 8);
        Place p{ T(0) };
        std::vector<int> bad(static_cast<size_t>(n));
        tm.run([&](int t)
        {
            for (unsigned i = 0; i < per; ++i)
            {
                U bit = U(U(1) << (int(i) * n + t) % w);
                // bits are shared out by remainder: thread t has those with index % n == t
                int idx = (int(i) * n + t) % w;
                if (idx % n != t) continue;
                U r;
                switch (i / unsigned(w) % 3)
                {
                case 0: r = U(ce::atomic_fetch_or(p.v, T(bit))); bad[size_t(t)] += (r & bit) != 0; r = U(ce::atomic_load(p.v)); bad[size_t(t)] += (r & bit) == 0; r = U(ce::atomic_fetch_and(p.v, T(~bit))); bad[size_t(t)] += (r & bit) == 0; break;
                case 1: r = U(ce::atomic_fetch_xor(p.v, T(bit))); bad[size_t(t)] += (r & bit) != 0; r = U(ce::atomic_fetch_xor(p.v, T(bit))); bad[size_t(t)] += (r & bit) == 0; break;
                default: r = U(ce::atomic_fetch_or(p.v, T(bit))); bad[size_t(t)] += (r & bit) != 0; r = U(ce::atomic_fetch_xor(p.v, T(bit))); bad[size_t(t)] += (r & bit) == 0; break;
                }
            }
        });
        c.ev(per);
        for (int t = 0; t < n; ++t) if (bad[size_t(t)]) return c.fail("lost-bit", "%s: thread %d of %d saw its own bit changed %d times", name, t, n, bad[size_t(t)]);
        if (ce::atomic_load(p.v) != T(0)) return c.fail("lost-bit", "%s: %llx left", name, (unsigned long long)bits<T>(ce::atomic_load(p.v)));
        c.count("bits");
    }
    // tokens: what goes in by exchange and compare-exchange comes out once
    if constexpr (sizeof(T) >= 4 && !Traits<T>::real)
    {
        Place p{ from<T>(0xffffff) };
        std::vector<uint64_t> tries(static_cast<size_t>(n));
        bool cas = c.rng.chance(1, 2);
        tm.run([&](int t)
        {
            for (unsigned i = 0; i < per; ++i)
            {
                T mine = from<T>(uint64_t(t) << 20 | i);
                if (!cas) { got[size_t(t)][i] = bits<T>(ce::atomic_exchange(p.v, mine)); continue; }
                T e = ce::atomic_load(p.v);
                while (!ce::atomic_compare_exchange(p.v, e, mine)) ++tries[size_t(t)];
                got[size_t(t)][i] = bits<T>(e);
            }
        });
        c.ev(per * size_t(n));
        auto seen = all();
        seen.push_back(bits<T>(ce::atomic_load(p.v)));
        std::vector<uint64_t> want{ 0xffffff };
        for (int t = 0; t < n; ++t) for (unsigned i = 0; i < per; ++i) want.push_back(uint64_t(t) << 20 | i);
        std::sort(seen.begin(), seen.end()), std::sort(want.begin(), want.end());
        if (seen != want) return c.fail("lost-token", "%s: %u %s by each of %d threads do not hand each value on once", name, per, cas ? "compare-exchanges" : "exchanges", n);
        for (auto x : tries) c.count("contended", x);
    }
    c.distinct(kit::mix(id ^ c.index << 8));
}

#define TYPES(F) F(int8_t) F(uint8_t) F(int16_t) F(uint16_t) F(int32_t) F(uint32_t) F(int64_t) F(uint64_t) F(float) F(double) F(bool) F(E8) F(E32) F(E64) F(Two) F(int64_t*) F(char16_t)

void kit_main(kit::K& k)
{
    enum { N = 17 };
    k.section("alone", 1700 * k.pick(1, 20), [](Case& c)
    {
        uint64_t id = 0;
#define F(T) if (c.index % N == id++) alone<T>(c, #T, id);
        TYPES(F)
#undef F
    });
    k.section("histories", 8500 * k.pick(1, 12), [](Case& c)
    {
        uint64_t id = 0;
#define F(T) if (c.index % N == id++) histories<T>(c, #T, id);
        TYPES(F)
#undef F
    });
    k.section("totals", 340 * k.pick(1, 6), [](Case& c)
    {
        uint64_t id = 0;
#define F(T) if (c.index % N == id++) totals<T>(c, #T, id);
        TYPES(F)
#undef F
    });
    for (auto& t : g_team) { delete t; t = nullptr; }
}
