// A02: atomic operations publish what was written before them, and all threads agree on one order of them.
// The race detector judges the publications (its clocks follow the orders the code asks for, whatever this
// processor does); the second part looks for the outcomes a single order forbids on the processor itself.
#include "kit.h"
#include "team.h"
#include "ce/atomic.h"
#include <type_traits>
using kit::Case;

#ifndef KIT_BIT_OPERATIONS
#define KIT_BIT_OPERATIONS true
#endif

enum class E { no, yes };
static int64_t g_array[8];

template<class T> static T zero() { if constexpr (std::is_pointer<T>::value) return g_array; else return T(0); }
template<class T> static T one() { if constexpr (std::is_pointer<T>::value) return g_array + 1; else return T(1); }

template<class T> static constexpr bool counts = std::is_pointer<T>::value || (std::is_arithmetic<T>::value && !std::is_same<T, bool>::value);
template<class T> static constexpr bool logic = KIT_BIT_OPERATIONS && std::is_integral<T>::value && !std::is_same<T, bool>::value;
enum { WRITERS = 8, READERS = 8 };

// from zero to one; false: the type has no such operation
template<class T> static bool publish(ce::atomic<T>& a, int how)
{
    switch (how)
    {
    case 0: ce::atomic_store(a, one<T>()); return true;
    case 1: ce::atomic_exchange(a, one<T>()); return true;
    case 2: { T e = zero<T>(); return ce::atomic_compare_exchange(a, e, one<T>()); }
    case 3: if constexpr (counts<T>) { ce::atomic_fetch_add(a, 1); return true; } return false;
    case 4: if constexpr (counts<T>) { ce::atomic_fetch_sub(a, -1); return true; } return false;
    case 5: if constexpr (logic<T>) { ce::atomic_fetch_xor(a, T(1)); return true; } return false;
    case 6: if constexpr (logic<T>) { ce::atomic_fetch_or(a, T(1)); return true; } return false;
    case 7: if constexpr (logic<T>) { ce::atomic_fetch_and(a, T(0)); ce::atomic_fetch_add(a, 1); return true; } return false;
    default: return false;
    }
}
// has it become one? observed by each kind of operation, which leave the value as it is
template<class T> static int observed(ce::atomic<T>& a, int how)
{
    switch (how)
    {
    case 0: return ce::atomic_load(a) == one<T>();
    case 1: { T e = one<T>(); return ce::atomic_compare_exchange(a, e, one<T>()); } // success
    case 2: { T e = zero<T>(); return !ce::atomic_compare_exchange(a, e, zero<T>()) && e == one<T>(); } // failure
    case 3: if constexpr (counts<T>) return ce::atomic_fetch_add(a, 0) == one<T>(); return -1;
    case 4: if constexpr (counts<T>) return ce::atomic_fetch_sub(a, 0) == one<T>(); return -1;
    case 5: if constexpr (logic<T>) return ce::atomic_fetch_xor(a, T(0)) == one<T>(); return -1;
    case 6: if constexpr (logic<T>) return ce::atomic_fetch_or(a, T(0)) == one<T>(); return -1;
    case 7: if constexpr (logic<T>) return ce::atomic_fetch_and(a, T(~T(0))) == one<T>(); return -1;
    default: return -1;
    }
}

static kit::Team* g_team[5];
static kit::Team& team(int n) { if (!g_team[n]) g_team[n] = new kit::Team(n); return *g_team[n]; }

struct Payload { int a[4]; int b; };
static Payload g_payload;

// written before: plain memory written by one thread, then an atomic operation; the other observes it and reads the memory
template<class T> static void publication(Case& c, char const* name, uint64_t id)
{
    // in a release sequence another thread's update may come between
    int w = int(c.rng.below(WRITERS)), r = int(c.rng.below(READERS));
    {
        ce::atomic<T> probe{ one<T>() };
        ce::atomic<T> target{ zero<T>() };
        if (!publish(target, w) || observed(probe, r) < 0) return;
        if (!(ce::atomic_load(target) == one<T>()) || observed(probe, r) != 1) return c.fail("value", "%s: writer %d or reader %d", name, w, r);
    }
    auto& tm = team(2);
    struct alignas(64) Place { ce::atomic<T> v; char rest[64]; Place(T x) : v{ x } {} } place{ zero<T>() }, back{ zero<T>() };
    int stamp = int(c.rng.u32() & 0x7fffffff);
    uint64_t d0 = c.rng.below(60), d1 = c.rng.below(60);
    int bad = 0;
    uint64_t polls = 0;
    tm.run([&](int t)
    {
        if (t == 0)
        {
            kit::jitter(d0);
            for (int& x : g_payload.a) x = stamp;
            g_payload.b = ~stamp;
            publish(place.v, w);
            // and back: the reader's writes are visible here in turn
            unsigned s = 0;
            while (observed(back.v, r) != 1) kit::relax(s);
            bad += g_payload.b != stamp + 1;
        }
        else
        {
            kit::jitter(d1);
            unsigned s = 0;
            while (observed(place.v, r) != 1) kit::relax(s), ++polls;
            for (int x : g_payload.a) bad += x != stamp;
            bad += g_payload.b != ~stamp;
            g_payload.b = stamp + 1;
            publish(back.v, w);
        }
    });
    c.ev(2);
    if (bad) return c.fail("stale", "%s: %d stale values behind writer %d and reader %d", name, bad, w, r);
    c.cover("type_writer_reader", (id * WRITERS + uint64_t(w)) * READERS + uint64_t(r));
    if (polls) c.count("waited");
    c.distinct(kit::mix(c.index ^ id << 40));
}

// the outcomes one order of all operations forbids
template<class T> static void one_order(Case& c, char const* name, uint64_t id)
{
    const int rounds = int(c.k.pick(3000, 30000));
    int w = int(c.rng.below(2)), r = 0;
    struct alignas(128) Place { ce::atomic<T> v; char rest[128]; Place(T x) : v{ x } {} } x{ zero<T>() }, y{ zero<T>() };
    struct alignas(128) Go { std::atomic<int> v{ 0 }; } go[2];
    T seen[2] = { zero<T>(), zero<T>() };
    int both = 0, first = 0, second = 0, none = 0;
    auto& tm = team(2);
    // each round both threads raise their flag and look at the other's: at least one must see it
    tm.run([&](int t)
    {
        for (int i = 1; i <= rounds; ++i)
        {
            // meet: a round starts when both are here
            go[t].v.store(2 * i - 1);
            unsigned s = 0;
            while (go[1 - t].v.load() < 2 * i - 1) kit::relax(s);
            if (t == 0)
            {
                if (w) ce::atomic_exchange(x.v, one<T>()); else ce::atomic_store(x.v, one<T>());
                seen[0] = ce::atomic_load(y.v);
            }
            else
            {
                if (w) ce::atomic_exchange(y.v, one<T>()); else ce::atomic_store(y.v, one<T>());
                seen[1] = ce::atomic_load(x.v);
            }
            go[t].v.store(2 * i);
            s = 0;
            while (go[1 - t].v.load() < 2 * i) kit::relax(s);
            if (t == 0)
            {
                bool a = seen[0] == one<T>(), b = seen[1] == one<T>();
                (a && b ? both : a ? first : b ? second : none)++;
                ce::atomic_store(x.v, zero<T>()), ce::atomic_store(y.v, zero<T>());
            }
        }
    });
    (void)r;
    c.ev(uint64_t(rounds));
    c.count("both_saw", uint64_t(both)), c.count("one_saw", uint64_t(first + second));
    c.cover("type_one_order", id * 2 + uint64_t(w));
    c.distinct(kit::mix(c.index * 977 ^ id));
    if (none) return c.fail("two-orders", "%s: in %d of %d rounds both threads missed the other's flag (%s)", name, none, rounds, w ? "exchange" : "store");
}

// two readers agree on the order of two writers' stores; a reader of both never goes back
template<class T> static void agreement(Case& c, char const* name, uint64_t id)
{
    const int rounds = int(c.k.pick(500, 5000));
    struct alignas(128) Place { ce::atomic<T> v; char rest[128]; Place(T x) : v{ x } {} } x{ zero<T>() }, y{ zero<T>() };
    T seen[4] = { zero<T>(), zero<T>(), zero<T>(), zero<T>() };
    std::atomic<int> at{ 0 };
    int bad = 0, differ = 0;
    auto& tm = team(4);
    tm.run([&](int t)
    {
        for (int i = 0; i < rounds; ++i)
        {
            unsigned s = 0;
            at.fetch_add(1);
            while (at.load() < 8 * i + 4) kit::relax(s);
            switch (t)
            {
            case 0: ce::atomic_store(x.v, one<T>()); break;
            case 1: ce::atomic_store(y.v, one<T>()); break;
            case 2: seen[0] = ce::atomic_load(x.v), seen[1] = ce::atomic_load(y.v); break;
            default: seen[2] = ce::atomic_load(y.v), seen[3] = ce::atomic_load(x.v); break;
            }
            at.fetch_add(1);
            s = 0;
            while (at.load() < 8 * i + 8) kit::relax(s);
            if (t == 0)
            {
                bool x0 = seen[0] == one<T>(), y0 = seen[1] == one<T>(), y1 = seen[2] == one<T>(), x1 = seen[3] == one<T>();
                bad += x0 && !y0 && y1 && !x1;
                differ += (x0 && !y0) || (y1 && !x1);
                ce::atomic_store(x.v, zero<T>()), ce::atomic_store(y.v, zero<T>());
            }
        }
    });
    c.ev(uint64_t(rounds));
    c.count("seen_in_between", uint64_t(differ));
    c.distinct(kit::mix(c.index * 1009 ^ id));
    if (bad) c.fail("two-orders", "%s: in %d of %d rounds two readers saw two stores in opposite orders", name, bad, rounds);
}

#define TYPES(F) F(int8_t) F(uint16_t) F(int32_t) F(uint32_t) F(int64_t) F(uint64_t) F(float) F(double) F(bool) F(E) F(int64_t*)

void kit_main(kit::K& k)
{
    enum { N = 11 };
    k.section("publication", 11 * 500 * k.pick(1, 10), [](Case& c)
    {
        uint64_t id = 0;
#define F(T) if (c.index % N == id++) publication<T>(c, #T, id);
        TYPES(F)
#undef F
    });
    k.section("one_order", 66 * k.pick(1, 4), [](Case& c)
    {
        uint64_t id = 0;
#define F(T) if (c.index % N == id++) one_order<T>(c, #T, id);
        TYPES(F)
#undef F
    });
    k.section("agreement", 33 * k.pick(1, 4), [](Case& c)
    {
        uint64_t id = 0;
#define F(T) if (c.index % N == id++) agreement<T>(c, #T, id);
        TYPES(F)
#undef F
    });
    for (auto& t : g_team) { delete t; t = nullptr; }
}
