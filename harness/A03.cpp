// A03: the atomic operations built on MSVC's intrinsics, judged as the others are: every history is explained by an order of whole
// operations, nothing is lost, and all threads see one order.
#include "kit.h"
#include "team.h"
#include <algorithm>
#include <type_traits>
#define CE_USER_ATOMIC_INCLUDE "win/atomic.h"
#define KIT_BIT_OPERATIONS false
#include "ce/atomic.h"

// those clang has on Windows only
extern "C"
{
    long long _InterlockedExchange64(long long volatile* p, long long v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
    long long _InterlockedExchangeAdd64(long long volatile* p, long long v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
}

namespace value_monitor
{
#define kit_main main
#include "A01.cpp"
#undef kit_main
#undef TYPES
}
namespace order_monitor
{
#define kit_main main
#include "A02.cpp"
#undef kit_main
#undef TYPES
}

// sizes no instruction has: guarded by locks shared among places, which must neither mix values nor exclude one another for good
struct Odd3 { uint8_t b[3]; };
struct Odd24 { uint64_t v[3]; Odd24& operator+=(Odd24 const& o) { for (int i = 0; i < 3; ++i) v[i] += o.v[i]; return *this; } Odd24& operator-=(Odd24 const& o) { for (int i = 0; i < 3; ++i) v[i] -= o.v[i]; return *this; } };
static Odd24 operator-(Odd24 a, Odd24 const& b) { return a -= b; }

static void odd_sizes(kit::Case& c)
{
    static kit::Team* teams[5];
    int n = int(c.rng.range(2, 4));
    if (!teams[n]) teams[n] = new kit::Team(n);
    const unsigned per = unsigned(c.k.pick(3000, 15000));
    // many places: some share a lock, some are neighbours
    enum { PLACES = 40 };
    struct Row { ce::atomic<Odd24> big[PLACES]; ce::atomic<Odd3> small[PLACES]; };
    auto row = std::unique_ptr<Row>(new Row);
    for (auto& p : row->big) p.data = Odd24{ { 0, 0, 0 } };
    for (auto& p : row->small) p.data = Odd3{ { 0, 0, 0 } };
    size_t used = size_t(c.rng.range(1, PLACES));
    std::vector<kit::Rng> rngs;
    for (int i = 0; i < n; ++i) rngs.push_back(kit::Rng{ c.rng.next() });
    std::vector<uint64_t> torn(static_cast<size_t>(n), 0);
    std::vector<std::vector<uint64_t>> added(static_cast<size_t>(n), std::vector<uint64_t>(PLACES));
    bool count = c.rng.chance(1, 2);
    teams[n]->run([&](int t)
    {
        auto& g = rngs[size_t(t)];
        auto whole = [&](Odd24 const& v) { if (v.v[1] != v.v[0] * 3 || v.v[2] != v.v[0] * 7) ++torn[size_t(t)]; };
        auto whole3 = [&](Odd3 const& v) { if (v.b[1] != uint8_t(v.b[0] * 3) || v.b[2] != uint8_t(v.b[0] * 7)) ++torn[size_t(t)]; };
        for (unsigned i = 0; i < per; ++i)
        {
            size_t at = g.below(used);
            uint64_t x = g.next() >> 8;
            Odd24 v{ { x, x * 3, x * 7 } };
            Odd3 s{ { uint8_t(x), uint8_t(x * 3), uint8_t(x * 7) } };
            switch (g.below(count ? 3 : 6))
            {
            case 0: whole(ce::atomic_load(row->big[at])); break;
            case 1: whole(ce::atomic_fetch_add(row->big[at], v)); added[size_t(t)][at] += x; break;
            case 2: whole(ce::atomic_fetch_sub(row->big[at], v)); added[size_t(t)][at] -= x; break;
            case 3: ce::atomic_store(row->big[at], v); break;
            case 4: whole(ce::atomic_exchange(row->big[at], v)); break;
            default:
                if (i & 1) ce::atomic_store(row->small[at], s); else whole3(ce::atomic_exchange(row->small[at], s));
                whole3(ce::atomic_load(row->small[at]));
                break;
            }
        }
    });
    c.ev(per * size_t(n));
    for (auto x : torn) if (x) return c.fail("torn", "%llu values were seen half written", (unsigned long long)x);
    if (count)
        for (size_t at = 0; at < used; ++at)
        {
            uint64_t sum = 0;
            for (auto& a : added) sum += a[at];
            if (ce::atomic_load(row->big[at]).v[0] != sum) return c.fail("lost-update", "a 24 byte value is %llu, not %llu", (unsigned long long)row->big[at].data.v[0], (unsigned long long)sum);
        }
    c.count("odd_sizes");
    c.distinct(kit::mix(c.index));
}

void kit_main(kit::K& k)
{
    value_monitor::main(k);
    order_monitor::main(k);
    k.section("odd_sizes", 300 * k.pick(1, 6), odd_sizes);
}
