// G07: a use out of bounds which the library checks for (bits, places and names of dictionaries, lists of more than they hold) is reported by one failed
// assertion before any memory is touched, and no valid use is. The report is left by a jump, so whatever was done before it stays to be seen.
#include "kit.h"
#include <setjmp.h>
#include <new>
#include <memory>
#include <string>
#include <vector>
#include "ce/ce.h"
#include "ce/dictionary.h"
using kit::Case;

static jmp_buf out;
static int volatile reports;
static char const* volatile kind;
static bool on_report(int, int argc, char const* argv[][2])
{
    kind = argc >= 2 && argv[0][0] && argv[0][1] && argv[1][0] && *argv[1][0] ? argv[0][0] : "";
    if (++reports == 1) longjmp(out, 1);
    return false;
}
// how often `f` was reported (it does not return from a report)
template<class F> static int watch(F const& f)
{
    reports = 0, kind = nullptr;
    kit::g_error = on_report;
    if (setjmp(out) == 0) f();
    kit::g_error = nullptr;
    return reports;
}
struct Seen { std::vector<unsigned char> bytes; };
template<class T> static std::vector<unsigned char> copy_of(T const& t) { std::vector<unsigned char> v(sizeof t); memcpy(v.data(), &t, sizeof t); return v; }

// a place below, at and beyond `n`: most often where it just is not one any more
static size_t place(kit::Rng& r, size_t n, size_t room)
{
    switch (r.below(8))
    {
    case 0: return n;
    case 1: return n + 1;
    case 2: return n - 1; // (n is never 0)
    case 3: return n + r.below(room + 1 - n); // in what memory there is, but not in use
    case 4: return size_t(r.wide(64));
    case 5: return n + (size_t(1) << r.range(3, 63)) * size_t(r.range(1, 3)); // as good as some other after losing its high bits
    case 6: return size_t(0) - 1 - r.below(3);
    default: return r.below(n);
    }
}
template<class O> static bool judge(Case& c, char const* what, size_t i, size_t n, bool valid, int got, O const& o, std::vector<unsigned char> const& before, bool constant)
{
    c.ev();
    if (valid && got) return c.fail("reported", "%s %zu of %zu is reported as a failure", what, i, n), false;
    if (!valid && got == 0) return c.fail("silent", "%s %zu of %zu is not reported", what, i, n), false;
    if (!valid && (!kind || !*kind)) return c.fail("unnamed", "%s %zu of %zu is reported without a text", what, i, n), false;
    if ((!valid || constant) && copy_of(o) != before) return c.fail("touched", "%s %zu of %zu has changed it", what, i, n), false;
    c.count(valid ? "valid" : "stopped");
    c.distinct(kit::hash_bytes(what, strlen(what)) ^ kit::mix(i) ^ kit::mix(n * 3));
    return true;
}

template<size_t N> static void bits(Case& c)
{
    struct Guarded { unsigned char a[16]; ce::bitset<N> b; unsigned char z[16]; };
    auto g = std::unique_ptr<Guarded>(new Guarded);
    for (size_t i = 0; i < sizeof *g; ++i) reinterpret_cast<unsigned char*>(g.get())[i] = (unsigned char)(c.rng.next());
    for (int n = 0; n < 40; ++n)
    {
        size_t i = place(c.rng, N, (N + 7) / 8 * 8);
        bool valid = i < N, value = c.rng.chance(1, 2), constant = false;
        auto before = copy_of(*g);
        int got = 0;
        char const* what = "";
        switch (c.rng.below(4))
        {
        case 0: what = "testing bit", constant = true, got = watch([&] { bool volatile v = static_cast<ce::bitset<N> const&>(g->b)[i]; (void)v; }); break;
        case 1: what = "setting bit", got = watch([&] { g->b.set(i); }); break;
        case 2: what = "resetting bit", got = watch([&] { g->b.reset(i); }); break;
        default: what = "writing bit", got = watch([&] { g->b.set(i, value); }); break;
        }
        if (!judge(c, what, i, N, valid, got, *g, before, constant)) return;
        c.cover("bit_kinds", (N % 8 != 0) * 2 + (i / 8 < (N + 7) / 8) + (valid ? 4 : 0));
    }
}

template<class T> static T value(kit::Rng& r) { return T(r.u32()); }
template<int N, class T, class K> static void dictionaries(Case& c, K const* names, size_t count)
{
    using D = ce::dictionary<N, T, K>;
    auto d = std::unique_ptr<D>(new D());
    std::vector<K> bound;
    size_t n = c.rng.below(size_t(N));
    for (size_t j = 0; j < n && j < count; ++j)
    {
        int got = watch([&] { d->bind(names[j], value<T>(c.rng)); });
        c.ev();
        if (got) return c.fail("reported", "binding name %zu of %d is reported as a failure", j, N);
        bound.push_back(names[j]);
    }
    auto const& dc = *d;
    for (int k = 0; k < 30; ++k)
    {
        auto before = copy_of(*d);
        int got = 0;
        T* at = nullptr;
        if (c.rng.chance(1, 2))
        {
            size_t i = c.rng.chance(1, 6) ? 0 : unsigned(place(c.rng, d->size ? d->size : 1, size_t(N) + 1));
            auto p = typename D::ptr_t(unsigned(i));
            bool valid = i != 0 && i < d->size;
            bool con = c.rng.chance(1, 2);
            if (con) got = watch([&] { at = const_cast<T*>(&dc[p]); });
            else got = watch([&] { at = &(*d)[p]; });
            if (!judge(c, con ? "place (constant)" : "place", i, d->size, valid, got, *d, before, true)) return;
            if (valid && at != &d->data[i]) return c.fail("place", "place %zu is elsewhere", i);
            c.cover("place_kinds", valid ? 0 : i == 0 ? 1 : i < size_t(N) ? 2 : 3);
        }
        else
        {
            size_t j = c.rng.below(count);
            bool valid = j < bound.size(), con = c.rng.chance(1, 2);
            if (con) got = watch([&] { at = const_cast<T*>(&dc[names[j]]); });
            else got = watch([&] { at = &(*d)[names[j]]; });
            if (!judge(c, con ? "name (constant)" : "name", j, bound.size(), valid, got, *d, before, true)) return;
            if (valid && at != &d->data[j + 1]) return c.fail("name", "name %zu is elsewhere", j);
            c.count(valid ? "known_names" : "unknown_names");
        }
    }
    c.cover("dictionary_fill", n);
}

template<size_t N, class T> static void lists(Case& c)
{
    using L = ce::bulk<N, T>;
    alignas(L) static unsigned char mem[2][sizeof(L)];
    for (int k = 0; k < 10; ++k)
    {
        for (auto& m : mem) for (auto& b : m) b = (unsigned char)(c.rng.next());
        L* from = new (mem[0]) L;
        size_t n = place(c.rng, N + 1, N + 4);
        bool valid = n <= N;
        for (size_t i = 0; i < N; ++i) from->data[i] = value<T>(c.rng);
        from->size = n;
        auto before = copy_of(mem[0]), to = copy_of(mem[1]);
        L* made = reinterpret_cast<L*>(mem[1]);
        int got;
        char const* what;
        if (c.rng.chance(1, 2)) what = "copying a list of", got = watch([&] { new (mem[1]) L(*from); });
        else
        {
            new (mem[1]) L;
            made->size = c.rng.below(N + 1);
            for (size_t i = 0; i < N; ++i) made->data[i] = value<T>(c.rng);
            to = copy_of(mem[1]);
            what = "assigning a list of", got = watch([&] { *made = *from; });
        }
        if (!judge(c, what, n, N, valid, got, mem[0], before, true)) return;
        if (!valid && copy_of(mem[1]) != to) return c.fail("touched", "%s %zu of %zu has changed the other", what, n, N);
        if (valid && (made->size != n || memcmp(made->data, from->data, n * sizeof(T)))) return c.fail("copied", "%s %zu of %zu gives another", what, n, N);
        if (!valid) c.count("too_long");
    }
}
static char const* const texts[] = { "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v" };
static int const numbers[] = { 5, -1, 7, 100, 1 << 30, -77, 3, 4, 9, 1000, 1001, 1002, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22 }; // (0 is what an unused slot holds)
static ce::uint64_t const longs[] = { 1ull << 40, 2, 3, 1ull << 63, 5, 6, 7, 8, 9, 10, 11, 1ull << 32, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22 };

void kit_main(kit::K& k)
{
    k.section("bits", 6000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.index % 15)
        {
        case 0: bits<1>(c); break;
        case 1: bits<2>(c); break;
        case 2: bits<7>(c); break;
        case 3: bits<8>(c); break;
        case 4: bits<9>(c); break;
        case 5: bits<31>(c); break;
        case 6: bits<32>(c); break;
        case 7: bits<33>(c); break;
        case 8: bits<63>(c); break;
        case 9: bits<64>(c); break;
        case 10: bits<65>(c); break;
        case 11: bits<100>(c); break;
        case 12: bits<256>(c); break;
        case 13: bits<257>(c); break;
        default: bits<5000>(c); break;
        }
    });
    k.section("places", 6000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.index % 9)
        {
        case 0: dictionaries<1, int, char const*>(c, texts, 22); break;
        case 1: dictionaries<2, int, char const*>(c, texts, 22); break;
        case 2: dictionaries<3, double, int>(c, numbers, 22); break;
        case 3: dictionaries<4, char, ce::uint64_t>(c, longs, 22); break;
        case 4: dictionaries<8, int, int>(c, numbers, 22); break;
        case 5: dictionaries<9, short, char const*>(c, texts, 22); break;
        case 6: dictionaries<16, double, int>(c, numbers, 22); break;
        case 7: dictionaries<17, int, ce::uint64_t>(c, longs, 22); break;
        default: dictionaries<20, char, char const*>(c, texts, 22); break;
        }
    });
    k.section("lists", 6000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.index % 7)
        {
        case 0: lists<1, int>(c); break;
        case 1: lists<2, char>(c); break;
        case 2: lists<3, double>(c); break;
        case 3: lists<7, short>(c); break;
        case 4: lists<8, int>(c); break;
        case 5: lists<64, char>(c); break;
        default: lists<100, ce::uint64_t>(c); break;
        }
    });
}
