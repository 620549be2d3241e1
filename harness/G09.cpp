// G09: the work an operation takes grows no faster than its kind needs. Work is counted by the compiler's coverage callback (once for
// every basic block executed) and by the bytes the memory functions move.
#include "kit.h"
#include <algorithm>
#include <cmath>
#include <string>
#include "ce/ce.h"
#include "ce/cdt.h"
#include "ce/clock.h"
#include "ce/dictionary.h"
#include "ce/lziii.h"
#include "ce/math.h"
#include "ce/mutex.h"
#include "ce/nameof.h"
#include "ce/pool.h"
#include "ce/sort.h"
#include "ce/zorder.h"
using kit::Case;

#if defined(__clang__)
#define UNWATCHED __attribute__((no_sanitize("coverage")))
#define UNCALLED __attribute__((no_sanitize("coverage"), no_builtin))
#else
#define UNWATCHED __attribute__((no_sanitize_coverage))
#define UNCALLED __attribute__((no_sanitize_coverage, optimize("no-tree-loop-distribute-patterns")))
#endif

static uint64_t g_work;
extern "C"
{
    UNWATCHED void __sanitizer_cov_trace_pc() { ++g_work; }
    UNCALLED void* memcpy(void* d, void const* s, size_t n) noexcept { g_work += 1 + n / 16; void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
    UNCALLED void* memset(void* d, int v, size_t n) noexcept { g_work += 1 + n / 16; void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
    UNCALLED void* memmove(void* d, void const* s, size_t n) noexcept
    {
        g_work += 1 + n / 16;
        auto p = static_cast<char*>(d);
        auto q = static_cast<char const*>(s);
        if (p <= q || p >= q + n) { void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
        for (size_t i = n; i > 0; --i) { p[i - 1] = q[i - 1]; __asm__ volatile("" ::: "memory"); }
        return d;
    }
    UNCALLED size_t strlen(char const* s) noexcept { size_t n = 0; while (s[n]) { ++n; __asm__ volatile("" ::: "memory"); } g_work += 1 + n / 16; return n; }
}

static bool const g_show = getenv("G09_SHOW") != nullptr;
struct Meter
{
    Case& c;
    uint64_t before = 0, most = 0, total = 0, times = 0;
    Meter(Case& c) : c(c) { }
    template<class F> uint64_t operator()(F const& f)
    {
        before = g_work;
        f();
        uint64_t w = g_work - before;
        most = w > most ? w : most, total += w, ++times;
        return w;
    }
    void judge(char const* kind, char const* per, size_t n, double work, double bound)
    {
        c.ev();
        c.count("measured", times);
        c.cover("kinds", kit::hash_bytes(kind, strlen(kind)));
        c.cover("sizes", n ? 64 - __builtin_clzll(n) : 0);
        if (g_show) fprintf(stderr, "%s\t%s\t%zu\t%.0f\t%.3f\n", kind, per, n, work, work / bound);
        if (!times || !total) c.fail("unmeasured", "%s: nothing was measured", kind); // the monitor itself
        if (work > bound) c.fail("work", "%s of %zu: %.0f blocks of code %s, where %.0f are plenty", kind, n, work, per, bound);
        c.distinct(kit::hash_bytes(kind, strlen(kind), n) ^ uint64_t(work));
    }
    // the worst of the calls, all of them, and what one takes on average
    void worst(char const* kind, size_t n, double bound) { judge(kind, "at worst", n, double(most), bound), reset(); }
    void all(char const* kind, size_t n, double bound) { judge(kind, "in all", n, double(total), bound), reset(); }
    void mean(char const* kind, size_t n, double bound) { judge(kind, "on average", n, double(total) / double(times), bound), reset(); }
    void reset() { most = total = times = 0; }
};
static double lg(size_t n) { return std::log2(double(n) + 2); }
static size_t some(Case& c, unsigned bits) { return (size_t(1) << (bits - 1)) + c.rng.below(size_t(1) << (bits - 1)); }
static size_t scaled(Case& c, unsigned lo, unsigned hi) { return some(c, unsigned(c.rng.range(lo, hi))); }

struct Elem { uint32_t key; uint32_t with; bool operator<(Elem const& o) const { return key < o.key; } };
static uint32_t shaped(Case& c, unsigned shape, size_t i, size_t n)
{
    switch (shape)
    {
    case 0: return uint32_t(i);
    case 1: return uint32_t(n - i);
    case 2: return 7;
    case 3: return uint32_t(i < n / 2 ? i : n - i);
    case 4: return uint32_t(i * 7919 % 11);
    case 5: return uint32_t(i % 2 ? i : n - i);
    default: return uint32_t(c.rng.next());
    }
}

static void sorting(Case& c)
{
    Meter m(c);
    size_t n = scaled(c, 4, 16);
    unsigned shape = unsigned(c.rng.below(8));
    std::vector<Elem> w(n), v;
    for (size_t i = 0; i < n; ++i) w[i] = { shaped(c, shape, i, n), uint32_t(i) };
    v = w, m([&] { ce::heap_sort(v.data(), v.data() + n); }), m.all("heap_sort", n, 200 + 40. * double(n) * lg(n));
    v = w, m([&] { ce::intro_sort(v.data(), v.data() + n); }), m.all("intro_sort", n, 200 + 70. * double(n) * lg(n) + 700. * double(n));
    v = w, m([&] { ce::intro_sort<4>(v.data(), v.data() + n); }), m.all("intro_sort", n, 200 + 70. * double(n) * lg(n));
    // sorted but for a few neighbours
    size_t swaps = c.rng.below(n / 16 + 1);
    for (size_t i = 0; i < swaps; ++i) { size_t j = c.rng.below(n - 1); std::swap(v[j], v[j + 1]); }
    uint64_t inversions = 0;
    auto x = v;
    for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && x[j].key < x[j - 1].key; --j) std::swap(x[j], x[j - 1]), ++inversions;
    m([&] { ce::insertion_sort(v.data(), v.data() + n); }), m.all("insertion_sort", n, 200 + 30. * double(n + inversions));
    // searches
    size_t many = scaled(c, 1, 20);
    std::vector<uint64_t> z(many);
    for (auto& e : z) e = c.rng.next() >> c.rng.below(40);
    std::sort(z.begin(), z.end());
    uint64_t const *a = z.data(), *b = a + many;
    auto key = [&](int i) -> uint64_t { return i % 3 == 0 ? c.rng.next() : i % 3 == 1 ? z[c.rng.below(many)] : i % 2 ? 0 : ~0ull; };
    for (int i = 0; i < 40; ++i) { uint64_t k = key(i); m([&] { ce::lower_bound(a, b, k); }); }
    m.worst("lower_bound", many, 40 + 12 * lg(many));
    for (int i = 0; i < 40; ++i) { uint64_t k = key(i); m([&] { ce::upper_bound(a, b, k); }); }
    m.worst("upper_bound", many, 40 + 12 * lg(many));
    for (int i = 0; i < 40; ++i) { uint64_t k = key(i); m([&] { ce::z_lower_bound(a, b, k); }); }
    m.worst("z_lower_bound", many, 40 + 12 * lg(many));
}

template<class Q> static void keep_best(Case& c, Q& q, size_t n)
{
    Meter m(c), d(c);
    unsigned shape = unsigned(c.rng.below(8));
    q.size = 0;
    for (size_t i = 0; i < n; ++i) { uint32_t k = shaped(c, shape, i, n); m([&] { q.enqueue(k); }); }
    uint32_t low = 0;
    for (size_t i = 0; i < n / 4; ++i) { d([&] { low = uint32_t(q.dequeue()); }); uint32_t k = c.rng.chance(1, 2) ? low : uint32_t(c.rng.next()); m([&] { q.enqueue(k); }); }
    while (!q.empty()) d([&] { q.dequeue(); });
    m.worst("enqueue", n, 50 + 15 * lg(n));
    d.worst("dequeue", n, 50 + 20 * lg(n));
}

static void holding(Case& c)
{
    Meter m(c);
    {
        typedef ce::min_priority_queue<70000, uint64_t> Q;
        static Q& q = *new Q{ };
        keep_best(c, q, scaled(c, 4, 16));
    }
    {
        typedef ce::pool<60000, uint64_t> P;
        static P& p = *new P;
        size_t n = scaled(c, 4, 15);
        P::queue_t q[3];
        m([&] { p.reset(); }), m.worst("pool reset", n, 40);
        size_t held = 0;
        for (size_t i = 0; i < n; ++i)
        {
            auto& to = q[c.rng.below(3)];
            if (c.rng.chance(1, 2)) m([&] { p.append_tail(to, i); }); else m([&] { p.insert_head(to, i); });
            ++held;
            if (c.rng.chance(1, 3)) { auto& of = q[c.rng.below(3)]; if (!p.is_empty(of)) m([&] { p.remove_head(of); }), --held; }
            if (c.rng.chance(1, 8)) { P::index_t at = 0; m([&] { at = p.alloc_index(); }), m([&] { p.free_index(at); }); }
        }
        for (auto& of : q) while (!p.is_empty(of)) m([&] { (void)p.head(of), (void)p.tail(of), p.remove_head(of); });
        for (int i = 0; i < 60; ++i) { m([&] { p.append_tail(q[i % 3], 1); }); }
        m.worst("pool", n, 60);
    }
    {
        typedef ce::bitset<500000> B;
        static B& b = *new B;
        for (int i = 0; i < 300; ++i) { size_t at = i < 10 ? 499999u - unsigned(i) : c.rng.below(500000); m([&] { b.set(at), b.reset(at), b.set(at, i % 2), (void)b[at], b.get_size(); }); }
        m.worst("bit", 500000, 100);
        m([&] { b.set(); }), m([&] { b.reset(); }), m.worst("bits", 500000, 250000);
    }
    {
        // what a list holds counts, not what it could
        typedef ce::bulk<70000, Elem> L;
        static L &a = *new L, &b = *new L;
        size_t n = scaled(c, 1, 9), k = scaled(c, 1, 9);
        a.clear(), b.clear();
        for (size_t i = 0; i < n; ++i) m([&] { a.append(uint32_t(i), 1u); });
        for (size_t i = 0; i < k; ++i) m([&] { b.append(uint32_t(i), 1u); });
        m.worst("append", n, 60);
        m([&] { (void)a.room(), (void)a.begin(), (void)a.end(), (void)a[n / 2], (void)a.capacity(), (void)a.back(); }), m.worst("list parts", n, 100);
        m([&] { b = a; }), m.all("list assigned", n, 100 + 30. * double(n));
        m([&] { ::new (static_cast<void*>(&b)) L(a); }), m.all("list copied", n, 100 + 30. * double(n));
        for (size_t i = 0; i < n / 2; ++i) { size_t at = c.rng.below(a.size); m([&] { a.remove_at(at); }); }
        if (n / 2) m.worst("remove_at", n, 100);
        for (size_t i = 0; i < 10 && b.size; ++i) { size_t at = c.rng.below(b.size), after = b.size - at; m([&] { b.template remove_at<true>(at); }), m.all("remove_at<true>", after, 100 + 12. * double(after)); }
        m([&] { a.resize(60000); }), m.all("list resized", 60000, 100);
        m([&] { a.append_n(900); }), m.all("append_n", 900, 100);
        m([&] { a.clear(); }), m.all("list cleared", 60900, 100);
        m([&] { L* x = &b; x->~L(); }), m.all("list gone", b.size, 100), ::new (static_cast<void*>(&b)) L;
        m([&] { L* x = &b; ::new (static_cast<void*>(x)) L; }), m.all("list made", 70000, 100);
        // objects which are made and destroyed
        struct Obj { uint32_t v; Obj() : v(1) { } Obj(uint32_t v) : v(v) { } Obj(Obj const& o) : v(o.v) { } Obj& operator=(Obj const& o) { v = o.v; return *this; } ~Obj() { v = 0; } };
        typedef ce::bulk<70000, Obj> O;
        static O &o = *new O, &p = *new O;
        m([&] { o.resize(n); }), m.all("objects made", n, 100 + 25. * double(n));
        m([&] { p = o; }), m.all("objects assigned", n, 100 + 40. * double(n));
        size_t less = c.rng.below(n);
        m([&] { p.resize(less); }), m.all("objects fewer", n - less, 100 + 20. * double(n - less));
        m([&] { o = p; }), m.all("objects assigned", n, 100 + 40. * double(n));
        m([&] { p.clear(), o.clear(); }), m.all("objects cleared", n, 100 + 30. * double(n));
    }
    {
        typedef ce::dictionary<20000, Elem, uint32_t> D;
        static D& d = *new D{ };
        size_t n = scaled(c, 2, 9);
        d.size = 0, d.heap = 0;
        for (uint32_t i = 0; i < n; ++i) m([&] { d.bind(i * 77 + 1, i, 2u); }), m.all("bind", i, 100 + 16. * double(i));
        for (uint32_t i = 0; i < 30; ++i) { uint32_t k = uint32_t(c.rng.below(n * 77)); m([&] { d.find(k); }), m.all("find", n, 100 + 16. * double(n)); }
        auto p = d.bind(1, 1u, 2u);
        m([&] { (void)d[p]; }), m.all("entry", n, 100);
        // names which form a search tree are found in steps of its height
        size_t h = scaled(c, 2, 14);
        std::vector<uint32_t> order(h + 1);
        uint32_t next = 3;
        std::vector<size_t> path;
        for (size_t i = 1; i <= h || !path.empty();)
        {
            while (i <= h) path.push_back(i), i *= 2;
            i = path.back(), path.pop_back();
            order[i] = next, next += 1 + uint32_t(c.rng.below(5)), i = i * 2 + 1;
        }
        for (size_t i = 1; i <= h; ++i) d.names[i] = order[i];
        d.size = d.heap = h + 1;
        // whichever way round the tree is
        if (d.find(order[1]) == D::ptr_t::nil || d.find(order[h]) == D::ptr_t::nil || d.find(order[h / 2 + 1]) == D::ptr_t::nil) { for (size_t i = 1; i <= h; ++i) d.names[i] = next - order[i] + 3, order[i] = d.names[i]; }
        for (uint32_t i = 0; i < 60; ++i) { uint32_t k = i % 2 ? order[1 + c.rng.below(h)] : uint32_t(c.rng.below(next)); m([&] { d.find(k); }); }
        m.worst("tree find", h, 60 + 12 * lg(h));
        d.heap = 0, d.size = 0;
    }
}

static void texts(Case& c)
{
    Meter m(c);
    size_t n = scaled(c, 1, 17);
    std::vector<uint64_t> q(n / 8 + 1);
    for (auto& x : q) x = c.rng.next();
    auto b = reinterpret_cast<uint8_t*>(q.data());
    auto w = reinterpret_cast<uint32_t*>(q.data());
    volatile uint64_t sink = 0;
    double d = double(n);
    m([&] { sink = uint32_t(ce::crc32(ce::crc32c_t::initial, n, b)); }), m.all("crc32 of bytes", n, 100 + 12 * d);
    m([&] { sink = uint32_t(ce::crc32(ce::crc32c_t::initial, n / 4, w)); }), m.all("crc32 of words", n, 100 + 5 * d);
    m([&] { sink = uint32_t(ce::crc32(ce::crc32c_t::initial, n / 8, q.data())); }), m.all("crc32 of long words", n, 100 + 4 * d);
    m([&] { sink = ce::hash::fnv1a32(n, b) + ce::hash::fnv1a64(n, b); }), m.all("fnv1a", n, 100 + 24 * d);
    std::string t;
    for (size_t i = 0; i < n; ++i) t += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[b[i] & 63];
    char const* s = t.c_str();
    m([&] { sink = ce::hash::fnv1a(s); }), m.all("fnv1a of text", n, 100 + 12 * d);
    size_t size = 0;
    m([&] { size = ce::base64::size(s); }), m.all("base64 size", n, 200 + 35 * d);
    std::vector<uint8_t> out(size + 8);
    m([&] { ce::base64::decode(size, out.data(), s); }), m.all("base64 decode", n, 3000 + 14 * d);
    // an LZ stream
    size_t have = 0;
    std::vector<uint8_t> e;
    while (have < n)
    {
        unsigned ctl = unsigned(c.rng.below(256)) | (have == 0);
        e.push_back(uint8_t(ctl));
        for (int k = 0; k < 8; ++k, ctl /= 2)
            if (ctl % 2) e.push_back(uint8_t(c.rng.next())), ++have;
            else
            {
                unsigned o = 4096 - unsigned(1 + c.rng.below(have < 4096 ? have : 4096)), l = unsigned(c.rng.below(16));
                e.push_back(uint8_t(o)), e.push_back(uint8_t(l * 16 + o / 256)), have += l + 3;
            }
    }
    m([&] { size = ce::lziii::size(e.size(), e.data()); }), m.all("lziii size", e.size(), 100 + 14. * double(e.size()));
    out.assign(have, 0);
    if (size == have) m([&] { ce::lziii::decode(size, out.data(), e.data()); }), m.all("lziii decode", have, 100 + 15. * double(have));
    // text
    static char o[1 << 20];
    m([&] { ce::to_text(o, s); }), m.all("to_text of text", n, 200 + 10 * d);
    size_t room = c.rng.below(n + 1);
    m([&] { ce::to_text_s(o, room, s); }), m.all("to_text_s", room, 200 + 20. * double(room));
    for (int i = 0; i < 60; ++i)
    {
        uint64_t u = c.rng.wide(64);
        m([&] { ce::to_text(o, u), ce::to_text(o, int64_t(u)), ce::to_text(o, uint32_t(u)), ce::to_text(o, int32_t(u)), ce::to_text(o, int16_t(u)), ce::to_text(o, uint8_t(u)); });
    }
    m.worst("to_text of integers", 64, 600);
    for (int i = 0; i < 60; ++i)
    {
        uint64_t u = c.rng.next() ^ c.rng.wide(64);
        double f;
        float g;
        memcpy(&f, &u, 8), memcpy(&g, &u, 4);
        if (!std::isfinite(f)) f = 1e300;
        if (!std::isfinite(g)) g = 1e30f;
        m([&] { ce::to_text(o, f), ce::to_text(o, g); });
    }
    m.worst("to_text of numbers", 64, 1000);
    // a bounded text takes work as what is shown
    m([&] { ce::as_string a{ s, 1, ' ', 2u }; (void)a; }), m.all("as_string", n, 1000 + 20. * double(n < 1100 ? n : 1100));
    static std::string const huge(1 << 22, 'h');
    m([&] { ce::as_string a{ huge.c_str(), n }; (void)a; }), m.all("as_string", huge.size(), 25000);
}

enum class colour { red, green, blue, a, b, c, d, e, last = 250 };
enum class small { zero, one, two };

static void numbers(Case& c)
{
    Meter m(c);
    volatile int64_t sink = 0;
    for (int i = 0; i < 200; ++i)
    {
        int32_t x = int32_t(c.rng.swide(32)), y = int32_t(c.rng.swide(32)), a = int32_t(c.rng.next());
        int64_t r = int64_t(c.rng.wide(62)), s = c.rng.swide(62);
        m([&] { sink = ce::isqrt(r); });
        if (x > -(1 << 30) && x < 1 << 30 && y > -(1 << 30) && y < 1 << 30)
        {
            m([&] { sink = ce::hypot(x, y); });
            m([&] { sink = ce::to_polar(x, y).x; });
            m([&] { sink = ce::to_cartesian(x, a).x + ce::cos_2pi(x, a) + ce::sin_2pi(y, a); });
            m([&] { sink = ce::in_range_rr(x, y, r) + ce::in_range_rr_line(x / 2, y / 2, r, y / 2, a / 4) + ce::in_range_rr_segment(x / 2, y / 2, r, y / 4, a / 4); });
            m([&] { ce::vec2<int32_t> at; sink = ce::intersect<int32_t>({ x / 4, y / 4 }, { y / 4, a / 4 }, { a / 4, x / 4 }, { 5, 9 }, at); });
            m([&] { sink = ce::inside(ce::vec2<int32_t>{ x, y }, ce::vec2<int32_t>{ a / 2, x }); });
        }
        m([&] { sink = ce::ab_less_cd(r, s, s / 3, r / 2); });
        m([&] { sink = int64_t(ce::z_encode(x, y)); });
        m([&] { uint64_t lo = ce::z_encode(x / 2, y / 2), hi = lo + uint64_t(r), ji, jo; sink = ce::z_split(lo, hi, ji, jo) + ce::z_inside(lo, hi, uint64_t(r)); });
    }
    m.worst("numbers", 200, 1500);
    // random numbers
    ce::xoroshiro64ss g1;
    ce::xoroshiro128pp g2;
    ce::pcg32_64_t g3;
    size_t seeds = scaled(c, 4, 10);
    std::vector<uint8_t> from(seeds);
    for (auto& x : from) x = uint8_t(c.rng.next());
    m([&] { seed(g1, seeds, from.data()), seed(g2, seeds, from.data()), ce::random::seed(g3, seeds, from.data()); }), m.all("seed", seeds, 500 + 50. * double(seeds));
    for (int i = 0; i < 100; ++i) m([&] { sink = next(g1), sink = int64_t(next64(g1)), sink = int64_t(next(g2)), sink = next32(g2), sink = ce::random::next(g3), sink = ce::random::next_ranged(g3, uint32_t(i)); });
    m.worst("next", 100, 250);
    // about half of the draws are thrown away at worst
    for (int i = 0; i < 2000; ++i)
    {
        uint32_t n = i % 4 ? uint32_t(c.rng.wide(32)) | 1 : 0x80000001u + uint32_t(c.rng.below(99));
        m([&] { sink = ce::random::next_unbiased(g3, n); });
    }
    m.mean("next_unbiased", 2000, 60);
    // names
    for (unsigned i = 0; i < 256; ++i) m([&] { sink = ce::nameof(colour(i))[0]; });
    m.worst("nameof", 256, 1200);
    for (int i = 0; i < 9; ++i) { char const* s[] = { "red", "green", "e", "last", "nothing", "", "re", "reds", "a" }; m([&] { sink = int64_t(ce::as_enum<colour>(s[i], colour::b)); }); }
    m.worst("as_enum", 256, 6000);
    // polygons
    size_t n = scaled(c, 2, 14);
    std::vector<ce::vec2<int32_t>> ps(n);
    for (auto& p : ps) p = { int32_t(c.rng.range(-1000000, 1000000)), int32_t(c.rng.range(-1000000, 1000000)) };
    for (int i = 0; i < 5; ++i) { ce::vec2<int32_t> p{ int32_t(c.rng.range(-1000000, 1000000)), int32_t(c.rng.range(-1000000, 1000000)) }; m([&] { sink = ce::in_polygon(p, n, ps.data()); }); }
    m.worst("in_polygon", n, 200 + 20. * double(n));
    // a mutex nobody else holds
    static ce::thread_mutex mu;
    static ce::thread_shared_mutex sh;
    ce::construct_mutex(mu), ce::construct_mutex(sh);
    for (int i = 0; i < 50; ++i)
    {
        m([&] { ce::acquire_mutex(mu); }), m([&] { ce::release_mutex(mu); });
        m([&] { ce::acquire_mutex(sh); }), m([&] { ce::release_mutex(sh); }), m([&] { ce::acquire_mutex_shared(sh); }), m([&] { ce::release_mutex_shared(sh); });
    }
    m.worst("mutex", 50, 100);
    ce::destroy_mutex(mu), ce::destroy_mutex(sh);
}

static void stored(Case& c)
{
    // a box of a few points among many takes work as its points, not as the others
    Meter m(c);
    size_t n = scaled(c, 10, 18);
    std::vector<uint64_t> z(n), out(n);
    for (auto& x : z) x = c.rng.next();
    std::sort(z.begin(), z.end());
    double side = 4294967296. * std::sqrt(double(1 + c.rng.below(n / 8)) / double(n));
    for (int i = 0; i < 8; ++i)
    {
        int64_t w = int64_t(side * (0.5 + double(c.rng.below(1000)) / 1000)), h = int64_t(side * side / double(w));
        if (w > 4294000000) w = 4294000000;
        if (h > 4294000000) h = 4294000000;
        int64_t x = INT32_MIN + int64_t(c.rng.below(uint64_t(4294967295 - w))), y = INT32_MIN + int64_t(c.rng.below(uint64_t(4294967295 - h)));
        size_t found = 0;
        m([&] { found = ce::z_query(out.data(), ce::z_encode(int32_t(x), int32_t(y)), ce::z_encode(int32_t(x + w), int32_t(y + h)), n, z.data()); });
        m.all("z_query", n, 1000 + 40. * lg(n) * (std::sqrt(double(found)) + 4) + 40. * double(found));
    }
    // nothing of what is stored is near
    for (auto& x : z) x >>= 1;
    m([&] { ce::z_query(out.data(), ce::z_encode(1000000000, 1000000000), ce::z_encode(1000001000, 1000001000), n, z.data()); });
    m.all("z_query far away", n, 400 + 20. * lg(n));
}

static void mesh(Case& c)
{
    typedef ce::cdt<6, 8192> M;
    static M& t = *new M;
    Meter m(c);
    size_t n = c.rng.chance(1, 3) ? 8000 : 500 + c.rng.below(7000);
    int32_t const span = 1 << 20;
    auto co = [&](int32_t s) { return int32_t(c.rng.range(-s, s)) & ~127; };
    m([&] { t.reset(); }), m.all("mesh reset", 8192, 200);
    double side = std::sqrt(double(n)), d = double(n);
    for (size_t i = 0; i < n; ++i) { ce::vec2<int32_t> p{ co(span), co(span) }; m([&] { t.insert_point(p, 0); }); }
    m.all("insert_point", n, 3000 + d * (2000 + 60 * side));
    // from anywhere
    for (int i = 0; i < 60; ++i) { int32_t x = co(span), y = co(span); uint32_t h = uint32_t(c.rng.below(t.size * 8)); m([&] { t.locate(x, y, h); }); }
    m.mean("locate", n, 500 + 60 * side);
    // from near by
    int32_t cell = int32_t(2. * span / side);
    uint32_t at[200];
    ce::vec2<int32_t> ps[200];
    for (int i = 0; i < 200; ++i) ps[i] = { co(span - 3 * cell), co(span - 3 * cell) }, at[i] = t.locate(ps[i], 0);
    for (int i = 0; i < 200; ++i) { ce::vec2<int32_t> p{ ps[i].x + co(cell), ps[i].y + co(cell) }; m([&] { t.locate(p, at[i]); }); }
    m.mean("locate near by", n, 250);
    if (t.size + 10 < 8192)
    {
        for (int i = 0; i < 100 && t.size + 10 < 8192; ++i) m([&] { t.insert_point(ps[i], at[i]); });
        m.mean("insert_point near by", n, 4000);
    }
    // points which are there
    for (int i = 0; i < 100; ++i) m([&] { t.insert_point(ps[i], at[i]); });
    m.mean("insert_point again near by", n, 250);
    // its parts
    volatile uint32_t sink = 0;
    size_t faces = t.size * 2;
    m([&] { for (auto f : t.faces()) sink = sink + f.data; }), m.all("faces", faces, 500 + 40. * double(faces));
    m([&] { for (auto e : t.edges()) sink = sink + e.constrained; }), m.all("edges", faces, 500 + 150. * double(faces));
    for (int i = 0; i < 30; ++i) { auto e = uint32_t(24 + c.rng.below(faces - 6) * 4); m([&] { (void)t[typename M::face_id_t(e)], (void)t[typename M::edge_id_t(e)]; }); }
    m.worst("face", faces, 100);
    // a short edge
    for (int i = 0; i < 30 && t.size + 40 < 8192; ++i)
    {
        uint32_t h = t.locate(ps[i + 100], at[i + 100]);
        ce::vec2<int32_t> q{ ps[i + 100].x + co(cell / 2), ps[i + 100].y + co(cell / 2) };
        m([&] { t.insert_edge(ps[i + 100], q, h); });
    }
    if (m.times) m.mean("insert_edge", n, 8000);
    // a box of edges in a fresh mesh, filled inside only
    size_t few = 100 + c.rng.below(2000);
    t.reset();
    for (size_t i = 0; i < few; ++i) t.insert_point({ co(span), co(span) }, 0);
    int32_t box = 1 << c.rng.range(14, 18);
    bool ok = true;
    ce::vec2<int32_t> corner[] = { { -box, -box }, { box, -box }, { box, box }, { -box, box } };
    for (int i = 0; i < 4; ++i) ok = t.insert_edge(corner[i], corner[(i + 1) % 4], 0) && ok;
    for (int i = 0; i < 40; ++i) t.insert_point({ co(box - 128), co(box - 128) }, 0);
    if (!ok) return c.count("no_box");
    m([&] { t.fill(t.locate(0, 0, 24), 5); });
    uint64_t spent = m.total;
    m.reset();
    size_t filled = 0;
    for (auto f : t.faces()) filled += f.data == 5;
    m.total = spent, m.times = 1;
    m.all("fill a box", filled, 2000 + 100 * std::sqrt(double(t.size)) + 40. * double(filled));
    m([&] { t.fill(t.locate(span, span, 24), 6); });
    m.all("fill", t.size * 2, 5000 + 100 * std::sqrt(double(t.size)) + 50. * double(t.size) * 2);
}

void kit_main(kit::K& k)
{
    k.section("sorting", 300, sorting);
    k.section("holding", 120, holding);
    k.section("texts", 200, texts);
    k.section("numbers", 100, numbers);
    k.section("stored", 100, stored);
    k.section("mesh", 40, mesh);
}
