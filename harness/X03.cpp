// X03: threads which use their own objects, or read shared ones, do not meet: no part keeps state of its own. Each thread
// gets what it would get alone, and the race detector sees nothing shared.
#include "mesh.h"
#include "team.h"
#include "ce/math.h"
#include "ce/sort.h"
#include "ce/zorder.h"
#include "ce/pool.h"
#include "ce/dictionary.h"
#include "ce/io.h"
#include "ce/nameof.h"
#include "ce/lziii.h"
#include "ce/clock.h"
#include <unistd.h>
using namespace mesh;
using kit::Rng;
typedef ce::uint64_t u64;

struct H
{
    u64 h = 1;
    H& operator<<(u64 v) { h = kit::mix(h ^ v); return *this; }
    H& text(char const* s) { h = kit::hash_bytes(s, strlen(s), h); return *this; }
    template<class T> H& bytes(T const* p, size_t n) { h = kit::hash_bytes(p, n * sizeof(T), h); return *this; }
};

// ---- captured reports, per thread
std::string taken();
static thread_local H* t_sink;
static void on_log(int level, int argc, char const* argv[][2])
{
    if (!t_sink) return;
    *t_sink << u64(level) << u64(argc);
    for (int i = 0; i < argc; ++i) t_sink->text(argv[i][0]).text(argv[i][1]);
    ce::os::log(level, argc, argv);
}
static bool on_error(int level, int argc, char const* argv[][2])
{
    if (!t_sink) return false;
    *t_sink << u64(level) << u64(argc);
    return ce::os::error(level, argc, argv);
}
static void on_break() { if (t_sink) *t_sink << 77; }

// ---- what threads do with objects of their own
static char g_dir[64];
namespace own
{
    template<class T> static void put(H& h, T v) { char b[64]; auto e = ce::to_text(b, v); h.bytes(b, size_t(e - b)); }

    static void numbers(Rng& r, H& h)
    {
        for (int i = 0; i < 60; ++i)
        {
            put(h, ce::uint64_t(r.wide(64))), put(h, ce::int64_t(r.swide(64))), put(h, uint32_t(r.wide(32))), put(h, int(r.swide(32)));
            put(h, short(r.swide(16))), put(h, (unsigned char)(r.wide(8))), put(h, i % 2 == 0), put(h, char('a' + i % 26));
            put(h, double(r.swide(64)) / double(1 + r.wide(50))), put(h, float(r.swide(30)) / 64), put(h, (void*)(r.wide(47)));
        }
    }
    static void compose(Rng& r, H& h)
    {
        for (int i = 0; i < 30; ++i)
        {
            std::string s(r.below(40), char('a' + r.below(26)));
            char buf[200];
            int n = int(r.swide(32));
            double d = double(r.swide(40)) / 256;
            ce::vec2<int> v{ int(r.swide(32)), int(r.swide(32)) };
            auto e = ce::to_text(buf, s.c_str(), n, v, d);
            h.bytes(buf, size_t(e - buf));
            h.text(ce::as_string{ "n = ", n, ", ", d, s.c_str() }.as);
        }
    }
    static void logs(Rng& r, H& h)
    {
        t_sink = &h;
        for (int i = 0; i < 20; ++i)
        {
            int a = int(r.swide(32)), b = int(r.swide(32));
            double d = double(a) / 64;
            CE_LOG(info, a, a ^ b, d, "text");
            CE_LOG_MSG(warn, "a is ", a, " and b ", b);
            if (r.chance(1, 4)) CE_ASSERT(a == b + 0 && i < 0, a, b, d);
            h << u64(CE_VERIFY(a >= b, a, b));
            if (r.chance(1, 6)) CE_ERROR(a, b);
        }
        t_sink = nullptr;
        auto s = taken();
        h.bytes(s.data(), s.size());
    }
    static void checksums(Rng& r, H& h)
    {
        std::vector<ce::uint64_t> v(40);
        for (auto& x : v) x = r.next();
        for (int i = 0; i < 10; ++i)
        {
            auto a = ce::crc32(ce::crc32c_t(r.u32()), v.size(), v.data());
            auto b = ce::crc32(ce::crc32_t<0xedb88320>(r.u32()), 2 * v.size() - unsigned(i), reinterpret_cast<uint32_t const*>(v.data()));
            auto d = ce::crc32(ce::crc32_t<0xeb31d82e>(r.u32()), 8 * v.size() - unsigned(i), reinterpret_cast<uint8_t const*>(v.data()));
            h << uint32_t(a) << uint32_t(b) << uint32_t(d) << ce::crc32c("a literal");
            h << ce::hash::fnv1a32(v.size(), v.data()) << ce::hash::fnv1a64(v.size() - unsigned(i), v.data()) << ce::hash::fnv1a("Mallori");
        }
    }
    static std::vector<uint8_t> stream(Rng& r) // a valid compressed stream
    {
        std::vector<uint8_t> s;
        size_t made = 0;
        for (int g = 0, n = 1 + int(r.below(12)); g < n; ++g)
        {
            uint8_t ctl = uint8_t(r.u32());
            if (made == 0) ctl |= 1;
            s.push_back(ctl);
            for (int b = 0; b < 8; ++b)
                if (ctl >> b & 1) s.push_back(uint8_t(r.u32())), ++made;
                else
                {
                    size_t back = 1 + r.below(std::min<size_t>(made, 4096)), code = 4096 - back, len = r.below(16);
                    s.push_back(uint8_t(code)), s.push_back(uint8_t(code / 256 | len << 4));
                    made += len + 3;
                }
        }
        return s;
    }
    static void decode(Rng& r, H& h)
    {
        for (int i = 0; i < 8; ++i)
        {
            auto s = stream(r);
            std::vector<uint8_t> out(ce::lziii::size(s.size(), s.data()));
            ce::lziii::decode(out.size(), out.data(), s.data());
            h.bytes(out.data(), out.size());
            std::string t;
            for (int k = int(r.below(60)) + 2; k > 0; --k) t += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[r.below(64)];
            std::vector<ce::uint8_t> o(ce::base64::size(t.size()));
            ce::base64::decode(o.size(), o.data(), t.c_str());
            h.bytes(o.data(), o.size());
        }
    }
    struct Owner { std::unique_ptr<int> p; Owner(int v = 0) : p(new int(v)) { } Owner(Owner const& o) : p(new int(*o.p)) { } Owner& operator=(Owner const& o) { p.reset(new int(*o.p)); return *this; } };
    static void containers(Rng& r, H& h)
    {
        ce::bulk<30, Owner> b, b2;
        ce::list<int, 40> l{ };
        ce::min_priority_queue<20, int> q{ };
        ce::bitset<77> bits{ };
        for (int i = 0; i < 120; ++i)
        {
            int v = int(r.below(1000));
            switch (r.below(6))
            {
            case 0: h << u64(b.append(Owner(v))); break;
            case 1: if (b.size) h << u64(*b[r.below(b.size)].p); break;
            case 2: h << u64(q.enqueue(v)); break;
            case 3: if (!q.empty()) h << u64(q.dequeue()); break;
            case 4: bits.set(unsigned(v) % 77); h << u64(bits[unsigned(v * 7) % 77]); break;
            default: if (l.size < 40) l.data[l.size++] = v; b2 = b; h << b2.size; break;
            }
        }
        for (auto& x : b) h << u64(*x.p);
        h.bytes(l.data, l.size);
    }
    struct Val { int a, b; };
    static void names(Rng& r, H& h)
    {
        ce::dictionary<24, Val, int> d{ };
        for (int i = 0; i < 80; ++i)
        {
            int k = int(r.below(40));
            if (r.chance(1, 2)) h << u64(d.bind(k, int(r.u32()), i));
            else { auto p = d.find(k); h << u64(p); if (u64(p)) h << u64(d[k].a) << u64(d[p].b); }
        }
    }
    static void queues(Rng& r, H& h)
    {
        typedef ce::pool<40, int> P;
        P p;
        p.reset();
        P::queue_t q[3];
        for (int i = 0; i < 200; ++i)
        {
            auto& x = q[r.below(3)];
            switch (r.below(4))
            {
            case 0: h << u64(p.insert_head(x, i)); break;
            case 1: h << u64(p.append_tail(x, i)); break;
            case 2: if (!p.is_empty(x)) h << u64(p.head(x)) << u64(p.tail(x)); break;
            default: h << u64(p.remove_head(x)); break;
            }
        }
    }
    static void sorts(Rng& r, H& h)
    {
        size_t n = 1 + r.below(500);
        std::vector<int> v(n);
        unsigned range = unsigned(1 + r.wide(20));
        for (auto& x : v) x = int(r.below(range));
        auto a = v, b = v, d = v;
        ce::intro_sort(a.data(), a.data() + n), ce::intro_sort<16>(b.data(), b.data() + n), ce::heap_sort(d.data(), d.data() + n);
        h.bytes(a.data(), n).bytes(b.data(), n).bytes(d.data(), n);
        for (int i = 0; i < 30; ++i) { int k = int(r.below(range)); h << u64(ce::lower_bound(a.data(), a.data() + n, k) - a.data()) << u64(ce::upper_bound(a.data(), a.data() + n, k) - a.data()); }
        if (n > 60) v.resize(60);
        ce::insertion_sort(v.data(), v.data() + v.size());
        h.bytes(v.data(), v.size());
    }
    static void random(Rng& r, H& h)
    {
        std::vector<ce::uint8_t> s(1 + r.below(30));
        for (auto& x : s) x = ce::uint8_t(r.u32());
        ce::xoroshiro64ss a;
        ce::xoroshiro128pp b;
        seed(a, s.size(), s.data()), seed(b, s.size(), s.data());
        ce::pcg32_64_t g{ r.next() };
        for (int i = 0; i < 60; ++i)
        {
            uint32_t n = 1 + uint32_t(r.wide(31));
            h << next(a) << next(b) << ce::next(g) << next64(a) << next32(b) << ce::next_unbiased(g, n) << ce::next_ranged(g, n);
        }
    }
    static void exact(Rng& r, H& h)
    {
        typedef ce::vec2<int32_t> V;
        auto pt = [&](unsigned bits) { return V{ int32_t(r.swide(bits)), int32_t(r.swide(bits)) }; };
        for (int i = 0; i < 60; ++i)
        {
            h << u64(ce::ab_less_cd(r.swide(62), r.swide(62), r.swide(62), r.swide(62)));
            h << u64(ce::isqrt(r.wide(60))) << u64(ce::hypot(int32_t(r.swide(30)), int32_t(r.swide(30))));
            V a = pt(28), b = pt(28), p = pt(28), o{ };
            h << u64(ce::ball_hits_edge(p, r.wide(50), a, b)) << u64(ce::intersect(a, b, p, V{ p.x + 5, p.y - 90 }, o));
            V poly[7];
            for (auto& x : poly) x = pt(20);
            h << ce::in_polygon(pt(20), 7, poly);
            auto v = ce::to_cartesian(int32_t(r.wide(29)), int32_t(r.u32()));
            auto w = ce::to_polar(int32_t(r.swide(29)), int32_t(r.swide(29)));
            h << uint32_t(v.x) << uint32_t(v.y) << uint32_t(w.x) << uint32_t(w.y) << uint32_t(ce::sin_2pi(1 << 20, int32_t(r.u32()))) << uint32_t(ce::atan2_2pi(p.y, p.x));
        }
    }
    static void order(Rng& r, H& h)
    {
        std::vector<ce::uint64_t> v(1 + r.below(300)), out(v.size());
        for (auto& x : v) x = ce::z_encode(int32_t(r.swide(14)), int32_t(r.swide(14)));
        std::sort(v.begin(), v.end());
        for (int i = 0; i < 6; ++i)
        {
            int32_t x = int32_t(r.swide(14)), y = int32_t(r.swide(14));
            size_t n = ce::z_query(out.data(), ce::z_encode(x, y), ce::z_encode(x + int32_t(r.wide(12)), y + int32_t(r.wide(12))), v.size(), v.data());
            h << n;
            h.bytes(out.data(), n);
        }
    }
    static P place(Rng& r, unsigned q, bool coarse) { int64_t s = int64_t(1) << (q + (coarse ? 12 : 0)); return { r.range(coarse ? -8 : LO, coarse ? 7 : HI) * s, r.range(coarse ? -8 : LO, coarse ? 7 : HI) * s }; }
    template<size_t Q> static void build(ce::cdt<Q, 120>& m, Rng& r, H& h)
    {
        m.reset();
        for (int i = 0, n = int(r.range(5, 60)); i < n; ++i)
        {
            P a = place(r, Q, r.chance(1, 2)), b = place(r, Q, r.chance(3, 4));
            if (r.chance(1, 3)) h << u64(m.insert_edge(v2(a), v2(b), 0));
            else h << u64(m.insert_point(v2(a), 0));
            if (r.chance(1, 8)) m.fill(Shot::id(r.below(2 * m.size - 6)), uint16_t(i));
        }
    }
    template<size_t Q> static void mesh_of(Rng& r, H& h)
    {
        Held<Q, 120> m(int(r.below(256)));
        build(*m, r, h);
        h << shot(*m).hash();
        for (int i = 0; i < 20; ++i) { P p = place(r, Q, i % 2); h << m->locate(v2(p), 0); }
    }
    static void meshes(Rng& r, H& h) { r.chance(1, 2) ? mesh_of<0>(r, h) : mesh_of<6>(r, h); }
}

// ---- reflection
struct Inner { int a[3]; ce::vec2<int> at; };
struct Outer { char tag; Inner in; double d; ce::list<int, 6> more; };
CE_IO_BIND(Inner, a, at);
CE_IO_BIND(Outer, tag, in, d, more);
enum class Fruit { apple, pear = 7, plum = 100, cherry = -1 };
namespace own
{
    struct Walk : ce::io<Walk>
    {
        H& h;
        Walk(H& h) : h(h) { }
        void enter_class() { h << 1; } void leave_class() { h << 2; }
        void enter_array(size_t& n, bool v) { h << 3 << n << u64(v); } void leave_array(size_t n, bool v) { h << 4 << n << u64(v); }
        void name(char const* s) { h.text(s); }
        template<class T> void atom(T& v) { h.bytes(&v, 1); }
    };
    static void fill(Outer& o, Rng& r)
    {
        o.tag = char('a' + r.below(26));
        for (auto& x : o.in.a) x = int(r.u32());
        o.in.at = { int(r.u32()), int(r.u32()) };
        o.d = double(r.u32()) / 4;
        o.more.size = r.below(7);
        for (auto& x : o.more.data) x = int(r.u32());
    }
    static void reflect(Rng& r, H& h)
    {
        Outer o;
        fill(o, r);
        Walk w{ h };
        for (int i = 0; i < 10; ++i) w.item("o", o), o.in.a[0] ^= i;
        static char const* const t[] = { "apple", "pear", "plum", "cherry", "fig" };
        for (int i = 0; i < 20; ++i)
        {
            h.text(ce::nameof(Fruit(int(r.below(110)) - 1)));
            h << u64(int(ce::as_enum<Fruit>(t[r.below(5)], Fruit(int(r.below(4))))));
        }
        h.text(ce::nameof<Outer>());
    }
    static void services(Rng& r, H& h)
    {
        char path[128];
        snprintf(path, sizeof path, "%s/f%d", g_dir, int(r.below(4)));
        for (int i = 0; i < 4; ++i)
        {
            ce::span<ce::uint8_t const> s{ 5, nullptr };
            ce::os::file_t f{ };
            h << u64(ce::os::map_span(s, path)) << s.size;
            if (s.data) h.bytes(s.data, s.size);
            h << u64(ce::os::unmap_span(s));
            h << u64(ce::os::open_file(f, path));
            h << u64(ce::os::close_file(f));
        }
        auto t = ce::os::monotonic_timestamp();
        ce::os::sleep_ns(r.wide(14));
        h << u64(ce::os::monotonic_timestamp() >= t) << ce::os::monotonic_frequency();
        auto p = ce::os::virtual_alloc(0);
        (void)p;
        ce::clock<60> k;
        k.reset();
        auto e = k.elapsed();
        h << u64(k.current() >= e);
    }
}
typedef void (*Part)(Rng&, H&);
static Part const g_parts[] = { own::numbers, own::compose, own::logs, own::checksums, own::decode, own::containers, own::names, own::queues, own::sorts, own::random, own::exact, own::order, own::meshes, own::reflect, own::services };
static char const* const g_names[] = { "numbers", "compose", "logs", "checksums", "decode", "containers", "dictionary", "pool", "sorts", "random", "math", "zorder", "mesh", "reflect", "services" };
enum { Parts = sizeof g_parts / sizeof *g_parts };

// ---- what threads read together
struct Shared
{
    Held<4, 120> m{ 0 };
    std::vector<int> sorted;
    std::vector<ce::uint64_t> codes;
    ce::dictionary<24, own::Val, int> names{ };
    ce::vec2<int32_t> poly[30];
    std::vector<uint8_t> stream;
    ce::bulk<30, own::Owner> bulk;
    ce::bitset<90> bits{ };
    Outer outer;
    explicit Shared(Rng& r)
    {
        H h;
        own::build(*m, r, h);
        for (int i = int(r.below(300)) + 1; i > 0; --i) sorted.push_back(int(r.below(200))), codes.push_back(ce::z_encode(int32_t(r.swide(10)), int32_t(r.swide(10))));
        std::sort(sorted.begin(), sorted.end()), std::sort(codes.begin(), codes.end());
        for (int i = 0; i < 15; ++i) names.bind(int(r.below(30)), int(r.u32()), i), bulk.append(own::Owner(i)), bits.set(r.below(90));
        for (auto& p : poly) p = { int32_t(r.swide(12)), int32_t(r.swide(12)) };
        stream = own::stream(r);
        own::fill(outer, r);
    }
};
static void look(Shared const& s, Rng& r, H& h)
{
    auto const& m = *s.m.m;
    auto const& d = s.names;
    for (int i = 0; i < 25; ++i)
    {
        P p = own::place(r, 4, i % 2);
        h << m.locate(v2(p), uint32_t(r.below(2) ? 0 : Shot::id(r.below(2 * m.size - 6))));
        int k = int(r.below(200));
        h << u64(ce::lower_bound(s.sorted.data(), s.sorted.data() + s.sorted.size(), k) - s.sorted.data());
        auto f = d.find(k % 30);
        h << u64(f);
        if (u64(f)) h << u64(d[f].b) << u64(d[k % 30].a);
        h << ce::in_polygon(ce::vec2<int32_t>{ int32_t(r.swide(12)), int32_t(r.swide(12)) }, 30, s.poly);
        if (s.bulk.size) h << u64(*s.bulk[r.below(s.bulk.size)].p);
        h << u64(s.bits[r.below(90)]);
    }
    h << shot(m).hash();
    size_t n = 0;
    for (auto e : m.edges()) { (void)e; ++n; }
    h << n;
    std::vector<ce::uint64_t> out(s.codes.size());
    int32_t x = int32_t(r.swide(10)), y = int32_t(r.swide(10));
    n = ce::z_query(out.data(), ce::z_encode(x, y), ce::z_encode(x + 200, y + 90), s.codes.size(), s.codes.data());
    h.bytes(out.data(), n);
    std::vector<uint8_t> o(ce::lziii::size(s.stream.size(), s.stream.data()));
    ce::lziii::decode(o.size(), o.data(), s.stream.data());
    h.bytes(o.data(), o.size());
    auto copy = s.bulk;
    for (auto& v : copy) h << u64(*v.p);
    auto outer = s.outer;
    own::Walk w{ h };
    w.item("o", outer);
}

static u64 alone(std::vector<int> const& plan, u64 seed)
{
    Rng r{ seed };
    H h;
    for (int p : plan) g_parts[p](r, h);
    return h.h;
}

void kit_main(kit::K& k)
{
    kit::g_log = on_log, kit::g_error = on_error, kit::g_break = on_break;
    snprintf(g_dir, sizeof g_dir, "/tmp/kit-x03-XXXXXX");
    if (!mkdtemp(g_dir)) { perror("mkdtemp"); _exit(3); }
    for (int i = 0; i < 3; ++i) // the fourth is missing
    {
        FILE* f = fopen((std::string(g_dir) + "/f" + char('0' + i)).c_str(), "wb");
        for (int j = 0; j < 1000 * i + 1; ++j) fputc(j * 7 + i, f);
        fclose(f);
    }
    kit::Team team(4);
    auto together = [&](Case& c, std::vector<std::vector<int>> const& plans)
    {
        u64 seed[4], got[4][2], want[4];
        int rounds = 2;
        for (auto& s : seed) s = c.rng.next();
        unsigned lag = unsigned(c.rng.below(300));
        std::atomic<int> in{ 0 }, most{ 0 };
        team.run([&](int i)
        {
            int now = in.fetch_add(1) + 1, m = most.load();
            while (m < now && !most.compare_exchange_weak(m, now)) { }
            kit::jitter(lag * unsigned(i));
            for (int n = 0; n < rounds; ++n) got[i][n] = alone(plans[size_t(i)], seed[i]);
            in.fetch_sub(1);
        });
        for (int i = 0; i < 4; ++i)
        {
            want[i] = alone(plans[size_t(i)], seed[i]); // afterwards, so that what is first is first on several threads
            for (int n = 0; n < rounds; ++n)
            {
                c.ev(plans[size_t(i)].size());
                if (got[i][n] == want[i]) continue;
                std::string s;
                for (int p : plans[size_t(i)]) s += std::string(" ") + g_names[p];
                return c.fail("differs", "thread %d, round %d, among others:%s: not as alone", i, n, s.c_str());
            }
            c.distinct(want[i]);
            for (int p : plans[size_t(i)]) c.cover("parts", u64(p));
        }
        if (most.load() > 1) c.count("overlapping");
        c.cover("threads_inside", u64(most.load()));
    };
    // every part, first used by all threads at the same time
    k.section_exact("first", Parts, [&](Case& c) { together(c, std::vector<std::vector<int>>(4, { int(c.index) })); });
    k.section("same", 150, [&](Case& c)
    {
        std::vector<int> plan;
        for (int i = int(c.rng.range(1, 3)); i > 0; --i) plan.push_back(int(c.rng.below(Parts)));
        together(c, std::vector<std::vector<int>>(4, plan));
    });
    k.section("mixed", 150, [&](Case& c)
    {
        std::vector<std::vector<int>> plans(4);
        for (auto& p : plans) for (int i = int(c.rng.range(1, 6)); i > 0; --i) p.push_back(int(c.rng.below(Parts)));
        for (size_t i = 0; i < 4; ++i) for (int p : plans[i]) for (size_t j = 0; j < i; ++j) for (int q : plans[j]) c.cover("part_beside_part", u64(std::min(p, q) * Parts + std::max(p, q)));
        together(c, plans);
    });
    k.section("reading", 200, [&](Case& c)
    {
        Shared s(c.rng);
        u64 seed[4], got[4];
        for (auto& x : seed) x = c.rng.next();
        team.run([&](int i)
        {
            Rng r{ seed[i] };
            H h;
            for (int n = 0; n < 3; ++n) look(s, r, h);
            got[i] = h.h;
        });
        for (int i = 0; i < 4; ++i)
        {
            Rng r{ seed[i] };
            H h;
            for (int n = 0; n < 3; ++n) look(s, r, h);
            c.ev(3);
            if (h.h != got[i]) return c.fail("differs", "thread %d reads something else from shared objects than alone", i);
            c.distinct(h.h);
        }
        c.count("shared_reads", 4);
    });
    for (int i = 0; i < 3; ++i) unlink((std::string(g_dir) + "/f" + char('0' + i)).c_str());
    rmdir(g_dir);
}
