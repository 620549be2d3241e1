// G05: nothing in the library asks for memory, uses stack in proportion to the data, or changes the thread's state (errno,
// the floating point control word), whatever it is given.
#include "kit.h"
#include <cerrno>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include <xmmintrin.h>
#include "team.h"
using kit::Case;
#include "ce/ce.h"
#include "ce/atomic.h"
#include "ce/cdt.h"
#include "ce/clock.h"
#include "ce/dictionary.h"
#include "ce/io.h"
#include "ce/lziii.h"
#include "ce/math.h"
#include "ce/mutex.h"
#include "ce/nameof.h"
#include "ce/pool.h"
#include "ce/sort.h"
#include "ce/zorder.h"

// ---- what is watched: every way to memory, on a thread while it is inside the library
static thread_local bool t_inside;
static thread_local uint64_t t_asked;
static thread_local size_t t_size;
static std::atomic<uint64_t> g_calls; // all calls seen anywhere, so that a monitor which sees nothing is noticed
static inline void asked(size_t n)
{
    g_calls.fetch_add(1, std::memory_order_relaxed);
    if (t_inside) ++t_asked, t_size = n;
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define G05_SAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define G05_SAN 1
#endif
#ifdef G05_SAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(volatile void const*, size_t), void (*)(volatile void const*));
extern "C" void __sanitizer_set_report_fd(void*);
static void on_malloc(volatile void const*, size_t n) { asked(n); }
static void on_free(volatile void const*) { asked(0); }
#else
extern "C"
{
    void* __libc_malloc(size_t);
    void* __libc_calloc(size_t, size_t);
    void* __libc_realloc(void*, size_t);
    void* __libc_memalign(size_t, size_t);
    void __libc_free(void*);
    void* malloc(size_t n) noexcept { asked(n); return __libc_malloc(n); }
    void* calloc(size_t n, size_t m) noexcept { asked(n * m); return __libc_calloc(n, m); }
    void* realloc(void* p, size_t n) noexcept { asked(n); return __libc_realloc(p, n); }
    void free(void* p) noexcept { if (p) asked(0); __libc_free(p); }
    void* memalign(size_t a, size_t n) noexcept { asked(n); return __libc_memalign(a, n); }
    void* aligned_alloc(size_t a, size_t n) noexcept { asked(n); return __libc_memalign(a, n); }
    int posix_memalign(void** p, size_t a, size_t n) noexcept { asked(n); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}
#endif

// ---- what work.h asks of the program: the library's own services are used, time passes by itself
extern "C" unsigned long long w_heard() { return 0; }
extern "C" void w_pass(unsigned long long) { }
static void no_break() { }
#define W_sort
#define W_zorder
#define W_pool
#define W_dictionary
#define W_lziii
#define W_nameof
#define W_math
#define W_cdt
#define W_io
#define W_clock
#define W_SEED 5
#include "work.h"

static int g_null = -1, g_err = -1;

// the thread's state around a piece of work
struct Watch
{
    uint64_t asked_before = 0;
    unsigned csr = 0;
    int err = 0;
    uint64_t asked_in = 0;
    bool csr_same = true, err_same = true;
    void enter(int e)
    {
        err = e;
        csr = _mm_getcsr() & 0xffc0u; // the masks, the rounding and the flushing, not the flags
        asked_before = t_asked;
        errno = e;
        t_inside = true;
    }
    void leave()
    {
        t_inside = false;
        err_same = errno == err;
        csr_same = (_mm_getcsr() & 0xffc0u) == csr;
        asked_in = t_asked - asked_before;
    }
};
template<class F> static void watched(Case& c, char const* name, bool services, F const& f)
{
    Watch w;
    w.enter(7777);
    f();
    w.leave();
    c.ev();
    c.count("watched");
    c.cover("kinds_of_work", kit::hash_bytes(name, strlen(name)));
    if (w.asked_in) c.fail("memory", "%s asked for memory or gave it back %lu times (last %zu bytes)", name, (unsigned long)w.asked_in, t_size);
    if (!w.err_same && !services) c.fail("errno", "%s changed errno", name);
    if (!w.csr_same) c.fail("rounding", "%s changed how the thread rounds", name);
}

// ---- how deep a piece of work goes into a stack of its own
struct Deep { void (*run)(void*); void* with; uint64_t asked; bool err, csr; };
static void* deep(void* p)
{
    auto d = static_cast<Deep*>(p);
    Watch w;
    w.enter(7777);
    d->run(d->with);
    w.leave();
    d->asked = w.asked_in, d->err = w.err_same, d->csr = w.csr_same;
    return nullptr;
}
enum : size_t { STACK = 8u << 20 };
template<class F> static size_t depth(F& f, Deep& d)
{
    static unsigned char* stack = nullptr;
    if (!stack) stack = static_cast<unsigned char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    static size_t dirty = 0; // from here on
    memset(stack + dirty, 0, STACK - dirty);
    d = Deep{ [](void* p) { (*static_cast<F*>(p))(); }, &f, 0, true, true };
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, stack, STACK);
    pthread_t t;
    if (pthread_create(&t, &a, deep, &d)) abort();
    pthread_join(t, nullptr);
    pthread_attr_destroy(&a);
    size_t n = 0;
    while (n < STACK && stack[n] == 0) ++n;
    dirty = n & ~size_t(4095);
    return STACK - n;
}
static size_t g_idle = 0;
template<class F> static void sized(Case& c, char const* name, size_t n, F f)
{
    Deep d;
#ifdef G05_SAN
    d = Deep{ [](void* p) { (*static_cast<F*>(p))(); }, &f, 0, true, true };
    deep(&d);
    size_t used = 0;
#else
    auto nothing = [] { };
    if (!g_idle) g_idle = depth(nothing, d);
    size_t used = depth(f, d);
    used = used > g_idle ? used - g_idle : 0;
#endif
    c.ev();
    c.count("sized");
    c.cover("kinds_of_sized", kit::hash_bytes(name, strlen(name)));
    c.cover("stack_kb", used >> 10);
    if (getenv("G05_SHOW")) fprintf(stderr, "%s of %zu: %zu bytes of stack\n", name, n, used);
    // a mesh turns edge after edge, of which it has 24576 at most, and fills with a stack of its own
    size_t most = strncmp(name, "mesh", 4) ? 16384 : strcmp(name, "mesh fill") ? 4u << 20 : 65536;
    if (used > most) c.fail("stack", "%s of %zu used %zu bytes of stack", name, n, used);
    if (d.asked) c.fail("memory", "%s of %zu asked for memory or gave it back %lu times", name, n, (unsigned long)d.asked);
    if (!d.err) c.fail("errno", "%s of %zu changed errno", name, n);
    if (!d.csr) c.fail("rounding", "%s of %zu changed how the thread rounds", name, n);
    c.distinct(kit::hash_bytes(name, strlen(name), n));
}

struct Quiet // what goes to the debugger
{
    Quiet() { dup2(g_null, 2); }
    ~Quiet() { dup2(g_err, 2); }
};

struct Elem { uint32_t key; uint32_t with; bool operator<(Elem const& o) const { return key < o.key; } };
static size_t some(Case& c, unsigned bits) { return size_t(c.rng.wide(bits)) + 1; }

static void large(Case& c)
{
    // memory for the workloads is asked for outside
    switch (c.index % 12)
    {
    case 0: case 1: case 2:
    {
        size_t n = some(c, 18);
        std::vector<Elem> v(n), w;
        unsigned shape = unsigned(c.rng.below(7));
        uint32_t m = uint32_t(c.rng.wide(32)) | 1;
        for (size_t i = 0; i < n; ++i)
        {
            uint32_t k = uint32_t(i);
            switch (shape) { case 0: break; case 1: k = uint32_t(n - i); break; case 2: k = 7; break; case 3: k = uint32_t(i < n / 2 ? i : n - i); break; case 4: k = uint32_t(i * 7919 % 11); break; default: k = uint32_t(c.rng.next()) % m; }
            v[i] = { k, uint32_t(i) };
        }
        w = v;
        sized(c, "intro_sort", n, [&] { ce::intro_sort(v.data(), v.data() + n); });
        v = w;
        sized(c, "intro_sort<2>", n, [&] { ce::intro_sort<2>(v.data(), v.data() + n); });
        v = w;
        sized(c, "heap_sort", n, [&] { ce::heap_sort(v.data(), v.data() + n); });
        sized(c, "bounds", n, [&] { for (uint32_t i = 0; i < 100; ++i) ce::lower_bound(v.data(), v.data() + n, Elem{ i * 77, 0 }), ce::upper_bound(v.data(), v.data() + n, Elem{ i * 91, 0 }); });
        if (n > 2000) n = 2000;
        v.assign(w.begin(), w.begin() + ptrdiff_t(n));
        sized(c, "insertion_sort", n, [&] { ce::insertion_sort(v.data(), v.data() + n); });
        break;
    }
    case 3:
    {
        size_t n = some(c, 20);
        std::vector<uint8_t> b(n);
        for (auto& x : b) x = uint8_t(c.rng.next());
        volatile uint64_t sink = 0;
        sized(c, "crc32", n, [&] { sink = sink + uint32_t(ce::crc32(ce::crc32c_t::initial, n, b.data())); });
        sized(c, "fnv1a", n, [&] { sink = sink + ce::hash::fnv1a64(n, b.data()) + ce::hash::fnv1a32(n, b.data()); });
        std::string t;
        for (size_t i = 0; i < n; ++i) t += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[b[i] & 63];
        size_t size = 0;
        sized(c, "base64 size", n, [&] { size = ce::base64::size(t.c_str()); });
        std::vector<uint8_t> d(size + 1);
        sized(c, "base64 decode", n, [&] { ce::base64::decode(size, d.data(), t.c_str()); });
        break;
    }
    case 4:
    {
        // an LZ stream with spans of everything before
        size_t have = 0, groups = some(c, 13);
        std::vector<uint8_t> e;
        for (size_t g = 0; g < groups; ++g)
        {
            unsigned ctl = unsigned(c.rng.below(256)) | (have == 0);
            e.push_back(uint8_t(ctl));
            for (int k = 0; k < 8; ++k, ctl /= 2)
                if (ctl % 2) e.push_back(uint8_t(c.rng.next())), ++have;
                else
                {
                    unsigned o = 4096 - unsigned(1 + c.rng.below(have < 4096 ? have : 4096)), l = unsigned(c.rng.below(16));
                    e.push_back(uint8_t(o)), e.push_back(uint8_t(l * 16 + o / 256)), have += l + 3;
                }
        }
        size_t size = 0;
        sized(c, "lziii size", e.size(), [&] { size = ce::lziii::size(e.size(), e.data()); });
        std::vector<uint8_t> d(size);
        if (size == have) sized(c, "lziii decode", size, [&] { ce::lziii::decode(size, d.data(), e.data()); });
        break;
    }
    case 5:
    {
        size_t n = some(c, 14);
        std::vector<ce::vec2<int32_t>> ps(n);
        for (auto& p : ps) p = { int32_t(c.rng.range(-1000000, 1000000)), int32_t(c.rng.range(-1000000, 1000000)) };
        volatile int64_t sink = 0;
        sized(c, "in_polygon", n, [&] { for (int i = 0; i < 20; ++i) sink = sink + ce::in_polygon(ce::vec2<int32_t>{ i * 1000, -i }, n, ps.data()); });
        break;
    }
    case 6: case 7:
    {
        typedef ce::cdt<6, 8192> M;
        static M& m = *new M;
        size_t n = 1 + c.rng.below(8000);
        int32_t span = 1 << c.rng.range(10, 19);
        std::vector<ce::vec2<int32_t>> ps(n), qs(n);
        unsigned shape = unsigned(c.rng.below(4));
        for (size_t i = 0; i < n; ++i)
        {
            auto co = [&] { return int32_t(c.rng.range(-span, span)) & ~127; };
            switch (shape)
            {
            case 0: ps[i] = { co(), co() }; break;
            case 1: ps[i] = { int32_t(i) * 128, int32_t(i * i % 4099) * 128 }; break; // long fans
            case 2: ps[i] = { co(), co() % 512 }; break;                             // slivers
            default: ps[i] = { int32_t(i % 90) * 256, int32_t(i / 90) * 256 }; break;  // a lattice
            }
            qs[i] = { co(), co() };
        }
        sized(c, "mesh points", n, [&] { m.reset(); uint32_t h = 0; for (auto& p : ps) m.insert_point(p, h), h = m.locate(p, h); });
        sized(c, "mesh locate", n, [&] { for (size_t i = 0; i < n && i < 300; ++i) m.locate(qs[i], 0); });
        sized(c, "mesh edges", n, [&] { for (size_t i = 1; i < n && i < 60; ++i) m.insert_edge(i % 2 ? qs[i - 1] : ps[i - 1], i % 2 ? qs[i] : ps[i], 0); });
        sized(c, "mesh fill", n, [&] { m.fill(m.locate(qs[0], 0), 3); });
        volatile uint32_t sink = 0;
        sized(c, "mesh faces", n, [&] { for (auto f : m.faces()) sink = sink + f.data; });
        break;
    }
    case 8:
    {
        typedef ce::pool<60000, uint64_t> P;
        static P& p = *new P;
        P::queue_t q;
        size_t n = some(c, 16);
        sized(c, "pool", n, [&] { p.reset(); for (size_t i = 0; i < n; ++i) i % 3 ? p.append_tail(q, i) : p.insert_head(q, i); while (!p.is_empty(q)) p.remove_head(q); });
        typedef ce::min_priority_queue<70000, uint64_t> Q;
        static Q& h = *new Q{ };
        uint64_t s = c.rng.next();
        sized(c, "priority queue", n, [&] { for (size_t i = 0; i < n; ++i) h.enqueue(kit::mix(s + i) >> 40); while (!h.empty()) h.dequeue(); });
        typedef ce::bitset<500000> B;
        static B& b = *new B;
        sized(c, "bitset", n, [&] { b.reset(); for (size_t i = 0; i < n; ++i) b.set(i * 7), b.reset(i * 5); b.set(); });
        break;
    }
    case 9:
    {
        typedef ce::bulk<70000, Elem> L;
        static L &a = *new L, &b = *new L;
        size_t n = some(c, 16);
        sized(c, "bulk", n, [&] { a.clear(); for (size_t i = 0; i < n; ++i) a.append(uint32_t(i), 1u); b = a; for (int i = 0; i < 3; ++i) b.template remove_at<true>(0), b.remove_at(1); a.append_n(5); a.resize(n / 2); });
        sized(c, "bulk copied", n, [&] { ::new (static_cast<void*>(&a)) L(b); });
        typedef ce::dictionary<3000, Elem, uint32_t> D;
        static D& d = *new D{ };
        sized(c, "dictionary", n, [&] { d.size = 0; for (uint32_t i = 0; i < n && i < 2900; ++i) d.bind(i * 77 + 1, i, 2u); for (uint32_t i = 0; i < 300; ++i) d.find(i * 91); });
        break;
    }
    case 10:
    {
        size_t n = some(c, 17);
        std::vector<uint64_t> z(n), out(n);
        for (auto& x : z) x = c.rng.next();
        std::sort(z.begin(), z.end());
        sized(c, "z_query", n, [&] { for (int i = 0; i < 5; ++i) ce::z_query(out.data(), ce::z_encode(-100000000 * i, -5), ce::z_encode(90000000, 1 << (20 + i)), n, z.data()); });
        break;
    }
    default:
    {
        char t[4000];
        size_t n = 1 + c.rng.below(200);
        std::string s(n, 'x');
        double v[9];
        for (auto& x : v) { uint64_t b = c.rng.next(); memcpy(&x, &b, 8); }
        sized(c, "to_text", n, [&] { char* e = ce::to_text(t, s.c_str(), 123, ' ', -5ll, v[0], ' ', float(v[1]), true, nullptr); for (auto x : v) e = ce::to_text(e, x), e = ce::to_text(e, float(x)); *e = 0; });
        sized(c, "as_string", n, [&] { ce::as_string a{ s.c_str(), 1, 2, 3, v[2], ' ', 4.5f }; (void)a; });
        Quiet quiet;
        int a = 1, b = 2, k = 3;
        sized(c, "log", n, [&] { CE_LOG(info, a, b, k, v[0], a + b, b + k, s.c_str(), v[1], v[2]); CE_LOG_MSG(warn, "text ", s.c_str(), a); });
        sized(c, "failed", n, [&] { CE_ASSERT(a == b, a, b, v[0]); (void)CE_VERIFY(a == k, "more", k); CE_ERROR(a); });
        break;
    }
    }
}

static void threads(Case& c)
{
    static kit::Team* teams[5];
    int n = int(c.rng.range(2, 4));
    if (!teams[n]) teams[n] = new kit::Team(n);
    static ce::thread_mutex m;
    static ce::thread_shared_mutex s;
    static ce::atomic<int> i32;
    static ce::atomic<double> f64;
    static int plain = 0;
    uint64_t in[4] = { };
    bool kept[4];
    {
        Watch w;
        w.enter(7777);
        ce::construct_mutex(m), ce::construct_mutex(s);
        w.leave();
        if (w.asked_in) c.fail("memory", "a mutex asked for memory");
    }
    ce::atomic_store(i32, 0), ce::atomic_store(f64, 0.0);
    plain = 0;
    teams[n]->run([&](int t)
    {
        Watch w;
        w.enter(7777);
        for (int i = 0; i < 300; ++i)
        {
            ce::acquire_mutex(m), ++plain, ce::release_mutex(m);
            if (ce::try_acquire_mutex(m)) ++plain, ce::release_mutex(m);
            ce::acquire_mutex_shared(s), ce::release_mutex_shared(s);
            if (i % 8 == 0) ce::acquire_mutex(s), ce::release_mutex(s);
            if (ce::try_acquire_mutex_shared(s)) ce::release_mutex_shared(s);
            if (ce::try_acquire_mutex(s)) ce::release_mutex(s);
            ce::atomic_fetch_add(i32, 1), ce::atomic_fetch_add(f64, 1.0), ce::atomic_load(f64), ce::atomic_exchange(i32, i);
            double d = 0;
            ce::atomic_compare_exchange(f64, d, 2.0);
        }
        w.leave();
        in[t] = w.asked_in, kept[t] = w.csr_same && w.err_same;
    });
    {
        Watch w;
        w.enter(7777);
        ce::destroy_mutex(m), ce::destroy_mutex(s);
        w.leave();
        if (w.asked_in) c.fail("memory", "a mutex gave memory back");
    }
    for (int t = 0; t < n; ++t)
    {
        c.ev();
        if (in[t]) c.fail("memory", "thread %d of %d: mutexes or atomics asked for memory %lu times", t, n, (unsigned long)in[t]);
        if (!kept[t]) c.fail("errno", "thread %d of %d: mutexes or atomics changed errno or the rounding", t, n);
    }
    c.count("threads", uint64_t(n));
    c.distinct(c.rng.next());
}

void kit_main(kit::K& k)
{
#ifdef G05_SAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    g_null = open("/dev/null", O_WRONLY | O_CLOEXEC), g_err = fcntl(2, F_DUPFD_CLOEXEC, 100);
#ifdef G05_SAN
    __sanitizer_set_report_fd(reinterpret_cast<void*>(intptr_t(g_err)));
#endif
    kit::g_break = no_break;
    // the monitors see what they are to see
    k.section_exact("monitors", 1, [](Case& c)
    {
        uint64_t before = t_asked;
        t_inside = true;
        int* volatile i = new int(5);
        void* volatile m = malloc(100);
        delete i;
        free(m);
        t_inside = false;
        if (t_asked < before + 4) c.fail("monitor", "the allocator's calls are not seen");
#ifndef G05_SAN
        Deep d;
        auto big = [] { volatile char x[100000]; for (auto& b : x) b = 1; };
        auto none = [] { };
        size_t a = depth(none, d), b = depth(big, d);
        if (b < a + 90000 || b > a + 120000) c.fail("monitor", "the depth of the stack is not measured: %zu, %zu", a, b);
#endif
        c.ev(2);
        c.distinct(1);
    });
    k.section("work", 400 * k.pick(1, 10), [](Case& c)
    {
        uint64_t from = c.rng.next();
        for (auto& i : work::items)
        {
            uint64_t h = 0;
            {
                Quiet quiet;
                bool services = !strcmp(i.name, "checks") || !strcmp(i.name, "ticks");
                watched(c, i.name, services, [&] { h = i.run(from); });
            }
            c.distinct(kit::hash_bytes(i.name, strlen(i.name), from) ^ h);
        }
    });
    k.section("sized", 240 * k.pick(1, 10), large);
    k.section("threads", 60 * k.pick(1, 10), threads);
    k.section("services", 60 * k.pick(1, 5), [](Case& c)
    {
        Quiet quiet;
        char path[64];
        snprintf(path, sizeof path, "/no/such/place/%d", int(c.rng.below(1000)));
        uint64_t ns = c.rng.wide(18);
        watched(c, "services", true, [&]
        {
            ce::span<ce::uint8_t const> s{ 5, nullptr };
            ce::os::file_t f{ };
            ce::os::map_span(s, path), ce::os::unmap_span(s), ce::os::open_file(f, path), ce::os::close_file(f);
            ce::os::virtual_alloc(0);
            ce::os::sleep_ns(ns);
            ce::os::monotonic_timestamp(), ce::os::monotonic_frequency();
            ce::os::debug_out("text"), ce::os::debug_out(path);
        });
        c.distinct(ns);
    });
}
