// Monitoring kit: deterministic case generation, crash/hang attribution, oracle verdicts, counters.
//
// A harness defines   void kit_main(kit::K& k)   and calls
//     k.section("name", base_count, [&](kit::Case& c) { ... });
// Every case gets its own generator derived from (seed, section, index), so one case replays
// alone with --only NAME:INDEX. The case being executed is kept in a shared file mapping, so the
// runner knows which case a sanitizer abort, a signal or a hang belongs to.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <atomic>

namespace kit
{
    inline uint64_t mix(uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }

    inline uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 0x1234567)
    {
        auto b = static_cast<unsigned char const*>(p);
        for (size_t i = 0; i < n; ++i)
            h = mix(h ^ b[i]);
        return mix(h ^ n);
    }

    // splitmix64: independent of the generators under test
    struct Rng
    {
        uint64_t s;
        uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
        uint32_t u32() { return uint32_t(next() >> 32); }
        // [0, n)
        uint64_t below(uint64_t n) { return n ? uint64_t((unsigned __int128)(next()) * n >> 64) : 0; }
        // [lo, hi]
        int64_t range(int64_t lo, int64_t hi) { return int64_t(uint64_t(lo) + below(uint64_t(hi) - uint64_t(lo) + 1)); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        // integers of every magnitude, with the edges over represented
        uint64_t wide(unsigned bits)
        {
            unsigned k = unsigned(below(bits + 1));
            uint64_t v = k == 0 ? 0 : next() >> (64 - k);
            switch (below(6))
            {
            case 0: v = k == 64 ? ~0ull : (1ull << k); break;
            case 1: v = (k == 64 ? 0 : (1ull << k)) - 1; break;
            case 2: v = (k == 64 ? 0 : (1ull << k)) + 1; break;
            default: break;
            }
            return bits == 64 ? v : v & ((1ull << bits) - 1);
        }
        int64_t swide(unsigned bits) // signed in [-(2^(bits-1)), 2^(bits-1) - 1]
        {
            uint64_t v = wide(bits);
            if (bits < 64 && (v >> (bits - 1) & 1))
                v |= ~0ull << bits;
            int64_t r = int64_t(v);
            if (chance(1, 2) && r != INT64_MIN && !(bits < 64 && r == -(int64_t(1) << (bits - 1))))
                r = -r;
            return r;
        }
        // two long vectors (|component| < 2^bits) whose cross product ax * by - ay * bx is small: 0 or a few units
        struct Thin { int64_t ax, ay, bx, by; };
        Thin thin(unsigned bits)
        {
            int64_t m = int64_t(1) << bits, x = range(m / 2, m - 1), y = range(1, m - 1);
            // the extended Euclidean algorithm: x * v - y * u = g
            int64_t r0 = x, r1 = y, s0 = 1, s1 = 0, t0 = 0, t1 = 1;
            while (r1 != 0) { int64_t q = r0 / r1, t; t = r0 - q * r1, r0 = r1, r1 = t; t = s0 - q * s1, s0 = s1, s1 = t; t = t0 - q * t1, t0 = t1, t1 = t; }
            Thin o{ x / r0, y / r0, -t0, s0 }; // x / g * s0 + y / g * t0 = 1, so (x, y) / g cross (-t0, s0) = 1
            int64_t k = range(-2, 2); // the cross product
            o.bx *= k, o.by *= k;
            // as long as fits, in either direction
            int64_t n = chance(1, 2) ? 1 : -1;
            while (range(0, 7)) { int64_t bx = o.bx + n * o.ax, by = o.by + n * o.ay; if (bx >= m || bx <= -m || by >= m || by <= -m) break; o.bx = bx, o.by = by; }
            if (o.bx >= m || o.bx <= -m || o.by >= m || o.by <= -m) o.bx = -o.ax, o.by = -o.ay;
            if (chance(1, 2)) o.ax = -o.ax, o.bx = -o.bx;
            if (chance(1, 2)) o.ay = -o.ay, o.by = -o.by;
            if (chance(1, 2)) std::swap(o.ax, o.ay), std::swap(o.bx, o.by);
            return o;
        }
        template<class T, size_t N> T const& pick(T const (&a)[N]) { return a[below(N)]; }
        template<class V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
    };

    struct K;

    struct Case
    {
        K& k;
        char const* section;
        uint64_t index;
        Rng rng;
        bool failed = false;

        // an oracle refuted the property; `key` classifies the failure (it is what known findings match)
        void fail(char const* key, char const* fmt, ...) __attribute__((format(printf, 3, 4)));
        // a distinct, non trivial observation (deduplicated by hash)
        void distinct(uint64_t h);
        void sample(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
        void ev(uint64_t n = 1);
        void count(char const* name, uint64_t n = 1);
        // bucketed coverage: number of different `bucket`s seen for `name`
        void cover(char const* name, uint64_t bucket);
        void digest(uint64_t v);
    };

    struct K
    {
        uint64_t seed = 1;
        bool thorough = false;
        double scale = 1;
        std::string only_section;
        int64_t only_index = -1;
        uint64_t shard = 0, shards = 1; // this process runs the cases with index % shards == shard

        void section(char const* name, uint64_t base, std::function<void(Case&)> const& f);
        // exact number of cases, not scaled
        void section_exact(char const* name, uint64_t n, std::function<void(Case&)> const& f) { run_section(name, n, f); }
        uint64_t pick(uint64_t quick, uint64_t thorough_n) const { return thorough ? thorough_n : quick; }

        void run_section(char const* name, uint64_t n, std::function<void(Case&)> const& f);

        struct Failure { std::string key, section, detail; uint64_t index; };
        std::vector<Failure> failures;
        std::map<std::string, uint64_t> fail_counts;
        std::map<std::string, uint64_t> counters;
        std::map<std::string, std::unordered_set<uint64_t>> covers;
        std::unordered_set<uint64_t> seen;
        bool seen_full = false;
        std::vector<std::string> samples;
        std::map<std::string, int> sample_counts;
        std::map<std::string, uint64_t> section_cases;
        uint64_t evaluations = 0;
        uint64_t digest = 0;
        std::vector<std::string> notes;
    };

    // number of failed library assertions since start; what = last one
    extern std::atomic<long> g_asserts;
    extern char g_assert_text[512];
    // when set, a harness takes failed assertions / logs / traps over
    extern bool (*g_error)(int, int, char const* argv[][2]);
    extern void (*g_log)(int, int, char const* argv[][2]);
    extern void (*g_break)();

    std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
    std::string quote(void const* p, size_t n);
    inline std::string quote(std::string const& s) { return quote(s.data(), s.size()); }
}

void kit_main(kit::K& k);

// a type ordered by < alone is not all a user may have
#define KIT_ORDERED(T)                                                            \
    [[maybe_unused]] static inline bool operator>(T const& a, T const& b) { return b < a; }        \
    [[maybe_unused]] static inline bool operator<=(T const& a, T const& b) { return !(b < a); }    \
    [[maybe_unused]] static inline bool operator>=(T const& a, T const& b) { return !(a < b); }

namespace kit
{
    // builds fast enough for work on more than 2^32 elements
#if defined(__clang__) && defined(__OPTIMIZE__)
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
    constexpr bool swift = true;
#else
    constexpr bool swift = false;
#endif
#else
    constexpr bool swift = false;
#endif

    // address space of `n` bytes, zero, ending at a page nobody may touch; only what is written takes memory. With `period` (whole pages)
    // the same bytes come again after each so many: those of `fill`, or, without, whatever is written to any of them.
    struct Vast
    {
        char* base;
        size_t all, n;
        explicit Vast(size_t n, size_t period = 0, void const* fill = nullptr) : base(nullptr), all(((n + 4095) / 4096 + 2) * 4096), n(n)
        {
            void* p = mmap(nullptr, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) return;
            base = static_cast<char*>(p);
            if (!period)
            {
                if (mprotect(base + 4096, all - 8192, PROT_READ | PROT_WRITE)) drop();
                return;
            }
            int fd = memfd_create("vast", 0);
            bool good = fd >= 0 && ftruncate(fd, off_t(period)) == 0;
            for (size_t done = 0; good && fill && done < period;)
            {
                ssize_t w = pwrite(fd, static_cast<char const*>(fill) + done, period - done, off_t(done));
                good = w > 0;
                if (good) done += size_t(w);
            }
            for (size_t i = 4096; good && i < all - 4096; i += period)
                good = mmap(base + i, std::min(period, all - 4096 - i), PROT_READ | PROT_WRITE, (fill ? MAP_PRIVATE : MAP_SHARED) | MAP_FIXED, fd, 0) != MAP_FAILED;
            if (fd >= 0) close(fd);
            if (!good) drop();
        }
        Vast(Vast const&) = delete;
        void drop() { munmap(base, all); base = nullptr; }
        ~Vast() { if (base) drop(); }
        // null when the system has no room
        template<class T> T* at() const { return base ? reinterpret_cast<T*>(base + all - 4096 - n) : nullptr; }
        // where a period begins
        template<class T> T* start() const { return base ? reinterpret_cast<T*>(base + 4096) : nullptr; }
    };
}
