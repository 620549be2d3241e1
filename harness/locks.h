// Monitors for both kinds of mutex.
#pragma once
#include "kit.h"
#include "team.h"
#include "ce/mutex.h"
#include <unistd.h>

namespace locks
{
    using kit::Case;
    enum { FREE = 0 };

    template<class M> struct Traits;
    template<> struct Traits<ce::thread_mutex>
    {
        static constexpr bool shared = false;
        static bool try_shared(ce::thread_mutex&) { return false; }
        static void lock_shared(ce::thread_mutex&) {}
        static void unlock_shared(ce::thread_mutex&) {}
    };
    template<> struct Traits<ce::thread_shared_mutex>
    {
        static constexpr bool shared = true;
        static bool try_shared(ce::thread_shared_mutex& m) { return ce::try_acquire_mutex_shared(m); }
        static void lock_shared(ce::thread_shared_mutex& m) { ce::acquire_mutex_shared(m); }
        static void unlock_shared(ce::thread_shared_mutex& m) { ce::release_mutex_shared(m); }
    };

    // mutexes next to each other in exactly sized memory of any content
    template<class M> struct Row
    {
        M* m;
        int n;
        Row(Case& c, int n) : n(n)
        {
            m = static_cast<M*>(malloc(sizeof(M) * size_t(n)));
            memset(static_cast<void*>(m), int(c.rng.below(256)), sizeof(M) * size_t(n));
            for (int i = 0; i < n; ++i) ce::construct_mutex(m[i]);
        }
        ~Row()
        {
            for (int i = 0; i < n; ++i) ce::destroy_mutex(m[i]);
            free(m);
        }
    };

    inline kit::Puppets& puppets(int n)
    {
        static kit::Puppets* p[9];
        if (!p[n]) p[n] = new kit::Puppets(n);
        return *p[n];
    }
    inline kit::Team& team(int n)
    {
        static kit::Team* p[9];
        if (!p[n]) p[n] = new kit::Team(n);
        return *p[n];
    }

    // one operation at a time, whose outcome the holders decide exactly
    template<class M> void directed(Case& c)
    {
        typedef Traits<M> T;
        const int threads = int(c.rng.range(1, 4)), n = int(c.rng.range(1, 4));
        auto& ps = puppets(threads);
        Row<M> row(c, n);
        struct State { int writer = -1; int readers[4] = {}; int shared() const { return readers[0] + readers[1] + readers[2] + readers[3]; } };
        std::vector<State> st(static_cast<size_t>(n));
        auto free_all = [&]
        {
            for (int i = 0; i < n; ++i)
            {
                if (st[size_t(i)].writer >= 0) { M* m = row.m + i; ps.call(st[size_t(i)].writer, [m] { ce::release_mutex(*m); }); }
                for (int t = 0; t < 4; ++t) for (; st[size_t(i)].readers[t] > 0; --st[size_t(i)].readers[t]) { M* m = row.m + i; ps.call(t, [m] { T::unlock_shared(*m); }); }
            }
        };
        for (int step = 0; step < 60; ++step)
        {
            int t = int(c.rng.below(uint64_t(threads))), i = int(c.rng.below(uint64_t(n)));
            State& s = st[size_t(i)];
            M* m = row.m + i;
            bool mine = s.writer == t || s.readers[t] > 0;
            bool can_write = s.writer < 0 && s.shared() == 0, can_read = s.writer < 0;
            int what = int(c.rng.below(T::shared ? 6 : 3));
            bool got = false, back = true;
            // not reentrant: a holder only releases
            if (mine)
            {
                if (!c.rng.chance(1, 2)) continue;
                if (s.writer == t) { back = ps.call(t, [m] { ce::release_mutex(*m); }); s.writer = -1; c.count("released"); }
                else { back = ps.call(t, [m] { T::unlock_shared(*m); }); --s.readers[t]; c.count("released_shared"); }
                c.ev();
                if (!back) { c.fail("blocked", "a release does not return"); _exit(0x4b); }
                continue;
            }
            // blocking only where nothing blocks, and in one order of the mutexes
            bool above = true;
            for (int j = i; j < n; ++j) above &= st[size_t(j)].writer != t && st[size_t(j)].readers[t] == 0;
            char const* name = "";
            bool want = false;
            switch (what)
            {
            case 0: case 1: name = "try_acquire"; want = can_write; back = ps.call(t, [m, &got] { got = ce::try_acquire_mutex(*m); }); if (got) s.writer = t; break;
            case 2: if (!can_write || !above) continue; name = "acquire"; want = got = true; back = ps.call(t, [m] { ce::acquire_mutex(*m); }); s.writer = t; break;
            case 3: case 4: name = "try_acquire_shared"; want = can_read; back = ps.call(t, [m, &got] { got = T::try_shared(*m); }); if (got) s.readers[t] = 1; break;
            default: if (!can_read || !above) continue; name = "acquire_shared"; want = got = true; back = ps.call(t, [m] { T::lock_shared(*m); }); s.readers[t] = 1; break;
            }
            c.ev();
            c.count(kit::fmt("%s_%s", name, want ? "free" : "held").c_str());
            if (!back)
            {
                c.fail("blocked", "%s by thread %d on mutex %d of %d does not return (writer %d, %d readers)", name, t, i, n, s.writer, s.shared());
                fflush(stderr);
                _exit(0x4b); // the thread cannot be had back
            }
            if (got != want)
            {
                c.fail("try", "%s by thread %d of %d on mutex %d of %d gives %d with writer %d and %d readers (step %d)", name, t, threads, i, n, got, s.writer, s.shared(), step);
                return free_all();
            }
            c.cover("situations", uint64_t(what) * 64 + uint64_t(s.writer >= 0) * 32 + uint64_t(s.shared()) * 4 + uint64_t(n - 1));
            c.distinct(kit::mix(c.index * 64 + uint64_t(step)));
        }
        free_all();
    }

    // who waits gets it, not before, and not never
    template<class M> void waiting(Case& c)
    {
        typedef Traits<M> T;
        auto& ps = puppets(4);
        Row<M> row(c, 1);
        M* m = row.m;
        struct alignas(64) { std::atomic<int> writers{ 0 }; std::atomic<int> readers{ 0 }; std::atomic<int> wrong{ 0 }; } in;
        bool first_shared = T::shared && c.rng.chance(1, 2);
        ps.call(0, [&] { if (first_shared) T::lock_shared(*m), in.readers++; else ce::acquire_mutex(*m), in.writers++; });
        int others = int(c.rng.range(1, 3));
        bool reads[4] = {};
        for (int t = 1; t <= others; ++t)
        {
            reads[t] = T::shared && c.rng.chance(1, 2);
            bool r = reads[t];
            ps.ask(t, [&in, m, r]
            {
                if (r)
                {
                    T::lock_shared(*m);
                    in.readers++;
                    if (in.writers.load() != 0) in.wrong++;
                    in.readers--;
                    T::unlock_shared(*m);
                }
                else
                {
                    ce::acquire_mutex(*m);
                    if (in.writers.fetch_add(1) != 0 || in.readers.load() != 0) in.wrong++;
                    in.writers--;
                    ce::release_mutex(*m);
                }
            });
        }
        // readers behind a reader alone come in while it stays (other than behind a waiting writer, which may be let in first)
        bool only_readers = first_shared;
        for (int t = 1; t <= others; ++t) only_readers &= reads[t];
        if (only_readers)
        {
            for (int t = 1; t <= others; ++t)
                if (!ps.wait(t)) { c.fail("readers-exclude", "a shared acquire does not return while only readers hold the mutex"); fflush(stderr); _exit(0x4b); }
            c.count("readers_together");
        }
        else
        {
            timespec ts{ 0, long(c.rng.below(200000)) };
            nanosleep(&ts, nullptr);
        }
        // those excluded must not have got in
        for (int t = 1; t <= others; ++t)
            if ((!first_shared || !reads[t]) && ps.finished(t)) c.fail("two-holders", "a thread acquired and released a mutex while another held it (%s)", first_shared ? "shared" : "exclusively");
        ps.call(0, [&] { if (first_shared) in.readers--, T::unlock_shared(*m); else in.writers--, ce::release_mutex(*m); });
        for (int t = 1; t <= others; ++t)
            if (!ps.wait(t)) { c.fail("never", "a waiting thread does not get the mutex after its release"); fflush(stderr); _exit(0x4b); }
        c.ev(uint64_t(others));
        c.count("waited", uint64_t(others));
        if (in.wrong.load()) c.fail("two-holders", "%d times a holder met another", in.wrong.load());
        bool got = false;
        ps.call(0, [&] { got = ce::try_acquire_mutex(*m); if (got) ce::release_mutex(*m); });
        if (!got) c.fail("try", "the mutex is not free in the end");
        c.distinct(kit::mix(c.index * 3 + 1));
    }

    // everyone at once: plain data under the lock (the race detector watches it) and a count of holders
    template<class M> void crowd(Case& c)
    {
        typedef Traits<M> T;
        int n = int(c.rng.range(2, 6)), locks = int(c.rng.range(1, 3));
        auto& tm = team(n);
        Row<M> row(c, locks);
        const int per = int(c.k.pick(600, 3000));
        struct alignas(128) Data { uint64_t a = 0, b = 0; std::atomic<int> writers{ 0 }, readers{ 0 }; };
        std::vector<std::unique_ptr<Data>> d;
        for (int i = 0; i < locks; ++i) d.emplace_back(new Data);
        struct alignas(128) Mine { uint64_t writes[3] = {}, reads = 0, refused = 0, wrong = 0, together = 0; };
        std::vector<std::unique_ptr<Mine>> mine;
        std::vector<kit::Rng> rng;
        for (int i = 0; i < n; ++i) mine.emplace_back(new Mine), rng.push_back(kit::Rng{ c.rng.next() });
        unsigned writers = unsigned(c.rng.range(1, 4)), inside = unsigned(c.rng.below(30));
        tm.run([&](int t)
        {
            auto& g = rng[size_t(t)];
            auto& me = *mine[size_t(t)];
            for (int k = 0; k < per; ++k)
            {
                size_t i = g.below(uint64_t(locks));
                M& m = row.m[i];
                Data& x = *d[i];
                if (!T::shared || g.chance(writers, 4))
                {
                    if (g.chance(1, 3)) { if (!ce::try_acquire_mutex(m)) { ++me.refused; continue; } }
                    else ce::acquire_mutex(m);
                    if (x.writers.fetch_add(1, std::memory_order_relaxed) != 0 || x.readers.load(std::memory_order_relaxed) != 0) ++me.wrong;
                    if (x.a != x.b) ++me.wrong;
                    ++x.a;
                    kit::jitter(g.below(1 + inside));
                    ++x.b;
                    ++me.writes[i];
                    if (x.readers.load(std::memory_order_relaxed) != 0) ++me.wrong;
                    x.writers.fetch_sub(1, std::memory_order_relaxed);
                    ce::release_mutex(m);
                }
                else
                {
                    if (g.chance(1, 3)) { if (!T::try_shared(m)) { ++me.refused; continue; } }
                    else T::lock_shared(m);
                    if (x.readers.fetch_add(1, std::memory_order_relaxed) != 0) ++me.together;
                    if (x.writers.load(std::memory_order_relaxed) != 0 || x.a != x.b) ++me.wrong;
                    kit::jitter(g.below(1 + inside));
                    if (x.a != x.b) ++me.wrong;
                    ++me.reads;
                    x.readers.fetch_sub(1, std::memory_order_relaxed);
                    T::unlock_shared(m);
                }
            }
        });
        uint64_t wrong = 0, reads = 0, refused = 0, together = 0;
        for (auto& m : mine) wrong += m->wrong, reads += m->reads, refused += m->refused, together += m->together;
        c.ev(uint64_t(per) * uint64_t(n));
        c.count("crowd_refused", refused), c.count("crowd_reads", reads), c.count("crowd_reads_together", together);
        if (wrong) return c.fail("two-holders", "%llu times a holder met another or saw data in between, %d threads on %d mutexes", (unsigned long long)wrong, n, locks);
        for (int i = 0; i < locks; ++i)
        {
            uint64_t w = 0;
            for (auto& m : mine) w += m->writes[i];
            c.count("crowd_writes", w);
            if (d[size_t(i)]->a != w || d[size_t(i)]->b != w) return c.fail("lost-update", "%llu updates under the mutex left a count of %llu", (unsigned long long)w, (unsigned long long)d[size_t(i)]->a);
        }
        c.distinct(kit::mix(c.index * 3 + 2));
    }

    // a mutex is free when constructed, whatever its memory held, over and over in one place; nothing else is touched
    template<class M> void fresh(Case& c)
    {
        typedef Traits<M> T;
        size_t n = size_t(c.rng.range(1, 5));
        std::vector<unsigned char> before(sizeof(M) * n);
        for (auto& b : before) b = uint8_t(c.rng.below(256));
        M* m = static_cast<M*>(malloc(sizeof(M) * n));
        memcpy(static_cast<void*>(m), before.data(), before.size());
        size_t i = c.rng.below(n);
        for (int round = 0; round < 6; ++round)
        {
            ce::construct_mutex(m[i]);
            c.ev();
            bool ok = ce::try_acquire_mutex(m[i]);
            bool again = ok && c.rng.chance(1, 2);
            if (ok) ce::release_mutex(m[i]);
            if (again) ok = ce::try_acquire_mutex(m[i]), ok ? ce::release_mutex(m[i]) : void();
            if (ok && T::shared)
            {
                ok = T::try_shared(m[i]);
                if (ok) T::unlock_shared(m[i]);
                if (ok) T::lock_shared(m[i]), T::unlock_shared(m[i]);
            }
            if (ok) ce::acquire_mutex(m[i]), ce::release_mutex(m[i]);
            if (!ok) { c.fail("fresh", "a fresh mutex in round %d is not free", round); break; }
            ce::destroy_mutex(m[i]);
            auto b = reinterpret_cast<unsigned char*>(m);
            for (size_t j = 0; j < before.size(); ++j)
                if ((j < i * sizeof(M) || j >= (i + 1) * sizeof(M)) && b[j] != before[j]) { c.fail("outside", "byte %zu was written by mutex %zu of %zu bytes", j, i, sizeof(M)); break; }
            memset(static_cast<void*>(m + i), int(c.rng.below(256)), sizeof(M));
        }
        free(m);
        c.distinct(kit::mix(c.index * 3));
    }

    template<class M> void sections(kit::K& k, std::string const& p = "")
    {
        // each only on what the one before found sound: a broken mutex may hang
        k.section((p + "fresh").c_str(), 2000 * k.pick(1, 5), fresh<M>);
        if (k.failures.empty()) k.section((p + "directed").c_str(), 5000 * k.pick(1, 10), directed<M>);
        if (k.failures.empty()) k.section((p + "waiting").c_str(), 4000 * k.pick(1, 10), waiting<M>);
        if (k.failures.empty()) k.section((p + "crowd").c_str(), 200 * k.pick(1, 6), crowd<M>);
        fflush(stderr);
    }
}
