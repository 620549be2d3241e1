// Threads which run rounds together: every round all members start the same function at about the same time.
#pragma once
#include <atomic>
#include <thread>
#include <memory>
#include <time.h>
#include <vector>
#include <functional>
#include <sched.h>

namespace kit
{
    inline void relax(unsigned& n)
    {
        if (++n > 3000) { timespec t{ 0, 100000 }; nanosleep(&t, nullptr); }
        else if (n % 64 == 0) sched_yield();
        else __builtin_ia32_pause();
    }

    struct Team
    {
        int n;
        std::function<void(int)> job;
        std::atomic<uint64_t> round{ 0 };
        std::atomic<int> left{ 0 };
        std::atomic<int> ready{ 0 };
        std::atomic<bool> stop{ false };
        std::vector<std::thread> ts;

        explicit Team(int n) : n(n)
        {
            for (int i = 1; i < n; ++i)
                ts.emplace_back([this, i]
                {
                    uint64_t seen = 0;
                    for (;;)
                    {
                        unsigned s = 0;
                        while (round.load() == seen) relax(s);
                        seen = round.load();
                        if (stop.load()) return;
                        meet();
                        job(i);
                        left.fetch_sub(1);
                    }
                });
        }
        // all members leave together, as closely as the machine lets them
        void meet()
        {
            unsigned s = 0;
            ready.fetch_add(1);
            while (ready.load() < n) relax(s);
        }
        void run(std::function<void(int)> f)
        {
            job = std::move(f);
            ready.store(0);
            left.store(n - 1);
            round.fetch_add(1);
            meet();
            job(0);
            unsigned s = 0;
            while (left.load()) relax(s);
        }
        ~Team()
        {
            stop.store(true);
            round.fetch_add(1);
            for (auto& t : ts) t.join();
        }
    };
    // a short pause of random length, so rounds meet at other points
    inline void jitter(uint64_t n) { for (uint64_t i = 0; i < n; ++i) __builtin_ia32_pause(); }

    // Threads which do as they are told, one call at a time, so that who does what when is known.
    struct Puppets
    {
        struct alignas(128) One
        {
            std::thread t;
            std::function<void()> job;
            std::atomic<int> state{ 0 }; // 0 idle, 1 asked, 2 done
        };
        std::vector<std::unique_ptr<One>> all;
        std::atomic<bool> stop{ false };

        explicit Puppets(int n)
        {
            for (int i = 0; i < n; ++i)
            {
                all.emplace_back(new One);
                One* o = all.back().get();
                o->t = std::thread([this, o]
                {
                    for (;;)
                    {
                        unsigned s = 0;
                        while (o->state.load() != 1)
                        {
                            if (stop.load()) return;
                            relax(s);
                        }
                        o->job();
                        o->state.store(2);
                    }
                });
            }
        }
        void ask(int i, std::function<void()> f) { all[size_t(i)]->job = std::move(f); all[size_t(i)]->state.store(1); }
        bool finished(int i) { return all[size_t(i)]->state.load() == 2; }
        bool idle(int i) { return all[size_t(i)]->state.load() != 1; }
        // false: it did not come back in (a very long) time
        bool wait(int i, double seconds = 25)
        {
            unsigned s = 0;
            timespec a, b;
            clock_gettime(CLOCK_MONOTONIC, &a);
            while (!idle(i))
            {
                relax(s);
                clock_gettime(CLOCK_MONOTONIC, &b);
                if (double(b.tv_sec - a.tv_sec) + double(b.tv_nsec - a.tv_nsec) * 1e-9 > seconds) return false;
            }
            return true;
        }
        bool call(int i, std::function<void()> f) { ask(i, std::move(f)); return wait(i); }
        ~Puppets()
        {
            stop.store(true);
            for (auto& o : all) o->t.join();
        }
    };
}
