// the end of a generated unit: does all of the unit's work before, in and after main, and reports what came out
extern "C" void w_seen(int unit, char const* name, unsigned long long from, unsigned long long value, char const* when);
#define W_JOIN2(a, b) a##b
#define W_JOIN(a, b) W_JOIN2(a, b)

static void unit_work(unsigned long long from, char const* when)
{
    for (auto& i : work::items)
        w_seen(W_UNIT, i.name, from, i.run(from), when);
#ifdef W_atomic
    {
        int n = int(from % 1000), was = ce::atomic_exchange(unit_a, n);
        (void)was;
        ce::atomic_fetch_add(unit_a, 3);
        w_seen(W_UNIT, "atomics", from, (unsigned long long)(ce::atomic_load(unit_a)), when);
    }
#endif
#ifdef W_mutex
    {
        ce::construct_mutex(unit_m), ce::construct_mutex(unit_s);
        unsigned long long v = 0;
        ce::acquire_mutex(unit_m), ce::acquire_mutex_shared(unit_s);
        v = v * 2 + ce::try_acquire_mutex_shared(unit_s), ce::release_mutex_shared(unit_s);
        v = v * 2 + ce::try_acquire_mutex(unit_s);
        ce::release_mutex_shared(unit_s), ce::release_mutex(unit_m);
        v = v * 2 + ce::try_acquire_mutex(unit_s), v = v * 2 + ce::try_acquire_mutex(unit_m);
        ce::release_mutex(unit_m), ce::release_mutex(unit_s);
        ce::destroy_mutex(unit_m), ce::destroy_mutex(unit_s);
        w_seen(W_UNIT, "mutexes", from, v, when);
    }
#endif
}

extern "C" void W_JOIN(w_unit_, W_UNIT)(unsigned long long from)
{
    unit_work(from, "in main");
    for (auto& i : work::foldeds)
    {
        w_seen(W_UNIT, i.name, i.from, i.value, "by the compiler");
        w_seen(W_UNIT, i.name, i.from, i.run(i.from), "in main");
    }
}

namespace
{
    struct early
    {
        early() { unit_work(1, "before main"), unit_work(W_SEED, "before main"); }
        ~early() { unit_work(1, "after main"), unit_work(W_SEED, "after main"); }
    } unit_early;
}
