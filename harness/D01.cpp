// D01: a dictionary maps each bound name to what it was last bound to, for every history, until it is full.
#include "kit.h"
#include <algorithm>
#include <random>
#include "ce/dictionary.h"
using kit::Case;

struct Val { int a; int b; };
static bool operator==(Val const& x, Val const& y) { return x.a == y.a && x.b == y.b; }
struct Name // a user key: ordered, with spare state
{
    int v; int junk;
};
static bool operator==(Name const& a, Name const& b) { return a.v == b.v; }
static bool operator<(Name const& a, Name const& b) { return a.v < b.v; }
[[maybe_unused]] static bool operator!=(Name const& a, Name const& b) { return a.v != b.v; }
KIT_ORDERED(Name)
template<class K> static K name(int64_t v, kit::Rng&) { return K(v); }
template<> Name name<Name>(int64_t v, kit::Rng& r) { return { int(v), int(r.u32()) }; }
enum class Tag : unsigned char { };

template<int N, class K> static void history(Case& c)
{
    using D = ce::dictionary<N, Val, K>;
    auto mem = static_cast<D*>(calloc(1, sizeof(D)));
    D& d = *mem;
    bool junk = c.rng.chance(1, 2);
    if (junk) memset(static_cast<void*>(d.names), 0x5a, sizeof d.names), memset(static_cast<void*>(d.data), 0x5a, sizeof d.data);
    std::map<int64_t, std::pair<typename D::ptr_t, Val>> m;
    std::set<unsigned> slots;
    int names = 1 + int(c.rng.below(unsigned(c.rng.chance(1, 2) ? N + 3 : 2 * N + 5)));
    static int64_t const special[] = { 0, -1, 0x5a5a5a5a, 0x5a, 1 };
    std::vector<int64_t> pool;
    for (int i = 0; i < names; ++i)
        pool.push_back(c.rng.chance(1, 4) ? special[c.rng.below(5)] : sizeof(K) == 1 ? int64_t(c.rng.below(256)) : int64_t(int(c.rng.swide(32))));
    if (sizeof(K) == 1) for (auto& p : pool) p &= 255;
    uint64_t h = uint64_t(N);
    int ops = 1 + int(c.rng.below(unsigned(3 * N + 10) > 400 ? 400 : unsigned(3 * N + 10)));
    bool full = false;
    for (int o = 0; o < ops; ++o)
    {
        int64_t n = pool[c.rng.below(pool.size())];
        K k = name<K>(n, c.rng);
        Val v{ int(c.rng.u32()), o };
        c.ev();
        h = kit::mix(h ^ uint64_t(n));
        auto it = m.find(n);
        if (c.rng.chance(1, 3))
        {
            auto p = d.find(k);
            if (p != (it == m.end() ? D::ptr_t::nil : it->second.first))
            {
                c.fail("find", "dictionary<%d> with %zu names: find(%lld) gave %u, expected %u", N, m.size(), (long long)n, unsigned(p), unsigned(it == m.end() ? D::ptr_t::nil : it->second.first));
                break;
            }
            if (it == m.end()) c.count("find_absent");
            continue;
        }
        bool agg = c.rng.chance(1, 2);
        auto p = agg ? d.bind(k, v.a, v.b) : d.bind(k, v);
        if (it == m.end() && m.size() + 1 >= size_t(N))
        {
            full = true;
            c.count("refused");
            if (p != D::ptr_t::nil) { c.fail("capacity", "dictionary<%d> accepted name %zu", N, m.size() + 1); break; }
        }
        else if (p == D::ptr_t::nil) { c.fail("bind", "dictionary<%d> with %zu names refused %lld", N, m.size(), (long long)n); break; }
        else if (it == m.end())
        {
            if (!slots.insert(unsigned(p)).second) { c.fail("alias", "two names share slot %u", unsigned(p)); break; }
            m[n] = { p, v };
        }
        else
        {
            if (p != it->second.first) { c.fail("rebind", "name %lld moved from %u to %u", (long long)n, unsigned(it->second.first), unsigned(p)); break; }
            it->second.second = v;
            c.count("rebound");
        }
        // everything bound is as it was
        bool bad = false;
        D const& cd = d;
        for (auto& q : m)
        {
            K key = name<K>(q.first, c.rng);
            if (d.find(key) != q.second.first || !(d[q.second.first] == q.second.second) || !(cd[q.second.first] == q.second.second) || !(d[key] == q.second.second) || !(cd[key] == q.second.second))
            {
                c.fail("contents", "dictionary<%d> with %zu names: %lld lost or changed after bind(%lld)", N, m.size(), (long long)q.first, (long long)n);
                bad = true;
                break;
            }
        }
        if (bad) break;
        if (c.rng.chance(1, 16))
        {
            // may move what is bound, but lose none of it
            d.optimize();
            slots.clear();
            for (auto& q : m)
            {
                q.second.first = d.find(name<K>(q.first, c.rng));
                if (q.second.first == D::ptr_t::nil || !slots.insert(unsigned(q.second.first)).second || !(d[q.second.first] == q.second.second))
                {
                    c.fail("optimize", "dictionary<%d> with %zu names: %lld lost or changed by optimize", N, m.size(), (long long)q.first);
                    bad = true;
                    break;
                }
            }
            if (bad) break;
        }
        if (c.rng.chance(1, 8) && !m.empty())
        {
            // values are references: writing through one changes that name only
            auto w = m.begin();
            std::advance(w, ptrdiff_t(c.rng.below(m.size())));
            d[w->second.first].a = w->second.second.a = int(c.rng.u32());
        }
    }
    c.cover("size_full", uint64_t(N) * 2 + full);
    free(mem);
    c.distinct(h);
    c.sample("dictionary<%d>: %d operations over %d names%s", N, ops, names, junk ? ", unused slots hold junk" : "");
}

// many names: values by slot, checked in a sample as the dictionary grows and all of them at the end
template<int N, class K> static void large(Case& c, size_t binds)
{
    using D = ce::dictionary<N, Val, K>;
    auto mem = static_cast<D*>(calloc(1, sizeof(D)));
    D& d = *mem;
    std::vector<int64_t> names;
    std::vector<typename D::ptr_t> at;
    int order = int(c.rng.below(3));
    int64_t step = 1 + int64_t(c.rng.below(5)), base = c.rng.range(-1000, 1000);
    auto check = [&](size_t i, size_t of)
    {
        c.ev();
        K k = name<K>(names[i], c.rng);
        Val v{ int(i), -int(i) };
        if (d.find(k) != at[i] || !(d[at[i]] == v) || !(d[k] == v)) { c.fail("large", "name %zu (%lld) of %zu lost or changed", i, (long long)names[i], of); return false; }
        return true;
    };
    bool good = true;
    for (size_t i = 0; i < binds && good; ++i)
    {
        int64_t n = order == 0 ? base + int64_t(i) * step : order == 1 ? base - int64_t(i) * step : int64_t(int32_t(uint32_t(i) * 2654435761u + uint32_t(base)));
        auto p = d.bind(name<K>(n, c.rng), Val{ int(i), -int(i) });
        if (i + 1 >= size_t(N))
        {
            c.count("large_refused");
            if (p != D::ptr_t::nil) { c.fail("large-capacity", "dictionary<%d> accepted name %zu", N, i + 1); good = false; }
            continue;
        }
        names.push_back(n), at.push_back(p);
        for (int j = 0; j < 3 && good; ++j) good = check(c.rng.below(names.size()), names.size());
        c.count("large_binds");
    }
    std::vector<typename D::ptr_t> s = at;
    std::sort(s.begin(), s.end());
    if (good && std::adjacent_find(s.begin(), s.end()) != s.end()) c.fail("large-alias", "two of %zu names share a slot", at.size());
    for (size_t i = 0; i < names.size() && good; ++i) good = check(i, names.size());
    free(mem);
    c.distinct(kit::mix(uint64_t(base)) ^ uint64_t(N) * 3 + uint64_t(order) ^ kit::mix(uint64_t(step)));
    c.sample("dictionary<%d>: %zu names in order %d", N, names.size(), order);
}

// names which the user laid out to be searched (`heap` of them: names below a name come after its greater half)
template<int N, class K> static void searched(Case& c)
{
    using D = ce::dictionary<N, Val, K>;
    auto mem = static_cast<D*>(calloc(1, sizeof(D)));
    D& d = *mem;
    std::set<int64_t> all;
    size_t want = 1 + c.rng.below(unsigned(N - 1));
    while (all.size() < want) all.insert(sizeof(K) == 1 ? int64_t(c.rng.below(256)) : int64_t(int(c.rng.swide(c.rng.chance(1, 2) ? 9 : 32))));
    std::vector<int64_t> sorted(all.begin(), all.end()), slot{ };
    slot.resize(size_t(N));
    std::shuffle(sorted.begin(), sorted.end(), std::minstd_rand(c.rng.u32()));
    size_t h = 1 + c.rng.below(unsigned(want + 1)); // slots 1 to h - 1
    std::sort(sorted.begin(), sorted.begin() + ptrdiff_t(h - 1), [](int64_t a, int64_t b) { return a > b; });
    size_t next = 0;
    auto lay = [&](auto self, size_t i) -> void
    {
        if (i >= h) return;
        self(self, i * 2);
        slot[i] = sorted[next++];
        self(self, i * 2 + 1);
    };
    lay(lay, 1);
    for (size_t i = h; i <= want; ++i) slot[i] = sorted[i - 1];
    for (size_t i = 1; i <= want; ++i) d.names[i] = name<K>(slot[i], c.rng), d.data[i] = Val{ int(i), -int(i) };
    d.size = want + 1;
    d.heap = h;
    for (size_t i = 1; i <= want; ++i)
    {
        c.ev();
        auto p = d.find(name<K>(slot[i], c.rng));
        if (size_t(p) != i) { c.fail("searched", "dictionary<%d>, %zu of %zu names searched: name %lld of slot %zu found in %u", N, h - 1, want, (long long)slot[i], i, unsigned(p)); break; }
    }
    for (int i = 0; i < 20; ++i)
    {
        int64_t n = sizeof(K) == 1 ? int64_t(c.rng.below(256)) : c.rng.chance(1, 2) ? slot[1 + c.rng.below(want)] + c.rng.range(-1, 1) : int64_t(int(c.rng.swide(32)));
        if (n < INT32_MIN || n > INT32_MAX || (sizeof(K) == 1 && (n < 0 || n > 255))) continue;
        c.ev();
        auto p = d.find(name<K>(n, c.rng));
        if ((p != D::ptr_t::nil) != all.count(n)) c.fail("searched-absent", "dictionary<%d>, %zu of %zu names searched: %lld found in %u", N, h - 1, want, (long long)n, unsigned(p));
        if (all.count(n)) continue;
        // and new names are bound after these
        p = d.bind(name<K>(n, c.rng), 5, 6);
        if ((p != D::ptr_t::nil) != (all.size() + 1 < size_t(N))) { c.fail("searched-bind", "dictionary<%d> with %zu names: binding gave %u", N, all.size(), unsigned(p)); break; }
        if (p != D::ptr_t::nil) all.insert(n), slot[size_t(p)] = n;
    }
    for (size_t i = 1; i <= want; ++i)
        if (!(d[name<K>(slot[i], c.rng)] == Val{ int(i), -int(i) })) c.fail("searched-value", "name %lld changed its value", (long long)slot[i]);
    c.count("searched", h - 1);
    free(mem);
    c.distinct(kit::mix(h * 131 + want) ^ uint64_t(slot[1]) * 7);
}
template<class K> static void any_searched(Case& c)
{
    switch (c.rng.below(4))
    {
    case 0: return searched<2, K>(c);
    case 1: return searched<5, K>(c);
    case 2: return searched<33, K>(c);
    default: return searched<150, K>(c);
    }
}

template<class K> static void any_size(Case& c)
{
    switch (c.rng.below(6))
    {
    case 0: return history<1, K>(c);
    case 1: return history<2, K>(c);
    case 2: return history<3, K>(c);
    case 3: return history<8, K>(c);
    case 4: return history<40, K>(c);
    default: return history<150, K>(c);
    }
}

// values which own something: at any time each slot holds one live value, and none is made over a live one or ended twice
struct Lives
{
    std::set<void const*> live;
    unsigned long made = 0, ended = 0;
    char const* wrong = nullptr;
    void born(void const* p) { ++made; if (!live.insert(p).second) wrong = "a value was made over a live one"; }
    void dies(void const* p) { ++ended; if (!live.erase(p)) wrong = "a value was ended which was not live"; }
};
static Lives* lives;
struct Owner
{
    int* p;
    char const* text;
    Owner() : p(nullptr), text("") { lives->born(this); }
    Owner(int v, char const* t) : p(new int(v)), text(t) { lives->born(this); }
    Owner(Owner const& o) : p(o.p ? new int(*o.p) : nullptr), text(o.text) { lives->born(this); }
    Owner& operator=(Owner const&) = delete;
    ~Owner() { lives->dies(this); delete p; }
};
template<int N, class K> static void owners(Case& c)
{
    static char const* const texts[] = { "", "one", "two", "a longer text" };
    Lives l;
    lives = &l;
    uint64_t h = uint64_t(N) * 77;
    int ops = 1 + int(c.rng.below(4 * N + 10));
    {
        using D = ce::dictionary<N, Owner, K>;
        auto d = new D{};
        if (l.live.size() != size_t(N)) c.fail("owners-start", "a new dictionary<%d> holds %zu values", N, l.live.size());
        std::map<int64_t, std::pair<int, char const*>> m;
        for (int o = 0; o < ops && !c.failed; ++o)
        {
            int64_t n = int64_t(c.rng.below(unsigned(N + N / 2 + 2)));
            K k = name<K>(n, c.rng);
            int v = int(c.rng.u32());
            char const* t = texts[c.rng.below(4)];
            c.ev();
            h = kit::mix(h ^ uint64_t(n));
            bool fits = m.count(n) || m.size() + 1 < size_t(N);
            typename D::ptr_t p;
            switch (c.rng.below(3))
            {
            case 0: p = d->bind(k, v, t); break;
            case 1: p = d->bind(k, Owner(v, t)); break;
            default: { Owner w(v, t); p = d->bind(k, w); if (!w.p || *w.p != v) c.fail("owners-argument", "bind changed the value it was given"); break; }
            }
            if (l.wrong) { c.fail("owners-life", "dictionary<%d>, bind %d of name %lld: %s", N, o, (long long)n, l.wrong); break; }
            if (l.live.size() != size_t(N)) { c.fail("owners-live", "dictionary<%d>, bind %d of name %lld: %zu values live", N, o, (long long)n, l.live.size()); break; }
            if ((p != D::ptr_t::nil) != fits) { c.fail("owners-bind", "dictionary<%d> with %zu names %s %lld", N, m.size(), fits ? "refused" : "accepted", (long long)n); break; }
            if (fits) { if (m.count(n)) c.count("owner_replaced"); m[n] = { v, t }; }
            for (auto& q : m)
            {
                Owner const& w = (*d)[name<K>(q.first, c.rng)];
                if (!l.live.count(&w) || !w.p || *w.p != q.second.first || strcmp(w.text, q.second.second)) { c.fail("owners-contents", "dictionary<%d>: name %lld lost or changed", N, (long long)q.first); break; }
            }
        }
        delete d;
    }
    if (!c.failed && (l.wrong || !l.live.empty() || l.made != l.ended)) c.fail("owners-end", "dictionary<%d>: %zu values left, %lu made, %lu ended%s%s", N, l.live.size(), l.made, l.ended, l.wrong ? "; " : "", l.wrong ? l.wrong : "");
    c.count("owner_values", l.made);
    c.cover("owners", uint64_t(N));
    lives = nullptr;
    c.distinct(h);
    c.sample("dictionary<%d> of owning values: %d binds, %lu values made", N, ops, l.made);
}

void kit_main(kit::K& k)
{
    k.section("owners", 3000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(5))
        {
        case 0: return owners<1, int>(c);
        case 1: return owners<2, int64_t>(c);
        case 2: return owners<5, Name>(c);
        case 3: return owners<17, Tag>(c);
        default: return owners<40, int>(c);
        }
    });
    k.section("large", 24 * k.pick(1, 4), [](Case& c)
    {
        switch (c.rng.below(4))
        {
        case 0: return large<300, int>(c, 310);
        case 1: return large<1030, int64_t>(c, 1100);
        case 2: return large<2500, Name>(c, 2510);
        default: return large<4500, int>(c, 4510);
        }
    });
    if (k.thorough) k.section("huge", 1, [](Case& c) { large<66000, int>(c, 66010); });
    k.section("searched", 3000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(4))
        {
        case 0: return any_searched<int>(c);
        case 1: return any_searched<int64_t>(c);
        case 2: return any_searched<unsigned char>(c);
        default: return any_searched<Name>(c);
        }
    });
    k.section("histories", 12000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(5))
        {
        case 0: return any_size<int>(c);
        case 1: return any_size<int64_t>(c);
        case 2: return any_size<unsigned char>(c);
        case 3: return any_size<Name>(c);
        default: return any_size<Tag>(c);
        }
    });
}
