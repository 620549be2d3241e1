// B02: every element object is constructed once, destroyed once, used only while alive, by any history of operations.
#include "kit.h"
#include "ce/ce.h"
#include "ce/dictionary.h"
#include "ce/pool.h"
using kit::Case;

static std::unordered_set<void const*> g_live;
static long g_made, g_gone;
static std::string g_error_text;
static void wrong(char const* what, void const* p) { if (g_error_text.empty()) g_error_text = kit::fmt("%s at %p", what, p); }

struct Life
{
    void born() { ++g_made; if (!g_live.insert(this).second) wrong("constructed over a live object", this); }
    void dies() { ++g_gone; if (!g_live.erase(this)) wrong("destroyed an object which is not alive", this); }
    void use() const { if (!g_live.count(this)) wrong("used an object which is not alive", this); }
};
struct Full : Life // everything
{
    int v;
    Full() : v(0) { born(); }
    Full(int n) : v(n) { born(); }
    Full(Full const& o) : v(o.v) { o.use(); born(); }
    Full(Full&& o) : v(o.v) { o.use(); born(); }
    Full& operator=(Full const& o) { o.use(); use(); v = o.v; return *this; }
    Full& operator=(Full&& o) { o.use(); use(); v = o.v; return *this; }
    ~Full() { dies(); }
};
struct NoDefault : Life
{
    int v;
    NoDefault(int n) : v(n) { born(); }
    NoDefault(NoDefault const& o) : v(o.v) { o.use(); born(); }
    NoDefault& operator=(NoDefault const& o) { o.use(); use(); v = o.v; return *this; }
    ~NoDefault() { dies(); }
};
struct NoCopyConstruct : Life // copies by default construction and assignment
{
    int v;
    NoCopyConstruct() : v(0) { born(); }
    NoCopyConstruct(int n) : v(n) { born(); }
    NoCopyConstruct(NoCopyConstruct const&) = delete;
    NoCopyConstruct& operator=(NoCopyConstruct const& o) { o.use(); use(); v = o.v; return *this; }
    ~NoCopyConstruct() { dies(); }
};

template<class T> struct info { static constexpr bool defaults = true; };
template<> struct info<NoDefault> { static constexpr bool defaults = false; };

template<class T> static size_t expected_of(T const&) { return 1; }
template<size_t N, class T> static size_t expected_of(ce::bulk<N, T> const& b) { size_t n = 0; for (auto& x : b) n += expected_of(x); return n; }

template<class B, class T, size_t N> struct make { static bool append(B& b, int v) { return b.append(v); } };
template<class B, class U, size_t N, size_t M> struct make<B, ce::bulk<M, U>, N>
{
    static bool append(B& b, int v) { ce::bulk<M, U> t; for (int i = 0; i < v % int(M + 1); ++i) t.append(v); return b.append(t); }
};

template<size_t N, class T> static void history(Case& c, char const* type)
{
    using B = ce::bulk<N, T>;
    g_live.clear();
    g_error_text.clear();
    g_made = g_gone = 0;
    constexpr int C = 3;
    B* s[C];
    for (auto& p : s)
    {
        p = static_cast<B*>(malloc(sizeof(B)));
        memset(static_cast<void*>(p), 0xa5, sizeof(B));
        ::new (static_cast<void*>(p)) B;
    }
    std::string log;
    int ops = 1 + int(c.rng.below(50));
    uint64_t h = N;
    for (int o = 0; o < ops && g_error_text.empty(); ++o)
    {
        int i = int(c.rng.below(C)), j = int(c.rng.below(C)), v = int(c.rng.below(1000));
        B& b = *s[i];
        int op = int(c.rng.below(12));
        std::string what;
        h = kit::mix(h ^ uint64_t(op * 100 + i * 10 + j));
        switch (op)
        {
        case 0: what = "clear"; b.clear(); break;
        case 1: if constexpr (info<T>::defaults) { size_t n = c.rng.below(N + 2); what = kit::fmt("resize(%zu)", n); b.resize(n); } break;
        case 2: if constexpr (info<T>::defaults) { size_t n = c.rng.below(N > 100 ? N : 4); what = kit::fmt("append_n(%zu)", n); b.append_n(n); } break;
        case 3: { size_t n = c.rng.below(N + 1); what = kit::fmt("remove_at<ordered>(%zu)", n); b.template remove_at<true>(n); break; }
        case 4: { size_t n = c.rng.below(N + 1); what = kit::fmt("remove_at(%zu)", n); b.remove_at(n); break; }
        case 5: what = kit::fmt("%d = %d", i, j); b = *s[j]; break;
        case 6: if (i != j) { what = kit::fmt("rebuild %d from %d", i, j); b.~B(); ::new (static_cast<void*>(&b)) B(*s[j]); } break;
        case 7: { what = "copy and drop"; B t(b); B u; u = t; t = u; break; }
        default: what = "append"; for (size_t n = N > 100 ? c.rng.below(N) : 1; n-- > 0;) make<B, T, N>::append(b, v); break;
        }
        if (what.empty()) continue;
        c.ev();
        if (log.size() < 500) log += what + "; ";
        size_t want = 0;
        for (auto p : s) want += expected_of(*p);
        if (g_error_text.empty() && want != g_live.size()) g_error_text = kit::fmt("%zu objects alive, the containers hold %zu", g_live.size(), want);
        for (auto p : s) for (auto& x : *p) if constexpr (!ce::is_same_v<decltype(make<B, T, N>()), void> && sizeof(T) < 17) x.use();
    }
    for (auto p : s) p->~B();
    if (g_error_text.empty() && !g_live.empty()) g_error_text = kit::fmt("%zu objects alive after their containers were destroyed", g_live.size());
    if (g_error_text.empty() && g_made != g_gone) g_error_text = kit::fmt("%ld constructed, %ld destroyed", g_made, g_gone);
    for (auto p : s) free(p);
    c.count("objects", uint64_t(g_made));
    if (!g_error_text.empty()) c.fail("lifetime", "bulk<%zu, %s>: %s after %s", N, type, g_error_text.c_str(), log.c_str());
    c.distinct(h ^ kit::hash_bytes(type, strlen(type)));
    c.sample("bulk<%zu, %s>: %s", N, type, log.substr(0, 200).c_str());
}

template<class T> static void any_size(Case& c, char const* type)
{
    switch (c.rng.below(4))
    {
    case 0: return history<1, T>(c, type);
    case 1: return history<2, T>(c, type);
    case 2: return history<5, T>(c, type);
    default: return history<16, T>(c, type);
    }
}

template<int N> static void dictionary(Case& c)
{
    g_live.clear();
    g_error_text.clear();
    g_made = g_gone = 0;
    {
        ce::dictionary<N, Full, int> d{ };
        for (int o = 0; o < 40; ++o)
        {
            d.bind(int(c.rng.below(8)), int(c.rng.below(1000)));
            if (g_live.size() != size_t(N)) wrong("a dictionary does not hold exactly its objects", &d);
            c.ev();
        }
    }
    if (!g_live.empty() || g_made != g_gone) wrong("dictionary leaked", nullptr);
    if (!g_error_text.empty()) c.fail("lifetime", "dictionary<%d>: %s", N, g_error_text.c_str());
    c.distinct(c.rng.s);
}

void kit_main(kit::K& k)
{
    k.section("histories", 30000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(4))
        {
        case 0: return any_size<Full>(c, "Full");
        case 1: return any_size<NoDefault>(c, "NoDefault");
        case 2: return any_size<NoCopyConstruct>(c, "NoCopyConstruct");
        default: return any_size<ce::bulk<3, Full>>(c, "bulk<3, Full>");
        }
    });
    k.section("large", 120 * k.pick(1, 10), [](Case& c)
    {
        switch (c.index % 6)
        {
        case 0: return history<300, Full>(c, "Full");
        case 1: return history<300, NoDefault>(c, "NoDefault");
        case 2: return history<300, NoCopyConstruct>(c, "NoCopyConstruct");
        case 3: return history<300, ce::bulk<3, Full>>(c, "bulk<3, Full>");
        case 4: return c.rng.chance(1, 5) ? history<70000, Full>(c, "Full") : history<1300, Full>(c, "Full");
        default: return history<1300, NoDefault>(c, "NoDefault");
        }
    });
    k.section("dictionaries", 3000, [](Case& c)
    {
        switch (c.rng.below(3))
        {
        case 0: return dictionary<1>(c);
        case 1: return dictionary<4>(c);
        default: return dictionary<20>(c);
        }
    });
}
