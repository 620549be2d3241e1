// B01: a bounded sequence holds exactly what a model sequence holds after any history of operations, and refuses what does not fit.
#include "kit.h"
#include "ce/ce.h"
using kit::Case;

struct Pod { int a; short b; };
struct Big { int v; char pad[60]; };
struct Copy // user copy, no default constructor
{
    int v; int* self;
    Copy(int n) : v(n), self(&v) { }
    Copy(Copy const& o) : v(o.get()), self(&v) { }
    Copy& operator=(Copy const& o) { v = o.get(); return *this; }
    int get() const { return self == &v ? v : -777777; } // only ever constructed in place
};
struct Def // user default constructor, destructor
{
    int v;
    Def() : v(42) { }
    Def(int n) : v(n) { }
    ~Def() { v = -1; }
};
struct Agg { int x; int y; }; // brace construction
struct Move
{
    int* p;
    Move(int n) : p(new int(n)) { }
    Move() : p(new int(7)) { }
    Move(Move const& o) : p(new int(*o.p)) { }
    Move& operator=(Move const& o) { *p = *o.p; return *this; }
    Move& operator=(Move&& o) { int* t = p; p = o.p; o.p = t; return *this; }
    ~Move() { delete p; p = nullptr; }
};

static int val(int v) { return v; }
static int val(char v) { return (signed char)v; }
static int val(Pod const& v) { return v.b == short(v.a) ? v.a : -999999; }
static int val(Big const& v) { return v.v; }
static int val(Copy const& v) { return v.get(); }
static int val(Def const& v) { return v.v; }
static int val(Agg const& v) { return v.y == v.x + 1 ? v.x : -999999; }
static int val(Move const& v) { return *v.p; }

template<class T> struct info { static constexpr bool defaults = true; static constexpr int unset = -1; }; // unset: no value is promised
template<> struct info<Copy> { static constexpr bool defaults = false; static constexpr int unset = -1; };
template<> struct info<Def> { static constexpr bool defaults = true; static constexpr int unset = 42; };
template<> struct info<Move> { static constexpr bool defaults = true; static constexpr int unset = 7; };

template<class T> static T make(int v) { return T{ v }; }
template<> Pod make<Pod>(int v) { return { v, short(v) }; }
template<> Big make<Big>(int v) { Big b{ }; b.v = v; return b; }
template<> Agg make<Agg>(int v) { return { v, v + 1 }; }
template<> char make<char>(int v) { return char(v); }
template<class T> static int norm(int v) { return v; }
template<> int norm<char>(int v) { return (signed char)v; }

template<class B, class T> static bool add(B& b, int v)
{
    if constexpr (ce::is_same_v<T, Agg>) return b.append(v, v + 1);
    else if constexpr (ce::is_same_v<T, Pod>) return b.append(make<Pod>(v));
    else if constexpr (ce::is_same_v<T, Big> || ce::is_same_v<T, char>) { T const t = make<T>(v); return b.append(t); }
    else return b.append(v);
}

template<size_t N, class T> static void history(Case& c, char const* type)
{
    using B = ce::bulk<N, T>;
    struct Slot { unsigned char before[16]; B b; unsigned char after[16]; };
    constexpr int C = 3;
    Slot* s[C];
    std::vector<int> m[C];
    void* mem[C];
    for (int i = 0; i < C; ++i)
    {
        mem[i] = malloc(sizeof(Slot)); // exact, poisoned around by the sanitizer
        s[i] = static_cast<Slot*>(mem[i]);
        memset(static_cast<void*>(s[i]), 0xa5, sizeof(Slot));
        ::new (static_cast<void*>(&s[i]->b)) B;
    }
    std::string log;
    auto check = [&](int i, char const* op)
    {
        B& b = s[i]->b;
        B const& cb = b;
        auto bad = [&](char const* what) { c.fail("contents", "bulk<%zu, %s> after %s%s: %s (size %zu, expected %zu)", N, type, log.c_str(), op, what, b.size, m[i].size()); };
        if (b.size != m[i].size()) return bad("size"), false;
        if (b.room() != N - m[i].size() || B::capacity() != N) return bad("room or capacity"), false;
        if (b.end() - b.begin() != ptrdiff_t(b.size) || cb.end() - cb.begin() != ptrdiff_t(b.size)) return bad("begin/end"), false;
        size_t q = 0;
        for (auto& x : b) if (val(x) != m[i][q++]) return bad("element by iteration"), false;
        for (q = 0; q < b.size; ++q) if (val(b[q]) != m[i][q] || val(cb[q]) != m[i][q] || &b[q] != b.begin() + q) return bad("element by index"), false;
        auto sp = make_span(b);
        auto csp = make_span(cb);
        if (sp.size != b.size || sp.data != b.begin() || csp.size != b.size || csp.data != cb.begin()) return bad("span"), false;
        if (b.size && (&b.back() != b.end() - 1 || &cb.back() != cb.end() - 1)) return bad("back"), false;
        for (unsigned char g : s[i]->before) if (g != 0xa5) return bad("wrote before itself"), false;
        for (unsigned char g : s[i]->after) if (g != 0xa5) return bad("wrote past itself"), false;
        return true;
    };
    int ops = 1 + int(c.rng.below(60)), bias = int(c.rng.below(4));
    uint64_t h = N;
    for (int o = 0; o < ops; ++o)
    {
        int i = int(c.rng.below(C)), j = int(c.rng.below(C));
        int v = norm<T>(int(c.rng.below(100000)));
        int op = int(c.rng.below(unsigned(12 + bias)));
        B& b = s[i]->b;
        std::string what;
        bool ok = true, expect = true;
        h = kit::mix(h ^ uint64_t(op * 100 + i * 10 + j));
        switch (op)
        {
        case 0: what = "clear"; b.clear(); m[i].clear(); break;
        case 1:
            if constexpr (info<T>::defaults)
            {
                size_t n = c.rng.chance(1, 6) ? N + 1 + c.rng.wide(63) : c.rng.below(N + 1);
                what = kit::fmt("resize(%zu)", n);
                ok = b.resize(n);
                expect = n <= N;
                if (expect)
                    for (size_t q = m[i].size(), z = n; m[i].resize(n, info<T>::unset), q < z; ++q)
                        if (info<T>::unset == -1) b[q] = make<T>(v), m[i][q] = norm<T>(v);
            }
            break;
        case 2:
            if constexpr (info<T>::defaults)
            {
                size_t n = c.rng.chance(1, 6) ? c.rng.wide(64) : c.rng.below(4);
                size_t q = m[i].size();
                what = kit::fmt("append_n(%zu)", n);
                ok = b.append_n(n);
                expect = n <= N - q;
                if (expect)
                    for (m[i].resize(q + n, info<T>::unset); q < m[i].size(); ++q)
                        if (info<T>::unset == -1) b[q] = make<T>(v), m[i][q] = norm<T>(v);
            }
            break;
        case 3: case 4:
        {
            size_t at = c.rng.chance(1, 6) ? m[i].size() + c.rng.wide(63) : m[i].empty() ? 0 : c.rng.below(m[i].size());
            expect = at < m[i].size();
            if (op == 3)
            {
                what = kit::fmt("remove_at<ordered>(%zu)", at);
                ok = b.template remove_at<true>(at);
                if (expect) m[i].erase(m[i].begin() + ptrdiff_t(at));
            }
            else
            {
                what = kit::fmt("remove_at(%zu)", at);
                ok = b.remove_at(at);
                if (expect) m[i][at] = m[i].back(), m[i].pop_back();
            }
            break;
        }
        case 5: what = kit::fmt("%d = %d", i, j); b = s[j]->b; m[i] = std::vector<int>(m[j]); break;
        case 6:
        {
            what = kit::fmt("rebuild %d from a copy of %d", i, j);
            B copy(s[j]->b);
            b.~B();
            ::new (static_cast<void*>(&b)) B(copy);
            m[i] = std::vector<int>(m[j]);
            break;
        }
        case 11:
            if constexpr (N > 100) // far enough to matter in one go
            {
                size_t n = c.rng.below(N - m[i].size() + 1);
                what = kit::fmt("append x %zu", n);
                for (size_t q = 0; q < n && ok; ++q) ok = add<B, T>(b, norm<T>(v + int(q))), m[i].push_back(norm<T>(v + int(q)));
                break;
            }
            [[fallthrough]];
        default:
            what = "append";
            if (!m[j].empty() && c.rng.chance(1, 4)) // an element there is, maybe one of its own
            {
                size_t q = c.rng.below(m[j].size());
                what = kit::fmt("append a copy of %d[%zu] to %d", j, q, i);
                v = m[j][q];
                B const& from = s[j]->b;
                ok = c.rng.chance(1, 2) ? b.append(s[j]->b[q]) : b.append(from[q]);
                c.count("own_element", i == j);
            }
            else ok = add<B, T>(b, v);
            expect = m[i].size() < N;
            if (expect) m[i].push_back(v);
            break;
        case 7: if (!m[i].empty()) { size_t q = c.rng.below(m[i].size()); what = kit::fmt("[%zu] = ", q); b[q] = make<T>(v); m[i][q] = v; } break;
        }
        if (what.empty()) continue;
        c.ev();
        if (!ok) c.count("refused");
        if (ok != expect) { c.fail("refusal", "bulk<%zu, %s> %s with %zu elements returned %d", N, type, what.c_str(), m[i].size(), ok); break; }
        if (!check(i, what.c_str())) break;
        if (i != j && !check(j, what.c_str())) break;
        if (log.size() < 400) log += what + "; ";
        c.cover("op_fill", uint64_t(op) * 1000 + N * 100 + (m[i].empty() ? 0 : m[i].size() == N ? 2 : 1));
    }
    for (int i = 0; i < C; ++i) s[i]->b.~B(), free(mem[i]);
    c.distinct(h ^ kit::hash_bytes(type, strlen(type)));
    c.sample("bulk<%zu, %s>: %s", N, type, log.substr(0, 200).c_str());
}

template<class T> static void any_size(Case& c, char const* type)
{
    switch (c.rng.below(5))
    {
    case 0: return history<1, T>(c, type);
    case 1: return history<2, T>(c, type);
    case 2: return history<3, T>(c, type);
    case 3: return history<7, T>(c, type);
    default: return history<40, T>(c, type);
    }
}

// room for more than 2^32 elements: few are touched
template<class T> static void vast(Case& c)
{
    constexpr size_t N = (size_t(1) << 32) + 5000;
    using B = ce::bulk<N, T>;
    kit::Vast mem(sizeof(B));
    auto at = mem.at<B>();
    if (!at) return;
    B& b = *::new (static_cast<void*>(at)) B;
    std::map<size_t, T> m; // elements not zero
    std::map<size_t, bool> used; // and where any was
    size_t n = 0;
    auto get = [&](size_t i) { auto p = m.find(i); return p == m.end() ? T(0) : p->second; };
    auto put = [&](size_t i, T v) { if (v == T(0)) m.erase(i); else m[i] = v, used[i] = true; };
    // what is behind the end is nobody's: new elements get values where any were
    auto clean = [&](size_t from, size_t to)
    {
        for (auto p = used.lower_bound(from); p != used.end() && p->first < to; ++p) b[p->first] = T(0);
        m.erase(m.lower_bound(from), m.end());
    };
    std::string log;
    for (int o = 0; o < 60; ++o)
    {
        static size_t const near[] = { 0, size_t(1) << 31, size_t(1) << 32, N, N };
        size_t to = c.rng.pick(near) + c.rng.below(60) - 30, want = n;
        bool ok = true, expect = true;
        T v = T(1 + c.rng.below(100));
        switch (c.rng.below(7))
        {
        case 0: case 1:
            log += kit::fmt("resize(%zu) ", to), ok = b.resize(to), expect = to <= N;
            if (expect) clean(to < n ? to : n, to), want = to;
            break;
        case 2: to = c.rng.chance(1, 2) ? c.rng.below(70) : c.rng.wide(64), log += kit::fmt("append_n(%zu) ", to), ok = b.append_n(to), expect = to <= N - n; if (expect) clean(n, want = n + to); break;
        case 3: log += "append ", ok = b.append(v), expect = n < N; if (expect) put(n, v), want = n + 1; break;
        case 4:
            to = c.rng.chance(1, 3) ? n + c.rng.below(3) : n ? (c.rng.chance(1, 2) ? c.rng.below(n) : n - 1 - c.rng.below(n < 50 ? n : 50)) : 0;
            log += kit::fmt("remove_at(%zu) ", to), ok = b.remove_at(to), expect = to < n;
            if (expect) put(to, get(n - 1)), m.erase(n - 1), want = n - 1;
            break;
        case 5:
            if (!n) continue;
            to = n - 1 - c.rng.below(n < 50 ? n : 50);
            log += kit::fmt("remove_at<ordered>(%zu) ", to), ok = b.template remove_at<true>(to);
            for (size_t i = to; i + 1 < n; ++i) put(i, get(i + 1));
            m.erase(n - 1), want = n - 1;
            break;
        default: if (!n) continue; to = c.rng.chance(1, 2) ? c.rng.below(n) : n - 1, log += kit::fmt("[%zu] ", to), b[to] = v, put(to, v); break;
        }
        c.ev();
        n = want;
        auto bad = [&](char const* w) { c.fail("vast", "bulk<%zu> of %zu bytes after %s: %s (size %zu, not %zu)", N, sizeof(T), log.c_str(), w, size_t(b.size), n); };
        if (ok != expect) return bad("answer");
        if (b.size != n || b.room() != N - n || size_t(b.end() - b.begin()) != n || make_span(b).size != n) return bad("size");
        if (n && &b.back() != &b[n - 1]) return bad("back");
        for (auto& e : m) if (b[e.first] != e.second) return bad("element");
        for (size_t i = 0; i < 20; ++i) { size_t j = n ? (i < 10 ? c.rng.below(n) : n - 1 - c.rng.below(n < 90 ? n : 90)) : 0; if (n && b[j] != get(j)) return bad("element"); }
    }
    c.count("vast");
    c.distinct(kit::hash_bytes(log.data(), log.size()));
}

// elements made from what the sequence itself says at the time: its size, its end
struct Slot { size_t number; Slot const* at; size_t room; };
template<size_t N> static void own_size(Case& c)
{
    ce::list<size_t, N> a;
    ce::list<Slot, N> b;
    std::vector<size_t> want;
    for (int o = 0; o < int(N) * 3; ++o)
    {
        bool could = a.size < N;
        size_t n = a.size;
        c.ev();
        if (a.append(a.size) != could || b.append(b.size, b.end(), b.room()) != could) return c.fail("own-size", "list of %zu of %zu refused its size, or took it when full", n, N);
        if (could)
        {
            want.push_back(n);
            if (a.size != n + 1 || b.size != n + 1 || b[n].number != n || b[n].at != b.begin() + n || b[n].room != N - n) return c.fail("own-size", "the size %zu appended to its list became %zu", n, b[n].number);
        }
        for (size_t i = 0; i < want.size(); ++i) if (a[i] != want[i]) return c.fail("own-size", "[%zu] is %zu, the size %zu was appended", i, a[i], want[i]);
        if (c.rng.chance(1, 4) && a.size > 0)
        {
            size_t at = c.rng.below(a.size);
            a.template remove_at<true>(at), b.template remove_at<true>(at), want.erase(want.begin() + ptrdiff_t(at));
        }
        c.count("own_size");
    }
    c.distinct(kit::mix(c.index) ^ N);
}

void kit_main(kit::K& k)
{
    k.section("own-size", 400 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(3)) { case 0: return own_size<1>(c); case 1: return own_size<7>(c); default: return own_size<40>(c); }
    });
    k.section("histories", 30000 * k.pick(1, 10), [](Case& c)
    {
        switch (c.rng.below(8))
        {
        case 0: return any_size<int>(c, "int");
        case 1: return any_size<char>(c, "char");
        case 2: return any_size<Pod>(c, "Pod");
        case 3: return any_size<Big>(c, "Big");
        case 4: return any_size<Copy>(c, "Copy");
        case 5: return any_size<Def>(c, "Def");
        case 6: return any_size<Agg>(c, "Agg");
        default: return any_size<Move>(c, "Move");
        }
    });
    k.section("large", 200 * k.pick(1, 10), [](Case& c)
    {
        if (c.index % 25 == 24) return c.rng.chance(1, 2) ? history<70000, int>(c, "int") : history<70000, char>(c, "char");
        switch (c.rng.below(6))
        {
        case 0: return history<300, int>(c, "int");
        case 1: return history<1500, char>(c, "char");
        case 2: return history<300, Copy>(c, "Copy");
        case 3: return history<1500, Def>(c, "Def");
        case 4: return history<300, Agg>(c, "Agg");
        default: return history<300, Move>(c, "Move");
        }
    });
    k.section("spans", 4000 * k.pick(1, 5), [](Case& c)
    {
        std::vector<int> d(c.rng.below(20));
        for (int i = 0; i < 30; ++i)
        {
            ce::span<int> s{ d.size(), d.data() };
            size_t n = c.rng.chance(1, 3) ? c.rng.wide(64) : c.rng.below(25);
            auto a = skip(s, n);
            auto b = trim(s, n);
            size_t left = n < d.size() ? d.size() - n : 0;
            if (a.size != left || (left && a.data != d.data() + n) || a.data < d.data() || a.data + a.size > d.data() + d.size()) c.fail("skip", "%zu of %zu", n, d.size());
            if (b.size != left || b.data != d.data()) c.fail("trim", "%zu of %zu", n, d.size());
            if (size_t(a.end() - a.begin()) != a.size) c.fail("span", "begin/end");
            c.ev();
        }
        c.distinct(c.rng.s);
    });
    k.section_exact("vast", k.pick(60, 600), [](Case& c) { if (c.rng.chance(1, 2)) vast<signed char>(c); else vast<int>(c); });
}
