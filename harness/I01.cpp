// I01: walking generated types visits each listed member once, in order, under its own name, balanced; and writes can be read back.
#include "kit.h"
#include "ce/io.h"
#include <type_traits>
using kit::Case;
using ce::int8_t; using ce::uint8_t; using ce::int16_t; using ce::uint16_t; using ce::int32_t; using ce::uint32_t;

struct Tag { };
enum class Color : uint8_t { red, green };
enum class Wide : ::int64_t { a = -5000000000 };
enum Old { one = 1, many = 1000 };

struct Event
{
    char kind; // { } [ ] n(ame) a(tom) ; for arrays of a variable number ( )
    char const* text;
    size_t count;
    void const* at;
    std::string bytes;
};
struct Trace
{
    std::vector<Event> e;
    void add(char k) { e.push_back({ k, nullptr, 0, nullptr, { } }); }
    void name(char const* s) { e.push_back({ 'n', s, 0, nullptr, { } }); }
    void array(char k, size_t n) { e.push_back({ k, nullptr, n, nullptr, { } }); }
    void atom(void const* p, size_t n) { e.push_back({ 'a', nullptr, n, p, std::string((char const*)p, n) }); }
};

static void kit_fill(kit::Rng& r, void* p, size_t n) { for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)(r.u32() >> 8); }

// ---- what each shape must show, told without the code under test
template<class T> struct Shape
{
    static void walk(Trace& t, T const& v) { t.atom(&v, sizeof v); }
    static void fill(kit::Rng& r, T& v)
    {
        if constexpr (std::is_same_v<T, bool>) v = r.chance(1, 2);
        else if constexpr (std::is_same_v<T, Color>) v = Color(r.below(2));
        else if constexpr (std::is_same_v<T, Old>) v = Old(r.below(1024));
        else if constexpr (std::is_floating_point_v<T>) v = T(double(r.range(-1000000, 1000000)) / 64);
        else kit_fill(r, &v, sizeof v);
    }
};
template<class T, size_t N> struct Shape<T[N]>
{
    static void walk(Trace& t, T const (&v)[N]) { t.array('[', N); for (auto& x : v) Shape<T>::walk(t, x); t.array(']', N); }
    static void fill(kit::Rng& r, T (&v)[N]) { for (auto& x : v) Shape<T>::fill(r, x); }
};
template<class T, size_t N> struct Shape<ce::bulk<N, T>>
{
    static void walk(Trace& t, ce::bulk<N, T> const& v) { t.array('(', v.size); for (size_t i = 0; i < v.size; ++i) Shape<T>::walk(t, v.data[i]); t.array(')', v.size); }
    static void fill(kit::Rng& r, ce::bulk<N, T>& v)
    {
        memset((void*)v.data, 0, sizeof v.data);
        v.size = r.below(N + 1);
        for (size_t i = 0; i < v.size; ++i) Shape<T>::fill(r, v.data[i]);
    }
};
template<size_t N, class T, class...Ks> struct Shape<ce::vec<N, T, Ks...>>
{
    using V = ce::vec<N, T, Ks...>;
    static void walk(Trace& t, V const& v)
    {
        t.array('[', N);
        T const* p = &v.x;
        for (size_t i = 0; i < N; ++i) Shape<T>::walk(t, p[i]);
        t.array(']', N);
    }
    static void fill(kit::Rng& r, V& v) { T* p = &v.x; for (size_t i = 0; i < N; ++i) Shape<T>::fill(r, p[i]); }
};
template<class T, class...Ks> struct Shape<ce::vec<2, T, Ks...>>
{
    using V = ce::vec<2, T, Ks...>;
    static void walk(Trace& t, V const& v) { t.add('{'); t.name("x"); Shape<T>::walk(t, v.x); t.name("y"); Shape<T>::walk(t, v.y); t.add('}'); }
    static void fill(kit::Rng& r, V& v) { Shape<T>::fill(r, v.x); Shape<T>::fill(r, v.y); }
};

// ---- monitors walking the real way
struct Recorder : ce::io<Recorder>
{
    Trace t;
    void enter_class() { t.add('{'); }
    void leave_class() { t.add('}'); }
    void enter_array(size_t& n, bool sized) { t.array(sized ? '(' : '[', n); }
    void leave_array(size_t& n, bool sized) { t.array(sized ? ')' : ']', n); }
    void name(char const* s) { t.name(s); }
    template<class T> void atom(T& v) { t.atom(&v, sizeof v); }
};
struct Reader : ce::io<Reader>
{
    Trace const& t;
    size_t at = 0;
    bool good = true;
    Reader(Trace const& from) : t(from) { }
    Event const* next(char k)
    {
        if (!good || at >= t.e.size() || t.e[at].kind != k) { good = false; return nullptr; }
        return &t.e[at++];
    }
    void enter_class() { next('{'); }
    void leave_class() { next('}'); }
    void enter_array(size_t& n, bool sized)
    {
        auto e = next(sized ? '(' : '[');
        if (sized) n = e ? e->count : 0;
        else if (e && e->count != n) good = false;
    }
    void leave_array(size_t& n, bool sized) { auto e = next(sized ? ')' : ']'); if (e && e->count != n) good = false; }
    void name(char const* s) { auto e = next('n'); if (e && strcmp(e->text, s)) good = false; }
    template<class T> void atom(T& v) { auto e = next('a'); if (e && e->bytes.size() == sizeof v) memcpy((void*)&v, e->bytes.data(), sizeof v); else good = false; }
};

static std::string show(Event const& e)
{
    switch (e.kind)
    {
    case 'n': return "name " + kit::quote(std::string(e.text ? e.text : "(null)"));
    case 'a': return kit::fmt("value of %zu bytes at %p", e.count, e.at);
    case '[': case ']': case '(': case ')': return kit::fmt("%c%s %zu items", e.kind, e.kind == '[' || e.kind == '(' ? " entering" : " leaving", e.count);
    default: return std::string(1, e.kind);
    }
}
static bool same(Case& c, char const* key, char const* type, Trace const& got, Trace const& want, bool places)
{
    for (size_t i = 0; i < got.e.size() || i < want.e.size(); ++i)
    {
        if (i >= got.e.size()) { c.fail(key, "%s: step %zu should be %s, but the walk is over", type, i, show(want.e[i]).c_str()); return false; }
        if (i >= want.e.size()) { c.fail(key, "%s: step %zu is %s, beyond the end", type, i, show(got.e[i]).c_str()); return false; }
        auto &a = got.e[i], &b = want.e[i];
        bool okay = a.kind == b.kind && a.count == b.count && (a.kind != 'n' || (a.text && !strcmp(a.text, b.text))) && (a.kind != 'a' || (a.bytes == b.bytes && (!places || a.at == b.at)));
        if (!okay) { c.fail(key, "%s: step %zu is %s, not %s", type, i, show(a).c_str(), show(b).c_str()); return false; }
    }
    return true;
}

struct Entry { char const* name; void (*run)(Case&, Entry const&); };
template<class T> static void run(Case& c, Entry const& e)
{
    // exactly sized, each on its own
    T* a = (T*)calloc(1, sizeof(T));
    T* b = (T*)calloc(1, sizeof(T));
    Shape<T>::fill(c.rng, *a);
    Shape<T>::fill(c.rng, *b);
    std::string before((char*)a, sizeof(T));
    Trace want;
    bool named = c.rng.chance(1, 2);
    if (named) want.name("top");
    Shape<T>::walk(want, *a);
    Recorder w;
    if (named) w.item("top", *a); else w.item(*a);
    c.ev();
    if (!same(c, "walk", e.name, w.t, want, true)) goto end;
    if (memcmp(before.data(), (void*)a, sizeof(T))) { c.fail("changed", "%s: looking at it changed it", e.name); goto end; }
    {
        // read back into something else
        Reader r(w.t);
        if (named) r.item("top", *b); else r.item(*b);
        c.ev();
        if (!r.good || r.at != w.t.e.size()) { c.fail("read", "%s: reading lost its place after %zu of %zu steps", e.name, r.at, w.t.e.size()); goto end; }
        Trace t;
        if (named) t.name("top");
        Shape<T>::walk(t, *b);
        if (!same(c, "round-trip", e.name, t, want, false)) goto end;
        Recorder again;
        if (named) again.item("top", *b); else again.item(*b);
        if (!same(c, "round-trip", e.name, again.t, want, false)) goto end;
    }
    {
        uint64_t h = kit::hash_bytes(e.name, strlen(e.name)), depth = 0, deepest = 0;
        for (auto& x : want.e)
        {
            if (strchr("{[(", x.kind)) ++depth, deepest = depth > deepest ? depth : deepest;
            if (strchr("}])", x.kind)) --depth;
            h = kit::mix(h ^ uint64_t(x.kind) ^ x.count << 8);
            if (x.kind == 'n') c.count("names");
            if (x.kind == 'a') c.count("values");
            if (x.kind == '(') c.count(x.count ? "lists" : "empty_lists");
        }
        c.cover("depths", deepest);
        c.cover("types", kit::hash_bytes(e.name, strlen(e.name)));
        c.distinct(h ^ kit::hash_bytes(before.data(), before.size()));
        if (c.index < 3) c.sample("%s: %zu steps, %zu bytes", e.name, want.e.size(), sizeof(T));
    }
end:
    free((void*)a), free((void*)b);
}
template<class T> static constexpr Entry entry(char const* name) { return { name, run<T> }; }

#include "types.inc"

void kit_main(kit::K& k)
{
    size_t n = sizeof entries / sizeof *entries;
    k.section("walks", n * 40 * k.pick(1, 4), [&](Case& c) { auto& e = entries[c.index % n]; e.run(c, e); });
}
