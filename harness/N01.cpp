// N01: names of generated enumerations' values and types, both ways.
#include "kit.h"
#include "ce/ce.h"
#include "ce/nameof.h"
#include <type_traits>
using kit::Case;

struct Tag { struct Inner { }; };
struct é { };
namespace deep { struct Tag { }; template<class A, class B> struct some { }; namespace er { struct Tag { }; } }
template<class T, int N> struct pair { };
template<class T> using identity = T;

struct Pair { uint64_t value; char const* name; }; // the last one has no name
struct Entry
{
    char const* type;
    Pair const* pairs;
    int64_t low; uint64_t high; // values it can hold
    void (*run)(Case&, Entry const&);
};
static bool is(char const* s, char const* t) { return s && !strcmp(s, t); }

template<class T> static void run(Case& c, Entry const& e)
{
    using U = std::underlying_type_t<T>;
    auto name_of = [&](uint64_t v) -> char const* { for (auto p = e.pairs; p->name; ++p) if (p->value == v) return p->name; return nullptr; };
    auto value_of = [&](char const* s) -> Pair const* { for (auto p = e.pairs; p->name; ++p) if (!strcmp(p->name, s)) return p; return nullptr; };
    auto holds = [&](uint64_t v) { return int64_t(v) < 0 && std::is_signed_v<U> ? int64_t(v) >= e.low : v <= e.high; };
    uint64_t h = kit::hash_bytes(e.type, strlen(e.type)) ^ c.index;

    // values: all the small ones, and others
    for (int i = 0; i < 256 + 64; ++i)
    {
        uint64_t v = i < 256 ? uint64_t(i) : c.rng.chance(1, 2) ? uint64_t(c.rng.below(256)) + (uint64_t(1) << c.rng.range(8, 63)) : c.rng.next();
        if (i >= 300) v = uint64_t(-c.rng.range(1, 300));
        if (i >= 256) v = uint64_t(U(v)); // as the type would have it, extended
        if (!holds(v)) continue;
        char const* want = name_of(v);
        char const* got = ce::nameof(T(U(v)));
        c.ev();
        if (!got) return c.fail("nameof", "%s(%lld) has a null name", e.type, (long long)v);
        if (v < 256 ? strcmp(got, want ? want : "???") != 0 : !(is(got, "???") || (want && is(got, want))))
            return c.fail("nameof", "%s(%lld) is called %s, not %s", e.type, (long long)v, kit::quote(std::string(got)).c_str(), kit::quote(std::string(want ? want : "???")).c_str());
        if (want && v < 256)
        {
            c.count("names");
            T back = ce::as_enum<T>(got, T(U(v ? 0 : 1)));
            if (uint64_t(U(back)) != v) return c.fail("round-trip", "%s of %s is %lld, not %lld", kit::quote(std::string(got)).c_str(), e.type, (long long)U(back), (long long)v);
        }
        else c.count(v < 256 ? "unnamed" : "far");
    }
    // text: names, parts of names, more than names, others
    for (int i = 0; i < 200; ++i)
    {
        std::string s;
        int n = 0;
        while (e.pairs[n].name) ++n;
        if (n && c.rng.chance(3, 4)) s = e.pairs[c.rng.below(uint64_t(n))].name;
        else switch (c.rng.below(4)) { case 0: s = "???"; break; case 1: s = kit::fmt("(%s)%d", e.type, int(c.rng.below(256))); break; case 2: s = kit::fmt("%d", int(c.rng.below(256))); break; default: s = e.type; }
        switch (c.rng.below(10))
        {
        case 0: if (!s.empty()) s.pop_back(); break;
        case 1: s += char(1 + c.rng.below(255)); break;
        case 2: s = std::string(e.type) + "::" + s; break;
        case 3: if (!s.empty()) s.erase(0, 1 + c.rng.below(2)); break;
        case 4: if (!s.empty()) s[c.rng.below(s.size())] ^= char(1 << c.rng.below(7)); break;
        case 5: s.clear(); break;
        case 6: s += " "; break;
        case 7: if (n) s += e.pairs[c.rng.below(uint64_t(n))].name; break;
        default: break;
        }
        s = s.c_str();
        Pair const* p = value_of(s.c_str());
        uint64_t v = c.rng.below(2);
        if (!holds(v)) v = 0;
        char* text = strdup(s.c_str()); // exactly sized
        T got = ce::as_enum<T>(text, T(U(v)));
        T none = ce::as_enum<T>(text);
        free(text);
        c.ev(2);
        h = kit::mix(h ^ kit::hash_bytes(s.data(), s.size()));
        bool near = p && p->value < 256;
        if (p && !near) { c.count("far_text"); if (got != T(U(p->value)) && got != T(U(v))) return c.fail("as_enum", "%s of %s is %lld", kit::quote(s).c_str(), e.type, (long long)U(got)); continue; }
        if (got != T(U(near ? p->value : v)) || none != T(U(near ? p->value : 0)))
            return c.fail("as_enum", "%s of %s is %lld or %lld by default, not %lld", kit::quote(s).c_str(), e.type, (long long)U(got), (long long)U(none), (long long)(near ? p->value : v));
        c.count(near ? "known_text" : "unknown_text");
    }
    c.cover("enumerations", kit::hash_bytes(e.type, strlen(e.type)));
    c.distinct(h);
}
template<class T> static constexpr Entry entry(char const* type, Pair const* pairs, int64_t low, uint64_t high) { return { type, pairs, low, high, run<T> }; }

struct Named { char const* want; char const* got; size_t size; };
#if defined(__GNUC__) && !defined(__clang__)
// this compiler spells some types otherwise (`short int`): what it calls the type, cut out here
static char const* g_spelled;
template<class T> static void spelled() { g_spelled = __PRETTY_FUNCTION__; }
template<class T> static Named type(char const*)
{
    auto& s = ce::nameof<T>();
    spelled<T>();
    std::string w = g_spelled;
    size_t at = w.find("[with T = ") + 10;
    return { strdup(w.substr(at, w.size() - 1 - at).c_str()), s, sizeof s };
}
#else
template<class T> static Named type(char const* want) { auto& s = ce::nameof<T>(); return { want, s, sizeof s }; }
#endif

#include "names.inc"

void kit_main(kit::K& k)
{
    size_t n = sizeof enums / sizeof *enums;
    k.section("enumerations", n * 30 * k.pick(1, 4), [&](Case& c) { auto& e = enums[c.index % n]; e.run(c, e); });
    size_t m = sizeof named / sizeof *named;
    k.section_exact("types", m, [&](Case& c)
    {
        auto& t = named[c.index];
        c.ev();
        if (strcmp(t.got, t.want)) return c.fail("type", "%s is called %s", kit::quote(std::string(t.want)).c_str(), kit::quote(std::string(t.got)).c_str());
        if (t.size != strlen(t.got) + 1) return c.fail("type-size", "%s: %zu characters in an array of %zu", t.got, strlen(t.got), t.size);
        c.count("types");
        c.distinct(kit::hash_bytes(t.want, strlen(t.want)));
        if (c.index > 30 && c.index < 34) c.sample("%s", t.got);
    });
}
