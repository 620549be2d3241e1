// G01: type lists, sequences, value lists and traits are what their names say, for every list, length and type.
#include "kit.h"
#include <type_traits>
#include <utility>
#include "ce/ce.h"
using kit::Case;
using std::size_t;

template<int N> struct Ty { static constexpr int n = N; };
union Uni { int a; float b; };
enum Enm { enm };
enum class Scoped : unsigned char { };
struct Abs { virtual void f() = 0; };
using Fn = int(char, double);
using FnC = int(int) const;
using Mem = int Ty<1>::*;
using MemFn = void (Ty<1>::*)(int) const;
using Arr3 = int[3];
using ArrX = char[];
using Arr23 = double[2][3];
template<size_t N> struct Plain { char c[N]; };
template<size_t N> struct Owning { char c[N]; ~Owning() { } };
template<size_t N> struct Moved { char c[N]; Moved(Moved&&) { } Moved(Moved const&) { } };
template<class T> using tP = std::add_pointer_t<T>;
template<class T> using tC = std::add_const_t<T>;
template<class T> using tV = std::add_volatile_t<T>;
template<class T> using tCV = std::add_cv_t<T>;
template<class T> using tL = std::add_lvalue_reference_t<T>;
template<class T> using tR = std::add_rvalue_reference_t<T>;

template<class T, class U> static constexpr bool same = std::is_same<T, U>::value;
template<class T> static constexpr int id = T::n;
static constexpr uint64_t walk_on(ce::types<>, uint64_t h) { return h; }
template<class...Ts> static constexpr uint64_t walk_on(ce::types<Ts...>, uint64_t h)
{
    using L = ce::types<Ts...>;
    return walk_on(typename L::cdr_t{}, h * 1000003u + uint64_t(id<typename L::car_t>));
}
template<class L> static constexpr uint64_t walk(L l) { return walk_on(l, 7); }
template<bool E> static constexpr int enabled(long) { return 0; }
template<bool E, class = ce::enable_t<E>> static constexpr int enabled(int) { return same<ce::enable_t<E>, void> && same<ce::enable_t<E, Ty<4>>, Ty<4>>; }
template<class...Ts> static constexpr int enabled_same(long) { return 0; }
template<class T, class...Ts, class R = ce::enable_same_t<T, Ts...>> static constexpr int enabled_same(int) { return same<R, T>; }

template<class T, T...Is> static bool items(Case& c, char const* what, ce::items<T, Is...>)
{
    constexpr size_t n = sizeof...(Is);
    T const a[n + 1] = { Is..., T{} };
    if (ce::items<T, Is...>::count != n) return c.fail("sequence-count", "%s says it has %zu items", what, size_t(ce::items<T, Is...>::count)), false;
    for (size_t i = 0; i < n; ++i) { c.ev(); if (uint64_t(a[i]) != i) return c.fail("sequence", "item %zu of %s is %lld", i, what, (long long)a[i]), false; }
    return true;
}
template<class T, T...Is> static ce::items<T, Is...> as_items(std::integer_sequence<T, Is...>);
struct Seq { char const* what; size_t n; void (*run)(Case&, Seq const&); };
template<class T, size_t N> static void run_sequence(Case& c, Seq const& s)
{
    using S = ce::sequence_t<T, N>;
    if (S::count != s.n) return c.fail("sequence-length", "%s has %zu items", s.what, size_t(S::count));
    if (!items(c, s.what, S{})) return;
    if (!same<S, decltype(as_items(std::make_integer_sequence<T, T(N)>{}))>) return c.fail("sequence-type", "%s is another type", s.what);
    if (!same<typename ce::sequence<T, N>::type, S>) return c.fail("sequence-type", "%s: sequence and sequence_t differ", s.what);
    c.count("sequences");
}

struct Vals { char const* what; size_t n; uint64_t want[20]; void (*run)(Case&, Vals const&); };
template<class T> static uint64_t single(...) { return 0; }
template<class T, T V> static void one(Case& c, Vals const& v) { if (uint64_t(ce::items<T, V>::value) != v.want[0] || ce::items<T, V>::count != 1) c.fail("value", "%s", v.what); }
template<class T, T...Vs> static void run_values(Case& c, Vals const& v)
{
    auto& a = ce::items_v<T, Vs...>;
    if (sizeof a / sizeof *a != v.n || ce::items<T, Vs...>::count != v.n) return c.fail("values-count", "%zu of %s", sizeof a / sizeof *a, v.what);
    if (!same<decltype(a), T const (&)[sizeof...(Vs)]>) return c.fail("values-type", "%s", v.what);
    for (size_t i = 0; i < v.n; ++i) { c.ev(); if (uint64_t(a[i]) != v.want[i]) return c.fail("values", "value %zu of %s is %lld", i, v.what, (long long)a[i]); }
    if constexpr (sizeof...(Vs) == 1) one<T, Vs...>(c, v);
    c.count("values");
}

struct Row { char const* kind; char const* what; uint64_t got, want; };
#include "lists.inc"

void kit_main(kit::K& k)
{
    k.section_exact("rows", sizeof rows / sizeof *rows, [](Case& c)
    {
        auto& r = rows[c.index];
        c.ev();
        if (r.got != r.want) c.fail(r.kind, "%s of %s: %llu, not %llu", r.kind, r.what, (unsigned long long)r.got, (unsigned long long)r.want);
        c.count("rows");
        c.cover("kinds", kit::hash_bytes(r.kind, strlen(r.kind)));
        c.cover("kind_answer", kit::hash_bytes(r.kind, strlen(r.kind)) ^ r.want);
        c.distinct(kit::hash_bytes(r.kind, strlen(r.kind)) * 3 ^ kit::hash_bytes(r.what, strlen(r.what)));
        if (c.index % 97 == 5) c.sample("%s of %s is %llu", r.kind, r.what, (unsigned long long)r.want);
    });
    k.section_exact("sequences", sizeof seqs / sizeof *seqs, [](Case& c) { auto& s = seqs[c.index]; s.run(c, s); c.distinct(kit::hash_bytes(s.what, strlen(s.what))); });
    k.section_exact("values", sizeof vals / sizeof *vals, [](Case& c) { auto& s = vals[c.index]; s.run(c, s); c.distinct(kit::hash_bytes(s.what, strlen(s.what))); });
}
