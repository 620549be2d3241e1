// M09: products of 32 bit vectors are exact in 64 bits, and every vector operator acts on all of its components and no others.
#include "kit.h"
#include <limits>
#include "ce/math.h"
using kit::Case;
typedef __int128 i128;

template<class T, size_t N> struct A { T v[N]; };
template<class T> static A<T, 2> arr(ce::vec2<T> const& v) { return { { v.x, v.y } }; }
template<class T> static A<T, 3> arr(ce::vec3<T> const& v) { return { { v.x, v.y, v.z } }; }
template<class T, size_t N> static bool eq(A<T, N> const& a, A<T, N> const& b) { for (size_t i = 0; i < N; ++i) if (!(a.v[i] == b.v[i])) return false; return true; }
template<class T, size_t N, class F> static A<T, N> map(A<T, N> a, A<T, N> const& b, F f) { for (size_t i = 0; i < N; ++i) a.v[i] = f(a.v[i], b.v[i]); return a; }
template<class T> static T& at(ce::vec2<T>& v, size_t i) { return i == 0 ? v.x : v.y; }
template<class T> static T& at(ce::vec3<T>& v, size_t i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
template<class T, size_t N> static A<T, N> fill(T s) { A<T, N> a; for (auto& x : a.v) x = s; return a; }

template<class V> static void components(Case& c, V a, V b, typename V::type s, char const* what)
{
    typedef typename V::type T;
    constexpr size_t N = V::size;
    auto x = arr(a), y = arr(b);
    auto sv = fill<T, N>(s);
    auto say = [&](bool ok, char const* op) { c.ev(); if (!ok) c.fail(op, "%s: %s of [%.9g %.9g ..] and [%.9g %.9g ..] and %.9g", what, op, double(x.v[0]), double(x.v[1]), double(y.v[0]), double(y.v[1]), double(s)); };
    auto add = [](T p, T q) { return T(p + q); };
    auto sub = [](T p, T q) { return T(p - q); };
    auto mul = [](T p, T q) { return T(p * q); };
    auto div = [](T p, T q) { return T(p / q); };
    say(eq(arr(a + b), map(x, y, add)), "add");
    say(eq(arr(a - b), map(x, y, sub)), "subtract");
    say(eq(arr(a * s), map(x, sv, mul)), "multiply");
    say(eq(arr(a / s), map(x, sv, div)), "divide");
    V t = a; V* r = &(t += b);
    say(r == &t && eq(arr(t), map(x, y, add)), "add-assign");
    t = a; r = &(t -= b);
    say(r == &t && eq(arr(t), map(x, y, sub)), "subtract-assign");
    t = a; r = &(t *= s);
    say(r == &t && eq(arr(t), map(x, sv, mul)), "multiply-assign");
    t = a; r = &(t /= s);
    say(r == &t && eq(arr(t), map(x, sv, div)), "divide-assign");
    say((a == b) == eq(x, y) && (a != b) == !eq(x, y), "equal");
    say((a == s) == eq(x, sv) && (a != s) == !eq(x, sv), "equal-scalar");
    // one component different is different
    t = a;
    size_t i = c.rng.below(N);
    at(t, i) = T(at(t, i) + 1);
    if (!eq(arr(t), x)) say(!(t == a) && t != a, "unequal");
    // all but one equal to the scalar
    for (size_t k = 0; k < N; ++k) at(t, k) = s;
    say(t == s && !(t != s), "all-scalar");
    at(t, i) = T(s + 1);
    if (!(at(t, i) == s)) say(!(t == s) && t != s, "one-not-scalar");
}

static void ints(Case& c)
{
    auto co = [&] { return int32_t(c.rng.range(-30000, 30000)); };
    int32_t s = co();
    if (s == 0) s = 1;
    ce::vec2<int32_t> a{ co(), co() }, b{ co(), co() };
    ce::vec3<int32_t> d{ co(), co(), co() }, e{ co(), co(), co() };
    if (c.rng.chance(1, 3)) b = a, e = d;
    components(c, a, b, s, "vec2<int>");
    components(c, d, e, s, "vec3<int>");
    components(c, ce::vec2<int64_t>{ a.x * 70000ll, b.x }, ce::vec2<int64_t>{ a.y, b.y * 70000ll }, int64_t(s), "vec2<int64>");
    components(c, ce::vec3<int64_t>{ a.x * 70000ll, b.x, d.x }, ce::vec3<int64_t>{ a.y, b.y * 70000ll, d.y }, int64_t(s), "vec3<int64>");
    auto f = [&] { return float(co()) / 8; };
    components(c, ce::vec2<float>{ f(), f() }, ce::vec2<float>{ f(), f() }, float(s) / 4, "vec2<float>");
    components(c, ce::vec3<float>{ f(), f(), f() }, ce::vec3<float>{ f(), f(), f() }, float(s) / 4, "vec3<float>");
    c.distinct(kit::hash_bytes(&a, sizeof a) ^ kit::mix(kit::hash_bytes(&d, sizeof d)));
}

// components of every magnitude, as far as the results are in range
template<class T> static void ranges(Case& c, char const* what)
{
    const T hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::min();
    auto co = [&] { return c.rng.chance(1, 8) ? c.rng.chance(1, 2) ? hi : lo : T(c.rng.swide(sizeof(T) * 8)); };
    ce::vec3<T> a{ co(), co(), co() }, b{ co(), co(), co() };
    T s = co();
    const i128 most = i128(hi), least = i128(lo);
    // those which would not fit give way
    bool add = c.rng.chance(1, 2);
    for (size_t i = 0; i < 3; ++i)
    {
        i128 r = add ? i128(at(a, i)) + at(b, i) : i128(at(a, i)) - at(b, i);
        if (r > most || r < least) at(b, i) = 0;
    }
    ce::vec3<T> t = a;
    ce::vec2<T> a2{ a.x, a.y }, b2{ b.x, b.y }, t2 = a2;
    auto r = add ? a + b : a - b;
    auto r2 = add ? a2 + b2 : a2 - b2;
    add ? t += b : t -= b;
    add ? t2 += b2 : t2 -= b2;
    for (size_t i = 0; i < 3; ++i)
    {
        i128 want = add ? i128(at(a, i)) + at(b, i) : i128(at(a, i)) - at(b, i);
        c.ev();
        if (i128(at(r, i)) != want || i128(at(t, i)) != want || (i < 2 && (i128(at(r2, i)) != want || i128(at(t2, i)) != want)))
            return c.fail("range-sum", "%s: component %zu of %lld %s %lld", what, i, (long long)at(a, i), add ? "+" : "-", (long long)at(b, i));
    }
    // quotients, and products where they fit
    for (size_t i = 0; i < 3; ++i)
    {
        T p;
        if (__builtin_mul_overflow(at(a, i), s, &p)) s = T(s < 0 ? -1 : 1);
    }
    for (size_t i = 0; i < 3; ++i) if (at(a, i) == lo && s < 0 && lo < 0) at(a, i) = hi;
    a2 = { a.x, a.y };
    auto m = a * s; auto m2 = a2 * s;
    T d = c.rng.chance(1, 2) ? T(c.rng.swide(sizeof(T) * 8)) : s;
    if (d == 0 || i128(d) == -1) d = 1;
    auto q = a / d; auto q2 = a2 / d;
    t = a, t *= s; t2 = a2, t2 *= s;
    auto u = a; u /= d; auto u2 = a2; u2 /= d;
    for (size_t i = 0; i < 3; ++i)
    {
        i128 want = i128(at(a, i)) * s, part = i128(at(a, i)) / d;
        c.ev();
        if (i128(at(m, i)) != want || i128(at(t, i)) != want || (i < 2 && (i128(at(m2, i)) != want || i128(at(t2, i)) != want)))
            return c.fail("range-product", "%s: component %zu of %lld * %lld", what, i, (long long)at(a, i), (long long)s);
        if (i128(at(q, i)) != part || i128(at(u, i)) != part || (i < 2 && (i128(at(q2, i)) != part || i128(at(u2, i)) != part)))
            return c.fail("range-quotient", "%s: component %zu of %lld / %lld", what, i, (long long)at(a, i), (long long)d);
    }
    // equality looks at every bit
    for (size_t i = 0; i < 3; ++i)
    {
        ce::vec3<T> e = a;
        at(e, i) = T(at(e, i) ^ T(T(1) << c.rng.below(sizeof(T) * 8 - 1)));
        c.ev();
        if (e == a || !(e != a) || !(a == a) || a != a) return c.fail("range-equal", "%s: component %zu: %lld and %lld", what, i, (long long)at(e, i), (long long)at(a, i));
        ce::vec2<T> e2{ e.x, e.y };
        if ((e2 == a2) != (i == 2) || (e2 != a2) == (i == 2)) return c.fail("range-equal", "%s: component %zu: %lld and %lld", what, i, (long long)at(e, i), (long long)at(a, i));
    }
    c.count("ranges");
    c.distinct(kit::hash_bytes(&a, sizeof a) ^ kit::mix(kit::hash_bytes(&b, sizeof b)));
}

// a vector by a component, or a vector, of its own
template<class V> static void own(Case& c, V a, char const* what)
{
    typedef typename V::type T;
    constexpr size_t N = V::size;
    for (size_t i = 0; i < N; ++i) if (at(a, i) == 0) at(a, i) = T(i + 3);
    auto x = arr(a);
    for (size_t i = 0; i < N; ++i)
    {
        auto f = fill<T, N>(x.v[i]);
        V m = a, d = a;
        m *= at(m, i), d /= at(d, i);
        c.ev(2);
        if (!eq(arr(m), map(x, f, [](T p, T q) { return T(p * q); }))) c.fail("own-multiply", "%s: by its own component %zu", what, i);
        if (!eq(arr(d), map(x, f, [](T p, T q) { return T(p / q); }))) c.fail("own-divide", "%s: by its own component %zu", what, i);
    }
    V s = a, z = a;
    s += s, z -= z;
    c.ev(2);
    if (!eq(arr(s), map(x, x, [](T p, T q) { return T(p + q); }))) c.fail("own-add", "%s: to itself", what);
    if (!eq(arr(z), map(x, x, [](T p, T q) { return T(p - q); }))) c.fail("own-subtract", "%s: from itself", what);
    c.count("own");
}
static void owns(Case& c)
{
    auto co = [&] { return int32_t(c.rng.range(-30000, 30000)); };
    own(c, ce::vec2<int32_t>{ co(), co() }, "vec2<int>");
    own(c, ce::vec3<int32_t>{ co(), co(), co() }, "vec3<int>");
    own(c, ce::vec2<int64_t>{ co(), co() }, "vec2<int64>");
    own(c, ce::vec3<int64_t>{ co(), co(), co() }, "vec3<int64>");
    own(c, ce::vec2<float>{ float(co()), float(co()) }, "vec2<float>");
    own(c, ce::vec3<double>{ double(co()), double(co()), double(co()) }, "vec3<double>");
    c.distinct(c.rng.next());
}

static void products(Case& c)
{
    int64_t lim2 = 0x7fffffff, lim3 = 1 << 30;
    auto co = [&](int64_t lim) { int64_t v = c.rng.swide(32); return int32_t(c.rng.chance(1, 6) ? (c.rng.chance(1, 2) ? lim : -lim) : v > lim ? lim : v < -lim ? -lim : v); };
    ce::vec2<int32_t> a{ co(lim2), co(lim2) }, b{ co(lim2), co(lim2) };
    ce::vec3<int32_t> d{ co(lim3), co(lim3), co(lim3) }, e{ co(lim3), co(lim3), co(lim3) };
    c.ev(8);
    i128 dot2 = i128(a.x) * b.x + i128(a.y) * b.y, cr2 = i128(a.x) * b.y - i128(a.y) * b.x, sq2 = i128(a.x) * a.x + i128(a.y) * a.y;
    if (i128(ce::dotx(a, b)) != dot2) c.fail("dot2", "dot of (%d, %d) and (%d, %d)", a.x, a.y, b.x, b.y);
    if (i128(ce::crossx(a, b)) != cr2) c.fail("cross2", "cross of (%d, %d) and (%d, %d)", a.x, a.y, b.x, b.y);
    if (i128(ce::sqrx(a)) != sq2) c.fail("square2", "square of (%d, %d)", a.x, a.y);
    i128 dot3 = i128(d.x) * e.x + i128(d.y) * e.y + i128(d.z) * e.z;
    if (i128(ce::dotx(d, e)) != dot3) c.fail("dot3", "dot of (%d, %d, %d) and (%d, %d, %d)", d.x, d.y, d.z, e.x, e.y, e.z);
    auto x = ce::crossx(d, e);
    if (i128(x.x) != i128(d.y) * e.z - i128(d.z) * e.y || i128(x.y) != i128(d.z) * e.x - i128(d.x) * e.z || i128(x.z) != i128(d.x) * e.y - i128(d.y) * e.x)
        c.fail("cross3", "cross of (%d, %d, %d) and (%d, %d, %d)", d.x, d.y, d.z, e.x, e.y, e.z);
    int32_t p = int32_t(c.rng.swide(32)), q = int32_t(c.rng.swide(32));
    if (i128(ce::sqrx(p)) != i128(p) * p || i128(ce::dotx(p, q)) != i128(p) * q) c.fail("scalar", "product of %d and %d", p, q);
    ce::vec2<float> f{ float(a.x % 2000), float(a.y % 2000) }, g{ float(b.x % 2000), float(b.y % 2000) };
    if (ce::dotx(f, g) != f.x * g.x + f.y * g.y || ce::crossx(f, g) != f.x * g.y - f.y * g.x || ce::sqrx(f) != f.x * f.x + f.y * f.y) c.fail("float2", "products of float vectors");
    ce::vec3<float> h{ f.x, f.y, g.x }, i{ g.y, g.x, f.y };
    auto j = ce::crossx(h, i);
    if (ce::dotx(h, i) != h.x * i.x + h.y * i.y + h.z * i.z || j.x != h.y * i.z - h.z * i.y || j.y != h.z * i.x - h.x * i.z || j.z != h.x * i.y - h.y * i.x) c.fail("float3", "products of float vectors");
    if (ce::sqrx(f.x) != f.x * f.x || ce::dotx(f.x, g.y) != f.x * g.y) c.fail("float1", "products of %g and %g", double(f.x), double(g.y));
    // components of 64 bits, whose products fit
    auto wide = [&](int bits) { int64_t v = c.rng.swide(64) >> (64 - bits); return v; };
    ce::vec2<int64_t> k{ wide(31), wide(31) }, l{ wide(31), wide(31) };
    ce::vec3<int64_t> m{ wide(31), wide(31), wide(31) }, o{ wide(31), wide(31), wide(31) };
    if (c.rng.chance(1, 2)) k = { wide(50), wide(40) }, l = { wide(12), wide(20) }; // one large, one small
    bool small = k.x < (1ll << 31) && k.x >= -(1ll << 31) && k.y < (1ll << 31) && k.y >= -(1ll << 31);
    if (i128(ce::dotx(k, l)) != i128(k.x) * l.x + i128(k.y) * l.y) c.fail("wide-dot2", "dot of (%lld, %lld) and (%lld, %lld)", (long long)k.x, (long long)k.y, (long long)l.x, (long long)l.y);
    if (small && i128(ce::crossx(k, l)) != i128(k.x) * l.y - i128(k.y) * l.x) c.fail("wide-cross2", "cross of (%lld, %lld) and (%lld, %lld)", (long long)k.x, (long long)k.y, (long long)l.x, (long long)l.y);
    if (small && (k.x != -(1ll << 31) && k.y != -(1ll << 31)) && i128(ce::sqrx(k)) != i128(k.x) * k.x + i128(k.y) * k.y) c.fail("wide-square2", "square of (%lld, %lld)", (long long)k.x, (long long)k.y);
    if (i128(ce::dotx(k.x, l.x)) != i128(k.x) * l.x || (small && i128(ce::sqrx(k.x)) != i128(k.x) * k.x)) c.fail("wide-scalar", "product of %lld and %lld", (long long)k.x, (long long)l.x);
    if (i128(ce::dotx(m, o)) != i128(m.x) * o.x + i128(m.y) * o.y + i128(m.z) * o.z) c.fail("wide-dot3", "dot of (%lld, %lld, %lld) and (%lld, %lld, %lld)", (long long)m.x, (long long)m.y, (long long)m.z, (long long)o.x, (long long)o.y, (long long)o.z);
    auto q3 = ce::crossx(m, o);
    if (i128(q3.x) != i128(m.y) * o.z - i128(m.z) * o.y || i128(q3.y) != i128(m.z) * o.x - i128(m.x) * o.z || i128(q3.z) != i128(m.x) * o.y - i128(m.y) * o.x) c.fail("wide-cross3", "cross of (%lld, %lld, %lld) and (%lld, %lld, %lld)", (long long)m.x, (long long)m.y, (long long)m.z, (long long)o.x, (long long)o.y, (long long)o.z);
    c.ev(6);
    c.count("wide", !small);
    c.distinct(kit::hash_bytes(&a, sizeof a) + kit::hash_bytes(&b, sizeof b) * 3 + kit::hash_bytes(&d, sizeof d));
    c.count("beyond_32_bits", (dot2 > INT32_MAX || dot2 < INT32_MIN));
    c.sample("(%d, %d) and (%d, %d)", a.x, a.y, b.x, b.y);
}

void kit_main(kit::K& k)
{
    k.section("components", 60000 * k.pick(1, 10), ints);
    k.section("ranges", 60000 * k.pick(1, 10), [](Case& c)
    {
        ranges<int32_t>(c, "int"), ranges<int64_t>(c, "int64"), ranges<uint32_t>(c, "unsigned"), ranges<uint64_t>(c, "unsigned64");
    });
    k.section("own", 10000 * k.pick(1, 10), owns);
    k.section("products", 150000 * k.pick(1, 10), products);
}
