// Work whose results must not depend on the processor, the compiler, the language version, the other units of the
// program or what else was included: each item is a function of a seed, made of calls of the library alone (no C or C++
// library: this is also built where there is none). Included at the end of a unit, which first includes some of ce's
// headers and defines W_<header> for those. Everything is local to the unit.
#pragma once

// the program's part: what was written to the debugger since this was last asked, and the time's passing
extern "C" unsigned long long w_heard();
extern "C" void w_pass(unsigned long long ticks);

namespace
{
    namespace work
    {
        typedef ce::uint64_t u64;
        typedef ce::int64_t s64;
        typedef ce::uint32_t u32;
        typedef ce::int32_t s32;

        constexpr u64 mix(u64 x)
        {
            x += 0x9e3779b97f4a7c15ull;
            x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
            x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
            return x ^ (x >> 31);
        }
        // a generator and the digest of what was observed
        struct W
        {
            u64 s, h = 0;
            constexpr W(u64 seed) : s(mix(seed)) { }
            constexpr u64 next() { return s += 0x9e3779b97f4a7c15ull, mix(s); }
            constexpr u32 below(u32 n) { return u32((next() >> 32) * n >> 32); }
            constexpr s32 range(s32 lo, s32 hi) { return s32(s64(lo) + s64((next() >> 32) * u64(s64(hi) - lo + 1) >> 32)); }
            constexpr s64 wide() { u64 v = next(); return s64(v) >> (next() % 64); }
            constexpr s32 wide32() { u32 v = u32(next()); return s32(v) >> (next() % 32); }
            constexpr void see(u64 v) { h = mix(h ^ v); }
            void see(char const* b, char const* e) { for (; b != e; ++b) see(u64(static_cast<unsigned char>(*b))); see(0x100); }
            void text(char const* t) { for (; *t; ++t) see(u64(static_cast<unsigned char>(*t))); see(0x100); }
        };

        // ---- ce.h
        constexpr u64 checksums(u64 seed)
        {
            W w(seed);
            ce::uint8_t b[64]{ };
            ce::uint32_t d[16]{ };
            ce::uint64_t q[8]{ };
            for (u32 i = 0; i < 64; ++i) b[i] = ce::uint8_t(w.next());
            for (u32 i = 0; i < 16; ++i) d[i] = ce::uint32_t(w.next());
            for (u32 i = 0; i < 8; ++i) q[i] = w.next();
            u32 n = w.below(65);
            w.see(u64(ce::crc32(ce::crc32c_t::initial, n, b)));
            w.see(u64(ce::crc32(ce::crc32c_t(u32(w.next())), n / 4, d)));
            w.see(u64(ce::crc32(ce::crc32_t<0xedb88320>(u32(w.next())), n / 8, q)));
            w.see(ce::hash::fnv1a32(n, b));
            w.see(ce::hash::fnv1a64(n / 4, d));
            w.see(ce::hash::fnv1a64(n / 8, q));
            w.see(ce::hash::fnv1a("a name of something"));
            w.see(ce::crc32c("a name of something else"));
            return w.h;
        }
        constexpr u64 digits(u64 seed)
        {
            W w(seed);
            char t[41]{ };
            u32 n = w.below(41);
            for (u32 i = 0; i < n; ++i) t[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[w.below(64)];
            ce::uint8_t d[32]{ };
            u32 size = u32(ce::base64::size(t));
            ce::base64::decode(size, d, t);
            w.see(size);
            for (u32 i = 0; i < 32; ++i) w.see(d[i]);
            for (u32 i = 0; i < 8; ++i) w.see(u64(ce::base64::size(ce::size_t(w.below(0x7fffffff)))));
            return w.h;
        }
        constexpr u64 products(u64 seed)
        {
            W w(seed);
            ce::vec2<ce::int32_t> a{ w.range(-0x3fffffff, 0x3fffffff), w.range(-0x3fffffff, 0x3fffffff) }, b{ w.range(-0x3fffffff, 0x3fffffff), w.range(-0x3fffffff, 0x3fffffff) };
            ce::vec3<ce::int32_t> c{ w.range(-1000000, 1000000), w.range(-1000000, 1000000), w.range(-1000000, 1000000) }, d{ w.range(-1000000, 1000000), w.range(-1000000, 1000000), w.range(-1000000, 1000000) };
            w.see(u64(ce::sqrx(a)));
            w.see(u64(ce::dotx(a, b)));
            w.see(u64(ce::crossx(a, b)));
            w.see(u64(ce::dotx(c, d)));
            auto x = ce::crossx(c, d);
            w.see(u64(x.x)), w.see(u64(x.y)), w.see(u64(x.z));
            auto s = c + d * 7 - c / 3;
            w.see(u64(s64(s.x))), w.see(u64(s64(s.y))), w.see(u64(s64(s.z)));
            w.see(a == b), w.see(c != d);
            return w.h;
        }
        u64 randoms(u64 from)
        {
            W w(from);
            ce::uint8_t b[24];
            for (auto& x : b) x = ce::uint8_t(w.next());
            ce::random::xoroshiro64ss x;
            ce::random::xoroshiro128pp y;
            ce::random::pcg32_64_t z;
            u32 size = w.below(25);
            seed(x, size, b), seed(y, size, b), seed(z, size, b);
            for (int i = 0; i < 20; ++i)
            {
                w.see(next32(x)), w.see(next64(x)), w.see(next32(y)), w.see(next64(y));
                w.see(next(z));
                u32 n = u32(w.next() >> w.below(32) >> 32);
                w.see(ce::random::next_ranged(z, n));
                w.see(ce::random::next_unbiased(z, n | 1));
            }
            return w.h;
        }
        enum class kind : signed char { one = 1, two };
        u64 texts(u64 from)
        {
            W w(from);
            char t[600];
            auto put = [&](auto const& v) { w.see(t, ce::to_text(t, v)); };
            for (int i = 0; i < 8; ++i)
            {
                s64 v = w.wide();
                put(v), put(u64(v)), put(s32(v)), put(u32(v)), put(short(v)), put(ce::uint16_t(v)), put(ce::int8_t(v)), put(ce::uint8_t(v));
                put(long(s32(v))), put((unsigned long)(u32(v)));
                put(v % 2 == 0), put(char('a' + v % 26 * (v > 0))), put(kind(v % 100)), put(nullptr);
                s32 vs[3] = { s32(v), 7, w.wide32() };
                put(vs), put(ce::vec2<ce::int32_t>{ vs[0], vs[2] });
                ce::as_string a{ "a", v, ' ', u32(v), ' ', short(v), char('z'), v > 0 };
                w.text(a.as);
                w.see(sizeof a.as - 1);
            }
            return w.h;
        }
        struct counted
        {
            u64 v;
            W* w;
            counted(u64 a, W* b) : v(a), w(b) { w->see(v * 3 + 1); }
            counted(counted const& c) : v(c.v), w(c.w) { w->see(v * 3 + 2); }
            counted& operator=(counted const& c) { v = c.v, w = c.w; return *this; }
            ~counted() { w->see(v * 3); }
        };
        u64 sequences(u64 from)
        {
            W w(from);
            {
                ce::bulk<12, ce::int32_t> a, b;
                ce::bulk<7, counted> c, d;
                for (int i = 0; i < 60; ++i)
                {
                    u32 n = w.below(14);
                    s32 v = w.wide32();
                    switch (w.below(9))
                    {
                    case 0: case 1: w.see(a.append(v)); break;
                    case 2: w.see(a.remove_at<true>(n)); break;
                    case 3: w.see(a.remove_at(n)); break;
                    case 4: { u32 at = u32(a.size); if (a.append_n(n % 4)) for (; at < a.size; ++at) a[at] = s32(at); } break;
                    case 5: a = b; break;
                    case 6: if (n <= a.size) w.see(a.resize(n)); if (n == 0) a.clear(); break;
                    case 7: b = a; break;
                    default: w.see(c.append(u64(i), &w)), w.see(d.remove_at(n)), d = c; if (n == 3) c.remove_at<true>(0); break;
                    }
                    w.see(a.size), w.see(a.room()), w.see(a.capacity());
                    for (auto x : a) w.see(u64(s64(x)));
                    for (auto& x : d) w.see(x.v);
                }
            }
            return w.h;
        }
        u64 queues(u64 from)
        {
            W w(from);
            ce::min_priority_queue<20, u64> q{ };
            ce::bitset<77> s;
            s.reset();
            for (int i = 0; i < 120; ++i)
            {
                if (w.below(2)) w.see(q.enqueue(w.next() >> 44));
                else if (!q.empty()) w.see(q.head()), w.see(q.dequeue());
                u32 at = w.below(77);
                switch (w.below(8)) { case 0: s.set(at); break; case 1: s.reset(at); break; case 2: s.set(at, w.below(2) != 0); break; case 3: if (at == 0) s.set(); break; default: break; }
                w.see(s[w.below(77)]);
            }
            for (u32 i = 0; i < 77; ++i) w.see(s[i]);
            return w.h;
        }
        u64 polygons(u64 from)
        {
            W w(from);
            ce::vec2<ce::int32_t> ps[9];
            u32 n = 1 + w.below(9);
            for (u32 i = 0; i < n; ++i) ps[i] = { w.range(-9, 9), w.range(-9, 9) };
            for (s32 y = -10; y <= 10; ++y)
                for (s32 x = -10; x <= 10; ++x)
                    w.see(u64(s64(ce::ptrdiff_t(ce::in_polygon(ce::vec2<ce::int32_t>{ x, y }, n, ps)))));
            return w.h;
        }
        u64 names(u64 from)
        {
            W w(from);
            static constexpr ce::names<sizeof("a, b + f(c, d) , \"x,\\\",y\" , 1'000,e"), 5> n{ "a, b + f(c, d) , \"x,\\\",y\" , 1'000,e" };
            for (auto t : n.data) if (t) w.text(t);
            return w.h;
        }
        u64 checks(u64 from)
        {
            W w(from);
            w_heard();
            s32 a = s32(w.below(5)), b = w.wide32();
            CE_LOG(info, a, b + 1, a > 2);
            CE_LOG_MSG(warn, "the value of b is ", b, '!');
            w.see(CE_VERIFY(a < 3, a, b));
            w.see(CE_REJECT(b < 3));
            CE_ASSERT(a + 1 > 0, "more", a);
            if (a == 4) CE_ERROR();
            if (a == 3) CE_ERROR(b);
            w.see(w_heard());
            return w.h;
        }

#ifdef W_sort
        struct record { u32 key; u32 rest; bool operator<(record const& o) const { return key < o.key; } };
        u64 sorted(u64 from)
        {
            W w(from);
            s32 a[100], b[100];
            record c[100];
            u32 n = w.below(101), m = 1u << w.below(32);
            for (u32 i = 0; i < n; ++i) a[i] = b[i] = s32(w.next() % m), c[i] = { u32(a[i]), u32(a[i]) * 7 + 1 };
            ce::intro_sort<8>(a, a + n);
            ce::insertion_sort(b, b + n);
            ce::intro_sort<2>(c, c + n);
            for (u32 i = 0; i < n; ++i) w.see(u64(s64(a[i]))), w.see(u64(s64(b[i]))), w.see(c[i].key), w.see(c[i].rest);
            return w.h;
        }
#endif
#ifdef W_zorder
        u64 morton(u64 from)
        {
            W w(from);
            u64 z[60], out[60];
            u32 bits = 8 + w.below(23);
            auto at = [&] { return s32(u32(w.next()) >> (32 - bits)) - s32(1u << bits >> 1); };
            for (auto& v : z) { s32 x = at(), y = at(); v = ce::z_encode(x, y); w.see(v); }
            for (u32 i = 1; i < 60; ++i) for (u32 j = i; j > 0 && z[j] < z[j - 1]; --j) { u64 t = z[j]; z[j] = z[j - 1], z[j - 1] = t; }
            for (int i = 0; i < 8; ++i)
            {
                s32 x0 = at(), y0 = at(), x1 = at(), y1 = at();
                if (x1 < x0) ce::swap(x0, x1);
                if (y1 < y0) ce::swap(y0, y1);
                u64 lo = ce::z_encode(x0, y0), hi = ce::z_encode(x1, y1);
                u32 n = u32(ce::z_query(out, lo & ~0xffffull, hi | 0xffff, 60, z));
                w.see(n);
                for (u32 k = 0; k < n; ++k) w.see(out[k]), w.see(ce::z_inside(lo, hi, out[k]));
            }
            return w.h;
        }
#endif
#ifdef W_pool
        u64 pooled(u64 from)
        {
            W w(from);
            using P = ce::pool<9, u64>;
            P p;
            p.reset();
            P::queue_t q[2];
            for (int i = 0; i < 100; ++i)
            {
                auto& k = q[w.below(2)];
                u64 v = w.next();
                switch (w.below(3)) { case 0: w.see(p.append_tail(k, v)); break; case 1: w.see(p.insert_head(k, v)); break; default: w.see(p.remove_head(k)); break; }
                if (!p.is_empty(k)) w.see(p.head(k)), w.see(p.tail(k));
            }
            return w.h;
        }
#endif
#ifdef W_dictionary
        struct pair { s32 a; u32 b; };
        u64 lookups(u64 from)
        {
            W w(from);
            ce::dictionary<12, pair, ce::uint32_t> d{ };
            for (int i = 0; i < 40; ++i)
            {
                u32 n = ce::hash::fnv1a("name") + w.below(16);
                if (w.below(2)) w.see(u64(d.bind(n, s32(i), n)));
                auto p = d.find(n);
                w.see(u64(p));
                if (p != decltype(p)::nil) w.see(u64(s64(d[p].a))), w.see(d[n].b);
                w.see(d.size);
            }
            return w.h;
        }
#endif
#ifdef W_lziii
        constexpr u64 expanded(u64 from)
        {
            W w(from);
            // groups of eight: literals and spans which stay within what came before
            ce::uint8_t e[120]{ };
            ce::uint8_t d[2000]{ };
            u32 n = 0, have = 0;
            for (int g = 0; g < 6; ++g)
            {
                u32 c = u32(w.next()) & 255;
                if (have == 0) c |= 1;
                e[n++] = ce::uint8_t(c);
                for (int k = 0; k < 8; ++k, c /= 2)
                    if (c % 2) e[n++] = ce::uint8_t(w.next()), ++have;
                    else
                    {
                        u32 o = 4096 - (1 + w.below(have)), l = w.below(16);
                        e[n++] = ce::uint8_t(o), e[n++] = ce::uint8_t(l * 16 + o / 256), have += l + 3;
                    }
            }
            w.see(ce::lziii::size(n, e)), w.see(have);
            ce::lziii::decode(have, d, e);
            for (u32 i = 0; i < have; ++i) w.see(d[i]);
            return w.h;
        }
#endif
#ifdef W_nameof
        enum class hue : long long { red, green, blue = 77, far = 1ll << 40 };
        enum lower { lo_a = 3, lo_b = 200 };
        template<class> struct box { };
        u64 named(u64 from)
        {
            W w(from);
            for (int i = 0; i < 256; ++i) w.text(ce::nameof(hue(i))), w.text(ce::nameof(lower(i)));
            w.see(u64(ce::as_enum<hue>("blue"))), w.see(u64(ce::as_enum<hue>("grey", hue::green))), w.see(u64(ce::as_enum("lo_b", lo_a)));
            w.text(ce::nameof<int>());
            return w.h;
        }
#endif
#ifdef W_math
        u64 geometry(u64 from)
        {
            W w(from);
            s64 q[4] = { w.wide(), w.wide() | 1, w.wide(), w.wide() };
            w.see(ce::ab_less_cd(q[0], q[1], q[2], q[3]));
            using V = ce::vec2<ce::int32_t>;
            s32 m = s32((1u << (2 + w.below(29))) - 1);
            auto v = [&] { s32 x = w.range(-m / 2, m / 2), y = w.range(-m / 2, m / 2); return V{ x, y }; };
            V a = v(), b = v(), c = v(), d = v(), r{ };
            w.see(ce::inside(a, b)), w.see(ce::inside(b, a));
            // (lines which meet far outside have no such point)
            s64 det = ce::crossx(b - a, d - c), t = ce::crossx(c - a, d - c);
            if (det < 0 ? t <= 0 && t >= det : t >= 0 && t <= det)
            {
                bool hit = ce::intersect(a, b, c, d, r);
                w.see(hit), w.see(u64(s64(r.x))), w.see(u64(s64(r.y)));
            }
            V n[4]; // near ones always meet within reach
            for (auto& x : n) x = v(), x.x %= 256, x.y %= 256;
            w.see(ce::intersect(n[0], n[1], n[2], n[3], r)), w.see(u64(s64(r.x))), w.see(u64(s64(r.y)));
            s64 rr = s64(w.next() >> 4 >> w.below(58));
            s32 k = m > 0x1fffffff ? 2 : 1;
            a = a / k, b = b / k;
            w.see(ce::in_range_rr(a.x, a.y, rr)), w.see(ce::in_range_rr_line(a.x, a.y, rr, b.x, b.y)), w.see(ce::in_range_rr_edge(a.x, a.y, rr, b.x, b.y));
            w.see(ce::in_range_rr_ray(a.x, a.y, rr, b.x, b.y)), w.see(ce::in_range_rr_segment(a.x, a.y, rr, b.x, b.y));
            s32 e0 = w.range(-1000, 1000);
            V e = ce::muldiv(a, e0, 1000 + s32(w.below(9)));
            w.see(u64(s64(e.x))), w.see(u64(s64(e.y)));
            return w.h;
        }
        u64 roots(u64 from)
        {
            // below 2^50, where no root is so near a half that processors round it differently
            W w(from);
            for (int i = 0; i < 20; ++i) { w.see(u64(ce::isqrt(s64(w.next() >> 14 >> w.below(50))))); s32 x = w.range(-0xffffff, 0xffffff), y = w.range(-0xffffff, 0xffffff); w.see(u64(ce::hypot(x, y))); }
            // some processors have a quick approximate answer: only that it is of length one, and points the same way, is common to all
            for (int i = 0; i < 20; ++i)
            {
                ce::vec3<float> v{ float(w.range(-0xffff, 0xffff)) / 256, float(w.range(-0xffff, 0xffff)) / 256, float(w.range(1, 0xffff)) / 256 };
                auto n = ce::normal(v);
                float l = n.x * n.x + n.y * n.y + n.z * n.z, cx = n.y * v.z - n.z * v.y, cy = n.z * v.x - n.x * v.z, d = n.x * v.x + n.y * v.y + n.z * v.z;
                w.see(l > 0.998f && l < 1.002f && cx > -0.01f && cx < 0.01f && cy > -0.01f && cy < 0.01f && d > 0);
            }
            return w.h;
        }
        u64 turns(u64 from)
        {
            W w(from);
            for (int i = 0; i < 10; ++i)
            {
                s32 r = w.range(0, 0x3fffffff), t = s32(u32(w.next()) >> 1) - 0x40000000;
                auto p = ce::to_cartesian(r, t);
                w.see(u64(s64(p.x))), w.see(u64(s64(p.y))), w.see(u64(s64(ce::cos_2pi(r, t)))), w.see(u64(s64(ce::sin_2pi(r, t))));
                s32 x = w.range(-0x1fffffff, 0x1fffffff), y = w.range(-0x1fffffff, 0x1fffffff);
                auto q = ce::to_polar(x, y);
                w.see(u64(s64(q.x))), w.see(u64(s64(q.y))), w.see(u64(s64(ce::polar_mag(x, y)))), w.see(u64(s64(ce::polar_ang(x, y)))), w.see(u64(s64(ce::atan2_2pi(y, x))));
            }
            return w.h;
        }
#endif
#ifdef W_cdt
        using mesh_t = ce::cdt<6, 256>;
        mesh_t g_mesh{ };
        u64 meshes(u64 from)
        {
            W w(from);
            auto& m = g_mesh;
            m.reset();
            s32 span = 1 << (12 + w.below(8));
            auto at = [&] { s32 x = w.range(-span, span) & ~127, y = w.range(-span, span) & ~127; return ce::vec2<ce::int32_t>{ x, y }; };
            u32 hint = 0;
            for (int i = 0; i < 60; ++i)
            {
                auto p = at();
                w.see(m.insert_point(p, hint));
                hint = m.locate(p, hint);
                w.see(hint);
                if (i % 6 == 5) { auto q = at(); w.see(m.insert_edge(p, q, hint)); }
            }
            w.see(m.size);
            m.fill(m.locate(at(), 0), 9);
            for (u32 n = 24; n < m.size * 8 - 0 && n < m.size * 8; ++n)
                if (n % 4 != 3) w.see(m.es[n].c), w.see(m.es[n].p), w.see(m.es[n].e);
            for (u32 i = 4; i < m.size; ++i) w.see(u64(s64(m.vs[i].x))), w.see(u64(s64(m.vs[i].y)));
            for (int i = 0; i < 20; ++i) w.see(m.locate(at(), 0));
            u32 faces = 0;
            for (auto f : m.faces()) w.see(u64(s64(f.ps[0].x))), w.see(u64(s64(f.ps[2].y))), w.see(f.cs[1]), w.see(f.data), ++faces;
            w.see(faces);
            return w.h;
        }
#endif
#ifdef W_io
        struct inner { s32 a; ce::vec2<ce::int32_t> v; u64 z[3]; };
        struct outer { inner i[2]; ce::list<inner, 3> l; ce::vec3<ce::int8_t> c; bool b; };
        struct walk : ce::io<walk>
        {
            W& w;
            walk(W& x) : w(x) { }
            void enter_class() { w.see(1); }
            void leave_class() { w.see(2); }
            void enter_array(ce::size_t& n, bool d) { w.see(n), w.see(d); }
            void leave_array(ce::size_t& n, bool) { w.see(n); }
            void name(char const* t) { w.text(t); }
            template<class T> void atom(T& t) { w.see(u64(s64(t))); }
        };
#endif
    }
}
#ifdef W_io
CE_IO_BIND(::work::inner, a, v, z);
CE_IO_BIND(::work::outer, i, l , c,b);
#endif

namespace
{
    namespace work
    {
#ifdef W_io
        u64 walked(u64 from)
        {
            W w(from);
            auto in = [&] { inner x{ }; x.a = w.wide32(), x.v = { w.wide32(), 5 }; for (auto& z : x.z) z = w.next(); return x; };
            outer o{ };
            for (auto& x : o.i) x = in();
            u32 n = w.below(4);
            while (n--) o.l.append(in());
            o.c = { 1, -2, ce::int8_t(w.next()) }, o.b = w.below(2) != 0;
            walk k(w);
            k.item("it", o);
            return w.h;
        }
#endif
#ifdef W_clock
        u64 ticks(u64 from)
        {
            W w(from);
            ce::clock<60, 1> a;
            ce::clock<1000, 7> b;
            a.reset(), b.reset();
            for (int i = 0; i < 12; ++i) w_pass(w.next() >> 20 >> w.below(40)), w.see(a.elapsed()), w.see(b.current()), w.see(a.tick), w.see(b.residual);
            return w.h;
        }
#endif
        struct item { char const* name; u64 (*run)(u64); };
        constexpr item items[] = {
            { "checksums", checksums }, { "digits", digits }, { "products", products }, { "randoms", randoms }, { "texts", texts },
            { "sequences", sequences }, { "queues", queues }, { "polygons", polygons }, { "names", names }, { "checks", checks },
#ifdef W_sort
            { "sorted", sorted },
#endif
#ifdef W_zorder
            { "morton", morton },
#endif
#ifdef W_pool
            { "pooled", pooled },
#endif
#ifdef W_dictionary
            { "lookups", lookups },
#endif
#ifdef W_lziii
            { "expanded", expanded },
#endif
#ifdef W_nameof
            { "named", named },
#endif
#ifdef W_math
            { "geometry", geometry }, { "roots", roots }, { "turns", turns },
#endif
#ifdef W_cdt
            { "meshes", meshes },
#endif
#ifdef W_io
            { "walked", walked },
#endif
#ifdef W_clock
            { "ticks", ticks },
#endif
        };
        // what the compiler computes, rather than the program
        constexpr u64 f0 = W_SEED, f1 = f0 + 1;
        struct folded { char const* name; u64 (*run)(u64); u64 from, value; };
        constexpr u64 checksums_0 = checksums(f0), checksums_1 = checksums(f1), digits_0 = digits(f0), digits_1 = digits(f1), products_0 = products(f0), products_1 = products(f1);
#ifdef W_lziii
        constexpr u64 expanded_0 = expanded(f0);
#endif
        constexpr folded foldeds[] = {
            { "checksums", checksums, f0, checksums_0 }, { "checksums", checksums, f1, checksums_1 }, { "digits", digits, f0, digits_0 }, { "digits", digits, f1, digits_1 },
            { "products", products, f0, products_0 }, { "products", products, f1, products_1 },
#ifdef W_lziii
            { "expanded", expanded, f0, expanded_0 },
#endif
        };
    }
}
