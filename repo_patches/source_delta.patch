From 8bbeae03154eea019ea01f9f5f3c507dc81993cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 01/34] fix: next_unbiased rejects the biased low range

'0u - n % n' parses as '0u - (n % n)' which is always 0, so the loop that
rejects the first 2^32 % n products never ran and results were biased.
---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index d17d53f..138db34 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -837,7 +837,7 @@ namespace ce
             auto p = uint32_t(m);
             if (p < n)
             {
-                auto k = 0u - n % n;
+                auto k = (0u - n) % n;
                 while (p < k)
                 {
                     m = uint64_t(n) * read(q);
-- 
2.43.0


From 6db7326922daa1a8c441964c0823cd0f498a5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 02/34] fix: pcg32_64 output rotate shifts by 32 when the
 rotate count is 0

b << (32 - a) is undefined for a == 0, which is 1 in 32 states. Use the rotate
intrinsic, and make its portable fallback well defined for a count of 0.
---
 lib/h/ce/ce.h | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 138db34..750bebe 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -75,7 +75,7 @@ namespace ce
 
         inline uint32_t rotl32(uint32_t x, int i)
         {
-            return (x << (i & 31)) | (x >> (32 - (i & 31)));
+            return (x << (i & 31)) | (x >> (-i & 31));
         }
 
         class new_tag;
@@ -783,16 +783,8 @@ namespace ce
             auto a = q >> 59;
             auto b = uint32_t(q >> 27 ^ q >> 45);
 
-            // RANT ON
-            // this is technically UB, but it compiles to ror on MSVC whereas b >> a | b << (-31 & a) does not :-(
-            // the c++ standard should consider making unsigned shifts b << a, b >> a, where a > 0 && bit_count(b) % a == 0, implementation defined behavior with a choice of either be 0 or b 
-            // then b >> a | b << (32 - a) === b when a == 0, since it reduces to b | b << 32 === b | (0 or b) === (b | 0) or (b | b) === b or b === b
-            // which is non longer UB and can be cosntexpr
-            // not sure why MSVC doesn't recongnize b >> a | b << (-31 & a) as a rotate...
-            // also it is really annoying that some processors only have ror or rol, but not both, and there is no particular reason for which one they have!
-            // I guess they want some programs to be slightly slower on their processors to save 1 op code
-            // RANT OFF
-            return b >> a | b << (32 - a);
+            // rotate right by a, b >> a | b << (32 - a) is UB when a == 0
+            return CE_ROTL32(b, 32 - int(a));
         }
 
         inline pcg32_64_t step(pcg32_64_t g)
-- 
2.43.0


From 73fccb1a1fcbd1ce582fe74a50ed97c01988b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 03/34] fix: is_constructible_with never detected constructor
 arguments

Both overloads returned false, so construct_copy assigned to raw memory when
a copy constructible type has no default constructor.
---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 750bebe..8d22f55 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1260,7 +1260,7 @@ namespace ce
     template<class T, class...Ts> struct is_constructible_with
     {
         template<class U, class...Us> static constexpr bool test(...) { return false; };
-        template<class U, class...Us> static constexpr bool test(decltype(U{ (*(Us*)0)... }, 0)) { return false; }
+        template<class U, class...Us> static constexpr bool test(decltype(U{ (*(Us*)0)... }, 0)) { return true; }
         static constexpr bool value = test<T, Ts...>(0);
     };
 
-- 
2.43.0


From 935dd82fc76d77439547bf31b1ef42db2ad76f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 04/34] fix: dictionary never found a name equal to the unused
 slot 0

The linear scan started at the reserved slot 0, so looking up a name equal to
names[0] (e.g. 0) returned nil and binding it again used another slot.
---
 lib/h/ce/dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index cb5abd4..4accf6e 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -51,7 +51,7 @@ namespace ce
                     return ptr_t(i);
 
             // linear scan
-            for (size_t i = heap; i < size; ++i)
+            for (size_t i = heap + !heap; i < size; ++i)
                 if (names[i] == n)
                     return ptr_t(i);
 
-- 
2.43.0


From 461a01971e4e4b0ea3914108b45a503928b2f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 05/34] fix: dictionary<1> bound its first name out of bounds

Slot 0 is reserved, so the first slot is 1: check the slot against N.
---
 lib/h/ce/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index 4accf6e..8c12d9d 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -64,10 +64,10 @@ namespace ce
             auto i = size_t(find(n));
             if (i == 0)
             {
-                if (size >= N)
+                i = size + !size; // add 1 if size == 0 so we don't allocate 0
+                if (i >= N)
                     return ptr_t::nil;
 
-                i = size + !size; // add 1 if size == 0 so we don't allocate 0
                 size = i + 1;
 
                 names[i] = n;
-- 
2.43.0


From 426d93aae95cde2763c4396b8fa5375fedd597b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 06/34] fix: in_range_rr_edge accepted points past the far end
 of the edge

A point within range of { 0, 0 } was accepted before checking that its
projection is on the edge, e.g. p = { 5, 0 }, rr = 100, d = { 1, 0 }.
---
 lib/h/ce/math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e478e5d..e7cbc48 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -151,14 +151,14 @@ namespace ce
             if (dp < 0)
                 return false;
 
-            auto pp = int64_t(px) * px + int64_t(py) * py;
-            if (pp < rr)
-                return true;
-
             auto dd = int64_t(dx) * dx + int64_t(dy) * dy;
             if (dp > dd)
                 return false;
 
+            auto pp = int64_t(px) * px + int64_t(py) * py;
+            if (pp < rr)
+                return true;
+
             return ab_less_cd(dd, pp - rr, dp, dp);
         };
 
-- 
2.43.0


From e604b9ae15a6c0cdad85336cd4d742b30edb799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 07/34] fix: intersect returned p0 or overflowed for short or
 long lines

muldiv dropped the low 16 bits of the divisor, which is 0 for short lines
({0,0}-{10,10} x {0,10}-{10,0} gave {0,0}), and n << 16 overflows for long
ones. Multiply and divide in 128 bits where that is available.
---
 lib/h/ce/math.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e7cbc48..0c54d5f 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -81,6 +81,7 @@ namespace ce
 #endif
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int64_t n, int64_t d)
         {
+#ifdef _MSC_VER
             int64_t d16 = d >> 16;
 
             if (d16 == 0)
@@ -90,6 +91,9 @@ namespace ce
 
             //int64_t t = msvc::xdiv(msvc::xmul(n, 0x0000000100000000), d);
             return { int32_t((b.x * t) >> 32), int32_t((b.y * t) >> 32) };
+#else
+            return { int32_t(__int128(b.x) * n / d), int32_t(__int128(b.y) * n / d) };
+#endif
         }
 
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int32_t n, int32_t d)
-- 
2.43.0


From 15273a020d219c06b7ab6150fbee2ff9da556b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 08/34] fix: intro_sort degenerated to quadratic time and
 linear stack depth

The recursion limit was counted but never acted on, so e.g. a large array of
equal items overflowed the stack. Heap sort a range when the limit is hit.
---
 lib/h/ce/sort.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/sort.h b/lib/h/ce/sort.h
index cb73e05..4a050c0 100644
--- a/lib/h/ce/sort.h
+++ b/lib/h/ce/sort.h
@@ -40,6 +40,30 @@ namespace ce
         }
     }
 
+    template<class T>
+    void heap_sort(T* a, T* b)
+    {
+        size_t n = b - a;
+
+        // form a heap (largest at a[0]), then move the largest to the end of the heap until it is empty
+        for (size_t i = n / 2; n > 1;)
+        {
+            if (i > 0)
+                --i;
+            else
+                swap(a[0], a[--n]);
+
+            for (size_t p = i, c; (c = p * 2 + 1) < n; p = c)
+            {
+                if (c + 1 < n && a[c] < a[c + 1])
+                    ++c;
+                if (!(a[p] < a[c]))
+                    break;
+                swap(a[p], a[c]);
+            }
+        }
+    }
+
     // median in b
     template<class T>
     void median(T& a, T& b, T& c)
@@ -85,8 +109,9 @@ namespace ce
         if (n < N)
             return insertion_sort(a, b);
 
-        //if (limit == 0)
-        //    return heap_sort();
+        // too many bad partitions?
+        if (intro == 0)
+            return heap_sort(a, b);
 
         T* p = partition(a, b);
         size_t limit = intro / 2;
-- 
2.43.0


From b90fa9365ab6285ef62bf76f206577dbc471e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 09/34] fix: nameof of an enumerator kept part of its scope

Only the first :: was skipped, so nameof(ns::color::green) was "color::green"
and as_enum<ns::color>("green") failed.
---
 lib/h/ce/nameof.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 5779a00..6678350 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -45,6 +45,16 @@ namespace ce
             return 0;
         };
 
+        // skip past the last one (e.g. to `b` in `outer::a::b`)
+        static constexpr unsigned skip_all(char what, char const text[])
+        {
+            unsigned last = 0;
+            for (unsigned n = 0; text[n] != 0; ++n)
+                if (text[n] == what)
+                    last = n + 1;
+            return last;
+        };
+
         template<unsigned N> struct const_text
         {
             static constexpr unsigned size = N;
@@ -74,7 +84,7 @@ namespace ce
         template<class T, T N> struct nameof<T, N>
         {
             static constexpr bool is_known = name_item<N>.data[0] != '(';
-            static constexpr auto _skip = skip(':', name_item<N>.data);
+            static constexpr auto _skip = skip_all(':', name_item<N>.data);
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
 
-- 
2.43.0


From ecdae64c98e95b9344fd6e17d553004111aa22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 10/34] fix: nameof ignored the upper bits of 64 bit enum
 values

An unknown value such as 0x100000001 was given the name of value 1.
---
 lib/h/ce/nameof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 6678350..230c430 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -99,11 +99,11 @@ namespace ce
             if constexpr (H - L > 64)
             {
                 constexpr auto M = L + (H - L) / 2;
-                return unsigned(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
+                return uint64_t(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
             }
             else if constexpr (L < H)
             {
-                if (unsigned(n) == L)
+                if (uint64_t(n) == L)
                 {
                     using N = nameof<T, static_cast<T>(L)>;
                     if constexpr (N::is_known)
-- 
2.43.0


From 6d182cfaaaad7e11187c4b531f58f6af9f7489d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 11/34] fix: nameof of a type was cut at its first space

Only MSVC prefixes the type with enum, struct, etc. Elsewhere unsigned int was
named int, and ns::pair<int, ns::item> was named ns::item>.
---
 lib/h/ce/nameof.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 230c430..3e4f30a 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -77,7 +77,12 @@ namespace ce
         template<class T, T...> struct nameof;
         template<class T> struct nameof<T>
         {
+#if defined(_MSC_VER)
+            // skip `enum`, `struct`, etc
             static constexpr auto _skip = skip(' ', name_type<T>.data);
+#else
+            static constexpr auto _skip = 0u;
+#endif
             static constexpr auto text = const_text<name_type<T>.size - _skip>{ name_type<T>.data + _skip };
         };
 
-- 
2.43.0


From 723605a5ff97db2ef08a4dc90732ddbf48945673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 12/34] fix: as_string read past unterminated char arrays and
 through null strings

With more than one value a char[N] decayed to a pointer, was measured as N but
copied until a '\0' was found, and a null char const* was dereferenced. Bound
char arrays by N, and show null strings as other null pointers are shown.
---
 lib/h/ce/ce.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 8d22f55..a604741 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1038,7 +1038,7 @@ namespace ce
         using U = ce::remove_cvref_t<T>;
         if constexpr (ce::is_same<U, char const*>::value || ce::is_same<U, char*>::value)
         {
-            return to_text_s(text, measure<T>::value, from);
+            return from == nullptr ? to_text_p(text, "#<nil>") : to_text_s(text, measure<T>::value, from);
         }
         else
         {
@@ -1046,6 +1046,8 @@ namespace ce
         }
     }
 
+    template<size_t N> inline char* to_text_m(char* text, char const (&from)[N]) { return to_text_s(text, N, from); }
+
     template<class...Ts> struct as_string
     {
         char as[measure<Ts...>::value + 1];
-- 
2.43.0


From 309d7a823ba9b0bcd197b7f3e7e4837180913807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 13/34] fix: utf-8 in log keys and reflected member names was
 treated as space

Where char is signed every byte of a multi-byte character is below ' ', so
names were trimmed or skipped and the following names could shift.
---
 lib/h/ce/ce.h | 4 ++--
 lib/h/ce/io.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index a604741..0d8ec0d 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1117,7 +1117,7 @@ namespace ce
                 name = &text[i];
 
                 // skip leading spaces
-                while (*src <= ' ' && *src != '\0')
+                while (uint8_t(*src) <= ' ' && *src != '\0')
                     ++src;
 
                 // if we are at the last data item, start unbalanced so we copy the whole string (
@@ -1147,7 +1147,7 @@ namespace ce
                     else if (*src == quote)
                         quote = 0;
 
-                    if ((text[i++] = *src++) > ' ')
+                    if (uint8_t(text[i++] = *src++) > ' ')
                         trim = i;
                 }
 
diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index ce2584b..ef8ede4 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -40,10 +40,10 @@ namespace ce
             {
                 names[i] = &text[j];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && uint8_t(s[k]) <= ' ')
                     ++k;
 
-                while (s[k] > ' ' && s[k] != ',')
+                while (uint8_t(s[k]) > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
                 if (s[k] == ',')
-- 
2.43.0


From 0a6590b2e4ad59fec893b59d488a73e613ae0ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 14/34] fix: cdt incircle overflowed for triangles larger than
 half the grid

The determinant of 17 bit differences needs up to 69 bits. Evaluate it exactly
as a high and a low part.
---
 lib/h/ce/cdt.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index b640cae..fbdcf7a 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -333,11 +333,11 @@ namespace ce
             auto ca = cx * ay - cy * ax;
             auto ab = ax * by - ay * bx;
 
-            auto aabc = aa * bc;
-            auto bbca = bb * ca;
-            auto ccab = cc * ab;
+            // the products need more than 64 bits, so split aa, bb, and cc into high and low (16 bit) parts
+            auto hi = (aa >> 16) * bc + (bb >> 16) * ca + (cc >> 16) * ab;
+            auto lo = (aa & 0xffff) * bc + (bb & 0xffff) * ca + (cc & 0xffff) * ab;
 
-            return aabc + bbca + ccab < 0;
+            return hi + (lo >> 16) < 0;
         }
 
         template<bool More>
-- 
2.43.0


From a45122fbdbdabca510ac08f61bc4ba51365fdbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 15/34] fix: cdt locate could walk in a cycle forever after
 insert_edge

A visibility walk only has to terminate in a delaunay mesh, constraints make
the mesh non delaunay. Bound the walk by the number of edges and fall back to
scanning the faces.
---
 lib/h/ce/cdt.h | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index fbdcf7a..3ce6d16 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -510,9 +510,8 @@ namespace ce
             return e % 4 == 3 ? e & ~3 : e;
         }
 
-        size_t locate_insertion_node(int64_t px, int64_t py, size_t hint) const
+        size_t scan_insertion_node(int64_t px, int64_t py) const
         {
-#if 0
             for (size_t f = size * 2; --f >= 6;)
             {
                 vec2<int64_t> a{ vs[fs[f].p0].x - px, vs[fs[f].p0].y - py };
@@ -523,7 +522,10 @@ namespace ce
                     return f * 4;
             }
             return 0;
-#else
+        }
+
+        size_t locate_insertion_node(int64_t px, int64_t py, size_t hint) const
+        {
             if (hint < 24 || hint >= size * 8)
                 hint = size * 8 - 4;
 
@@ -537,8 +539,15 @@ namespace ce
             if (!in(p1, p2))
                 e = es[e].e, t = p1, p1 = p2, p2 = t;
 
+            // constraints can cause the walk to cycle, so don't visit more edges than there are
+            size_t limit = size * 8;
+
             while (e != 0)
             {
+                if (limit == 0)
+                    return scan_insertion_node(px, py);
+                --limit;
+
                 vec2<int64_t> p0{ vs[es[e].p].x - px, vs[es[e].p].y - py };
 
                 bool in1 = in(p2, p0);
@@ -563,6 +572,9 @@ namespace ce
                         CE_ASSERT(in(p1, p2));
                         if (e == 0)
                             return 0;
+                        if (limit == 0)
+                            return scan_insertion_node(px, py);
+                        --limit;
 
                         p0.x = vs[es[e].p].x - px;
                         p0.y = vs[es[e].p].y - py;
@@ -582,7 +594,6 @@ namespace ce
                 }
             }
             return 0;
-#endif
         }
 
         size_t insert_point_at_node(int64_t px, int64_t py, size_t n)
@@ -956,9 +967,8 @@ namespace ce
             return insert_edge(p.x >> Q & ~1, p.y >> Q & ~1, q.x >> Q & ~1, q.y >> Q & ~1, hint);
         }
 
-        uint locate(int32_t px, int32_t py, uint hint) const
+        uint scan(int32_t px, int32_t py) const
         {
-#if 0
             for (size_t f = size * 2; --f >= 6;)
             {
                 vec2<int32_t> a{ vs[fs[f].p0].x * m2w32 - px, vs[fs[f].p0].y * m2w32 - py };
@@ -966,10 +976,13 @@ namespace ce
                 vec2<int32_t> c{ vs[fs[f].p2].x * m2w32 - px, vs[fs[f].p2].y * m2w32 - py };
 
                 if (inside(a, b) && inside(b, c) && inside(c, a))
-                    return f * 4;
+                    return uint(f * 4 + 3);
             }
             return 0;
-#else
+        }
+
+        uint locate(int32_t px, int32_t py, uint hint) const
+        {
             auto e = hint & ~3;
             if (e < 24 || e > size * 8 - 4)
                 e = uint(size * 8 - 4);
@@ -982,8 +995,15 @@ namespace ce
             if (!inside(p1, p2))
                 e = es[e].e, t = p1, p1 = p2, p2 = t;
 
+            // constraints can cause the walk to cycle, so don't visit more edges than there are
+            size_t limit = size * 8;
+
             while (e != 0)
             {
+                if (limit == 0)
+                    return scan(px, py);
+                --limit;
+
                 vec2<int32_t> p0{ vs[es[e].p].x * m2w32 - px, vs[es[e].p].y * m2w32 - py };
 
                 bool in1 = inside(p2, p0);
@@ -1007,6 +1027,9 @@ namespace ce
                     {
                         if (e == 0)
                             return e;
+                        if (limit == 0)
+                            return scan(px, py);
+                        --limit;
 
                         p0.x = vs[es[e].p].x * m2w32 - px;
                         p0.y = vs[es[e].p].y * m2w32 - py;
@@ -1026,7 +1049,6 @@ namespace ce
                 }
             }
             return e;
-#endif
         }
 
         uint locate(vec2<int32_t> const& p, uint hint) const { return locate(p.x, p.y, hint); }
-- 
2.43.0


From 1f0b5a498ff0fa0d7186998d69fdd5485fb50bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 16/34] fix: z_query overflowed its span stack for large boxes

---
 lib/h/ce/zorder.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index 389aa89..c18a113 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -116,7 +116,7 @@ namespace ce
         //data = z_lower_bound(data, last, lo);
         last = z_lower_bound(data, last, hi + 0x0ffff);
 
-        uint64_t spans[32 * 2];
+        uint64_t spans[64 * 2];
         auto next = &spans[0];
 
         while (data < last)
@@ -154,7 +154,7 @@ namespace ce
                 }
                 else
                 {
-                    //CE_ASSERT(next < &spans[32 * 2]);
+                    //CE_ASSERT(next < &spans[64 * 2]);
                     // push
                     next[0] = mi;
                     next[1] = hi;
-- 
2.43.0


From fa2305108de1b425536441296d81ce6690cbcc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 17/34] fix: z_query missed every point when the box touches
 the far corner

---
 lib/h/ce/zorder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index c18a113..12ae58a 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -114,7 +114,8 @@ namespace ce
         size = 0;
 
         //data = z_lower_bound(data, last, lo);
-        last = z_lower_bound(data, last, hi + 0x0ffff);
+        if (hi < ~uint64_t(0x0ffff)) // or hi + 0x0ffff would wrap
+            last = z_lower_bound(data, last, hi + 0x0ffff);
 
         uint64_t spans[64 * 2];
         auto next = &spans[0];
@@ -123,7 +124,7 @@ namespace ce
         {
             uint64_t zn = *data++;
 
-            while (zn > hi + 0x0ffff)
+            while (zn > hi && zn - hi > 0x0ffff)
             {
                 // pop
                 if (next <= &spans[0])
-- 
2.43.0


From e0486bcdefdbd43f699be3179516e59b6fdc8ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 18/34] fix: bulk back did not compile when used

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 0d8ec0d..0c7e043 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1358,8 +1358,8 @@ namespace ce
         T const* begin() const { return &data[0]; }
         T const* end() const { return &data[size]; }
 
-        T const& back() const { return size > 0 ? data[size - 1] : *reinterpret_cast<T const*>(nullptr); }
-        T& back() { return size > 0 ? data[size - 1] : *reinterpret_cast<T*>(nullptr); }
+        T const& back() const { return size > 0 ? data[size - 1] : *static_cast<T const*>(nullptr); }
+        T& back() { return size > 0 ? data[size - 1] : *static_cast<T*>(nullptr); }
 
         T& operator[](size_t i) { return data[i]; }
         T const& operator[](size_t i) const { return data[i]; }
-- 
2.43.0


From 81d3e22cf4c6c82d36655d32d110cf72cd9854aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 19/34] fix: as_string of one unterminated char array was not
 terminated

---
 lib/h/ce/ce.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 0c7e043..dbbc1a8 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1059,20 +1059,18 @@ namespace ce
         }
     };
 
-    template<size_t N> struct as_string<char const (&)[N]>
+    template<> struct as_string<char const*>
     {
-        char const (&as)[N];
+        char const* as;
     };
 
-    template<> struct as_string<char const*>
+    template<> struct as_string<char const* const&>
     {
         char const* as;
     };
 
     template<class...Ts> as_string(Ts const&...)->as_string<Ts const&...>;
 
-    as_string(char const*)->as_string<char const*>;
-
     template<class...Ts> bool call_error_hook(char const info[], Ts const*... args)
     {
         auto next = [](char const* s) { while (*s != '\0') ++s; return s + 1; };
-- 
2.43.0


From c872e6817808f009aef32c2a3e4a4787718b587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 20/34] fix: digit separators in log keys were treated as
 character quotes

---
 lib/h/ce/ce.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index dbbc1a8..0791b45 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1122,6 +1122,8 @@ namespace ce
                 int balance = &name - data + 1 == COUNT ? 1 : 0;
                 char quote = 0;
                 bool escape = false;
+                bool word = false;
+                bool number = false;
                 size_t trim = i;
 
                 // copy until comma (with balanced ()[]{} and not in a string or char) or eos
@@ -1129,9 +1131,16 @@ namespace ce
                 {    
                     if (quote == 0)
                     {
+                        // a ' in a number is a digit separator
+                        bool digit = *src >= '0' && *src <= '9';
+                        bool letter = (*src >= 'A' && *src <= 'Z') || (*src >= 'a' && *src <= 'z') || *src == '_' || uint8_t(*src) >= 0x80;
+                        bool inner = number && (*src == '\'' || *src == '.');
+                        number = word ? number && (digit || letter || inner) : digit;
+                        word = digit || letter || inner;
+
                         if (*src == ',' && (balance == 0 || src[1] == '\0'))
                             break;
-                        else if (*src == '"' || *src == '\'')
+                        else if (*src == '"' || (*src == '\'' && !number))
                             quote = *src;
                         else if (*src == '(' || *src == '[' || *src == '{')
                             balance += 1;
-- 
2.43.0


From 20b54780f559cff3021c8fdcaf3cfa826bbf3ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 21/34] fix: a sleep was cut short by a signal

---
 lib/os_posix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/os_posix.cpp b/lib/os_posix.cpp
index 519133a..5ea624a 100644
--- a/lib/os_posix.cpp
+++ b/lib/os_posix.cpp
@@ -26,6 +26,7 @@ SOFTWARE.
 
 #if CE_API_POSIX
 
+#include <errno.h>
 #include <unistd.h>
 #include <time.h>
 
@@ -68,7 +69,8 @@ namespace ce
                 ts.tv_sec = ns / 1000000000u;
                 ts.tv_nsec = ns % 1000000000u;
             }
-            nanosleep(&ts, nullptr);
+            while (nanosleep(&ts, &ts) != 0 && errno == EINTR)
+                ;
         }
 
         file_t open_file(char const [])
-- 
2.43.0


From d7653f0e8cee34373fbba42779ecb705efbff11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 22/34] fix: white space before a comma shifted the names of
 reflected members

---
 lib/h/ce/io.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index ef8ede4..cfe942e 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -40,11 +40,9 @@ namespace ce
             {
                 names[i] = &text[j];
 
-                while (s[k] != '\0' && uint8_t(s[k]) <= ' ')
-                    ++k;
-
-                while (uint8_t(s[k]) > ' ' && s[k] != ',')
-                    text[j++] = s[k++];
+                for (; s[k] != '\0' && s[k] != ','; ++k)
+                    if (uint8_t(s[k]) > ' ')
+                        text[j++] = s[k];
 
                 if (s[k] == ',')
                     ++k;
-- 
2.43.0


From dc8c916a2c1ad869d5ebdcdb3dcf603a82e22294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 23/34] fix: enumerators in unnamed namespaces had no name

---
 lib/h/ce/nameof.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 3e4f30a..c0cd6e0 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -88,8 +88,9 @@ namespace ce
 
         template<class T, T N> struct nameof<T, N>
         {
-            static constexpr bool is_known = name_item<N>.data[0] != '(';
             static constexpr auto _skip = skip_all(':', name_item<N>.data);
+            // a value without a name is a cast (e.g. `(a::b)7`) and a name's scope may be in parentheses
+            static constexpr bool is_known = skip_all(')', name_item<N>.data) <= _skip;
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
 
-- 
2.43.0


From 7dd76ac60ba1ceab218b75d9cda4645cfbbab78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 24/34] fix: the Windows sleep rounds up to whole milliseconds

---
 lib/os_win32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/os_win32.cpp b/lib/os_win32.cpp
index 4d69bff..386dac0 100644
--- a/lib/os_win32.cpp
+++ b/lib/os_win32.cpp
@@ -94,7 +94,7 @@ namespace ce
             DWORD ms = 0;
             if (ns != 0)
             {
-                auto ms64 = ns < 1000000u ? 1 : ns / 1000000u;
+                auto ms64 = ns / 1000000u + (ns % 1000000u != 0);
                 ms = (DWORD)ms64;
                 if (ms != ms64)
                     ms = ~(DWORD)0;
-- 
2.43.0


From 63900ae412f3aff33cae1bf2cb6a8b8c05cc7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 25/34] fix: math.h did not compile for processors other than
 x86

detail named two namespaces there, isqrt was missing, sqrt undeclared, and
hypot rounded down where it rounds to nearest on x86.
---
 lib/h/ce/math.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index 0c54d5f..80654ab 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -240,22 +240,27 @@ namespace ce
         }
 
 #else
-        namespace detail
+        namespace libm
         {
             extern "C" double sqrt(double);
             extern "C" float sqrtf(float);
         }
 
+        inline int32_t isqrt(int64_t v)
+        {
+            return int32_t(libm::sqrt(double(v)) + 0.5);
+        }
+
         inline int32_t hypot(int32_t x, int32_t y)
         {
-            return int(detail::sqrt(x * double(x) + y * double(y)));
+            return isqrt(int64_t(x) * x + int64_t(y) * y);
         }
 
         template<class...U>
         inline vec3<float, U...> normal(vec3<float, U...> const& v)
         {
             float m = v.x * v.x + v.y * v.y + v.z * v.z;
-            float r = 1.0f / sqrt(m);
+            float r = 1.0f / libm::sqrtf(m);
             return { v.x * r, v.y * r, v.z * r };
         }
 
-- 
2.43.0


From 935ab7e7b6f5563a2f264061d4390a115cdb93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 26/34] fix: with MSVC intersect returned p0 or overflowed for
 short or long lines

as muldiv dropped the low 16 bits of the divisor there.
---
 lib/h/ce/math.h | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index 80654ab..f04fb10 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -77,20 +77,37 @@ namespace ce
                 int64_t r;
                 return _div128(n.hi, int64_t(n.lo), d, &r);
             }
+
+            // a * n / d without overflow in between (_div128 would trap where the result is out of range)
+            inline int32_t xmuldiv(int32_t a, int64_t n, int64_t d)
+            {
+                uint64_t ua = a < 0 ? 0 - uint64_t(a) : uint64_t(a);
+                uint64_t un = n < 0 ? 0 - uint64_t(n) : uint64_t(n);
+                uint64_t ud = d < 0 ? 0 - uint64_t(d) : uint64_t(d);
+
+                uint64_t rn = un % ud;
+                uint64_t r = 0;
+                uint64_t q = 0;
+                for (uint64_t bit = 1ull << 31; bit != 0; bit >>= 1)
+                {
+                    q += q, r += r;
+                    if (r >= ud)
+                        r -= ud, ++q;
+                    if (ua & bit)
+                        r += rn;
+                    if (r >= ud)
+                        r -= ud, ++q;
+                }
+
+                q += ua * (un / ud);
+                return int32_t(((a ^ n ^ d) < 0) ? 0 - q : q);
+            }
         }
 #endif
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int64_t n, int64_t d)
         {
 #ifdef _MSC_VER
-            int64_t d16 = d >> 16;
-
-            if (d16 == 0)
-                return b;
-
-            int64_t t = (n << 16) / d16;
-
-            //int64_t t = msvc::xdiv(msvc::xmul(n, 0x0000000100000000), d);
-            return { int32_t((b.x * t) >> 32), int32_t((b.y * t) >> 32) };
+            return { msvc::xmuldiv(b.x, n, d), msvc::xmuldiv(b.y, n, d) };
 #else
             return { int32_t(__int128(b.x) * n / d), int32_t(__int128(b.y) * n / d) };
 #endif
-- 
2.43.0


From 9526f8ce5251f2df044fc37a1fead621ac1cf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 27/34] fix: inserting an edge which starts in the corner of
 the domain never ended

---
 lib/h/ce/cdt.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index 3ce6d16..1f143d7 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -868,6 +868,15 @@ namespace ce
             if (qn == 0)
                 return false;
 
+            // the faces around a corner of the domain don't make a full turn, so begin at the other end
+            for (size_t i = 0; i < 4; ++i)
+                if (vs[i].x == px && vs[i].y == py)
+                {
+                    swap(px, qx);
+                    swap(py, qy);
+                    break;
+                }
+
             pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
 
             for (;;)
-- 
2.43.0


From 14580fa1657a1263c5c9e6616b10fe0b9b929942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 28/34] fix: get of a member of an aggregate did not compile
 where there are structured bindings

---
 lib/h/ce/ce.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 0791b45..96252f7 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -419,10 +419,10 @@ namespace ce
         template<size_t N, class T, class...Ts> auto get(items<size_t, N>, T, Ts...ts) { return get(items<size_t, N - 1>{}, ts...); }
 
         template<class T, size_t N, size_t = arrity_count<T>::value> struct crack { static detail::any get(T) = delete; };
-        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return get(items<size_t, N>{}, _0); } };
-        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return get(items<size_t, N>{}, _0, _1); } };
-        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return get(items<size_t, N>{}, _0, _1, _2); } };
-        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return get(items<size_t, N>{}, _0, _1, _2, _3); } };
+        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return detail::get(items<size_t, N>{}, _0); } };
+        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return detail::get(items<size_t, N>{}, _0, _1); } };
+        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return detail::get(items<size_t, N>{}, _0, _1, _2); } };
+        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return detail::get(items<size_t, N>{}, _0, _1, _2, _3); } };
 #else
         template<class T, size_t N> struct crack { static detail::any get(T) = delete; };
         template<class T> struct crack<T, 0> { static auto get(T t) { return t._0; } };
-- 
2.43.0


From c64f136d22b5e94487b9e9fd57adc965dbf84a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:27 +0000
Subject: [PATCH 29/34] fix: io of a vec2 did not compile with gcc

---
 lib/h/ce/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index cfe942e..3210bb2 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -118,7 +118,7 @@ namespace ce
 
     template<class T, class...Ks> struct reflection<vec<2, T, Ks...>> : vec<2, T, Ks...>
     {
-        template<class IO> void io_self(IO& io) { io.items(identity_t<char const* const[]>{ "x", "y" }, this->x, this->y); }
+        template<class IO> void io_self(IO& io) { static constexpr char const* names[]{ "x", "y" }; io.items(names, this->x, this->y); }
     };
 
 }
-- 
2.43.0


From 1c4b82e19a7a49632788a36e8377d1cbd3a7ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 30/34] fix: ce.h did not compile with gcc

---
 lib/h/ce/ce.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 96252f7..4e6070d 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -188,6 +188,12 @@ inline void* operator new(ce::size_t, ce::detail::new_tag* p) noexcept { return
 
 #endif
 
+#if defined(__GNUC__) && !defined(__clang__)
+#define CE_IS_TRIVIALLY_DESTRUCTIBLE(...) __has_trivial_destructor(__VA_ARGS__)
+#else
+#define CE_IS_TRIVIALLY_DESTRUCTIBLE(...) __is_trivially_destructible(__VA_ARGS__)
+#endif
+
 #define CE_TIME_STAMP() CE_TIMESTAMP()
 
 //--------
@@ -1259,7 +1265,7 @@ namespace ce
 
     template<class T> size_t destroy_at(T data[], size_t head, size_t tail)
     {
-        if constexpr (!__is_trivially_destructible(T))
+        if constexpr (!CE_IS_TRIVIALLY_DESTRUCTIBLE(T))
             while (head < tail)
                 --tail, CE_DESTROY_AT(data + tail) ~T();
 
-- 
2.43.0


From 8e80cfa97e5985bc134b41d3fc4fdf0039fb0a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 31/34] fix: CE_LOG did not compile with gcc

---
 lib/h/ce/ce.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 4e6070d..6d11c79 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1178,10 +1178,15 @@ namespace ce
 
 #define CE_AS_NAMES_EX(N, NAMES) []{ static constexpr ce::names<sizeof(NAMES ""), N> _{ NAMES "" }; return _.data; }()
 
+    namespace detail
+    {
+        template<class T> T& as_lvalue(T&& t) { return static_cast<T&>(t); }
+    }
+
     template<class...Ts> CE_NOINLINE void call_log_hook(int level, char const* const keys[], Ts const&...ts)
     {
         constexpr int argc = sizeof...(Ts);
-        CE_LOG_HOOK(level, argc, ce::identity_t<char const* [argc + 1][2]>{ { *keys++, as_string{ ts }.as }..., { nullptr, nullptr } });
+        CE_LOG_HOOK(level, argc, ce::detail::as_lvalue(ce::identity_t<char const* [argc + 1][2]>{ { *keys++, as_string{ ts }.as }..., { nullptr, nullptr } }));
     }
 }
 
-- 
2.43.0


From 72b4bface747f979b957238f5b31005a8e7f266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 32/34] fix: CE_ERROR without arguments, and math.h, did not
 compile with gcc -std=c++17

---
 lib/h/ce/ce.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 6d11c79..c4ac54e 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -241,7 +241,11 @@ inline void* operator new(ce::size_t, ce::detail::new_tag* p) noexcept { return
 #define CE_AFFIRM(KIND, TEST, ...) bool{ TEST }
 #endif
 
+#if defined(__GNUC__) && !defined(__clang__)
+#define CE_ERROR(...) ((void)_CE_ERROR("CE_ERROR", "" __VA_OPT__(,) __VA_ARGS__), CE_DEBUG_BREAK())
+#else
 #define CE_ERROR(...) ((void)_CE_ERROR("CE_ERROR", "", ##__VA_ARGS__), CE_DEBUG_BREAK())
+#endif
 #define CE_ASSERT(...) (void)(CE_PP_PASS(CE_AFFIRM CE_PP_ARGS("CE_ASSERT", __VA_ARGS__)))
 #define CE_VERIFY(...) (CE_PP_PASS(CE_AFFIRM CE_PP_ARGS("CE_VERIFY", __VA_ARGS__)))
 #define CE_REJECT(...) !(!CE_PP_PASS(CE_AFFIRM CE_PP_ARGS("CE_REJECT", __VA_ARGS__)))
-- 
2.43.0


From 8f668f9a6afef8bbe98b555f27d9885dc68835ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 33/34] fix: vectors multiplied or divided by a component of
 their own

---
 lib/h/ce/ce.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index c4ac54e..5321da1 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -656,8 +656,8 @@ namespace ce
         template<class...U> constexpr vec2<U...> operator/(const vec2<U...>& a, car_t<U...> const& b) { return { a.x / b, a.y / b }; }
         template<class...U> inline vec2<U...>& operator+=(vec2<U...>& a, const vec2<U...>& b) { a.x += b.x; a.y += b.y; return a; }
         template<class...U> inline vec2<U...>& operator-=(vec2<U...>& a, const vec2<U...>& b) { a.x -= b.x; a.y -= b.y; return a; }
-        template<class...U> inline vec2<U...>& operator*=(vec2<U...>& a, car_t<U...> const& b) { a.x *= b; a.y *= b; return a; }
-        template<class...U> inline vec2<U...>& operator/=(vec2<U...>& a, car_t<U...> const& b) { a.x /= b; a.y /= b; return a; }
+        template<class...U> inline vec2<U...>& operator*=(vec2<U...>& a, car_t<U...> const b) { a.x *= b; a.y *= b; return a; }
+        template<class...U> inline vec2<U...>& operator/=(vec2<U...>& a, car_t<U...> const b) { a.x /= b; a.y /= b; return a; }
 
         template<class...U> constexpr bool operator==(vec3<U...> const& a, vec3<U...> const& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
         template<class...U> constexpr bool operator==(vec3<U...> const& a, car_t<U...> const& b) { return a.x == b && a.y == b && a.z == b; }
@@ -669,8 +669,8 @@ namespace ce
         template<class...U> constexpr vec3<U...> operator/(const vec3<U...>& a, car_t<U...> const& b) { return { a.x / b, a.y / b, a.z / b }; }
         template<class...U> inline vec3<U...>& operator+=(vec3<U...>& a, const vec3<U...>& b) { a.x += b.x; a.y += b.y; a.z += b.z; return a; }
         template<class...U> inline vec3<U...>& operator-=(vec3<U...>& a, const vec3<U...>& b) { a.x -= b.x; a.y -= b.y; a.z -= b.z; return a; }
-        template<class...U> inline vec3<U...>& operator*=(vec3<U...>& a, car_t<U...> const& b) { a.x *= b; a.y *= b; a.z *= b; return a; }
-        template<class...U> inline vec3<U...>& operator/=(vec3<U...>& a, car_t<U...> const& b) { a.x /= b; a.y /= b; a.z /= b; return a; }
+        template<class...U> inline vec3<U...>& operator*=(vec3<U...>& a, car_t<U...> const b) { a.x *= b; a.y *= b; a.z *= b; return a; }
+        template<class...U> inline vec3<U...>& operator/=(vec3<U...>& a, car_t<U...> const b) { a.x /= b; a.y /= b; a.z /= b; return a; }
 
         template<class T, class U> size_t in_polygon_xy(T x, T y, size_t n, U const ps[])
         {
-- 
2.43.0


From 961c179b08e0bfbb796c11866f20064776c05f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 34/34] fix: intersect may keep its result in one of the points

---
 lib/h/ce/math.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index f04fb10..accd6c0 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -287,15 +287,16 @@ namespace ce
         template<class T>
         bool intersect(vec2<T> const& p0, vec2<T> const& p1, vec2<T> const& q0, vec2<T> const& q1, vec2<T>& result)
         {
-            result = p0;
-
             auto p = p1 - p0;
             auto q = q1 - q0;
             auto d = crossx(p, q);
 
             // lines are ||, no intersection
             if (d == 0)
+            {
+                result = p0;
                 return false;
+            }
 
             auto t = crossx(q0 - p0, q);
             result = p0 + muldiv(p, t, d);
-- 
2.43.0

