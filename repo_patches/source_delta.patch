From 448dbf0d71f038c43028eba02ebd3a0fda995916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 01/13] fix: sleep_ns continues after a signal interrupts it

nanosleep returns early with EINTR when a signal handler runs; sleep_ns
ignored that and returned before the requested time had passed.
---
 lib/os_posix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/os_posix.cpp b/lib/os_posix.cpp
index 519133a..2fdff9c 100644
--- a/lib/os_posix.cpp
+++ b/lib/os_posix.cpp
@@ -28,6 +28,7 @@ SOFTWARE.
 
 #include <unistd.h>
 #include <time.h>
+#include <errno.h>
 
 namespace ce
 {
@@ -68,7 +69,8 @@ namespace ce
                 ts.tv_sec = ns / 1000000000u;
                 ts.tv_nsec = ns % 1000000000u;
             }
-            nanosleep(&ts, nullptr);
+            while (nanosleep(&ts, &ts) == -1 && errno == EINTR)
+                ;
         }
 
         file_t open_file(char const [])
-- 
2.43.0


From 05453ab208d2f268cd1e9c5400a5cdffc9867124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 02/13] fix: debug_out finishes short and interrupted writes

write() may transfer only part of the text (pipes, signals) or fail with
EINTR before transferring any; debug_out dropped what was left.
---
 lib/os_posix.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/os_posix.cpp b/lib/os_posix.cpp
index 2fdff9c..653398e 100644
--- a/lib/os_posix.cpp
+++ b/lib/os_posix.cpp
@@ -39,7 +39,17 @@ namespace ce
             if (text == nullptr)
                 return;
 
-            write(STDERR_FILENO, text, __builtin_strlen(text));
+            for (size_t size = __builtin_strlen(text); size > 0;)
+            {
+                ssize_t const n = write(STDERR_FILENO, text, size);
+                if (n > 0)
+                {
+                    text += n;
+                    size -= n;
+                }
+                else if (n == 0 || errno != EINTR)
+                    return;
+            }
         }
 
         uint64_t monotonic_timestamp()
-- 
2.43.0


From 4794fbdc708369cba55dca1734223de69f149850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 03/13] fix: dictionary find does not match key 0 with the
 unused entry

With an empty heap the linear scan started at entry 0, whose name is 0 in a
zero initialized dictionary: find(0) stopped there and reported not found,
and every bind(0, ...) added another entry.
---
 lib/h/ce/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index cb5abd4..40fe64d 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -50,8 +50,8 @@ namespace ce
                 if (names[i] == n)
                     return ptr_t(i);
 
-            // linear scan
-            for (size_t i = heap; i < size; ++i)
+            // linear scan (entry 0 is unused)
+            for (size_t i = heap + !heap; i < size; ++i)
                 if (names[i] == n)
                     return ptr_t(i);
 
-- 
2.43.0


From 771068060680d97ac14464970d07d00a9d0efc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 04/13] fix: binding in a dictionary of one entry fails instead
 of writing past the end

Entry 0 is never used, so the first bind takes entry 1 even when N is 1.
---
 lib/h/ce/dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index 40fe64d..f8a5827 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -64,7 +64,7 @@ namespace ce
             auto i = size_t(find(n));
             if (i == 0)
             {
-                if (size >= N)
+                if (size + !size >= N)
                     return ptr_t::nil;
 
                 i = size + !size; // add 1 if size == 0 so we don't allocate 0
-- 
2.43.0


From 978167fbfd40b5bd519f63fce1cc2abe9e9dab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 05/13] fix: bulk copy-constructs elements that have no default
 constructor

is_constructible_with<T, Ts...> was always false, so construct_copy assigned
to storage in which no element had been constructed.
---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index d17d53f..b0c2032 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1268,7 +1268,7 @@ namespace ce
     template<class T, class...Ts> struct is_constructible_with
     {
         template<class U, class...Us> static constexpr bool test(...) { return false; };
-        template<class U, class...Us> static constexpr bool test(decltype(U{ (*(Us*)0)... }, 0)) { return false; }
+        template<class U, class...Us> static constexpr bool test(decltype(U{ (*(Us*)0)... }, 0)) { return true; }
         static constexpr bool value = test<T, Ts...>(0);
     };
 
-- 
2.43.0


From 6e020d221f2f7496f25584eac67e8bbb346f8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 06/13] fix: reflected member names survive a space before the
 comma

---
 lib/h/ce/io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index ce2584b..5f44be2 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -46,6 +46,9 @@ namespace ce
                 while (s[k] > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
+                while (s[k] != '\0' && s[k] <= ' ')
+                    ++k;
+
                 if (s[k] == ',')
                     ++k;
 
-- 
2.43.0


From 10363fd10bde623246ebca7026d41f505975c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 07/13] fix: Windows sleep_ns must not return early or sleep
 forever

Round nanoseconds up to whole milliseconds and sleep long durations in
parts: truncation ended sleeps up to 1 ms early, and durations of 2^32 ms
and more became INFINITE.
---
 lib/os_win32.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/os_win32.cpp b/lib/os_win32.cpp
index 4d69bff..f79263a 100644
--- a/lib/os_win32.cpp
+++ b/lib/os_win32.cpp
@@ -91,15 +91,15 @@ namespace ce
 
         void sleep_ns(uint64_t ns)
         {
-            DWORD ms = 0;
-            if (ns != 0)
+            // whole milliseconds, rounded up, in parts that are not INFINITE
+            uint64_t ms = ns / 1000000u + (ns % 1000000u != 0);
+            do
             {
-                auto ms64 = ns < 1000000u ? 1 : ns / 1000000u;
-                ms = (DWORD)ms64;
-                if (ms != ms64)
-                    ms = ~(DWORD)0;
+                auto part = ms < INFINITE ? DWORD(ms) : INFINITE - 1;
+                SleepEx(part, FALSE);
+                ms -= part;
             }
-            SleepEx(ms, FALSE);
+            while (ms != 0);
         }
 
         file_t open_file(char const path[])
-- 
2.43.0


From 15cf20a07ab67d5dc480bb9419e68f1f981c9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 08/13] fix: the face check in cdt.h takes a face at a corner
 of the square for broken

Such a face has no neighbor at two of its edges, so two of its twins are 0.
---
 lib/h/ce/cdt.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index b640cae..694b0f8 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -289,9 +289,10 @@ namespace ce
             CE_ASSERT(f.p1 != f.p2);
             CE_ASSERT(f.p2 != f.p0);
 
-            CE_ASSERT(f.e0 != f.e1);
-            CE_ASSERT(f.e1 != f.e2);
-            CE_ASSERT(f.e2 != f.e0);
+            // a face at a corner of the square has no neighbor at two of its edges
+            CE_ASSERT(f.e0 == 0 || f.e0 != f.e1);
+            CE_ASSERT(f.e1 == 0 || f.e1 != f.e2);
+            CE_ASSERT(f.e2 == 0 || f.e2 != f.e0);
 
             CE_ASSERT(es[es[f.e0].e].e == f.e0);
             CE_ASSERT(es[es[f.e1].e].e == f.e1);
-- 
2.43.0


From bf991702e019ff8afc1c40648657b3c3fcd0a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 09/13] fix: insert_edge from a corner of the square turns off
 the rim

Turning around the vert at a corner reached edge 0, outside the mesh, and
from there an assertion failed or, in a release build, the loop did not end.
Turn back to the first face at the corner, and leave edges along the rim,
which is constrained already.
---
 lib/h/ce/cdt.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index 694b0f8..7417b08 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -845,6 +845,19 @@ namespace ce
             return pr && rq;
         }
 
+        // the next face around the vert at node `n`, a corner of the square starts over with its first face
+        size_t turn_face(size_t n) const
+        {
+            auto e = next_edge(n);
+            if (auto t = es[next_edge(e)].e)
+                return t;
+
+            while (es[e].e != 0)
+                e = next_edge(next_edge(es[e].e));
+
+            return e;
+        }
+
         bool insert_edge(int64_t px, int64_t py, int64_t qx, int64_t qy, size_t hint)
         {
             auto pn = insert_point_at_node(px, py, locate_insertion_node(px, py, hint));
@@ -858,6 +871,10 @@ namespace ce
             if (qn == 0)
                 return false;
 
+            // the rim is already constrained
+            if ((px == qx && (px == vs[0].x || px == vs[1].x)) || (py == qy && (py == vs[0].y || py == vs[2].y)))
+                return true;
+
             pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
 
             for (;;)
@@ -894,7 +911,7 @@ namespace ce
                         pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
                     }
                     else
-                        pn = es[n + 2].e;
+                        pn = turn_face(n + 0);
                 }
                 else if (ps[1] == 0)
                 {
@@ -915,7 +932,7 @@ namespace ce
                         pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
                     }
                     else
-                        pn = es[n + 0].e;
+                        pn = turn_face(n + 1);
                 }
                 else
                 {
@@ -938,7 +955,7 @@ namespace ce
                         pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
                     }
                     else
-                        pn = es[n + 1].e;
+                        pn = turn_face(n + 2);
                 }
             }
         }
-- 
2.43.0


From 208103a357eb17e08bf8d3e9caa937dbdbc6b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 10/13] fix: log records drop non-ASCII characters at the ends
 of an expression

With signed char they compare below a space.
---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index b0c2032..4cc835b 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1123,7 +1123,7 @@ namespace ce
                 name = &text[i];
 
                 // skip leading spaces
-                while (*src <= ' ' && *src != '\0')
+                while (uint8_t(*src) <= ' ' && *src != '\0')
                     ++src;
 
                 // if we are at the last data item, start unbalanced so we copy the whole string (
@@ -1153,7 +1153,7 @@ namespace ce
                     else if (*src == quote)
                         quote = 0;
 
-                    if ((text[i++] = *src++) > ' ')
+                    if (uint8_t(text[i++] = *src++) > ' ')
                         trim = i;
                 }
 
-- 
2.43.0


From 29ad16eb8d82361dbba5b7205e231f982ca9eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 11/13] fix: CE_IO_BIND drops non-ASCII characters of member
 names

With signed char they compare below a space.
---
 lib/h/ce/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index 5f44be2..17d831e 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -40,13 +40,13 @@ namespace ce
             {
                 names[i] = &text[j];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && uint8_t(s[k]) <= ' ')
                     ++k;
 
-                while (s[k] > ' ' && s[k] != ',')
+                while (uint8_t(s[k]) > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && uint8_t(s[k]) <= ' ')
                     ++k;
 
                 if (s[k] == ',')
-- 
2.43.0


From 1532f1424a0ce6e67b486227f04ea7fa82de7561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 12/13] fix: bulk::back() does not compile when used

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 4cc835b..8208cd9 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1364,8 +1364,8 @@ namespace ce
         T const* begin() const { return &data[0]; }
         T const* end() const { return &data[size]; }
 
-        T const& back() const { return size > 0 ? data[size - 1] : *reinterpret_cast<T const*>(nullptr); }
-        T& back() { return size > 0 ? data[size - 1] : *reinterpret_cast<T*>(nullptr); }
+        T const& back() const { return size > 0 ? data[size - 1] : *static_cast<T const*>(nullptr); }
+        T& back() { return size > 0 ? data[size - 1] : *static_cast<T*>(nullptr); }
 
         T& operator[](size_t i) { return data[i]; }
         T const& operator[](size_t i) const { return data[i]; }
-- 
2.43.0


From 3455253bcbaf6cfcd5c3904c16832512cb576302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 13/13] fix: MSVC atomic_load of a small structure isn't atomic
 against stores

---
 lib/h/ce/atomic_msvc_x86.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/h/ce/atomic_msvc_x86.h b/lib/h/ce/atomic_msvc_x86.h
index 71ee764..345aeb2 100644
--- a/lib/h/ce/atomic_msvc_x86.h
+++ b/lib/h/ce/atomic_msvc_x86.h
@@ -183,6 +183,13 @@ namespace ce
                     _ReadWriteBarrier();
                     return u;
                 }
+                else if constexpr (info<T>::is_m8 || info<T>::is_m16 || info<T>::is_m32 || info<T>::is_m64)
+                {
+                    // writers of these sizes don't take the spin lock
+                    auto u = a.atom;
+                    _ReadWriteBarrier();
+                    return as_data<T>{ u }.as;
+                }
                 else
                 {
                     auto spin = scope_spin_lock(&a);
-- 
2.43.0

