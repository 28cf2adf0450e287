From 54c4b405209e6690bf946cd17d2bb664bb124498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:45 +0000
Subject: [PATCH 01/46] fix: slide_back returned elements outside the container

vt_array_slide_back and vt_plist_slide_back computed the element index as
len - slider - 2 after advancing the slider, so the last elements were
skipped and memory before the first element was returned.
---
 src/vita/container/common.c | 2 +-
 src/vita/container/plist.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index ea50633..376394a 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -129,7 +129,7 @@ void *vt_array_slide_back(struct VitaBaseArrayType *const vbat) {
     // check bounds
     if (vbat->slider_idx < vbat->len) {
         vbat->slider_idx++;
-        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx - 2) * vbat->elsize;
+        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx) * vbat->elsize;
     }
 
     // reset the slider
diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dfcbba5..dd99da8 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -318,7 +318,7 @@ void *vt_plist_slide_back(vt_plist_t *const p) {
     // check bounds
     if (p->slider_idx < p->len) {
         p->slider_idx++;
-        return p->ptr2[p->len - p->slider_idx - 2];
+        return p->ptr2[p->len - p->slider_idx];
     }
 
     // reset the slider
-- 
2.43.0


From 1702e0eb43cdd259b2e8cbb5705976254000bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 02/46] fix: vt_str_remove_last removed from the wrong position
 and crashed when nothing is found

---
 src/vita/container/str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b7b66a7..6ea4f58 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -573,7 +573,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     const size_t zLen = strlen(z);
     char *p = strstr(s->ptr, z);
     char *lastInstance = p;
-    while ((p = strstr(p + zLen, z)) != NULL) {
+    while (zLen > 0 && p != NULL && (p = strstr(p + zLen, z)) != NULL) {
         lastInstance = p;
     }
 
@@ -582,8 +582,13 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
         return VT_STATUS_ERROR_ELEMENT_NOT_FOUND;
     }
 
+    // an empty substring removes nothing
+    if (zLen == 0) {
+        return VT_STATUS_OPERATION_SUCCESS;
+    }
+
     // find the position of last substring instance
-    const ptrdiff_t last_instance_pos = (((char*)(s->ptr) + s->len * s->elsize) - lastInstance);
+    const ptrdiff_t last_instance_pos = lastInstance - (char*)(s->ptr);
 
     // remove the last instance
     vt_str_remove(s, last_instance_pos, zLen);
-- 
2.43.0


From 03508b3fb247f7b1a302e6590d52eea8d322ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 03/46] fix: vt_str_replace_last crashed when the substring is
 absent

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 6ea4f58..afcfa74 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -724,7 +724,7 @@ void vt_str_replace_last(vt_str_t *const s, const char *const sub, const char *c
     // find the last instance of sep
     const char *ptr = strstr(s->ptr, sub);
     const char *lastInstance = ptr;
-    while ((ptr = strstr(ptr + subLen, sub))) {
+    while (ptr != NULL && (ptr = strstr(ptr + subLen, sub))) {
         lastInstance = ptr;
     }
 
-- 
2.43.0


From 03d9c62f7c87b3021f0019a455c520f6f172d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 04/46] fix: vt_str_remove_all never returned for an empty
 substring

---
 src/vita/container/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index afcfa74..5831b75 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -602,8 +602,8 @@ enum VitaStatus vt_str_remove_all(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    // remove all instances of substring
-    while (vt_str_remove_first(s, z) == VT_STATUS_OPERATION_SUCCESS);
+    // remove all instances of substring (an empty substring removes nothing)
+    while (z[0] != '\0' && vt_str_remove_first(s, z) == VT_STATUS_OPERATION_SUCCESS);
 
     return VT_STATUS_OPERATION_SUCCESS;
 }
-- 
2.43.0


From e5eec9e008958c375f5d2310923416e218227ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 05/46] fix: vt_str_can_find never returned for an empty
 substring

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 5831b75..f715105 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -921,7 +921,7 @@ size_t vt_str_can_find(const vt_str_t *const s, const char *sub) {
 
     size_t count = 0;
     const char *p = vt_str_z(s);
-    while ((p = strstr(p, sub)) != NULL) {
+    while (subLen > 0 && (p = strstr(p, sub)) != NULL) {
         count++;
         p += subLen;
     }
-- 
2.43.0


From 65161b690923a2d30d6a51e7a8dd6f544b539320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 06/46] fix: vt_str_split read past the end for consecutive
 trailing separators

---
 src/vita/container/str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index f715105..08e0c99 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -970,6 +970,9 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
         // count copy length
         const size_t copyLen = strlen(head) - (current == NULL ? 0 : strlen(current));
         if (copyLen == 0) { // if head == current, move head by sepLen (if sep is in the begining)
+            if (current == NULL) {
+                break; // end of string
+            }
             head += sepLen;
             continue;
         } else {
-- 
2.43.0


From 38b687a20b44afc4e817f7359357e061aaf0cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 07/46] fix: strip functions ran outside of an empty or fully
 strippable string

---
 src/vita/container/str.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 08e0c99..d862557 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -783,7 +783,7 @@ void vt_str_strip(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr)) {
+    while (offset < *len && isspace(*curr)) {
         offset++;
         curr = p + offset;
     }
@@ -792,10 +792,8 @@ void vt_str_strip(vt_str_t *const s) {
     *len -= offset;
 
     // strip tailing whitespace and control symbols
-    curr = p + (*len + offset - 1);
-    while (isspace(*curr)) {
+    while (*len > 0 && isspace(p[*len + offset - 1])) {
         (*len)--;
-        curr = p + (*len + offset - 1);
     }
 
     // move string to the begining
@@ -817,7 +815,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (offset < *len && (isspace(*curr) || ispunct(*curr))) {
         offset++;
         curr = p + offset;
     }
@@ -826,10 +824,8 @@ void vt_str_strip_punct(vt_str_t *const s) {
     *len -= offset;
 
     // strip tailing whitespace and control symbols
-    curr = p + (*len + offset - 1);
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (*len > 0 && (isspace(p[*len + offset - 1]) || ispunct(p[*len + offset - 1]))) {
         (*len)--;
-        curr = p + (*len + offset - 1);
     }
 
     // move string to the begining
@@ -854,7 +850,7 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (!stop) {
+    while (!stop && cLen > 0 && offset < *len) {
         for (size_t i = 0; i < cLen; i++) {
             if (*curr == c[i]) {
                 offset++;
@@ -875,12 +871,10 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
 
     // strip tailing whitespace and control symbols
     stop = false;
-    curr = p + (*len + offset - 1);
-    while (!stop) {
+    while (!stop && cLen > 0 && *len > 0) {
         for (size_t i = 0; i < cLen; i++) {
-            if (*curr == c[i]) {
+            if (p[*len + offset - 1] == c[i]) {
                 (*len)--;
-                curr = p + (*len + offset - 1);
 
                 // continue looping
                 stop = false;
-- 
2.43.0


From 63e55502e8f8a0d473ddcbe257b3f27d96005bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 08/46] fix: vt_str_insert_after terminated when the substring
 ends the string

---
 src/vita/container/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index d862557..57512ab 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -503,7 +503,9 @@ void vt_str_insert_after(vt_str_t *const s, const char *const sub, const char *c
     }
 
     // insert z
-    vt_str_insert(s, z, idx + strlen(sub));
+    const size_t at = idx + strlen(sub);
+    if (at < vt_str_len(s)) vt_str_insert(s, z, at);
+    else vt_str_append(s, z);
 }
 
 void vt_str_remove(vt_str_t *const s, const size_t from, size_t n) {
-- 
2.43.0


From 83cbd6f77b23083b14b430b6ff5804d3971820e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 09/46] fix: vt_str_split_between matched the right mark before
 the left one and failed on an empty part

---
 src/vita/container/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 57512ab..ea4cc39 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -1005,7 +1005,7 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
     }
 
     // find r - right substring
-    const char *const rsub = strstr(z, zr);
+    const char *const rsub = strstr(lsub + strlen(zl), zr);
     if (rsub == NULL) {
         return NULL;
     }
@@ -1019,6 +1019,9 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
     // check if lsub < rsub
     if (lsub < rsub) {
         ptrdiff_t sub_len = rsub - lsub - strlen(zl);
+        if (sub_len == 0) {
+            return st;
+        }
         vt_str_resize(st, sub_len);
 
         // append sub
-- 
2.43.0


From 00d1703ac0348845349aa5b8a3002ac734e5ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 10/46] fix: vt_str_insert_n accepted positions past the end

---
 src/vita/container/str.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index ea4cc39..50ea245 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -452,6 +452,13 @@ void vt_str_insert_n(vt_str_t *const s, const char *z, const size_t at, const si
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(
+        at <= s->len,
+        "%s: Inserts at %zu, but vt_str_t length is %zu!\n", 
+        vt_status_to_str(VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS), 
+        at, 
+        s->len
+    );
 
     // check if new memory needs to be allocated
     const size_t hasSpace = vt_str_has_space(s);
-- 
2.43.0


From 73ec4dd56cfbc8e6197d35f7b229dd0808b8938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:23 +0000
Subject: [PATCH 11/46] fix: a static string reported free space and could be
 appended to

---
 src/vita/container/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 50ea245..aeca41d 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -11,6 +11,7 @@ vt_str_t vt_str_create_static(const char *const z) {
     vt_str_t s = {
         .ptr = (void*)z,
         .len = strlen(z),
+        .capacity = strlen(z),
         .elsize = sizeof(char),
         .is_view = true,
     };
-- 
2.43.0


From 8df202186c8ffaa0e6128319faa2e77ef9a5dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:40 +0000
Subject: [PATCH 12/46] fix: vt_span_from_to refused ranges starting at 0 and
 accepted inverted ranges

---
 src/vita/container/span.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vita/container/span.c b/src/vita/container/span.c
index c2a7892..6482021 100644
--- a/src/vita/container/span.c
+++ b/src/vita/container/span.c
@@ -16,8 +16,7 @@ vt_span_t vt_span_from(void *ptr, const size_t length, const size_t elsize) {
 vt_span_t vt_span_from_to(void *ptr, const size_t from_idx, const size_t to_idx, const size_t elsize) {
     // check for invalid input
     VT_DEBUG_ASSERT(ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(from_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(to_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(from_idx < to_idx, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(elsize > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     return (vt_span_t) {
-- 
2.43.0


From 30457a3c5e9657740dc18a5cb82a761a0bbba9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:30 +0000
Subject: [PATCH 13/46] fix: vt_math_gcd crashed for zero and returned negative
 divisors

---
 src/vita/math/math.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 9d04a21..4b50704 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -97,21 +97,24 @@ bool vt_math_is_close(const float lhs, const float rhs, const float rtol) {
 }
 
 int64_t vt_math_gcd(const int64_t a, const int64_t b) {
-    int64_t rem, low_val, high_val;
-    low_val = a >= b ? b : a;
-    high_val = a >= b ? a : b;
+    // work with magnitudes: the result is never negative and gcd(a, 0) == |a|
+    uint64_t high_val = a < 0 ? 0 - (uint64_t)a : (uint64_t)a;
+    uint64_t low_val = b < 0 ? 0 - (uint64_t)b : (uint64_t)b;
 
     // find gcd
-    do {
-        rem = high_val % low_val;
+    while (low_val != 0) {
+        const uint64_t rem = high_val % low_val;
         high_val = low_val;
         low_val = rem;
-    } while (rem != 0);
+    }
 
-    return high_val;
+    return (int64_t)high_val;
 }
 
 int64_t vt_math_lcm(int64_t a, int64_t b) {
-    return a / vt_math_gcd(a, b) * b;
+    if (a == 0 || b == 0) return 0;
+
+    const int64_t lcm = a / vt_math_gcd(a, b) * b;
+    return lcm < 0 ? -lcm : lcm;
 }
 
-- 
2.43.0


From 263c1d23ab64c0ada3c4913b974f40e563f1ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 14/46] fix: vt_path_basename ignored a leading separator and
 returned filler text

---
 src/vita/system/path.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ad4ff4f..128fddd 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -234,11 +234,11 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
         : s;
 
     // find the basename
-    const char *ptr = NULL;
+    const char *ptr = z;
     const size_t zLen = strlen(z);
     for (size_t i = zLen - 1; i > 0; i--) {
-        if (z[i] == VT_PATH_SEPARATOR[0] && i != zLen - 1) {
-            ptr = &z[i+1];
+        if (z[i-1] == VT_PATH_SEPARATOR[0]) {
+            ptr = &z[i];
             break;
         }
     }
@@ -250,10 +250,8 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
     }
 
     // save the basename
-    if (ptr) {
-        vt_str_clear(st);
-        vt_str_append(st, ptr);
-    }
+    vt_str_clear(st);
+    vt_str_append(st, ptr);
 
     return st;
 }
-- 
2.43.0


From 332adfe2124a43c2fb8eb1a1ff7d509f9af32967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 15/46] fix: vt_path_expand_tilda terminated for a lone tilda

---
 src/vita/system/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 128fddd..e0f4688 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -489,8 +489,8 @@ vt_str_t *vt_path_expand_tilda(const char *const z, struct VitaBaseAllocatorType
     }
 
     // expand tilda
-    vt_str_remove(s_tilda, (size_t)tilda_pos, 1);           // remove tilda
-    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path before tilda
+    vt_str_remove(s_tilda, strlen(z_homepath), 1);          // remove tilda
 
     return s_tilda;
 }
-- 
2.43.0


From 56bb2ef7cedf6782855cdb16674f70086e2c702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 16/46] fix: vt_path_pop accessed memory before an empty path

---
 src/vita/system/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index e0f4688..24c5278 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -533,7 +533,7 @@ void vt_path_pop(char *const z) {
     
     // check if path ends with path separator
     size_t len = vt_str_len(&s);
-    if (z[len-1] == VT_PATH_SEPARATOR[0]) {
+    if (len > 0 && z[len-1] == VT_PATH_SEPARATOR[0]) {
         z[len-1] = '\0';
         return;
     }
-- 
2.43.0


From 627252da820e0d8d93a2ce69525603740bac324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 17/46] fix: vt_path_get_this_exe_location did not terminate
 the path

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 24c5278..9d02813 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -520,6 +520,7 @@ vt_str_t *vt_path_get_this_exe_location(struct VitaBaseAllocatorType *alloctr) {
         return NULL;
     }
     spath->len = pathLen;
+    ((char*)spath->ptr)[pathLen] = '\0';
 
     return spath;
 }
-- 
2.43.0


From 247dad4778c6c3a14c49099c5d7a5da976ddc3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 18/46] fix: vt_path_get_cwd terminated when there is no
 current directory

---
 src/vita/system/path.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 9d02813..3222d1b 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -25,7 +25,13 @@ vt_str_t *vt_path_build_n(vt_str_t *const s, const size_t n, ...) {
 }
 
 vt_str_t *vt_path_get_cwd(struct VitaBaseAllocatorType *alloctr) {
-    return vt_str_take_ownership(getcwd(NULL, 0), alloctr);
+    char *const z = getcwd(NULL, 0);
+    if (z == NULL) {
+        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        return NULL;
+    }
+
+    return vt_str_take_ownership(z, alloctr);
 }
 
 bool vt_path_exists(const char *const z) {
-- 
2.43.0


From d64b7636ecba6e04b3183ef3da542e07d4099717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 19/46] fix: vt_path_mkdir reported success when a file is in
 the way

---
 src/vita/system/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 3222d1b..934adf3 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -267,7 +267,7 @@ bool vt_path_mkdir(const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // if directory exists, don't do anything
-    if (vt_path_exists(z)) {
+    if (vt_path_is_dir(z)) {
         return true;
     }
 
-- 
2.43.0


From f11d57530d57ba8dd7b84e47d68e1eb3765aa755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 20/46] fix: vt_path_mkdir_parents failed for a single
 directory and hid failures

---
 src/vita/system/path.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 934adf3..58383f7 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -291,10 +291,15 @@ bool vt_path_mkdir_parents(const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // if directory exists, don't do anything
-    if (vt_path_exists(z)) {
+    if (vt_path_is_dir(z)) {
         return true;
     }
 
+    // a single directory has no parents to make
+    if (strstr(z, VT_PATH_SEPARATOR) == NULL) {
+        return vt_path_mkdir(z);
+    }
+
     // create variables
     bool status = true;
     vt_str_t *s = NULL;
@@ -344,7 +349,10 @@ bool vt_path_mkdir_parents(const char *const z) {
         vt_str_append(sfull, VT_PATH_SEPARATOR);
         
         // make that directory
-        vt_path_mkdir(vt_str_z(sfull));
+        if (!vt_path_mkdir(vt_str_z(sfull))) {
+            status = false;
+            break;
+        }
     }
 
 vt_label_path_mkdir_parents__:
-- 
2.43.0


From 08ed421b4b7e9cdb131adbbbc9a60451ed9505fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 21/46] fix: recursive listing and removal followed symbolic
 links out of the directory

---
 src/vita/system/path.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 58383f7..4110751 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -1,5 +1,7 @@
 #include "vita/system/path.h"
 
+static bool vt_path_is_link(const char *const z);
+
 vt_str_t *vt_path_build(vt_str_t *const s, const vt_plist_t *const p) {
     return vt_str_join(s, VT_PATH_SEPARATOR, p);
 }
@@ -184,7 +186,7 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, dirtree->d_name);
 
         // check if current path is a directory; if false, then break
-        if (vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
+        if (!vt_path_is_link(vt_str_z(st)) && vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
             break;
         }
 
@@ -404,10 +406,15 @@ bool vt_path_rmdir_recurse(const char *const z) {
         return false;
     }
 
+    // a link is not a directory, its target is out of reach
+    if (vt_path_is_link(z)) {
+        VT_DEBUG_PRINTF("%s: Not a directory <%s>\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z);
+        return false;
+    }
+
     // return value
     bool status = true;
 
-
     // get all files in a directory
     // if none are found, delete the directory and return
     vt_plist_t *dir_list = vt_path_dir_list_recurse(NULL, z, false);
@@ -421,7 +428,9 @@ bool vt_path_rmdir_recurse(const char *const z) {
     vt_str_t *path = NULL;
     while ((path = vt_plist_slide_front(dir_list)) != NULL) {
         // remove file/directory
-        status = vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
+        status = vt_path_is_link(vt_str_z(path)) 
+            ? (remove(vt_str_z(path)) == 0)
+            : vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
 
         // check status
         if (!status) {
@@ -592,5 +601,21 @@ void vt_path_validate(char *const z) {
     }
 }
 
+// -------------------------- PRIVATE -------------------------- //
+
+/** Checks if path is a symbolic link (not followed)
+    @param z path
+    @returns `true` if path is a symbolic link
+*/
+static bool vt_path_is_link(const char *const z) {
+    #if defined(_WIN32) || defined(_WIN64)
+        (void)z;
+        return false;
+    #else
+        struct stat info;
+        return (lstat(z, &info) == 0 && S_ISLNK(info.st_mode));
+    #endif
+}
+
 
 
-- 
2.43.0


From 5eff19b934b6ab2cfde4a50074f675ce4353a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 22/46] fix: vt_path_rmdir_recurse ignored a failure to remove
 the directory itself

---
 src/vita/system/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 4110751..2f90d03 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -437,7 +437,7 @@ bool vt_path_rmdir_recurse(const char *const z) {
             goto vt_path_rmdir_recurse_cleanup__;
         }  
     }
-    vt_path_rmdir(z); // remove the folder when done with its contents
+    status = vt_path_rmdir(z); // remove the folder when done with its contents
 
 vt_path_rmdir_recurse_cleanup__:
     // free all strings in dir_list
-- 
2.43.0


From ca1633420d285725170fbe855fd99060f5f8c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:02 +0000
Subject: [PATCH 23/46] fix: vt_path_pop and vt_path_basename terminated for an
 empty path

---
 src/vita/system/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 2f90d03..318a7cd 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -232,7 +232,7 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
 
     // check if path separator is present
     vt_str_t sz = vt_str_create_static(z);
-    if (!vt_str_can_find(&sz, VT_PATH_SEPARATOR)) {
+    if (vt_str_is_empty(&sz) || !vt_str_can_find(&sz, VT_PATH_SEPARATOR)) {
         return s;
     }
 
@@ -563,7 +563,7 @@ void vt_path_pop(char *const z) {
     }
 
     // check if path contains path separator, if it does not, return
-    if (vt_str_find(&s, VT_PATH_SEPARATOR) == NULL) {
+    if (len == 0 || vt_str_find(&s, VT_PATH_SEPARATOR) == NULL) {
         return;
     }
 
-- 
2.43.0


From 7b2a50944c03f79d75de5f117b1a826dd66d4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:33 +0000
Subject: [PATCH 24/46] fix: vt_path_dir_list_recurse returned a partial list
 for an unreadable subdirectory

---
 src/vita/system/path.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 318a7cd..5c35f1f 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -167,6 +167,7 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         : p;
 
     // get directory contents
+    bool status = true;
     vt_str_t *st = vt_str_create_capacity(VT_ARRAY_DEFAULT_INIT_ELEMENTS, pl->alloctr);
     struct dirent *dirtree = NULL;
     while ((dirtree = readdir(dir)) != NULL) {
@@ -187,6 +188,7 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
 
         // check if current path is a directory; if false, then break
         if (!vt_path_is_link(vt_str_z(st)) && vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
+            status = false;
             break;
         }
 
@@ -207,6 +209,12 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
     const int retVal = closedir(dir);
     if (retVal != 0) { VT_DEBUG_PRINTF("%s: Failed to close the directory <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z); }
 
+    // a sub-directory could not be read
+    if (!status) {
+        if (p == NULL) { vt_path_dir_free(pl); }
+        return NULL;
+    }
+
     return pl;
 }
 
-- 
2.43.0


From e3877b1501c6c63718adad119e04c558eb8eb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:35 +0000
Subject: [PATCH 25/46] fix: vt_path_dir_free leaked the entries a partial
 iteration had passed

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 5c35f1f..3340bea 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -225,6 +225,7 @@ void vt_path_dir_free(vt_plist_t *p) {
     // check if list is not empty
     if (vt_plist_len(p)) {
         vt_str_t *item = NULL;
+        vt_plist_slide_reset(p);
         while((item = vt_plist_slide_front(p)) != NULL) {
             vt_str_destroy(item);
         }
-- 
2.43.0


From 6a13cd9540a5109af03aba450bef8f41a3777d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 26/46] fix: reading an empty file terminated the process

---
 src/vita/system/fileio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index de6d17f..83d29fa 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -26,7 +26,7 @@ vt_str_t *vt_file_read(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
@@ -74,7 +74,7 @@ vt_str_t *vt_file_readb(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
-- 
2.43.0


From a812d84a61bad6c9db35fb3231c8896bfe13d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 27/46] fix: file writers reported success when the data did
 not reach the file

---
 src/vita/system/fileio.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index 83d29fa..55da462 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -210,13 +210,13 @@ bool vt_file_writef(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = (vfprintf(fp, fmt, args) >= 0);
     va_end(args);
     
     // close file
-    fclose(fp); 
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
@@ -234,16 +234,16 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = (vfprintf(fp, fmt, args) >= 0);
     va_end(args);
 
     // add a new line
-    fprintf(fp, "\n");
+    status = (fprintf(fp, "\n") >= 0) && status;
     
     // close file
-    fclose(fp); 
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefc(const char *const filename, const bool use_binary_mode, const bool use_append_mode, const bool add_ln, const char *const fmt, ...) {
@@ -261,18 +261,18 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = (vfprintf(fp, fmt, args) >= 0);
     va_end(args);
 
     // add a new line
     if (add_ln) {
-        fprintf(fp, "\n");
+        status = (fprintf(fp, "\n") >= 0) && status;
     }
     
     // close file
-    fclose(fp); 
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 
-- 
2.43.0


From b17fbb499f425c9002556cd8dda7ddc8b848fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 28/46] fix: vt_log dropped the message and did not exit when a
 log file cannot be opened

---
 src/vita/util/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/util/log.c b/src/vita/util/log.c
index 824f58c..e9db73b 100644
--- a/src/vita/util/log.c
+++ b/src/vita/util/log.c
@@ -48,7 +48,7 @@ void vt_log(const char *const zfilename, enum VitaLogLevel log_level, const bool
             FILE *fp = (logger_filename[0] == '\0') ? stderr : fopen(logger_filename, "a");
             if (fp == NULL) {
                 VT_DEBUG_PRINTF("%s:%i: Failed to open a file <%s>!\n", file, line, logger_filename);
-                return;
+                fp = stderr;
             }
 
             // logging data
-- 
2.43.0


From 1b4b4ffe77c743cf6f99dfaf0606cd542db88e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 29/46] fix: debug output closed stderr when its file cannot be
 opened

---
 src/vita/util/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/debug.c b/src/vita/util/debug.c
index 2941e71..3f6232c 100644
--- a/src/vita/util/debug.c
+++ b/src/vita/util/debug.c
@@ -34,7 +34,7 @@ void vt_debug_assert(
                 fprintf(fp, "\n");
 
                 // close the file, if needed
-                if (vt_debug_output_filename != NULL) { fclose(fp); }
+                if (fp != stderr) { fclose(fp); }
             }
         }
         va_end(args);
@@ -65,7 +65,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
             vfprintf(fp, zfmt, args);
 
             // close the file, if needed
-            if (vt_debug_output_filename != NULL) { fclose(fp); }
+            if (fp != stderr) { fclose(fp); }
         }
     }
     va_end(args);
-- 
2.43.0


From 9223b1d8fef20729a726d962ad1433bbbb304e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:20 +0000
Subject: [PATCH 30/46] fix: argopt overflowed a preset char* value and left it
 unterminated

---
 src/vita/util/argopt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vita/util/argopt.c b/src/vita/util/argopt.c
index 6a8657d..659d617 100644
--- a/src/vita/util/argopt.c
+++ b/src/vita/util/argopt.c
@@ -225,15 +225,15 @@ static void vt_argopt_assign_value(vt_argopt_t *const opt, const char *const val
                     // check we need to reallocate
                     if (len > zLen) {
                         char *ztmp = alloctr 
-                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len - zLen)
-                            : VT_REALLOC(*zvalue, len - zLen);
+                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len + 1)
+                            : VT_REALLOC(*zvalue, len + 1);
 
                         // save
                         *zvalue = ztmp;
                     }
 
                     // copy values
-                    memcpy(*zvalue, value, len);
+                    memcpy(*zvalue, value, len + 1);
                 }
             }
             break;
-- 
2.43.0


From cb5a7b7895ba5ff2321cfe0c0565ddf1fb905ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:20 +0000
Subject: [PATCH 31/46] fix: argopt terminated the process for an empty
 argument or value

---
 src/vita/util/argopt.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vita/util/argopt.c b/src/vita/util/argopt.c
index 659d617..c82dd30 100644
--- a/src/vita/util/argopt.c
+++ b/src/vita/util/argopt.c
@@ -32,8 +32,10 @@ int8_t vt_argopt_parse(const size_t argc, const char **const argv, const size_t
         unrecognized_option = argv[i];
 
         // split 'option=value' by '='
-        vt_str_append(s_arg_value, argv[i]);
-        s_opt_split = vt_str_pop_get_first(s_opt_split, s_arg_value, "=");
+        if (argv[i][0] != '\0') {
+            vt_str_append(s_arg_value, argv[i]);
+            s_opt_split = vt_str_pop_get_first(s_opt_split, s_arg_value, "=");
+        }
 
         // find the corresponding option in optv
         for (size_t j = 0; j < optc; j++) {
@@ -196,9 +198,13 @@ static void vt_argopt_assign_value(vt_argopt_t *const opt, const char *const val
 
                 // check if we need to allocate
                 if (*svalue == NULL) {
-                    *svalue = vt_str_create(value, alloctr);
+                    *svalue = vt_str_create_capacity(strlen(value) + 1, alloctr);
                 } else {
                     vt_str_clear(*svalue);
+                }
+
+                // save
+                if (value[0] != '\0') {
                     vt_str_append(*svalue, value);
                 }
             }
-- 
2.43.0


From 18bd56979ee8941eb6f827a3c02a4f36df3391c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 32/46] fix: leap years did not follow the Gregorian rule for
 centuries

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 56198b8..8216ad0 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -199,7 +199,7 @@ int16_t vt_datetime_find_days_in_year(const struct VitaDateTime vdt) {
 
 bool vt_datetime_is_leap_year(const struct VitaDateTime vdt) {
     const int16_t year = vdt.year < 0 ? VT_DATETIME_MIN_YEAR_RANGE : vdt.year;
-    return (year % 4 == 0);
+    return (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
 }
 
 bool vt_datetime_is_valid_text(const char *const timebuf) {
-- 
2.43.0


From 388a2a53b6e954cbd25467097587bc488b996bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 33/46] fix: timestamp format checks ignored separators and
 length and read past short texts

---
 src/vita/time/datetime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 8216ad0..96a3cf7 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -394,7 +394,8 @@ static bool vt_datetime_is_valid_fmt(const char *const timebuf, const char *cons
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     for (size_t i = 0; i < len; i++) {
-        if (fmt[i] != 'T' && isalpha(fmt[i]) && !isdigit(timebuf[i])) {
+        const bool is_digit_expected = fmt[i] != 'T' && isalpha((unsigned char)fmt[i]);
+        if (is_digit_expected ? !isdigit((unsigned char)timebuf[i]) : timebuf[i] != fmt[i]) {
             return false;
         }
     }
-- 
2.43.0


From f230feb0ddbd19d3359ba1ca499700c2b9c9f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 34/46] fix: year and week day lookup failed for dates before
 1970

---
 src/vita/time/datetime.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 96a3cf7..cde26c8 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -151,9 +151,10 @@ struct VitaDateTime vt_datetime_from_text_iso_ext(const char *timebuf) {
 
 int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_wday = -1; // set by `mktime` upon success; its return value is negative for dates before 1970
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
 
@@ -162,9 +163,10 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
 
 int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_wday = -1; // set by `mktime` upon success; its return value is negative for dates before 1970
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
 
-- 
2.43.0


From db3975a287e452d812f3dfa9e9cd7912d339e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 35/46] fix: datetime read from text had a wrong week day and
 year day

---
 src/vita/time/datetime.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index cde26c8..15f804a 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -378,7 +378,12 @@ static struct VitaDateTime vt_datetime_from_text_fmt(const char *timebuf, const
     stm.tm_mon -= 1;
     stm.tm_isdst = 0;
 
-    return vt_datetime_tm_to_vdt(stm);
+    // find week day and year day
+    struct VitaDateTime vdt = vt_datetime_tm_to_vdt(stm);
+    vdt.week_day = vt_datetime_find_week_day(vdt);
+    vdt.year_day = vt_datetime_find_year_day(vdt);
+
+    return vdt;
 }
 
 /** Checks if timestamp is valid format
-- 
2.43.0


From 3b2e87dd450586f11e972f0c865d4e025cb78117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 36/46] fix: an invalid year was taken for 3800 instead of 1900

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 15f804a..bf6f5f0 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -327,7 +327,7 @@ static struct VitaDateTime vt_datetime_tm_to_vdt(const struct tm stm) {
 */
 static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
     return (struct tm) {
-        .tm_year = vdt.year ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : VT_DATETIME_MIN_YEAR_RANGE,
+        .tm_year = vdt.year > 0 ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : 0,
         .tm_mon = vdt.month - 1,
         .tm_mday = vdt.month_day,
         .tm_hour = vdt.hour, 
-- 
2.43.0


From 9e622f5722da73c2601cdc3df584285057f2f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 37/46] fix: datetime calculations were an hour off during
 daylight saving time

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index bf6f5f0..c884740 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -335,7 +335,7 @@ static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
         .tm_sec = vdt.second,
         .tm_wday = (vdt.week_day == 7) ? 0 : vdt.week_day,
         .tm_yday = vdt.year_day - 1,
-        .tm_isdst = 0
+        .tm_isdst = -1 // let `mktime` find out
     };
 }
 
-- 
2.43.0


From 5bf9a25c9ada2d0abcd8f23d97a9c26b9c0ce9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 38/46] fix: failed socket startup leaked the socket

---
 src/vita/network/sockets.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index a203c27..199ac57 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -44,6 +44,7 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     const int32_t opt = 1;
     if (setsockopt(sock_fd, SOL_SOCKET, SO_REUSEADDR, (char*)&opt, sizeof(int)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to set socket options!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_OPTIONS;
     }
 
@@ -56,12 +57,14 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     // forcefully bind the server socket address
     if (bind(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to bind the socket!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_BIND;
     }
 
     // listen
     if (type == VT_SOCKET_TYPE_TCP && listen(sock_fd , backlog) < 0) {
         VT_DEBUG_PRINTF("%s: Error listening for connections!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_LISTEN;
     }
 
@@ -85,6 +88,7 @@ vt_socket_t vt_socket_startup_client(const enum VitaSocketType type, const struc
     // connect to remote server
     if (connect(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to connect to server!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_CONNECT;
     }
 
-- 
2.43.0


From 8c9cba7274c8fcf385aba8c97a5d895ca15f8b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:26 +0000
Subject: [PATCH 39/46] fix: sending to a closed connection killed the process
 instead of returning an error

---
 src/vita/network/sockets.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index 199ac57..904cb85 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -1,5 +1,12 @@
 #include "vita/network/sockets.h"
 
+// do not raise SIGPIPE when the peer is gone, return an error instead
+#if defined(MSG_NOSIGNAL)
+    #define VT_SOCKET_SEND_FLAGS MSG_NOSIGNAL
+#else
+    #define VT_SOCKET_SEND_FLAGS 0
+#endif
+
 bool vt_socket_init(void) {
     #if defined(_WIN32) || defined(_WIN64)
         WSADATA wsa;
@@ -130,7 +137,7 @@ bool vt_socket_close(const vt_socket_t sock_fd) {
 
 int32_t vt_socket_send(const vt_socket_t sock_fd, const char *const data_buf, const size_t data_len) {
     // send data
-    const int32_t size_sent = send(sock_fd, data_buf, data_len, 0);
+    const int32_t size_sent = send(sock_fd, data_buf, data_len, VT_SOCKET_SEND_FLAGS);
 
     // check for errors
     if (size_sent < 0) {
@@ -149,7 +156,7 @@ int32_t vt_socket_send_to(const vt_socket_t sock_fd, const struct VitaSocketAddr
     dst_addr.sin_port = address.port;
 
     // send data
-    const int32_t size_sent = sendto(sock_fd, data_buf, data_len, 0, (struct sockaddr*)&dst_addr, sizeof(dst_addr));
+    const int32_t size_sent = sendto(sock_fd, data_buf, data_len, VT_SOCKET_SEND_FLAGS, (struct sockaddr*)&dst_addr, sizeof(dst_addr));
     
     // check for errors
     if (size_sent < 0) {
-- 
2.43.0


From f7473bc483c6b99fe663374e325bb593a5ace56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:09 +0000
Subject: [PATCH 40/46] fix: report a failed socket from a timed receive
 instead of 0

---
 src/vita/network/sockets.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index 904cb85..38b860d 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -226,7 +226,7 @@ int32_t vt_socket_receive_timed(const vt_socket_t sock_fd, char *data_buf, const
     if (poll_ret < 0) return VT_SOCKET_STATUS_ERROR_POLL;
 
     // receive data
-    if (poll_ret > 0 && (pfd.revents & POLLIN)) {
+    if (poll_ret > 0) {
         return vt_socket_receive(sock_fd, data_buf, data_len);
     }
 
@@ -245,7 +245,7 @@ int32_t vt_socket_receive_timed_from(const vt_socket_t sock_fd, struct VitaSocke
     if (poll_ret < 0) return VT_SOCKET_STATUS_ERROR_POLL;
 
     // receive data
-    if (poll_ret > 0 && (pfd.revents & POLLIN)) {
+    if (poll_ret > 0) {
         return vt_socket_receive_from(sock_fd, address, data_buf, data_len);
     }
 
-- 
2.43.0


From 610dc72d7e274326a38b387855d24ba70b5b0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:48 +0000
Subject: [PATCH 41/46] fix: define VT_LOG_DEBUG and VT_LOGF_DEBUG in release
 builds

With NDEBUG the two macros did not exist at all, so any program that logs at
debug level failed to link in a release build. They now expand to nothing
there, like VT_DEBUG_PRINTF.
---
 inc/vita/util/log.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/vita/util/log.h b/inc/vita/util/log.h
index 128d943..09f5618 100644
--- a/inc/vita/util/log.h
+++ b/inc/vita/util/log.h
@@ -47,6 +47,8 @@ enum VitaLogLevel {
 
 #if !defined(NDEBUG)
     #define VT_LOG_DEBUG(...) vt_log(NULL, vt_log_debug, false, NULL, __SOURCE_FILENAME__, __LINE__, __VA_ARGS__)
+#else
+    #define VT_LOG_DEBUG(...)
 #endif
 
 #define VT_LOG_ERROR(...) vt_log(NULL, vt_log_error, false, NULL, __SOURCE_FILENAME__, __LINE__, __VA_ARGS__)
@@ -60,6 +62,8 @@ enum VitaLogLevel {
 
 #if !defined(NDEBUG)
     #define VT_LOGF_DEBUG(filename, ...) vt_log(filename, vt_log_debug, false, NULL, __SOURCE_FILENAME__, __LINE__, __VA_ARGS__)
+#else
+    #define VT_LOGF_DEBUG(filename, ...)
 #endif
 
 #define VT_LOGF_ERROR(filename, ...) vt_log(filename, vt_log_error, false, NULL, __SOURCE_FILENAME__, __LINE__, __VA_ARGS__)
-- 
2.43.0


From 2e403220a05bfed009b41421f584858adbffc2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 42/46] fix: keep vt_math_random_f32_uniform below its upper
 bound

The documented range is [lbound; ubound), but rounding of lbound + (ubound -
lbound) * x gave ubound itself for narrow ranges.
---
 src/vita/math/math.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 4b50704..f6c45ac 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -63,7 +63,8 @@ float vt_math_random_f32(const uint32_t bound) {
 
 float vt_math_random_f32_uniform(const float lbound, const float ubound) {
     const float randval = sin(vt_math_random_u64() * vt_math_random_u64());
-    return lbound + (ubound - lbound) * fabs(randval);
+    const float val = lbound + (ubound - lbound) * fabs(randval);
+    return (val < ubound || lbound >= ubound) ? val : nextafterf(ubound, lbound); // upper bound is exclusive
 }
 
 float vt_math_random_f32_normal(const float mu, const float std) {
-- 
2.43.0


From 5196ca12e2eee7fb5110b4f95edf07a31425db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 43/46] fix: use the documented tolerance in vt_math_is_close
 for a negative rtol

A negative rtol asks for __FLT_EPSILON__; its absolute value was used instead.
---
 src/vita/math/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index f6c45ac..1e68f0c 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -94,7 +94,7 @@ float vt_math_random_f32_normal(const float mu, const float std) {
 }
 
 bool vt_math_is_close(const float lhs, const float rhs, const float rtol) {
-    return fabs(lhs - rhs) < fabs(rtol);
+    return fabs(lhs - rhs) < (rtol < 0 ? __FLT_EPSILON__ : rtol);
 }
 
 int64_t vt_math_gcd(const int64_t a, const int64_t b) {
-- 
2.43.0


From 59885408ce9665554fc3c7a23e2c6a12438d6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:39 +0000
Subject: [PATCH 44/46] fix: allocate the current directory string with the
 given allocator

vt_path_get_cwd handed getcwd's own buffer to a string that uses the
allocator, which never registered it: its statistics were wrong once the
string grew or was destroyed, and destroying the allocator leaked it.
---
 src/vita/system/path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 3340bea..1699874 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -33,7 +33,11 @@ vt_str_t *vt_path_get_cwd(struct VitaBaseAllocatorType *alloctr) {
         return NULL;
     }
 
-    return vt_str_take_ownership(z, alloctr);
+    // `getcwd` memory is not known to the allocator, so copy it
+    vt_str_t *const s = vt_str_create(z, alloctr);
+    free(z);
+
+    return s;
 }
 
 bool vt_path_exists(const char *const z) {
-- 
2.43.0


From 7b486163084a1309b197a04b445549788547be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:54 +0000
Subject: [PATCH 45/46] fix: keep a copy of the debug output file name

vt_debug_redirect_output stored the caller's pointer, so later debug
messages went to whatever that memory held by then (or read freed memory).
The log redirection already copies its names.
---
 src/vita/util/debug.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/util/debug.c b/src/vita/util/debug.c
index 3f6232c..aacab2a 100644
--- a/src/vita/util/debug.c
+++ b/src/vita/util/debug.c
@@ -2,7 +2,7 @@
 
 // private
 static bool vt_debug_output_on = true;
-static const char *vt_debug_output_filename = NULL;
+static char vt_debug_output_filename[PATH_MAX] = {0};
 
 void vt_debug_assert(
     const bool expr, 
@@ -25,7 +25,7 @@ void vt_debug_assert(
         {
             if (vt_debug_output_on) {
                 // create a file
-                FILE *fp = (vt_debug_output_filename == NULL) ? stderr : fopen(vt_debug_output_filename, "a");
+                FILE *fp = (vt_debug_output_filename[0] == '\0') ? stderr : fopen(vt_debug_output_filename, "a");
                 if (fp == NULL) { fp = stderr; }
 
                 // logging to fp
@@ -57,7 +57,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
     {
         if (vt_debug_output_on) {
             // create a file
-            FILE *fp = (vt_debug_output_filename == NULL) ? stderr : fopen(vt_debug_output_filename, "a");
+            FILE *fp = (vt_debug_output_filename[0] == '\0') ? stderr : fopen(vt_debug_output_filename, "a");
             if (fp == NULL) { fp = stderr; }
 
             // logging to stderr
@@ -72,7 +72,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
 }
 
 void vt_debug_redirect_output(const char *const zfilename) {
-    vt_debug_output_filename = zfilename;
+    strncpy(vt_debug_output_filename, zfilename == NULL ? "\0" : zfilename, PATH_MAX-1);
 }
 
 void vt_debug_disable_output(const bool off) {
-- 
2.43.0


From 72688d8472fc4b456c9fbab01b85c816c40ff5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:14 +0000
Subject: [PATCH 46/46] fix: sizes whose bytes cannot be counted are refused
 instead of wrapping around

Creating, reserving or resizing a vector, list or string with n such that
n * elsize (or n + 1) overflows size_t allocated a small block while the
capacity said n, so later in-range accesses ran outside of the block.
---
 src/vita/container/plist.c | 3 +++
 src/vita/container/str.c   | 3 +++
 src/vita/container/vec.c   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dd99da8..7400a4a 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -3,6 +3,7 @@
 vt_plist_t *vt_plist_create(const size_t n, struct VitaBaseAllocatorType *const alloctr) {
     // check for invalid input
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(n <= SIZE_MAX / sizeof(void*), "%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
     // allocate a new vt_plist_t instance
     vt_plist_t *p = vt_array_new(alloctr);
@@ -72,6 +73,7 @@ void vt_plist_reserve(vt_plist_t *const p, const size_t n) {
     VT_DEBUG_ASSERT(p != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(n <= SIZE_MAX / p->elsize - p->capacity, "%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
     // reserve memory for additional n elements
     p->ptr2 = p->alloctr 
@@ -107,6 +109,7 @@ void vt_plist_resize(vt_plist_t *const p, const size_t n) {
     VT_DEBUG_ASSERT(p != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(p->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(n <= SIZE_MAX / p->elsize, "%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
     if (n == p->capacity) {
         p->len = p->capacity;
diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index aeca41d..d1f568a 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -36,6 +36,7 @@ vt_str_t *vt_str_create(const char *const z, struct VitaBaseAllocatorType *const
 vt_str_t *vt_str_create_len(const size_t n, struct VitaBaseAllocatorType *const alloctr) {
     // check for invalid input
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(n < SIZE_MAX, "%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
     // allocate memory for a vt_str_t struct
     vt_str_t *s = vt_array_new(alloctr);
@@ -194,6 +195,7 @@ void vt_str_reserve(vt_str_t *const s, const size_t n) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(n < SIZE_MAX - s->capacity, "%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
     VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // reserve memory for additional n elements
@@ -213,6 +215,7 @@ void vt_str_resize(vt_str_t *const s, const size_t n) {
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(n < SIZE_MAX, "%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
     VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // resize memory to (n + 1) elements
diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index feff9a0..1e292d5 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -4,6 +4,7 @@ vt_vec_t *vt_vec_create(const size_t n, const size_t elsize, struct VitaBaseAllo
     // check for invalid input
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(elsize > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(n <= SIZE_MAX / elsize, "%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
     // allocate a new vt_vec_t instance
     vt_vec_t *v = vt_array_new(alloctr);
@@ -101,6 +102,7 @@ void vt_vec_reserve(vt_vec_t *const v, const size_t n) {
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(n <= SIZE_MAX / v->elsize - v->capacity, "%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
     // reserve memory for additional n elements
     v->ptr = v->alloctr 
@@ -116,6 +118,7 @@ void vt_vec_resize(vt_vec_t *const v, const size_t n) {
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(n <= SIZE_MAX / v->elsize, "%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
     if (n == v->capacity) {
         v->len = v->capacity;
-- 
2.43.0

