From 955048a2dc45015ceba0e25c3333cb0a907d3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:54 +0000
Subject: [PATCH 01/41] fix: shrinking an empty vec/plist aborts the program

---
 src/vita/container/plist.c | 9 ++++++---
 src/vita/container/vec.c   | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dfcbba5..12b7526 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -92,14 +92,17 @@ void vt_plist_shrink(vt_plist_t *const p) {
         return;
     }
 
+    // an empty container keeps space for one element
+    const size_t new_capacity = p->len > 0 ? p->len : 1;
+
     // shrink to length
     p->ptr2 = p->alloctr 
-        ? VT_ALLOCATOR_REALLOC(p->alloctr, p->ptr2, p->len * p->elsize) 
-        : VT_REALLOC(p->ptr2, p->len * p->elsize);
+        ? VT_ALLOCATOR_REALLOC(p->alloctr, p->ptr2, new_capacity * p->elsize) 
+        : VT_REALLOC(p->ptr2, new_capacity * p->elsize);
 
     
     // update
-    p->capacity = p->len;
+    p->capacity = new_capacity;
 }
 
 void vt_plist_resize(vt_plist_t *const p, const size_t n) {
diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index feff9a0..c1615ae 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -78,13 +78,16 @@ void vt_vec_shrink(vt_vec_t *const v) {
         return;
     }
 
+    // an empty container keeps space for one element
+    const size_t new_capacity = v->len > 0 ? v->len : 1;
+
     // shrink the array capacity to length
     v->ptr = v->alloctr 
-        ? VT_ALLOCATOR_REALLOC(v->alloctr, v->ptr, v->len * v->elsize) 
-        : VT_REALLOC(v->ptr, v->len * v->elsize);
+        ? VT_ALLOCATOR_REALLOC(v->alloctr, v->ptr, new_capacity * v->elsize) 
+        : VT_REALLOC(v->ptr, new_capacity * v->elsize);
 
     // update
-    v->capacity = v->len;
+    v->capacity = new_capacity;
 }
 
 void vt_vec_clear(vt_vec_t *const v) {
-- 
2.43.0


From 21fd5606f08758db73aea9faa923eb364124133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:54 +0000
Subject: [PATCH 02/41] fix: duplicating an empty vec/plist terminates the
 program

---
 src/vita/container/plist.c | 2 +-
 src/vita/container/vec.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index 12b7526..963977b 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -42,7 +42,7 @@ vt_plist_t *vt_plist_dup(const vt_plist_t *const p, struct VitaBaseAllocatorType
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
     // allocate a new vt_vec_t instance
-    vt_plist_t *pdup = vt_plist_create(p->len, alloctr);
+    vt_plist_t *pdup = vt_plist_create(p->len > 0 ? p->len : 1, alloctr);
     pdup->len = p->len;
 
     // copy values
diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index c1615ae..6f18671 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -43,7 +43,7 @@ vt_vec_t *vt_vec_dup(const vt_vec_t *const v, struct VitaBaseAllocatorType *cons
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
     // allocate a new vt_vec_t instance
-    vt_vec_t *vdup = vt_vec_create(v->len, v->elsize, alloctr);
+    vt_vec_t *vdup = vt_vec_create(v->len > 0 ? v->len : 1, v->elsize, alloctr);
     vdup->len = v->len;
 
     // copy values
-- 
2.43.0


From 61f62730f25aa2ab1c36c949c3b29b3be315c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:12 +0000
Subject: [PATCH 03/41] fix: vt_vec_can_findr misses values because it compares
 padding bytes

---
 src/vita/container/vec.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index 6f18671..73eefd6 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -401,9 +401,20 @@ VT_INSTANTIATE_VEC_CAN_FIND(int64_t, i64)
 VT_INSTANTIATE_VEC_CAN_FIND(uint64_t, u64)
 VT_INSTANTIATE_VEC_CAN_FIND(float, f)
 VT_INSTANTIATE_VEC_CAN_FIND(double, d)
-VT_INSTANTIATE_VEC_CAN_FIND(real, r)
 #undef VT_INSTANTIATE_VEC_CAN_FIND
 
+// `real` has padding bytes with unspecified contents, so it must be compared by value
+int64_t vt_vec_can_findr(const vt_vec_t *const v, const real val) {
+    const size_t len = vt_vec_len(v);
+    for (size_t i = 0; i < len; i++) {
+        if (vt_vec_getr(v, i) == val) {
+            return i;
+        }
+    }
+
+    return -1;
+}
+
 void *vt_vec_slide_front(vt_vec_t *const v) {
     // check for invalid input
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-- 
2.43.0


From 40e07692355e9d33f5abebfeb8a6c6727a71e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 04/41] fix: sliding from the back starts at a wrong element
 and underruns the storage

---
 src/vita/container/common.c | 2 +-
 src/vita/container/plist.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index ea50633..376394a 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -129,7 +129,7 @@ void *vt_array_slide_back(struct VitaBaseArrayType *const vbat) {
     // check bounds
     if (vbat->slider_idx < vbat->len) {
         vbat->slider_idx++;
-        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx - 2) * vbat->elsize;
+        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx) * vbat->elsize;
     }
 
     // reset the slider
diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index 963977b..adcca70 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -321,7 +321,7 @@ void *vt_plist_slide_back(vt_plist_t *const p) {
     // check bounds
     if (p->slider_idx < p->len) {
         p->slider_idx++;
-        return p->ptr2[p->len - p->slider_idx - 2];
+        return p->ptr2[p->len - p->slider_idx];
     }
 
     // reset the slider
-- 
2.43.0


From dcd70abfd5ee1b83fc58a6ccb2d74fb4dc9e0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 05/41] fix: vt_str_remove_last removes the wrong characters
 and crashes when nothing is found

---
 src/vita/container/str.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b7b66a7..24b49b5 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -573,17 +573,18 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     const size_t zLen = strlen(z);
     char *p = strstr(s->ptr, z);
     char *lastInstance = p;
-    while ((p = strstr(p + zLen, z)) != NULL) {
-        lastInstance = p;
-    }
 
     // if not found, return
     if (lastInstance == NULL) {
         return VT_STATUS_ERROR_ELEMENT_NOT_FOUND;
     }
 
+    while ((p = strstr(p + zLen, z)) != NULL) {
+        lastInstance = p;
+    }
+
     // find the position of last substring instance
-    const ptrdiff_t last_instance_pos = (((char*)(s->ptr) + s->len * s->elsize) - lastInstance);
+    const ptrdiff_t last_instance_pos = lastInstance - (char*)(s->ptr);
 
     // remove the last instance
     vt_str_remove(s, last_instance_pos, zLen);
-- 
2.43.0


From 75744f8da31aa897814faae609944246ffa01687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 06/41] fix: vt_str_replace_last crashes when the substring is
 not found

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 24b49b5..f7ecfce 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -720,7 +720,7 @@ void vt_str_replace_last(vt_str_t *const s, const char *const sub, const char *c
     // find the last instance of sep
     const char *ptr = strstr(s->ptr, sub);
     const char *lastInstance = ptr;
-    while ((ptr = strstr(ptr + subLen, sub))) {
+    while (ptr && (ptr = strstr(ptr + subLen, sub))) {
         lastInstance = ptr;
     }
 
-- 
2.43.0


From ebc096ff7acd20f68267336c09eb3fa1a1d80161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 07/41] fix: vt_str_insert_after terminates the program when
 the substring ends the string

---
 src/vita/container/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index f7ecfce..5e151b5 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -503,7 +503,9 @@ void vt_str_insert_after(vt_str_t *const s, const char *const sub, const char *c
     }
 
     // insert z
-    vt_str_insert(s, z, idx + strlen(sub));
+    const size_t at = idx + strlen(sub);
+    if (at < vt_str_len(s)) vt_str_insert(s, z, at);
+    else vt_str_append(s, z);
 }
 
 void vt_str_remove(vt_str_t *const s, const size_t from, size_t n) {
-- 
2.43.0


From 345a783446411724111552495e46aa8a7cd51b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 08/41] fix: stripping a string that consists only of stripped
 characters runs out of bounds

---
 src/vita/container/str.c | 44 +++++++++-------------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 5e151b5..8b7d564 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -781,7 +781,7 @@ void vt_str_strip(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr)) {
+    while (offset < *len && isspace(*curr)) {
         offset++;
         curr = p + offset;
     }
@@ -791,7 +791,7 @@ void vt_str_strip(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr)) {
+    while (*len > 0 && isspace(*curr)) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -815,7 +815,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (offset < *len && (isspace(*curr) || ispunct(*curr))) {
         offset++;
         curr = p + offset;
     }
@@ -825,7 +825,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (*len > 0 && (isspace(*curr) || ispunct(*curr))) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -844,7 +844,6 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     VT_DEBUG_ASSERT(c != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // prepare
-    bool stop = false;
     size_t offset = 0;
     size_t cLen = strlen(c);
     size_t *len = &s->len;
@@ -852,42 +851,19 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (!stop) {
-        for (size_t i = 0; i < cLen; i++) {
-            if (*curr == c[i]) {
-                offset++;
-                curr = p + offset;
-
-                // continue looping
-                stop = false;
-
-                break;
-            }
-
-            stop = true;
-        }
+    while (offset < *len && memchr(c, *curr, cLen) != NULL) {
+        offset++;
+        curr = p + offset;
     }
 
     // update length
     *len -= offset;
 
     // strip tailing whitespace and control symbols
-    stop = false;
     curr = p + (*len + offset - 1);
-    while (!stop) {
-        for (size_t i = 0; i < cLen; i++) {
-            if (*curr == c[i]) {
-                (*len)--;
-                curr = p + (*len + offset - 1);
-
-                // continue looping
-                stop = false;
-
-                break;
-            }
-
-            stop = true;
-        }
+    while (*len > 0 && memchr(c, *curr, cLen) != NULL) {
+        (*len)--;
+        curr = p + (*len + offset - 1);
     }
 
     // move string to the begining
-- 
2.43.0


From 20843fa2419398d8520ce3838891f5de12a04d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 09/41] fix: vt_str_split reads out of bounds when separators
 end the string

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 8b7d564..ce7253d 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -937,7 +937,7 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
     const size_t sepLen = strlen(sep);
     const char *head = s->ptr;
     const char *current = head;
-    while (true) {
+    while (*head != '\0') {
         // find sep
         current = strstr(head, sep);
 
-- 
2.43.0


From 13471f53721e9b136bd0ba23f6a33888215cce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 10/41] fix: vt_str_split_between misplaces the right delimiter
 and cannot return an empty part

---
 src/vita/container/str.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index ce7253d..7fd961f 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -980,7 +980,7 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
     }
 
     // find r - right substring
-    const char *const rsub = strstr(z, zr);
+    const char *const rsub = strstr(lsub + strlen(zl), zr);
     if (rsub == NULL) {
         return NULL;
     }
@@ -991,18 +991,14 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         : s;
     vt_str_clear(st);
 
-    // check if lsub < rsub
-    if (lsub < rsub) {
-        ptrdiff_t sub_len = rsub - lsub - strlen(zl);
+    // append sub
+    const size_t sub_len = rsub - lsub - strlen(zl);
+    if (sub_len > 0) {
         vt_str_resize(st, sub_len);
-
-        // append sub
         vt_str_append_n(st, rsub - sub_len, sub_len);
-
-        return st;
     }
 
-    return NULL;
+    return st;
 }
 
 vt_str_t *vt_str_join(vt_str_t *const s, const char *const sep, const vt_plist_t *const p) {
-- 
2.43.0


From 84495b6f9300958f6c6b8aea7ea0fb3dcec495be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 11/41] fix: a static string reports less capacity than its
 length, so growing it writes out of bounds

---
 src/vita/container/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 7fd961f..ed8e1a6 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -11,6 +11,7 @@ vt_str_t vt_str_create_static(const char *const z) {
     vt_str_t s = {
         .ptr = (void*)z,
         .len = strlen(z),
+        .capacity = strlen(z),
         .elsize = sizeof(char),
         .is_view = true,
     };
-- 
2.43.0


From adc64aa1f381d958b7cf4af764a3a1907b7c015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 12/41] fix: creating, setting or appending an empty C string
 terminates the program

---
 src/vita/container/str.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index ed8e1a6..e8cf4c6 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -25,6 +25,9 @@ vt_str_t *vt_str_create(const char *const z, struct VitaBaseAllocatorType *const
 
     // create str
     const size_t zLen = strlen(z);
+    if (zLen == 0) {
+        return vt_str_create_capacity(VT_ARRAY_DEFAULT_INIT_ELEMENTS, alloctr);
+    }
     vt_str_t *s = vt_str_create_len(zLen, alloctr);
 
     // set z to str
@@ -234,6 +237,11 @@ void vt_str_set(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    if (*z == '\0') {
+        vt_str_clear(s);
+        return;
+    }
+
     vt_str_set_n(s, z, strlen(z));
 }
 
@@ -264,7 +272,7 @@ enum VitaStatus vt_str_set_at(vt_str_t *const s, const char *z, const size_t at)
     vt_str_remove(s, at, s->len - at);
 
     // append new string
-    vt_str_append_n(s, z, zLen);
+    vt_str_append(s, z);
 
     return VT_STATUS_OPERATION_SUCCESS;
 }
@@ -319,6 +327,11 @@ void vt_str_append(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    // nothing to append
+    if (*z == '\0') {
+        return;
+    }
+
     vt_str_append_n(s, z, strlen(z));
 }
 
-- 
2.43.0


From 9c20fe660eff64ad32a1a20b5f000aca5ec38f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 13/41] fix: vt_str_insert_n does not check its position and
 corrupts memory past the end

---
 src/vita/container/str.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index e8cf4c6..7c47261 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -466,6 +466,13 @@ void vt_str_insert_n(vt_str_t *const s, const char *z, const size_t at, const si
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(
+        at <= s->len,
+        "%s: Inserts at %zu, but vt_str_t length is %zu!\n", 
+        vt_status_to_str(VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS), 
+        at, 
+        s->len
+    );
 
     // check if new memory needs to be allocated
     const size_t hasSpace = vt_str_has_space(s);
-- 
2.43.0


From d0f78d32dbd6f3f830db0b8a8770043c54a58868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 14/41] fix: vt_span_from_to rejects ranges that start at 0 and
 accepts reversed ranges

---
 src/vita/container/span.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vita/container/span.c b/src/vita/container/span.c
index c2a7892..c6c24a5 100644
--- a/src/vita/container/span.c
+++ b/src/vita/container/span.c
@@ -16,8 +16,7 @@ vt_span_t vt_span_from(void *ptr, const size_t length, const size_t elsize) {
 vt_span_t vt_span_from_to(void *ptr, const size_t from_idx, const size_t to_idx, const size_t elsize) {
     // check for invalid input
     VT_DEBUG_ASSERT(ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(from_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(to_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(to_idx > from_idx, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(elsize > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     return (vt_span_t) {
-- 
2.43.0


From 336f777776dd291881e583f0af212582394cb66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 15/41] fix: argopt overflows the heap when a C string option
 already has a value

---
 src/vita/util/argopt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/util/argopt.c b/src/vita/util/argopt.c
index 6a8657d..96acf8c 100644
--- a/src/vita/util/argopt.c
+++ b/src/vita/util/argopt.c
@@ -225,15 +225,15 @@ static void vt_argopt_assign_value(vt_argopt_t *const opt, const char *const val
                     // check we need to reallocate
                     if (len > zLen) {
                         char *ztmp = alloctr 
-                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len - zLen)
-                            : VT_REALLOC(*zvalue, len - zLen);
+                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len + 1)
+                            : VT_REALLOC(*zvalue, len + 1);
 
                         // save
                         *zvalue = ztmp;
                     }
 
-                    // copy values
-                    memcpy(*zvalue, value, len);
+                    // copy values (including '\0')
+                    memcpy(*zvalue, value, len + 1);
                 }
             }
             break;
-- 
2.43.0


From a72f4ffd910bdd79a4658b2e46f47ba44f8aca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 16/41] fix: century years are treated as leap years

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 56198b8..3cd175f 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -199,7 +199,7 @@ int16_t vt_datetime_find_days_in_year(const struct VitaDateTime vdt) {
 
 bool vt_datetime_is_leap_year(const struct VitaDateTime vdt) {
     const int16_t year = vdt.year < 0 ? VT_DATETIME_MIN_YEAR_RANGE : vdt.year;
-    return (year % 4 == 0);
+    return (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0));
 }
 
 bool vt_datetime_is_valid_text(const char *const timebuf) {
-- 
2.43.0


From d365dac4c2868efeb352427eb590ebf62aaa42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 17/41] fix: week and year days of dates before 1970 are
 reported as invalid

---
 src/vita/time/datetime.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 3cd175f..59944e4 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -151,9 +151,10 @@ struct VitaDateTime vt_datetime_from_text_iso_ext(const char *timebuf) {
 
 int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_wday = -1; // stays -1 only if mktime fails: dates before 1970 are valid and negative
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
 
@@ -162,9 +163,10 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
 
 int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_wday = -1; // stays -1 only if mktime fails: dates before 1970 are valid and negative
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
 
-- 
2.43.0


From a56973239586b4c10c217c42ce0dfceb8b540c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 18/41] fix: datetimes that fall in daylight saving time are
 shifted by an hour

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 59944e4..171ea19 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -335,7 +335,7 @@ static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
         .tm_sec = vdt.second,
         .tm_wday = (vdt.week_day == 7) ? 0 : vdt.week_day,
         .tm_yday = vdt.year_day - 1,
-        .tm_isdst = 0
+        .tm_isdst = -1
     };
 }
 
-- 
2.43.0


From 01ee017ebb6e900f4c24b6f6fee2886a04954c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 19/41] fix: an invalid year is taken as 3800 or a negative
 year instead of 1900

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 171ea19..5bae624 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -327,7 +327,7 @@ static struct VitaDateTime vt_datetime_tm_to_vdt(const struct tm stm) {
 */
 static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
     return (struct tm) {
-        .tm_year = vdt.year ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : VT_DATETIME_MIN_YEAR_RANGE,
+        .tm_year = vdt.year > 0 ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : 0,
         .tm_mon = vdt.month - 1,
         .tm_mday = vdt.month_day,
         .tm_hour = vdt.hour, 
-- 
2.43.0


From 858e97810f1f5b7c1402ef3adfd5637d0dcb835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 20/41] fix: timestamps with wrong separators are accepted as
 valid and short ones are read past the end

---
 src/vita/time/datetime.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 5bae624..d4521d2 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -395,8 +395,11 @@ static bool vt_datetime_is_valid_fmt(const char *const timebuf, const char *cons
     VT_DEBUG_ASSERT(timebuf != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    for (size_t i = 0; i < len; i++) {
-        if (fmt[i] != 'T' && isalpha(fmt[i]) && !isdigit(timebuf[i])) {
+    // digits must match letters (except for the `T` separator), anything else must match exactly
+    for (size_t i = 0; i + 1 < len; i++) {
+        if (fmt[i] != 'T' && isalpha(fmt[i])) {
+            if (!isdigit((unsigned char)timebuf[i])) return false;
+        } else if (timebuf[i] != fmt[i]) {
             return false;
         }
     }
-- 
2.43.0


From d09003a8ac2a418d8b284711c65a37579bcc61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 21/41] fix: a datetime read from text always claims to be a
 Sunday and the first day of the year

---
 src/vita/time/datetime.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index d4521d2..6a7b119 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -378,7 +378,12 @@ static struct VitaDateTime vt_datetime_from_text_fmt(const char *timebuf, const
     stm.tm_mon -= 1;
     stm.tm_isdst = 0;
 
-    return vt_datetime_tm_to_vdt(stm);
+    // fill in week and year days
+    struct VitaDateTime vdt = vt_datetime_tm_to_vdt(stm);
+    vdt.week_day = vt_datetime_find_week_day(vdt);
+    vdt.year_day = vt_datetime_find_year_day(vdt);
+
+    return vdt;
 }
 
 /** Checks if timestamp is valid format
-- 
2.43.0


From 31e4439cda2fe895a54e9173e203dddc390e3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 22/41] fix: reading an empty file terminates the program

---
 src/vita/system/fileio.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index de6d17f..b54a2c9 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -26,7 +26,9 @@ vt_str_t *vt_file_read(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = (fsize == 0)
+        ? vt_str_create_capacity(VT_ARRAY_DEFAULT_INIT_ELEMENTS, alloctr)
+        : vt_str_create_len(fsize, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
@@ -74,7 +76,9 @@ vt_str_t *vt_file_readb(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = (fsize == 0)
+        ? vt_str_create_capacity(VT_ARRAY_DEFAULT_INIT_ELEMENTS, alloctr)
+        : vt_str_create_len(fsize, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
-- 
2.43.0


From b17f4727b0a34c6836b1b4f199a765e924880dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 23/41] fix: writing to a file reports success when the data
 could not be written

---
 src/vita/system/fileio.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index b54a2c9..46fcda4 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -218,7 +218,11 @@ bool vt_file_writef(const char *const filename, const char *const fmt, ...) {
     va_end(args);
     
     // close file
-    fclose(fp); 
+    const bool write_failed = ferror(fp) != 0;
+    if (fclose(fp) != 0 || write_failed) {
+        VT_DEBUG_PRINTF("%s: Failed to write to <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), filename);
+        return false;
+    }
 
     return true;
 }
@@ -245,7 +249,11 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     fprintf(fp, "\n");
     
     // close file
-    fclose(fp); 
+    const bool write_failed = ferror(fp) != 0;
+    if (fclose(fp) != 0 || write_failed) {
+        VT_DEBUG_PRINTF("%s: Failed to write to <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), filename);
+        return false;
+    }
 
     return true;
 }
@@ -274,7 +282,11 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     }
     
     // close file
-    fclose(fp); 
+    const bool write_failed = ferror(fp) != 0;
+    if (fclose(fp) != 0 || write_failed) {
+        VT_DEBUG_PRINTF("%s: Failed to write to <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), filename);
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From e6ace817351e02190cd18224ca9c3a360d1dace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 24/41] fix: vt_path_basename returns garbage unless an inner
 separator precedes the last component

---
 src/vita/system/path.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ad4ff4f..4a91c68 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -223,8 +223,7 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // check if path separator is present
-    vt_str_t sz = vt_str_create_static(z);
-    if (!vt_str_can_find(&sz, VT_PATH_SEPARATOR)) {
+    if (strchr(z, VT_PATH_SEPARATOR[0]) == NULL) {
         return s;
     }
 
@@ -233,12 +232,12 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
         ? vt_str_create_len(strlen(z), NULL) 
         : s;
 
-    // find the basename
-    const char *ptr = NULL;
+    // find the basename (a trailing separator belongs to it)
+    const char *ptr = z;
     const size_t zLen = strlen(z);
     for (size_t i = zLen - 1; i > 0; i--) {
-        if (z[i] == VT_PATH_SEPARATOR[0] && i != zLen - 1) {
-            ptr = &z[i+1];
+        if (z[i-1] == VT_PATH_SEPARATOR[0]) {
+            ptr = &z[i];
             break;
         }
     }
@@ -250,7 +249,7 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
     }
 
     // save the basename
-    if (ptr) {
+    if (ptr != vt_str_z(st)) {
         vt_str_clear(st);
         vt_str_append(st, ptr);
     }
-- 
2.43.0


From 34b9b146597eee298f84f9083a58ebdc2c4dea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 25/41] fix: vt_path_pop reads before the start of an empty
 path

---
 src/vita/system/path.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 4a91c68..61edab1 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -534,6 +534,9 @@ void vt_path_pop(char *const z) {
     
     // check if path ends with path separator
     size_t len = vt_str_len(&s);
+    if (len == 0) {
+        return;
+    }
     if (z[len-1] == VT_PATH_SEPARATOR[0]) {
         z[len-1] = '\0';
         return;
-- 
2.43.0


From b603b72691f77ca2776f83a7af22e79ee44df4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 26/41] fix: expanding a lone tilda terminates the program

---
 src/vita/system/path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 61edab1..e924abe 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -491,7 +491,11 @@ vt_str_t *vt_path_expand_tilda(const char *const z, struct VitaBaseAllocatorType
 
     // expand tilda
     vt_str_remove(s_tilda, (size_t)tilda_pos, 1);           // remove tilda
-    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    if (vt_str_len(s_tilda) == 0) {
+        vt_str_append(s_tilda, z_homepath);                     // nothing is left after tilda
+    } else {
+        vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    }
 
     return s_tilda;
 }
-- 
2.43.0


From 1789ddfb4c2117f58809cade60fc221b71c8f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 27/41] fix: the executable location is not terminated

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index e924abe..80e5845 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -525,6 +525,7 @@ vt_str_t *vt_path_get_this_exe_location(struct VitaBaseAllocatorType *alloctr) {
         return NULL;
     }
     spath->len = pathLen;
+    ((char*)spath->ptr)[spath->len] = '\0';
 
     return spath;
 }
-- 
2.43.0


From 0404d2b08762ac779f0c1331cb308fa765668825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 28/41] fix: the current directory is not allocated from the
 given allocator and its failure terminates the program

---
 src/vita/system/path.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 80e5845..653dca9 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -25,7 +25,16 @@ vt_str_t *vt_path_build_n(vt_str_t *const s, const size_t n, ...) {
 }
 
 vt_str_t *vt_path_get_cwd(struct VitaBaseAllocatorType *alloctr) {
-    return vt_str_take_ownership(getcwd(NULL, 0), alloctr);
+    char *const z = getcwd(NULL, 0);
+    if (z == NULL) {
+        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        return NULL;
+    }
+
+    vt_str_t *s = vt_str_create(z, alloctr);
+    free(z);
+
+    return s;
 }
 
 bool vt_path_exists(const char *const z) {
-- 
2.43.0


From 3291bf14a115773e5a48b5c59e3d9201e8dbba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 29/41] fix: vt_path_mkdir_parents fails for a single directory
 and hides directories that cannot be made

---
 src/vita/system/path.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 653dca9..b8d124a 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -299,6 +299,11 @@ bool vt_path_mkdir_parents(const char *const z) {
         return true;
     }
 
+    // there are no parents
+    if (strchr(z, VT_PATH_SEPARATOR[0]) == NULL) {
+        return vt_path_mkdir(z);
+    }
+
     // create variables
     bool status = true;
     vt_str_t *s = NULL;
@@ -348,7 +353,10 @@ bool vt_path_mkdir_parents(const char *const z) {
         vt_str_append(sfull, VT_PATH_SEPARATOR);
         
         // make that directory
-        vt_path_mkdir(vt_str_z(sfull));
+        if (!vt_path_mkdir(vt_str_z(sfull))) {
+            status = false;
+            break;
+        }
     }
 
 vt_label_path_mkdir_parents__:
-- 
2.43.0


From b4c365387b15b6dce22b71bd8288ad2c29ee93be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 30/41] fix: removing a directory recursively follows symbolic
 links and deletes files outside of it

---
 src/vita/system/path.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index b8d124a..209062d 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -1,5 +1,7 @@
 #include "vita/system/path.h"
 
+static bool vt_path_is_symlink(const char *const z);
+
 vt_str_t *vt_path_build(vt_str_t *const s, const vt_plist_t *const p) {
     return vt_str_join(s, VT_PATH_SEPARATOR, p);
 }
@@ -187,7 +189,7 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, dirtree->d_name);
 
         // check if current path is a directory; if false, then break
-        if (vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
+        if (!vt_path_is_symlink(vt_str_z(st)) && vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
             break;
         }
 
@@ -408,10 +410,14 @@ bool vt_path_rmdir_recurse(const char *const z) {
         return false;
     }
 
+    // remove the link, not what it refers to
+    if (vt_path_is_symlink(z)) {
+        return vt_path_remove(z);
+    }
+
     // return value
     bool status = true;
 
-
     // get all files in a directory
     // if none are found, delete the directory and return
     vt_plist_t *dir_list = vt_path_dir_list_recurse(NULL, z, false);
@@ -425,14 +431,14 @@ bool vt_path_rmdir_recurse(const char *const z) {
     vt_str_t *path = NULL;
     while ((path = vt_plist_slide_front(dir_list)) != NULL) {
         // remove file/directory
-        status = vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
+        status = !vt_path_is_symlink(vt_str_z(path)) && vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
 
         // check status
         if (!status) {
             goto vt_path_rmdir_recurse_cleanup__;
         }  
     }
-    vt_path_rmdir(z); // remove the folder when done with its contents
+    status = vt_path_rmdir(z); // remove the folder when done with its contents
 
 vt_path_rmdir_recurse_cleanup__:
     // free all strings in dir_list
@@ -455,7 +461,7 @@ bool vt_path_remove(const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // check if path exists
-    if (!vt_path_exists(z)) {
+    if (!vt_path_exists(z) && !vt_path_is_symlink(z)) {
         VT_DEBUG_PRINTF("%s: Path does not exist <%s>\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z);
         return false;
     }
@@ -603,5 +609,21 @@ void vt_path_validate(char *const z) {
     }
 }
 
+/* ---------------------- PRIVATE FUNCTIONS ---------------------- */
+
+/** Checks if path is a symbolic link
+    @param z path
+    @returns `true` if path is a symbolic link (dangling or not)
+*/
+static bool vt_path_is_symlink(const char *const z) {
+    #if defined(_WIN32) || defined(_WIN64)
+        (void)z;
+        return false;
+    #else
+        struct stat info;
+        return (lstat(z, &info) == 0 && S_ISLNK(info.st_mode));
+    #endif
+}
+
 
 
-- 
2.43.0


From 54f913d55eb3e37911d9e68c522635153185cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 31/41] fix: fatal messages do not terminate the program when
 the log file cannot be opened

---
 src/vita/util/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/log.c b/src/vita/util/log.c
index 824f58c..99b6d27 100644
--- a/src/vita/util/log.c
+++ b/src/vita/util/log.c
@@ -47,8 +47,8 @@ void vt_log(const char *const zfilename, enum VitaLogLevel log_level, const bool
             // if `NULL` log to `stderr`, otherwise to a file
             FILE *fp = (logger_filename[0] == '\0') ? stderr : fopen(logger_filename, "a");
             if (fp == NULL) {
-                VT_DEBUG_PRINTF("%s:%i: Failed to open a file <%s>!\n", file, line, logger_filename);
-                return;
+                VT_DEBUG_PRINTF("%s:%zu: Failed to open a file <%s>!\n", file, line, logger_filename);
+                fp = stderr;
             }
 
             // logging data
-- 
2.43.0


From b62b5ba4925dc5ca3302f12297ce8e15ed0ac30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 32/41] fix: stderr is closed when the debug output file cannot
 be opened

---
 src/vita/util/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/debug.c b/src/vita/util/debug.c
index 2941e71..3f6232c 100644
--- a/src/vita/util/debug.c
+++ b/src/vita/util/debug.c
@@ -34,7 +34,7 @@ void vt_debug_assert(
                 fprintf(fp, "\n");
 
                 // close the file, if needed
-                if (vt_debug_output_filename != NULL) { fclose(fp); }
+                if (fp != stderr) { fclose(fp); }
             }
         }
         va_end(args);
@@ -65,7 +65,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
             vfprintf(fp, zfmt, args);
 
             // close the file, if needed
-            if (vt_debug_output_filename != NULL) { fclose(fp); }
+            if (fp != stderr) { fclose(fp); }
         }
     }
     va_end(args);
-- 
2.43.0


From b69182a89117c15c0da63eddd66b10ae9038fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 33/41] fix: the automatic tolerance of vt_math_is_close is 1
 instead of epsilon

---
 src/vita/math/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 9d04a21..590c343 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -93,7 +93,7 @@ float vt_math_random_f32_normal(const float mu, const float std) {
 }
 
 bool vt_math_is_close(const float lhs, const float rhs, const float rtol) {
-    return fabs(lhs - rhs) < fabs(rtol);
+    return fabs(lhs - rhs) < (rtol < 0 ? __FLT_EPSILON__ : rtol);
 }
 
 int64_t vt_math_gcd(const int64_t a, const int64_t b) {
-- 
2.43.0


From 427127f4546b3d298c6ff87cdda488205b6b4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 34/41] fix: gcd and lcm of zero crash with a division by zero

---
 src/vita/math/math.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 590c343..0362bda 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -102,16 +102,16 @@ int64_t vt_math_gcd(const int64_t a, const int64_t b) {
     high_val = a >= b ? a : b;
 
     // find gcd
-    do {
+    while (low_val != 0) {
         rem = high_val % low_val;
         high_val = low_val;
         low_val = rem;
-    } while (rem != 0);
+    }
 
     return high_val;
 }
 
 int64_t vt_math_lcm(int64_t a, int64_t b) {
-    return a / vt_math_gcd(a, b) * b;
+    return (a == 0 || b == 0) ? 0 : a / vt_math_gcd(a, b) * b;
 }
 
-- 
2.43.0


From 199258d0aadc88811f6eb9a28e3e96f95a6a8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:14 +0000
Subject: [PATCH 35/41] fix: sockets that fail to start up are never closed

---
 src/vita/network/sockets.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index a203c27..199ac57 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -44,6 +44,7 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     const int32_t opt = 1;
     if (setsockopt(sock_fd, SOL_SOCKET, SO_REUSEADDR, (char*)&opt, sizeof(int)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to set socket options!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_OPTIONS;
     }
 
@@ -56,12 +57,14 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     // forcefully bind the server socket address
     if (bind(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to bind the socket!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_BIND;
     }
 
     // listen
     if (type == VT_SOCKET_TYPE_TCP && listen(sock_fd , backlog) < 0) {
         VT_DEBUG_PRINTF("%s: Error listening for connections!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_LISTEN;
     }
 
@@ -85,6 +88,7 @@ vt_socket_t vt_socket_startup_client(const enum VitaSocketType type, const struc
     // connect to remote server
     if (connect(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to connect to server!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_CONNECT;
     }
 
-- 
2.43.0


From aed4d29e682001b2b7337c276edb045ba82eb2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:09 +0000
Subject: [PATCH 36/41] fix: freeing a directory listing skips the entries
 before its cursor

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 209062d..1fb88e5 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -220,6 +220,7 @@ void vt_path_dir_free(vt_plist_t *p) {
     // check if list is not empty
     if (vt_plist_len(p)) {
         vt_str_t *item = NULL;
+        vt_plist_slide_reset(p);
         while((item = vt_plist_slide_front(p)) != NULL) {
             vt_str_destroy(item);
         }
-- 
2.43.0


From b06706c53ef6ca4687b1844b5523b4aefa8ffbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:58 +0000
Subject: [PATCH 37/41] fix: a formatted write whose text cannot be produced is
 reported as success

---
 src/vita/system/fileio.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index 46fcda4..bd06b6b 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -214,11 +214,11 @@ bool vt_file_writef(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    const int chars_written = vfprintf(fp, fmt, args);
     va_end(args);
     
     // close file
-    const bool write_failed = ferror(fp) != 0;
+    const bool write_failed = chars_written < 0 || ferror(fp) != 0;
     if (fclose(fp) != 0 || write_failed) {
         VT_DEBUG_PRINTF("%s: Failed to write to <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), filename);
         return false;
@@ -242,14 +242,14 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    const int chars_written = vfprintf(fp, fmt, args);
     va_end(args);
 
     // add a new line
     fprintf(fp, "\n");
     
     // close file
-    const bool write_failed = ferror(fp) != 0;
+    const bool write_failed = chars_written < 0 || ferror(fp) != 0;
     if (fclose(fp) != 0 || write_failed) {
         VT_DEBUG_PRINTF("%s: Failed to write to <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), filename);
         return false;
@@ -273,7 +273,7 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    const int chars_written = vfprintf(fp, fmt, args);
     va_end(args);
 
     // add a new line
@@ -282,7 +282,7 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     }
     
     // close file
-    const bool write_failed = ferror(fp) != 0;
+    const bool write_failed = chars_written < 0 || ferror(fp) != 0;
     if (fclose(fp) != 0 || write_failed) {
         VT_DEBUG_PRINTF("%s: Failed to write to <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), filename);
         return false;
-- 
2.43.0


From 331984ef8f27e8f6611a74b6bef9990f1a3f7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:23 +0000
Subject: [PATCH 38/41] fix: write years below 1000 with four digits

strftime's %Y does not pad with zeros, so the text of a date before the
year 1000 did not have the documented YYYY form and could not be read back.
---
 src/vita/time/datetime.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 6a7b119..bbe1be0 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -70,21 +70,21 @@ void vt_datetime_to_text(const struct VitaDateTime vdt, char *timebuf, const siz
     // check for invalid input
     VT_DEBUG_ASSERT(timebuf != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(len >= VT_DATETIME_BUFFER_SIZE, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    vt_datetime_to_text_fmt(vdt, timebuf, len, "%Y-%m-%d %H:%M:%S");
+    vt_datetime_to_text_fmt(vdt, timebuf, len, "%04d-%02d-%02d %02d:%02d:%02d");
 }
 
 void vt_datetime_to_text_iso(const struct VitaDateTime vdt, char *timebuf, const size_t len) {
     // check for invalid input
     VT_DEBUG_ASSERT(timebuf != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(len >= VT_DATETIME_BUFFER_SIZE, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    vt_datetime_to_text_fmt(vdt, timebuf, len, "%Y%m%dT%H%M%S");
+    vt_datetime_to_text_fmt(vdt, timebuf, len, "%04d%02d%02dT%02d%02d%02d");
 }
 
 void vt_datetime_to_text_iso_ext(const struct VitaDateTime vdt, char *timebuf, const size_t len) {
     // check for invalid input
     VT_DEBUG_ASSERT(timebuf != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(len >= VT_DATETIME_BUFFER_SIZE, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    vt_datetime_to_text_fmt(vdt, timebuf, len, "%Y-%m-%dT%H:%M:%S");
+    vt_datetime_to_text_fmt(vdt, timebuf, len, "%04d-%02d-%02dT%02d:%02d:%02d");
 }
 
 void vt_datetime_to_text_pretty(const struct VitaDateTime vdt, char *timebuf, const size_t len) {
@@ -355,7 +355,10 @@ static void vt_datetime_to_text_fmt(const struct VitaDateTime vdt, char *timebuf
 
     // get time
     const struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    timebuf[strftime(timebuf, len, fmt, &stm)] = '\0';
+    snprintf(
+        timebuf, len, fmt, // strftime does not pad years below 1000
+        stm.tm_year + VT_DATETIME_MIN_YEAR_RANGE, stm.tm_mon + 1, stm.tm_mday, stm.tm_hour, stm.tm_min, stm.tm_sec
+    );
 }
 
 /** Reads timestamp text
-- 
2.43.0


From c6ef1dfad2990b88cb5a2fe24c70957a24db1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:34 +0000
Subject: [PATCH 39/41] fix: an unreadable subdirectory no longer cuts a
 recursive listing short

The listing stopped at the first subdirectory that could not be opened and
returned what it had so far as a success: every later entry was missing.
---
 src/vita/system/path.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 1fb88e5..c8687c3 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -188,9 +188,9 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, VT_PATH_SEPARATOR);
         vt_str_append(st, dirtree->d_name);
 
-        // check if current path is a directory; if false, then break
-        if (!vt_path_is_symlink(vt_str_z(st)) && vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
-            break;
+        // check if current path is a directory (one that cannot be read must not hide the entries after it)
+        if (!vt_path_is_symlink(vt_str_z(st)) && vt_path_is_dir(vt_str_z(st))) {
+            vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles);
         }
 
         // save directory name
-- 
2.43.0


From 5279d28b1f61616237a97fab0aa0ac5919e905d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:41 +0000
Subject: [PATCH 40/41] fix: the pretty text of a year below 1000 ends with a
 newline

---
 src/vita/time/datetime.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index bbe1be0..f20bafc 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -102,12 +102,8 @@ void vt_datetime_to_text_pretty(const struct VitaDateTime vdt, char *timebuf, co
     }
     timebuf[len-1] = '\0';
     
-    // remove '\n' that's appended at the end
-    if (timebuf[VT_DATETIME_BUFFER_SIZE-1] == '\n') {
-        timebuf[VT_DATETIME_BUFFER_SIZE-1] = '\0';
-    } else {
-        timebuf[VT_DATETIME_BUFFER_SIZE-2] = '\0'; 
-    }
+    // remove '\n' that's appended at the end (its position depends on the number of digits in the year)
+    timebuf[strcspn(timebuf, "\n")] = '\0';
 }
 
 struct VitaDateTime vt_datetime_from_text(const char *timebuf) {
-- 
2.43.0


From f57d63433098af9d284ecd223d69aee8e2e6e576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:19 +0000
Subject: [PATCH 41/41] fix: making parents of a path as long as the system
 takes failed

The trailing separator added to the last level made a path of PATH_MAX - 1
bytes too long.
---
 src/vita/system/path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index c8687c3..54adf95 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -351,9 +351,11 @@ bool vt_path_mkdir_parents(const char *const z) {
         // get the first directory in the directory tree that we need to make
         vt_str_t *sdir = (vt_str_t*)(vt_plist_get(dir_list, i));
         
-        // append it to the full path
+        // append it to the full path (the path given must not become longer than it is)
         vt_str_append(sfull, vt_str_z(sdir));
-        vt_str_append(sfull, VT_PATH_SEPARATOR);
+        if (i + 1 < dirLen || z[strlen(z) - 1] == VT_PATH_SEPARATOR[0]) {
+            vt_str_append(sfull, VT_PATH_SEPARATOR);
+        }
         
         // make that directory
         if (!vt_path_mkdir(vt_str_z(sfull))) {
-- 
2.43.0

