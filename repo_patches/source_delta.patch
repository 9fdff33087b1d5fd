From 842282af9ea27a98db12a1acad3ce404e2339b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 01/19] fix: keep the hold on a shared container until its
 private copy is made

shared_container_extract_copy gave up its reference before cloning the
payload; another thread dropping the last remaining reference in between
freed the payload that was about to be cloned.
---
 src/containers/containers.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/containers/containers.c b/src/containers/containers.c
index eb5a346..97e55a9 100644
--- a/src/containers/containers.c
+++ b/src/containers/containers.c
@@ -229,12 +229,16 @@ container_t *shared_container_extract_copy(shared_container_t *sc,
     assert(sc->typecode != SHARED_CONTAINER_TYPE);
     *typecode = sc->typecode;
     container_t *answer;
-    if (croaring_refcount_dec(&sc->counter)) {
+    // Our reference may only be given up once the payload is no longer needed:
+    // as soon as it is, another holder may free or modify the payload.
+    if (croaring_refcount_get(&sc->counter) == 1 &&
+        croaring_refcount_dec(&sc->counter)) {
         answer = sc->container;
         sc->container = NULL;  // paranoid
         roaring_free(sc);
     } else {
         answer = container_clone(sc->container, *typecode);
+        shared_container_free(sc);
     }
     assert(*typecode != SHARED_CONTAINER_TYPE);
     return answer;
-- 
2.43.0


From e1e88de77a442274f34ace9a8d8f4b0e5445b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 02/19] fix: do not rewrite the recorded kind of shared
 containers when reading a range

roaring_bitmap_range_uint32_array unwrapped shared containers in place of a
local copy of the typecode, so a const bitmap ended up recording a plain kind
for a slot that still holds the shared wrapper.
---
 src/roaring_array.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index e3bc6ce..6c5e46f 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -447,9 +447,10 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     size_t cur_len = 0;
 
     for (int i = 0; i < ra->size; ++i) {
+        uint8_t type = ra->typecodes[i];
         const container_t *c =
-            container_unwrap_shared(ra->containers[i], &ra->typecodes[i]);
-        switch (ra->typecodes[i]) {
+            container_unwrap_shared(ra->containers[i], &type);
+        switch (type) {
             case BITSET_CONTAINER_TYPE:
                 t_limit = (const_CAST_bitset(c))->cardinality;
                 break;
@@ -487,20 +488,20 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
                 roaring_free(t_ans);
                 t_ans = append_ans;
             }
-            switch (ra->typecodes[i]) {
+            switch (type) {
                 case BITSET_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_bitset(c),
-                                              ra->typecodes[i],
+                                              type,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case ARRAY_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_array(c),
-                                              ra->typecodes[i],
+                                              type,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case RUN_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_run(c),
-                                              ra->typecodes[i],
+                                              type,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
             }
-- 
2.43.0


From c5e91bd4a555d608a6b909c670ab4f87399512b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 03/19] fix: release the range buffer through the configured
 allocator

---
 src/roaring_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 6c5e46f..9e3a554 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -512,7 +512,7 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     }
     if (t_ans != NULL) {
         memcpy(ans, t_ans + first_skip, limit * sizeof(uint32_t));
-        free(t_ans);
+        roaring_free(t_ans);
     }
     return true;
 }
-- 
2.43.0


From 0f8cce54cf20166bfb98da23ed3b04b433e673f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 04/19] fix: obtain a private copy before removing many values

roaring_bitmap_remove_many handed shared containers to container_remove, which
took the private copy itself and gave up the hold, and then released the shared
wrapper a second time.
---
 src/roaring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 2363afa..d81920b 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -675,6 +675,8 @@ void roaring_bitmap_remove_many(roaring_bitmap_t *r, size_t n_args,
         if (pos >= 0) {
             uint8_t new_typecode;
             container_t *new_container;
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)pos);
             new_container = container_remove(
                 r->high_low_container.containers[pos], vals[i] & 0xffff,
                 r->high_low_container.typecodes[pos], &new_typecode);
-- 
2.43.0


From e725ec102571925cda28f339acc485df3b607f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 05/19] fix: freeze copy-on-write bitmaps by their payloads

The frozen size and serialization functions had no case for shared containers:
they reached roaring_unreachable and would have written the shared kind.
---
 src/roaring.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index d81920b..2a94476 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2947,19 +2947,21 @@ size_t roaring_bitmap_frozen_size_in_bytes(const roaring_bitmap_t *rb) {
     const roaring_array_t *ra = &rb->high_low_container;
     size_t num_bytes = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t type = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &type);
+        switch (type) {
             case BITSET_CONTAINER_TYPE: {
                 num_bytes += BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 num_bytes += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 num_bytes += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -2990,20 +2992,22 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
     size_t run_zone_size = 0;
     size_t array_zone_size = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t type = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &type);
+        switch (type) {
             case BITSET_CONTAINER_TYPE: {
                 bitset_zone_size +=
                     BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 run_zone_size += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 array_zone_size += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3022,10 +3026,12 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
 
     for (int32_t i = 0; i < ra->size; i++) {
         uint16_t count;
-        switch (ra->typecodes[i]) {
+        uint8_t type = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &type);
+        switch (type) {
             case BITSET_CONTAINER_TYPE: {
-                const bitset_container_t *bc =
-                    const_CAST_bitset(ra->containers[i]);
+                const bitset_container_t *bc = const_CAST_bitset(c);
                 memcpy(bitset_zone, bc->words,
                        BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t));
                 bitset_zone += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -3039,7 +3045,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 size_t num_bytes = rc->n_runs * sizeof(rle16_t);
                 memcpy(run_zone, rc->runs, num_bytes);
                 run_zone += rc->n_runs;
@@ -3047,8 +3053,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 size_t num_bytes = ac->cardinality * sizeof(uint16_t);
                 memcpy(array_zone, ac->array, num_bytes);
                 array_zone += ac->cardinality;
@@ -3059,9 +3064,9 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 roaring_unreachable;
         }
         memcpy(&count_zone[i], &count, 2);
+        typecode_zone[i] = type;
     }
     memcpy(key_zone, ra->keys, ra->size * sizeof(uint16_t));
-    memcpy(typecode_zone, ra->typecodes, ra->size * sizeof(uint8_t));
     uint32_t header = ((uint32_t)ra->size << 15) | FROZEN_COOKIE;
     memcpy(header_zone, &header, 4);
 }
-- 
2.43.0


From fcae608ada1ce5d7ab97491952fc5a75f735e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 06/19] fix: clamp 64-bit range bounds to the 32-bit universe

Bounds beyond 2^32 were truncated to 32 bits by the range functions, so that
for instance removing [5, 2^32 + 3) removed nothing and flipping it touched
[5, 2] wrapped around; from_range with a large step never ended when the range
reached 2^32.
---
 include/roaring/roaring.h | 10 ++++++++--
 src/roaring.c             | 26 +++++++++++++++++++-------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/roaring/roaring.h b/include/roaring/roaring.h
index a45b1da..76d9ac0 100644
--- a/include/roaring/roaring.h
+++ b/include/roaring/roaring.h
@@ -401,7 +401,10 @@ void roaring_bitmap_add_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_add_range(roaring_bitmap_t *r, uint64_t min,
                                      uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
+    if (max <= min) {
         return;
     }
     roaring_bitmap_add_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
@@ -423,7 +426,10 @@ void roaring_bitmap_remove_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_remove_range(roaring_bitmap_t *r, uint64_t min,
                                         uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
+    if (max <= min) {
         return;
     }
     roaring_bitmap_remove_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
diff --git a/src/roaring.c b/src/roaring.c
index 2a94476..d36ec68 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -224,8 +224,8 @@ roaring_bitmap_t *roaring_bitmap_from_range(uint64_t min, uint64_t max,
     if (max <= min) return NULL;
     roaring_bitmap_t *answer = roaring_bitmap_create();
     if (step >= (1 << 16)) {
-        for (uint32_t value = (uint32_t)min; value < max; value += step) {
-            roaring_bitmap_add(answer, value);
+        for (uint64_t value = min; value < max; value += step) {
+            roaring_bitmap_add(answer, (uint32_t)value);
         }
         return answer;
     }
@@ -1333,7 +1333,10 @@ uint64_t roaring_bitmap_get_cardinality(const roaring_bitmap_t *r) {
 uint64_t roaring_bitmap_range_cardinality(const roaring_bitmap_t *r,
                                           uint64_t range_start,
                                           uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
+    if (range_start >= range_end) {
         return 0;
     }
     return roaring_bitmap_range_cardinality_closed(r, (uint32_t)range_start,
@@ -2015,7 +2018,10 @@ static void inplace_fully_flip_container(roaring_array_t *x1_arr, uint16_t hb) {
 roaring_bitmap_t *roaring_bitmap_flip(const roaring_bitmap_t *x1,
                                       uint64_t range_start,
                                       uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
+    if (range_start >= range_end) {
         return roaring_bitmap_copy(x1);
     }
     return roaring_bitmap_flip_closed(x1, (uint32_t)range_start,
@@ -2076,7 +2082,10 @@ roaring_bitmap_t *roaring_bitmap_flip_closed(const roaring_bitmap_t *x1,
 
 void roaring_bitmap_flip_inplace(roaring_bitmap_t *x1, uint64_t range_start,
                                  uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
+    if (range_start >= range_end) {
         return;
     }
     roaring_bitmap_flip_inplace_closed(x1, (uint32_t)range_start,
@@ -2750,7 +2759,7 @@ bool roaring_bitmap_intersect(const roaring_bitmap_t *x1,
 
 bool roaring_bitmap_intersect_with_range(const roaring_bitmap_t *bm, uint64_t x,
                                          uint64_t y) {
-    if (x >= y) {
+    if (x >= y || x > UINT32_MAX) {
         // Empty range.
         return false;
     }
@@ -2851,7 +2860,10 @@ bool roaring_bitmap_contains(const roaring_bitmap_t *r, uint32_t val) {
  */
 bool roaring_bitmap_contains_range(const roaring_bitmap_t *r,
                                    uint64_t range_start, uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
+    if (range_start >= range_end) {
         return true;
     }
     return roaring_bitmap_contains_range_closed(r, (uint32_t)range_start,
-- 
2.43.0


From 1d2a2be20fd62c5b8027d03b191f0f3b9d18525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 07/19] fix: rank_many answers for values beyond the last
 container

---
 src/roaring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index d36ec68..7be91af 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2639,6 +2639,10 @@ void roaring_bitmap_rank_many(const roaring_bitmap_t *bm, const uint32_t *begin,
             iter++;
         }
     }
+    // values beyond the last container
+    for (; iter != end; iter++) {
+        *(ans++) = size;
+    }
 }
 
 /**
-- 
2.43.0


From 743306e3917fd83e809d1f810ca20c54a52803a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 08/19] fix: report the last release in the non-atomic
 reference count

---
 include/roaring/portability.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/roaring/portability.h b/include/roaring/portability.h
index 03e741b..2d5da3b 100644
--- a/include/roaring/portability.h
+++ b/include/roaring/portability.h
@@ -559,7 +559,7 @@ static inline void croaring_refcount_inc(croaring_refcount_t *val) {
 static inline bool croaring_refcount_dec(croaring_refcount_t *val) {
     assert(*val > 0);
     *val -= 1;
-    return val == 0;
+    return *val == 0;
 }
 
 static inline uint32_t croaring_refcount_get(const croaring_refcount_t *val) {
-- 
2.43.0


From 1c9f0469a3b40d2954fc6c84511ec14a9463fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 09/19] fix: do not reallocate shared containers when shrinking
 a bitmap

---
 src/roaring.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/roaring.c b/src/roaring.c
index 7be91af..b2e645b 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1436,7 +1436,10 @@ size_t roaring_bitmap_shrink_to_fit(roaring_bitmap_t *r) {
         uint8_t type_original;
         container_t *c = ra_get_container_at_index(&r->high_low_container,
                                                    (uint16_t)i, &type_original);
-        answer += container_shrink_to_fit(c, type_original);
+        // storage shared with other bitmaps is not ours to reallocate
+        if (type_original != SHARED_CONTAINER_TYPE) {
+            answer += container_shrink_to_fit(c, type_original);
+        }
     }
     answer += ra_shrink_to_fit(&r->high_low_container);
     return answer;
-- 
2.43.0


From cb0022c33ca2da6a93b8da4f1a39b4dcbeca3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 10/19] fix: release the frozen view at the start of its
 allocation

---
 src/roaring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring.c b/src/roaring.c
index b2e645b..dbc73b5 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -3210,7 +3210,7 @@ const roaring_bitmap_t *roaring_bitmap_frozen_view(const char *buf,
                 break;
             }
             default:
-                roaring_free(arena);
+                roaring_free(rb);
                 return NULL;
         }
     }
-- 
2.43.0


From a8a5e23f618de8748216c5e47fa847c9dd723ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 11/19] fix: keep a bitmap valid when overwriting it with
 itself or when that fails

Overwriting a bitmap with itself (as C++ self-assignment does) released its
containers and then cloned the released ones; when growing the directory failed
the released containers stayed listed.
---
 src/roaring_array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 9e3a554..a27688b 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -125,9 +125,10 @@ void ra_init(roaring_array_t *new_ra) {
 
 bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
                   bool copy_on_write) {
+    if (source == dest) return true;
     ra_clear_containers(dest);  // we are going to overwrite them
+    dest->size = 0;             // none left, also if we fail below
     if (source->size == 0) {    // Note: can't call memcpy(NULL), even w/size
-        dest->size = 0;         // <--- This is important.
         return true;            // output was just cleared, so they match
     }
     if (dest->allocation_size < source->size) {
-- 
2.43.0


From 69af6d0d5b25fb0f5a4546fd24c0d17818ebd603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 12/19] fix: forget the leaf in the bulk context when its last
 value is removed

---
 src/roaring64.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index de1009e..b22fde9 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -755,12 +755,17 @@ void roaring64_bitmap_remove_bulk(roaring64_bitmap_t *r,
             bool erased = art_erase(art, high48, (art_val_t *)&leaf);
             assert(erased);
             remove_container(r, leaf);
+            // The leaf is gone, so it can't be used for the next value.
+            context->leaf = NULL;
         }
     } else {
         // We're not positioned anywhere yet or the high bits of the key
         // differ.
         leaf_t *leaf = (leaf_t *)art_find(art, high48);
-        containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
+        if (containerptr_roaring64_bitmap_remove(r, high48, low16, leaf)) {
+            // The leaf is gone, so it can't be used for the next value.
+            leaf = NULL;
+        }
         context->leaf = leaf;
         memcpy(context->high_bytes, high48, ART_KEY_BYTES);
     }
-- 
2.43.0


From 42983bb30668ef41894e29bc68bf79830bcb18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 13/19] fix: fail cleanly when a 64-bit frozen buffer is
 truncated

---
 src/roaring64.c | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index b22fde9..48f11cd 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2420,6 +2420,18 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
     }
 }
 
+// Frees a view that could not be completed. Its ART may be incomplete, too.
+static void discard_frozen_view(roaring64_bitmap_t *r) {
+    if (r->containers != NULL) {
+        for (uint64_t i = 0; i < r->capacity; ++i) {
+            // Only the container itself, not the buffer-backed contents within.
+            roaring_free(r->containers[i]);
+        }
+    }
+    roaring_free(r->containers);
+    roaring_free(r);
+}
+
 roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
                                                  size_t maxbytes) {
     if (buf == NULL) {
@@ -2433,7 +2445,7 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
 
     // Flags.
     if (maxbytes < sizeof(r->flags)) {
-        roaring64_bitmap_free(r);
+        discard_frozen_view(r);
         return NULL;
     }
     memcpy(&r->flags, buf, sizeof(r->flags));
@@ -2443,21 +2455,21 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
 
     // Container count.
     if (maxbytes < sizeof(r->capacity)) {
-        roaring64_bitmap_free(r);
+        discard_frozen_view(r);
         return NULL;
     }
     memcpy(&r->capacity, buf, sizeof(r->capacity));
     buf += sizeof(r->capacity);
     maxbytes -= sizeof(r->capacity);
 
-    r->containers =
-        (container_t *)roaring_malloc(r->capacity * sizeof(container_t *));
-
     // Container element counts.
-    if (maxbytes < r->capacity * sizeof(uint16_t)) {
-        roaring64_bitmap_free(r);
+    if (maxbytes / sizeof(uint16_t) < r->capacity) {
+        discard_frozen_view(r);
         return NULL;
     }
+    // Zeroed, so that an incomplete view can be discarded.
+    r->containers =
+        (container_t **)roaring_calloc(r->capacity, sizeof(container_t *));
     const char *elem_counts = buf;
     buf += r->capacity * sizeof(uint16_t);
     maxbytes -= r->capacity * sizeof(uint16_t);
@@ -2465,7 +2477,7 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     // Total container sizes.
     uint64_t total_sizes[4];
     if (maxbytes < sizeof(uint64_t) * 3) {
-        roaring64_bitmap_free(r);
+        discard_frozen_view(r);
         return NULL;
     }
     memcpy(&(total_sizes[BITSET_CONTAINER_TYPE]), buf, sizeof(uint64_t));
@@ -2479,10 +2491,16 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     maxbytes -= sizeof(uint64_t);
 
     // ART (8 byte aligned).
+    const char *before_art = buf;
     buf = CROARING_ALIGN_BUF(buf, 8);
+    if (maxbytes < (size_t)(buf - before_art)) {
+        discard_frozen_view(r);
+        return NULL;
+    }
+    maxbytes -= buf - before_art;
     size_t art_size = art_frozen_view(buf, maxbytes, &r->art);
     if (art_size == 0) {
-        roaring64_bitmap_free(r);
+        discard_frozen_view(r);
         return NULL;
     }
     buf += art_size;
@@ -2500,7 +2518,7 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     const uint16_t *arrays = (const uint16_t *)buf;
     buf += total_sizes[ARRAY_CONTAINER_TYPE];
     if (maxbytes < (uint64_t)(buf - before_containers)) {
-        roaring64_bitmap_free(r);
+        discard_frozen_view(r);
         return NULL;
     }
     maxbytes -= buf - before_containers;
@@ -2518,6 +2536,11 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
 
         // The container index is unrelated to the iteration order.
         uint64_t index = get_index(leaf);
+        if (i >= r->capacity || index >= r->capacity ||
+            r->containers[index] != NULL) {
+            discard_frozen_view(r);
+            return NULL;
+        }
         r->containers[index] = container_frozen_view(typecode, elem_count,
                                                      &bitsets, &arrays, &runs);
 
-- 
2.43.0


From 892d8d30d181a35944f9c2c2d32da0f302fc16b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 14/19] fix: report failed allocations when copying, opening
 and reading bitmaps

---
 src/roaring.c       |  3 +++
 src/roaring64.c     | 38 ++++++++++++++++++++++++++++++++++++++
 src/roaring_array.c | 24 ++++++++++++++----------
 3 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index dbc73b5..61766d9 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1760,6 +1760,9 @@ roaring_uint32_iterator_t *roaring_uint32_iterator_copy(
     roaring_uint32_iterator_t *newit =
         (roaring_uint32_iterator_t *)roaring_malloc(
             sizeof(roaring_uint32_iterator_t));
+    if (newit == NULL) {
+        return NULL;
+    }
     memcpy(newit, it, sizeof(roaring_uint32_iterator_t));
     return newit;
 }
diff --git a/src/roaring64.c b/src/roaring64.c
index 48f11cd..2e0f32e 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -225,6 +225,9 @@ static inline roaring64_iterator_t *roaring64_iterator_init_at(
 roaring64_bitmap_t *roaring64_bitmap_create(void) {
     roaring64_bitmap_t *r =
         (roaring64_bitmap_t *)roaring_malloc(sizeof(roaring64_bitmap_t));
+    if (r == NULL) {
+        return NULL;
+    }
     art_init_cleared(&r->art);
     r->flags = 0;
     r->capacity = 0;
@@ -258,6 +261,9 @@ void roaring64_bitmap_free(roaring64_bitmap_t *r) {
 
 roaring64_bitmap_t *roaring64_bitmap_copy(const roaring64_bitmap_t *r) {
     roaring64_bitmap_t *result = roaring64_bitmap_create();
+    if (result == NULL) {
+        return NULL;
+    }
 
     art_iterator_t it = art_init_iterator((art_t *)&r->art, /*first=*/true);
     while (it.value != NULL) {
@@ -2117,6 +2123,9 @@ roaring64_bitmap_t *roaring64_bitmap_portable_deserialize_safe(
     }
 
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
     // Iterate through buckets ordered by increasing keys.
     int64_t previous_high32 = -1;
     for (uint64_t bucket = 0; bucket < buckets; ++bucket) {
@@ -2389,6 +2398,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case BITSET_CONTAINER_TYPE: {
             bitset_container_t *c = (bitset_container_t *)roaring_malloc(
                 sizeof(bitset_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->cardinality = elem_count;
             c->words = (uint64_t *)*bitsets;
             *bitsets += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -2397,6 +2409,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case ARRAY_CONTAINER_TYPE: {
             array_container_t *c =
                 (array_container_t *)roaring_malloc(sizeof(array_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->cardinality = elem_count;
             c->capacity = elem_count;
             c->array = (uint16_t *)*arrays;
@@ -2406,6 +2421,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case RUN_CONTAINER_TYPE: {
             run_container_t *c =
                 (run_container_t *)roaring_malloc(sizeof(run_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->n_runs = elem_count;
             c->capacity = elem_count;
             c->runs = (rle16_t *)*runs;
@@ -2442,6 +2460,9 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     }
 
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
 
     // Flags.
     if (maxbytes < sizeof(r->flags)) {
@@ -2470,6 +2491,10 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     // Zeroed, so that an incomplete view can be discarded.
     r->containers =
         (container_t **)roaring_calloc(r->capacity, sizeof(container_t *));
+    if (r->containers == NULL && r->capacity > 0) {
+        discard_frozen_view(r);
+        return NULL;
+    }
     const char *elem_counts = buf;
     buf += r->capacity * sizeof(uint16_t);
     maxbytes -= r->capacity * sizeof(uint16_t);
@@ -2543,6 +2568,10 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
         }
         r->containers[index] = container_frozen_view(typecode, elem_count,
                                                      &bitsets, &arrays, &runs);
+        if (r->containers[index] == NULL) {
+            discard_frozen_view(r);
+            return NULL;
+        }
 
         art_iterator_next(&it);
     }
@@ -2580,6 +2609,9 @@ void roaring64_bitmap_to_uint64_array(const roaring64_bitmap_t *r,
 roaring64_iterator_t *roaring64_iterator_create(const roaring64_bitmap_t *r) {
     roaring64_iterator_t *it =
         (roaring64_iterator_t *)roaring_malloc(sizeof(roaring64_iterator_t));
+    if (it == NULL) {
+        return NULL;
+    }
     return roaring64_iterator_init_at(r, it, /*first=*/true);
 }
 
@@ -2587,6 +2619,9 @@ roaring64_iterator_t *roaring64_iterator_create_last(
     const roaring64_bitmap_t *r) {
     roaring64_iterator_t *it =
         (roaring64_iterator_t *)roaring_malloc(sizeof(roaring64_iterator_t));
+    if (it == NULL) {
+        return NULL;
+    }
     return roaring64_iterator_init_at(r, it, /*first=*/false);
 }
 
@@ -2603,6 +2638,9 @@ void roaring64_iterator_reinit_last(const roaring64_bitmap_t *r,
 roaring64_iterator_t *roaring64_iterator_copy(const roaring64_iterator_t *it) {
     roaring64_iterator_t *new_it =
         (roaring64_iterator_t *)roaring_malloc(sizeof(roaring64_iterator_t));
+    if (new_it == NULL) {
+        return NULL;
+    }
     memcpy(new_it, it, sizeof(*it));
     return new_it;
 }
diff --git a/src/roaring_array.c b/src/roaring_array.c
index a27688b..ed62761 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -136,20 +136,24 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
             return false;
         }
     }
-    dest->size = source->size;
-    memcpy(dest->keys, source->keys, dest->size * sizeof(uint16_t));
+    memcpy(dest->keys, source->keys, source->size * sizeof(uint16_t));
     // we go through the containers, turning them into shared containers...
     if (copy_on_write) {
-        for (int32_t i = 0; i < dest->size; ++i) {
-            source->containers[i] = get_copy_of_container(
+        for (int32_t i = 0; i < source->size; ++i) {
+            container_t *shared = get_copy_of_container(
                 source->containers[i], &source->typecodes[i], copy_on_write);
+            if (shared == NULL) {
+                ra_clear(dest);  // gives up what is already shared
+                return false;
+            }
+            // ...and do a shallow copy to the other bitmap
+            source->containers[i] = shared;
+            dest->containers[i] = shared;
+            dest->typecodes[i] = source->typecodes[i];
+            dest->size++;
         }
-        // we do a shallow copy to the other bitmap
-        memcpy(dest->containers, source->containers,
-               dest->size * sizeof(container_t *));
-        memcpy(dest->typecodes, source->typecodes,
-               dest->size * sizeof(uint8_t));
     } else {
+        dest->size = source->size;
         memcpy(dest->typecodes, source->typecodes,
                dest->size * sizeof(uint8_t));
         for (int32_t i = 0; i < dest->size; i++) {
@@ -844,7 +848,7 @@ bool ra_portable_deserialize(roaring_array_t *answer, const char *buf,
             }
             // it is now safe to read
 
-            run_container_t *c = run_container_create();
+            run_container_t *c = run_container_create_given_capacity(n_runs);
             if (c == NULL) {  // memory allocation failure
                 // Failed to allocate memory for a run container.
                 ra_clear(answer);  // we need to clear the containers already
-- 
2.43.0


From 36f07d81be00322e9f8da30de42150cd01ee06ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:25 +0000
Subject: [PATCH 15/19] fix: lazy in-place union of a bitmap with itself read
 freed containers

roaring_bitmap_lazy_or_inplace(x, x, true) converts a container to a bitset and
frees the original before it reads the same slot again as second operand.
---
 src/roaring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roaring.c b/src/roaring.c
index 61766d9..3651547 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2345,7 +2345,8 @@ void roaring_bitmap_lazy_or_inplace(roaring_bitmap_t *x1,
     int length1 = x1->high_low_container.size;
     const int length2 = x2->high_low_container.size;
 
-    if (0 == length2) return;
+    // the containers of x1 are replaced while those of x2 are read
+    if (0 == length2 || x1 == x2) return;
 
     if (0 == length1) {
         roaring_bitmap_overwrite(x1, x2);
-- 
2.43.0


From 20da35bdce6f46b126f63ec916d7eb694ec4057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 16/19] fix: report a failed container copy in
 roaring64_bitmap_copy

The copy kept the missing container as a null entry.
---
 src/roaring64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 2e0f32e..8ce7350 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -271,6 +271,10 @@ roaring64_bitmap_t *roaring64_bitmap_copy(const roaring64_bitmap_t *r) {
         uint8_t result_typecode = get_typecode(leaf);
         container_t *result_container = get_copy_of_container(
             get_container(r, leaf), &result_typecode, /*copy_on_write=*/false);
+        if (result_container == NULL) {
+            roaring64_bitmap_free(result);
+            return NULL;
+        }
         leaf_t result_leaf =
             add_container(result, result_container, result_typecode);
         art_insert(&result->art, it.key, (art_val_t)result_leaf);
-- 
2.43.0


From a509e4a34bc8bc6d6f0e2c5c936cfa2514dc4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 17/19] fix: Roaring::end() returned an iterator over whichever
 bitmap called it first

---
 cpp/roaring.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 8a3b8b6..5273bb6 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -911,7 +911,7 @@ class Roaring {
      * A bogus iterator that can be used together with begin()
      * for constructions such as for (auto i = b.begin(); * i!=b.end(); ++i) {}
      */
-    const_iterator &end() const;
+    const_iterator end() const;
 
     roaring_bitmap_t roaring;
 };
@@ -1021,9 +1021,8 @@ inline RoaringSetBitBiDirectionalIterator Roaring::begin() const {
     return RoaringSetBitBiDirectionalIterator(*this);
 }
 
-inline RoaringSetBitBiDirectionalIterator &Roaring::end() const {
-    static RoaringSetBitBiDirectionalIterator e(*this, true);
-    return e;
+inline RoaringSetBitBiDirectionalIterator Roaring::end() const {
+    return RoaringSetBitBiDirectionalIterator(*this, true);
 }
 
 }  // namespace roaring
-- 
2.43.0


From d21d0942c905ce81a029d955c2d2be919fa25366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 18/19] fix: Roaring64Map::readSafe advanced by the size of the
 bitmap as rewritten, not as read

---
 cpp/roaring64map.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 7de53cb..5d0c856 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1211,8 +1211,11 @@ class Roaring64Map {
             maxbytes -= sizeof(uint32_t);
             // read map value Roaring
             Roaring read_var = Roaring::readSafe(buf, maxbytes);
-            // forward buffer past the last Roaring Bitmap
-            size_t tz = read_var.getSizeInBytes(true);
+            // forward buffer past the last Roaring Bitmap: by the bytes it took
+            // in this buffer, which need not be the size it would have if it
+            // were written again
+            size_t tz =
+                api::roaring_bitmap_portable_deserialize_size(buf, maxbytes);
             buf += tz;
             maxbytes -= tz;
             result.emplaceOrInsert(key, std::move(read_var));
-- 
2.43.0


From dd97714275af82346ddf811f4ef33a245ddfedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 19/19] fix: roaring64_bitmap_move_from_roaring32 moved shared
 containers into a bitmap that never unwraps them

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 8ce7350..3742598 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -298,6 +298,8 @@ static void move_from_roaring32_offset(roaring64_bitmap_t *dst,
     for (uint32_t i = 0; i < r32_size; ++i) {
         uint16_t key = ra_get_key_at_index(&src->high_low_container, i);
         uint8_t typecode;
+        // 64-bit bitmaps never hold shared containers
+        ra_unshare_container_at_index(&src->high_low_container, (uint16_t)i);
         container_t *container = ra_get_container_at_index(
             &src->high_low_container, (uint16_t)i, &typecode);
 
-- 
2.43.0

