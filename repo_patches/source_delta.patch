From bc81099f4723aa751a70e2b18cc20fcadd206552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 01/27] fix: keep the vector capacity in sync when a
 reallocation fails

---
 src/Vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index f92c9de..08d47ea 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -111,9 +111,9 @@ static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
         }
     }
 
-    vector->capacity = capacity;
     ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
-        vector->element_size, vector->capacity));
+        vector->element_size, capacity));
+    vector->capacity = capacity;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From f6b817effaed9e979d16dc9bfb47b8ca18e2365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 02/27] fix: reject vector ranges whose index + count wraps
 around

---
 src/Vector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 08d47ea..137a607 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -576,7 +576,7 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (index + count > vector->size)
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -657,7 +657,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index + count > vector->size) || (index == vector->size))
+    if ((index >= vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -702,7 +702,7 @@ ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* elemen
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From eff7a9a34e42ecc03f1e7d4afa94dfe35f6fd331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 03/27] fix: restore the vector when an element constructor
 fails

---
 src/Vector.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 137a607..187d0f8 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -520,7 +520,14 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     *element = ZYCORE_VECTOR_OFFSET(vector, index);
     if (constructor)
     {
-        ZYAN_CHECK(constructor(*element));
+        const ZyanStatus status = constructor(*element);
+        if (!ZYAN_SUCCESS(status))
+        {
+            // Close the gap again, the elements behind `index` would be lost otherwise
+            ZYAN_MEMMOVE(*element, ZYCORE_VECTOR_OFFSET(vector, index + 1),
+                (vector->size - index) * vector->element_size);
+            return status;
+        }
     }
 
     ++vector->size;
-- 
2.43.0


From d1fd18a784fabe5c556be5aa03f34e7b973c0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 04/27] fix: do not destroy vector elements twice when
 shrinking fails

---
 src/Vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Vector.c b/src/Vector.c
index 187d0f8..c5ad907 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -773,6 +773,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         {
             vector->destructor(ZYCORE_VECTOR_OFFSET(vector, i));
         }
+        // The removed elements must not be destroyed again, if the reallocation below fails
+        vector->size = size;
     }
 
     if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity) ||
-- 
2.43.0


From 28d6dc9dfa59d0ff18865bd3d222a2e379ecd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 05/27] fix: refuse vector sizes that overflow the capacity
 computation

---
 src/Vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Vector.c b/src/Vector.c
index c5ad907..9c99c58 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -781,6 +781,10 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
+        if (size > (ZyanUSize)(-1) / vector->growth_factor)
+        {
+            return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+        }
         ZYAN_CHECK(ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor)));
     }
 
-- 
2.43.0


From aa0e75f970aa32ef47e0a9cfbccf95842b0f721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 06/27] fix: refuse default allocations whose byte size
 overflows

---
 src/Allocator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Allocator.c b/src/Allocator.c
index 5fadf64..9953ef1 100644
--- a/src/Allocator.c
+++ b/src/Allocator.c
@@ -47,6 +47,11 @@ static ZyanStatus ZyanAllocatorDefaultAllocate(ZyanAllocator* allocator, void**
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     *p = ZYAN_MALLOC(element_size * n);
     if (!*p)
     {
@@ -66,6 +71,11 @@ static ZyanStatus ZyanAllocatorDefaultReallocate(ZyanAllocator* allocator, void*
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     void* const x = ZYAN_REALLOC(*p, element_size * n);
     if (!x)
     {
-- 
2.43.0


From b42d363814d63430d153080a42269ae760017001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 07/27] fix: round the byte size of a bitset up

---
 src/Bitset.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index b1c733d..4883200 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -38,16 +38,6 @@
 /* Internal macros                                                                                */
 /* ============================================================================================== */
 
-/**
- * Computes the smallest integer value not less than `x`.
- *
- * @param   x   The value.
- *
- * @return  The smallest integer value not less than `x`.
- */
-#define ZYAN_BITSET_CEIL(x) \
-    (((x) == ((ZyanU32)(x))) ? (ZyanU32)(x) : ((ZyanU32)(x)) + 1)
-
 /**
  * Converts bits to bytes.
  *
@@ -56,7 +46,7 @@
  * @return  The amount of bytes needed to fit `x` bits.
  */
 #define ZYAN_BITSET_BITS_TO_BYTES(x) \
-    ZYAN_BITSET_CEIL((x) / 8)
+    (((x) / 8) + ((((x) % 8) != 0) ? 1 : 0))
 
 /**
  * Returns the offset of the given bit.
@@ -147,7 +137,7 @@ ZyanStatus ZyanBitsetInitEx(ZyanBitset* bitset, ZyanUSize count, ZyanAllocator*
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
 
     bitset->size = count;
     ZYAN_CHECK(ZyanVectorInitEx(&bitset->bits, sizeof(ZyanU8), bytes, ZYAN_NULL, allocator,
@@ -165,7 +155,7 @@ ZyanStatus ZyanBitsetInitBuffer(ZyanBitset* bitset, ZyanUSize count, void* buffe
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
     if (capacity < bytes)
     {
         return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
-- 
2.43.0


From e981e0fddb865b6a81b34813d3b060f0a187b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 08/27] fix: only look at bits inside the bitset in Count, All,
 Any and None

---
 src/Bitset.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 4883200..adf7697 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -58,6 +58,16 @@
 #define ZYAN_BITSET_BIT_OFFSET(index) \
     (7 - ((index) % 8))
 
+/**
+ * Returns the mask of the bits in use in the last byte of a bitset.
+ *
+ * @param   size    The size of the bitset in bits.
+ *
+ * @return  The mask of the bits in use in the last byte.
+ */
+#define ZYAN_BITSET_LAST_BYTE_MASK(size) \
+    ((ZyanU8)(0xFF << ((8 - ((size) % 8)) % 8)))
+
 /* ============================================================================================== */
 /* Internal functions                                                                             */
 /* ============================================================================================== */
@@ -513,6 +523,10 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
 
         ZyanU8 popcnt = *value;
+        if (i == (size - 1))
+        {
+            popcnt &= ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
+        }
         popcnt = (popcnt & 0x55) + ((popcnt >> 1) & 0x55);
         popcnt = (popcnt & 0x33) + ((popcnt >> 2) & 0x33);
         popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);
@@ -520,8 +534,6 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         *count += popcnt;
     }
 
-    *count = ZYAN_MIN(*count, bitset->size);
-
     return ZYAN_STATUS_SUCCESS;
 }
 
@@ -546,7 +558,7 @@ ZyanStatus ZyanBitsetAll(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != mask)
             {
                 return ZYAN_STATUS_FALSE;
@@ -578,7 +590,7 @@ ZyanStatus ZyanBitsetAny(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_TRUE;
@@ -610,7 +622,7 @@ ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_FALSE;
-- 
2.43.0


From b7de438b41b7e179a4e7a78127abb1c22684aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 09/27] fix: keep the bitset size in sync when Push, Pop or
 Clear fails

---
 src/Bitset.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index adf7697..4548476 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -411,11 +411,12 @@ ZyanStatus ZyanBitsetPush(ZyanBitset* bitset, ZyanBool value)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if ((bitset->size++ % 8) == 0)
+    if ((bitset->size % 8) == 0)
     {
         static const ZyanU8 zero = 0;
         ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero));
     }
+    ++bitset->size;
 
     return ZyanBitsetAssign(bitset, bitset->size - 1, value);
 }
@@ -427,6 +428,11 @@ ZyanStatus ZyanBitsetPop(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (bitset->size == 0)
+    {
+        return ZYAN_STATUS_OUT_OF_RANGE;
+    }
+
     if ((--bitset->size % 8) == 0)
     {
         return ZyanVectorPopBack(&bitset->bits);
@@ -442,8 +448,10 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    ZYAN_CHECK(ZyanVectorClear(&bitset->bits));
     bitset->size = 0;
-    return ZyanVectorClear(&bitset->bits);
+
+    return ZYAN_STATUS_SUCCESS;
 }
 
 /* ---------------------------------------------------------------------------------------------- */
-- 
2.43.0


From 5e037113bbb33aaead4dc3fd56b59e12f26cdcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 10/27] fix: reject a NULL bitset in Reserve and ShrinkToFit

---
 src/Bitset.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index 4548476..693d413 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -460,11 +460,21 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
 
 ZyanStatus ZyanBitsetReserve(ZyanBitset* bitset, ZyanUSize count)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorReserve(&bitset->bits, ZYAN_BITSET_BITS_TO_BYTES(count));
 }
 
 ZyanStatus ZyanBitsetShrinkToFit(ZyanBitset* bitset)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorShrinkToFit(&bitset->bits);
 }
 
-- 
2.43.0


From 094c98f0dbf6c1d10820f637275f7f5f19a2a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 11/27] fix: do not insert list items whose constructor fails

---
 src/List.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index e233da8..062353e 100644
--- a/src/List.c
+++ b/src/List.c
@@ -406,7 +406,12 @@ ZyanStatus ZyanListEmplaceBack(ZyanList* list, void** item, ZyanMemberFunction c
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
@@ -438,7 +443,12 @@ ZyanStatus ZyanListEmplaceFront(ZyanList* list, void** item, ZyanMemberFunction
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
-- 
2.43.0


From eba44c973695e893005f11c7d2336277291d1eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 12/27] fix: make ZyanListRemove and ZyanListRemoveRange remove
 nodes

---
 src/List.c | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/List.c b/src/List.c
index 062353e..b241ed0 100644
--- a/src/List.c
+++ b/src/List.c
@@ -535,16 +535,49 @@ ZyanStatus ZyanListPopFront(ZyanList* list)
 
 ZyanStatus ZyanListRemove(ZyanList* list, const ZyanListNode* node)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(node);
-    return ZYAN_STATUS_SUCCESS;
+    return ZyanListRemoveRange(list, node, node);
 }
 
 ZyanStatus ZyanListRemoveRange(ZyanList* list, const ZyanListNode* first, const ZyanListNode* last)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(first);
-    ZYAN_UNUSED(last);
+    if (!list || !first || !last)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    ZyanListNode* const prev = first->prev;
+    ZyanListNode* const next = last->next;
+    ZyanListNode* node = prev ? prev->next : list->head;
+    while (node != next)
+    {
+        ZyanListNode* const current = node;
+        node = node->next;
+
+        if (list->destructor)
+        {
+            list->destructor(ZYCORE_LIST_GET_NODE_DATA(current));
+        }
+
+        // Keep the list valid at every step
+        if (prev)
+        {
+            prev->next = node;
+        } else
+        {
+            list->head = node;
+        }
+        if (node)
+        {
+            node->prev = prev;
+        } else
+        {
+            list->tail = prev;
+        }
+        --list->size;
+
+        ZYAN_CHECK(ZyanListDeallocateNode(list, current));
+    }
+
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 04456ae96cc73468083c3be2782050fe50640827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 13/27] fix: give views created by ZyanStringViewInsideViewEx
 their full length

---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 9dce43f..24500e3 100644
--- a/src/String.c
+++ b/src/String.c
@@ -273,7 +273,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
     }
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
-    view->string.vector.size = count;
+    view->string.vector.size = count + 1;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 5c18f650becc70920b274c8cf841040354c2f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 14/27] fix: do not read uninitialized view fields in
 ZyanStringGetChar

---
 src/String.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/String.c b/src/String.c
index 24500e3..07df7a6 100644
--- a/src/String.c
+++ b/src/String.c
@@ -341,14 +341,13 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->string.vector.size)
+    if ((index >= string->string.vector.size) || (index + 1 >= string->string.vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
 
-    const char* chr;
-    ZYAN_CHECK(ZyanVectorGetPointer(&string->string.vector, index, (const void**)&chr));
-    *value = *chr;
+    // Only the data and the size of a view are guaranteed to be initialized
+    *value = *((const char*)string->string.vector.data + index);
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From a66365372715facbeae325d0b52cb6dd119c8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 15/27] fix: reject string ranges whose index + count wraps
 around

---
 src/String.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/String.c b/src/String.c
index 07df7a6..b3ac176 100644
--- a/src/String.c
+++ b/src/String.c
@@ -43,6 +43,16 @@
 #define ZYCORE_STRING_ASSERT_NULLTERMINATION(string) \
       ZYAN_ASSERT(*(char*)((ZyanU8*)(string)->vector.data + (string)->vector.size - 1) == '\0');
 
+/**
+ * Checks, if the given range reaches the terminating '\0' character of a string.
+ *
+ * @param   index   The start index.
+ * @param   count   The number of characters.
+ * @param   size    The size of the string vector (including the terminating '\0' character).
+ */
+#define ZYCORE_STRING_OUT_OF_RANGE(index, count, size) \
+      (((index) >= (size)) || ((count) >= (size) - (index)))
+
 /* ============================================================================================== */
 /* Exported functions                                                                             */
 /* ============================================================================================== */
@@ -267,7 +277,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index + count >= source->string.vector.size)
+    if (ZYCORE_STRING_OUT_OF_RANGE(index, count, source->string.vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -433,7 +443,7 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if (ZYCORE_STRING_OUT_OF_RANGE(source_index, count, source->string.vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -474,7 +484,7 @@ ZyanStatus ZyanStringAppendEx(ZyanString* destination, const ZyanStringView* sou
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if (ZYCORE_STRING_OUT_OF_RANGE(source_index, count, source->string.vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -500,7 +510,7 @@ ZyanStatus ZyanStringDelete(ZyanString* string, ZyanUSize index, ZyanUSize count
     }
 
     // Don't allow removal of the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if (ZYCORE_STRING_OUT_OF_RANGE(index, count, string->vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -571,7 +581,7 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if (ZYCORE_STRING_OUT_OF_RANGE(index, count, haystack->string.vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -640,7 +650,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if (ZYCORE_STRING_OUT_OF_RANGE(index, count, haystack->string.vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -953,7 +963,7 @@ ZyanStatus ZyanStringToLowerCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if (ZYCORE_STRING_OUT_OF_RANGE(index, count, string->vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -994,7 +1004,7 @@ ZyanStatus ZyanStringToUpperCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if (ZYCORE_STRING_OUT_OF_RANGE(index, count, string->vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From d4d1101aa0deafe9ea9937138ff31ae75ba0422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 16/27] fix: refuse string sizes that overflow together with
 the terminator

---
 src/String.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/String.c b/src/String.c
index b3ac176..e1a4662 100644
--- a/src/String.c
+++ b/src/String.c
@@ -1034,6 +1034,11 @@ ZyanStatus ZyanStringResize(ZyanString* string, ZyanUSize size)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (size == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     ZYAN_CHECK(ZyanVectorResize(&string->vector, size + 1));
     ZYCORE_STRING_NULLTERMINATE(string);
 
-- 
2.43.0


From 4bd212f3c75522b45b557e14b04d8be69b12c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 17/27] fix: reserve the requested number of string characters

---
 src/String.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index e1a4662..ad5ca5b 100644
--- a/src/String.c
+++ b/src/String.c
@@ -1052,7 +1052,13 @@ ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    return ZyanVectorReserve(&string->vector, capacity);
+    if (capacity == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
+    // Reserve space for the terminating '\0' character as well
+    return ZyanVectorReserve(&string->vector, capacity + 1);
 }
 
 ZyanStatus ZyanStringShrinkToFit(ZyanString* string)
-- 
2.43.0


From fc39ad56b184ec551d9676c6a6f355b1d8d4235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 18/27] fix: refuse initial string capacities that overflow

---
 src/String.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/String.c b/src/String.c
index ad5ca5b..5e70206 100644
--- a/src/String.c
+++ b/src/String.c
@@ -79,6 +79,11 @@ ZyanStatus ZyanStringInitEx(ZyanString* string, ZyanUSize capacity, ZyanAllocato
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (capacity == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     string->flags = 0;
     capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity) + 1;
     ZYAN_CHECK(ZyanVectorInitEx(&string->vector, sizeof(char), capacity, ZYAN_NULL, allocator,
-- 
2.43.0


From cbf3663e7727a3347da24af996508b4fcaa8fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 19/27] fix: search for the whole needle and only inside the
 haystack range

---
 src/String.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/String.c b/src/String.c
index 5e70206..c8b0921 100644
--- a/src/String.c
+++ b/src/String.c
@@ -600,6 +600,7 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
+    const char* const needle_end = b + needle->string.vector.size - 1;
     for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
     {
         if (*s != *b)
@@ -609,16 +610,16 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == needle_end)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             if (*a++ != *b++)
             {
                 break;
@@ -669,6 +670,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
+    const char* const needle_end = b + needle->string.vector.size - 1;
     for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
     {
         if ((*s != *b) && ((*s ^ 32) != *b))
@@ -678,16 +680,16 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == needle_end)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             const char c1 = *a++;
             const char c2 = *b++;
             if ((c1 != c2) && ((c1 ^ 32) != c2))
-- 
2.43.0


From ca1869afa6411a27df97824187cfb82600aea2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 20/27] fix: only ignore the case of letters

---
 src/String.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/String.c b/src/String.c
index c8b0921..4acd7b0 100644
--- a/src/String.c
+++ b/src/String.c
@@ -53,6 +53,12 @@
 #define ZYCORE_STRING_OUT_OF_RANGE(index, count, size) \
       (((index) >= (size)) || ((count) >= (size) - (index)))
 
+/**
+ * Converts an ASCII upper-case letter to lower-case and keeps all other characters.
+ */
+#define ZYCORE_STRING_FOLD_CASE(c) \
+      ((((c) >= 'A') && ((c) <= 'Z')) ? ((c) | 32) : (c))
+
 /* ============================================================================================== */
 /* Exported functions                                                                             */
 /* ============================================================================================== */
@@ -673,7 +679,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* const needle_end = b + needle->string.vector.size - 1;
     for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_FOLD_CASE(*s) != ZYCORE_STRING_FOLD_CASE(*b))
         {
             continue;
         }
@@ -692,7 +698,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a++;
             const char c2 = *b++;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_FOLD_CASE(c1) != ZYCORE_STRING_FOLD_CASE(c2))
             {
                 break;
             }
@@ -813,7 +819,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
     for (; s >= (const char*)haystack->string.vector.data; --s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_FOLD_CASE(*s) != ZYCORE_STRING_FOLD_CASE(*b))
         {
             continue;
         }
@@ -832,7 +838,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a--;
             const char c2 = *b--;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_FOLD_CASE(c1) != ZYCORE_STRING_FOLD_CASE(c2))
             {
                 break;
             }
@@ -921,7 +927,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
     ZyanUSize i;
     for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)
     {
-        if ((a[i] == b[i]) || ((a[i] ^ 32) == b[i]))
+        if (ZYCORE_STRING_FOLD_CASE(a[i]) == ZYCORE_STRING_FOLD_CASE(b[i]))
         {
             continue;
         }
-- 
2.43.0


From ac2553f9167d6860d8e3592358e87fe78790aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 21/27] fix: compare views without looking behind their last
 character

---
 src/String.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/String.c b/src/String.c
index 4acd7b0..fcbf321 100644
--- a/src/String.c
+++ b/src/String.c
@@ -884,13 +884,13 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         break;
     }
 
-    if (a[i] == b[i])
+    if (i + 1 >= s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (a[i] < b[i])
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
@@ -934,13 +934,13 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         break;
     }
 
-    if (a[i] == b[i])
+    if (i + 1 >= s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (ZYCORE_STRING_FOLD_CASE(a[i]) < ZYCORE_STRING_FOLD_CASE(b[i]))
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 25a7bc22f278d5469477b2b0de8577070533fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 22/27] fix: format with a fresh argument list and the full
 capacity after a resize

---
 src/Format.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 46d87e1..01a26f7 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -379,41 +379,50 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
     ZyanVAList arglist;
     ZYAN_VA_START(arglist, format);
 
+    // The first formatting attempt invalidates `arglist`
+    ZyanVAList arglist_retry;
+    ZYAN_VA_COPY(arglist_retry, arglist);
+
     const ZyanUSize len = string->vector.size;
 
     ZyanI32 w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
         string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        ZYCORE_STRING_NULLTERMINATE(string);
+        ZYAN_VA_END(arglist_retry);
         return ZYAN_STATUS_FAILED;
     }
-    if (w <= (ZyanI32)(string->vector.capacity - len))
+    if ((ZyanUSize)w <= string->vector.capacity - len)
     {
         string->vector.size = len + w;
 
-        ZYAN_VA_END(arglist);
+        ZYAN_VA_END(arglist_retry);
         return ZYAN_STATUS_SUCCESS;
     }
 
     // The remaining capacity was not sufficent to fit the formatted string. Trying to resize ..
+    // and dropping the truncated output first
+    ZYCORE_STRING_NULLTERMINATE(string);
     const ZyanStatus status = ZyanStringResize(string, string->vector.size + w - 1);
     if (!ZYAN_SUCCESS(status))
     {
-        ZYAN_VA_END(arglist);
+        ZYAN_VA_END(arglist_retry);
         return status;
     }
 
     w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
-        string->vector.capacity - string->vector.size + 1, format, arglist);
+        string->vector.capacity - len + 1, format, arglist_retry);
+    ZYAN_VA_END(arglist_retry);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    ZYAN_ASSERT(w <= (ZyanI32)(string->vector.capacity - string->vector.size));
+    ZYAN_ASSERT((ZyanUSize)w <= string->vector.capacity - len);
 
-    ZYAN_VA_END(arglist);
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From d8a09301efe97ed2021e229eb5de52467b4df23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 23/27] fix: keep the string when appending a hex number fails
 half-way

---
 src/Format.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 01a26f7..c3418f0 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -226,7 +226,12 @@ ZyanStatus ZyanStringAppendHexU32(ZyanString* string, ZyanU32 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                const ZyanStatus status = ZyanStringResize(string, len + i);
+                if (!ZYAN_SUCCESS(status))
+                {
+                    string->vector.size = len;
+                    return status;
+                }
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
@@ -298,7 +303,12 @@ ZyanStatus ZyanStringAppendHexU64(ZyanString* string, ZyanU64 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                const ZyanStatus status = ZyanStringResize(string, len + i);
+                if (!ZYAN_SUCCESS(status))
+                {
+                    string->vector.size = len;
+                    return status;
+                }
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
-- 
2.43.0


From 0a74849d00983545619070c56bc568b0c5d86198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 24/27] fix: keep aligned values in ZYAN_ALIGN_DOWN

---
 include/Zycore/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/Defines.h b/include/Zycore/Defines.h
index 226d808..e1bb7f8 100644
--- a/include/Zycore/Defines.h
+++ b/include/Zycore/Defines.h
@@ -480,7 +480,7 @@
  *
  * Note that this macro only works for powers of 2.
  */
-#define ZYAN_ALIGN_DOWN(x, align) (((x) - 1) & ~((align) - 1))
+#define ZYAN_ALIGN_DOWN(x, align) ((x) & ~((align) - 1))
 
 /**
  * Divide the 64bit integer value by the given divisor.
-- 
2.43.0


From ae3fff4f220a90f1c1301740f6daad93197ab308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 25/27] fix: do not treat boolean dash arguments as unnamed
 arguments too

---
 src/ArgParse.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 109cfc8..eb4e385 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -202,9 +202,12 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     }
 
                     // Either way, continue with next argument.
-                    goto continue_main_loop;
+                    break;
                 }
             }
+
+            // All chars consumed. Continue parsing at next token.
+            continue;
         }
 
         // Still here? We're looking at an unnamed argument.
@@ -222,8 +225,6 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
         ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
         parsed_arg->has_value = ZYAN_TRUE;
         ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
-
-    continue_main_loop:;
     }
 
     // All tokens processed. Do we have enough unnamed arguments?
-- 
2.43.0


From 87556ce3008f6c53fec4c9409fc6caa6d0d739f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 26/27] fix: destroy the argument vector when it cannot grow

---
 src/ArgParse.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index eb4e385..fd4cefe 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -105,7 +105,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -155,7 +159,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -221,7 +229,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
         // Allocate parsed argument struct.
         ZyanArgParseArg* parsed_arg;
-        ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+        err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+        if (!ZYAN_SUCCESS(err))
+        {
+            goto failure;
+        }
         ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
         parsed_arg->has_value = ZYAN_TRUE;
         ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
-- 
2.43.0


From 4e2bebf02258012953f466145dbf56208b760648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 27/27] fix: match the C standard in the no-libc strncmp,
 strcoll and strstr

---
 include/Zycore/LibC.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 59cebee..b2951e2 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -336,12 +336,8 @@ ZYAN_INLINE int ZYAN_STRCMP(const char* s1, const char* s2)
 
 ZYAN_INLINE int ZYAN_STRCOLL(const char *s1, const char *s2)
 {
-    // TODO: Implement
-
-    ZYAN_UNUSED(s1);
-    ZYAN_UNUSED(s2);
-
-    return 0;
+    // There are no locales without libc, this is the behavior of the "C" locale
+    return ZYAN_STRCMP(s1, s2);
 }
 
 ZYAN_INLINE char* ZYAN_STRCPY(char* dest, const char* src)
@@ -401,6 +397,10 @@ ZYAN_INLINE int ZYAN_STRNCMP(const char* s1, const char* s2, ZyanUSize n)
         {
             return *(unsigned char*)(s1 - 1) - *(unsigned char*)(s2 - 1);
         }
+        if (!*(s1 - 1))
+        {
+            break;
+        }
     }
     return 0;
 }
@@ -460,6 +460,10 @@ ZYAN_INLINE ZyanUSize ZYAN_STRSPN(const char* s1, const char* s2)
 ZYAN_INLINE char* ZYAN_STRSTR(const char* s1, const char* s2)
 {
     const ZyanUSize n = ZYAN_STRLEN(s2);
+    if (!n)
+    {
+        return (char*)s1;
+    }
     while (*s1)
     {
         if (!ZYAN_MEMCMP(s1++, s2, n))
-- 
2.43.0

