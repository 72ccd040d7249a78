From 8547ae51ae87390ade4d39f75985788c582f8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 01/42] fix: honour the documented DUMA_MALLOC_0_STRATEGY and
 DUMA_NEW_0_STRATEGY

---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index ae1c2bc..182dfbc 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -825,7 +825,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for malloc(0).
    */
-  if ((string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_MALLOC_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 0 && tmp <= 3)
       _duma_s.MALLOC_0_STRATEGY = tmp;
@@ -834,7 +835,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for C++ operator new with size zero.
    */
-  if ((string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_NEW_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 2 && tmp <= 3)
       _duma_s.NEW_0_STRATEGY = tmp;
-- 
2.43.0


From 9f26d32eca80996f107dab1b0b01d197d367fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 02/42] fix: deny access to the unused rest of newly created
 memory

---
 src/duma.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 182dfbc..89f2dbd 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1582,6 +1582,9 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       fullSlot->internalSize = chunkSize * numChunks;
       fullSlot->state = DUMAST_FREE;
       --_duma_s.unUsedSlots;
+
+      /* as in _duma_init(): deny access to free memory */
+      Page_DenyAccess(fullSlot->internalAddress, fullSlot->internalSize);
     }
   } /* end if ( !fullSlot ) */
 
-- 
2.43.0


From a7e2f752f9005b2fd48729bc3928c4a6d4b6209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 03/42] fix: account for all memory and slots given back by
 reduceProtectedMemory()

---
 duma_hlp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index 58993ed..e30d99d 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -81,6 +81,7 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       slot->filename = 0;
       slot->lineno = 0;
 #endif
+      ++_duma_s.unUsedSlots;
 
       if (alreadyReducekB >= reductionSizekB) {
         _duma_s.sumProtectedMem -= alreadyReducekB;
@@ -89,6 +90,8 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       }
     }
 
+  _duma_s.sumProtectedMem -= alreadyReducekB;
+  _duma_s.sumAllocatedMem -= alreadyReducekB;
   return 0;
 }
 
-- 
2.43.0


From f15682c866d6e35a01179611e1e8ec07712e7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 04/42] fix: protect-below allocations with an alignment above
 the page size

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 89f2dbd..3ba8a1c 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1665,7 +1665,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       /* DUMA_ASSERT(intAddr < userAddr && intAddr <= protAddr ); */
 
       /* Set up the "live" page(s). userAddr == protAddr + DUMA_PAGE_SIZE ! */
-      Page_AllowAccess((char *)userAddr, internalSize - (userAddr - protAddr));
+      Page_AllowAccess((char *)userAddr, endAddr - userAddr);
       /* Set up the "dead" page(s). */
       Page_DenyAccess((char *)intAddr, userAddr - intAddr);
     }
-- 
2.43.0


From a668f72ae31f741887f9b22f27b42dee9bfb9106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 05/42] fix: do not truncate the size of a mapping to int

---
 paging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paging.h b/paging.h
index 61ee8d8..5193dfa 100644
--- a/paging.h
+++ b/paging.h
@@ -153,7 +153,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 
 #ifndef __hpux
@@ -198,7 +198,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
                     devZeroFd, 0);
 
   startAddr = allocation + size;
-- 
2.43.0


From 2c767de157ce7a21fb2ea088534f4bf44d76651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 06/42] fix: let calloc() fail when the product of its
 arguments overflows

---
 src/duma.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 3ba8a1c..75441ec 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2030,6 +2030,7 @@ void *_duma_malloc(size_t size DUMA_PARAMLIST_FL) {
  */
 void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
+  size_t size = nelem * elsize;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2037,7 +2038,11 @@ void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
 
   duma_tls = GET_DUMA_TLSVARS();
 
-  return _duma_allocate(0, nelem * elsize, duma_tls->PROTECT_BELOW,
+  /* let a product which overflows fail like any other impossible size */
+  if (elsize && nelem > (size_t)(-1) / elsize)
+    size = (size_t)(-1);
+
+  return _duma_allocate(0, size, duma_tls->PROTECT_BELOW,
                         0 /*=fillByte*/, 1 /*=protectAllocList*/, EFA_CALLOC,
                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
 }
-- 
2.43.0


From bdd388d00f4babc2cf294f59d8f0316d0eba74fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 07/42] fix: fail on sizes and alignments for which the size
 calculations overflow

---
 src/duma.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 75441ec..7d6c586 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1407,10 +1407,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
           ;
       }
 
-      alignment = (size_t)a; /* this is new alignment */
+      alignment = a ? (size_t)a : 1; /* this is new alignment */
     }
 
-    if ((int)alignment != ((int)alignment & -(int)alignment)) {
+    if (alignment & (alignment - 1)) {
 #ifndef DUMA_NO_LEAKDETECTION
       DUMA_Abort("Alignment (=%d) is not a power of 2; requested from %s(%i)",
                  (DUMA_SIZE)alignment, filename, lineno);
@@ -1419,6 +1419,15 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 #endif
     }
 
+    /* no object fits into more than half of the address space;
+     * and the calculations below must not overflow */
+    if (userSize > ((size_t)(-1) >> 1) || alignment > ((size_t)(-1) >> 2)) {
+      if (DUMA_FAIL_ENV == fail && _duma_s.MALLOC_FAILEXIT)
+        DUMA_Abort("Allocating %d bytes with alignment %d is not possible.",
+                   (DUMA_SIZE)userSize, (DUMA_SIZE)alignment);
+      return duma_alloc_return((void *)userAddr);
+    }
+
     /*
      * If protectBelow is set, all addresses returned by malloc()
      * and company will be page-aligned.
@@ -1550,7 +1559,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 #ifndef SIZE_MAX
 #define SIZE_MAX ((size_t)(-1))
 #endif
-    size_t numChunks = SIZE_MAX;
+    size_t numChunks = 1;
     if (userSize > (SIZE_MAX) - (chunkSize - 1))
       fullSlot->internalAddress = 0;
     else {
-- 
2.43.0


From 049e132be005370bb0aeac2400ea85508abac4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 08/42] fix: honour DUMA_MALLOC_FAILEXIT also with
 DUMA_PROTECT_FREE=0

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 7d6c586..22154fa 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1579,12 +1579,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         fullSlot->internalAddress = Page_Create(
             chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
-
-      if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
-        fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
+    if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
+      fullSlot->internalAddress = Page_Create(
+          chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+
     if (fullSlot->internalAddress) {
       _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
       _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-- 
2.43.0


From fa70f8ea08b8e9bbfce7cc71c6d916ad9acc3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 09/42] fix: accept the zero-size address in realloc() and
 duma_check() as in free()

---
 src/duma.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 22154fa..b7a4cfa 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1942,7 +1942,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 void duma_check(void *address) {
   struct _DUMA_Slot *slot;
 
-  if (0 == address)
+  if (0 == address || _duma_g.null_addr == address)
     return;
 
   IF__DUMA_INIT_DONE
@@ -2151,7 +2151,10 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
 
     DUMA_ASSERT(oldBuffer);
-    if (ptr) {
+    if (ptr && _duma_g.null_addr == oldBuffer) {
+      /* block of size zero: there is nothing to copy or to free */
+      memset((char *)ptr, 0, newSize);
+    } else if (ptr) {
       struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
 
       if (slot == 0)
-- 
2.43.0


From 81aba4aa3be28050a6ff2622a3dfcdb50af3b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 10/42] fix: count allocations under the lock

---
 src/duma.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index b7a4cfa..cb1e04a 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1351,7 +1351,15 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   userAddr = 0;
 
   /* count and show allocation, if requested */
+  if (protectAllocList) {
+    IF__DUMA_INIT_DONE
+    DUMA_GET_SEMAPHORE();
+  }
   _duma_s.numAllocs++;
+  if (protectAllocList) {
+    IF__DUMA_INIT_DONE
+    DUMA_RELEASE_SEMAPHORE(0);
+  }
   if (_duma_s.SHOW_ALLOC) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Print("\nDUMA: Allocating %d byte(s) at %s(%i).", (DUMA_SIZE)userSize,
-- 
2.43.0


From 57540d133c5e01e9f8e75cd3f882fbc48223b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 11/42] fix: read the slot table under the lock in
 DUMA_delFrame()

---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index cb1e04a..6b1f008 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2560,8 +2560,8 @@ void DUMA_newFrame(void) {}
  * the application to locate memory leaks.
  */
 void DUMA_delFrame(void) {
-  struct _DUMA_Slot *slot = _duma_g.allocList;
-  size_t count = _duma_s.slotCount;
+  struct _DUMA_Slot *slot;
+  size_t count;
   int nonFreedTotal = 0;
   int nonFreedReported = 0;
   int iExtraLeaks;
@@ -2571,6 +2571,8 @@ void DUMA_delFrame(void) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  slot = _duma_g.allocList;
+  count = _duma_s.slotCount;
   for (; count > 0; --count, ++slot) {
     if (DUMAST_IN_USE == slot->state && EFA_INT_ALLOC != slot->allocator
 #ifdef DUMA_EXPLICIT_INIT
-- 
2.43.0


From 9243d8cfadf54c449fe29f23841d91fedd0b86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 12/42] fix: take the lock and refuse released memory in
 malloc_usable_size()

---
 src/duma.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 6b1f008..b79f12d 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2227,16 +2227,22 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 #endif
   }
 
+  IF__DUMA_INIT_DONE
+  DUMA_GET_SEMAPHORE();
+
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!(slot = slotForUserAddress(ptr))) {
-    DUMA_Abort("malloc_usable_size(%a): address not from malloc.",
+  if (!(slot = slotForUserAddress(ptr)) || DUMAST_IN_USE != slot->state) {
+    DUMA_Abort("malloc_usable_size(%a): address not from malloc or already freed.",
       (DUMA_ADDR)ptr);
   }
   size = slot->userSize;
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
+
   return size;
 }
 
-- 
2.43.0


From c5387ffe92a4f1c477247cd09074a4ef9a49f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 13/42] fix: do not take the start of unused memory for a block

---
 duma_hlp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duma_hlp.h b/duma_hlp.h
index e30d99d..f6074ac 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -104,7 +104,7 @@ static struct _DUMA_Slot *slotForUserAddress(void *address) {
   size_t count = _duma_s.slotCount;
 
   for (; count > 0; --count, ++slot)
-    if (slot->userAddress == address)
+    if (slot->userAddress == address && DUMAST_FREE != slot->state)
       return slot;
   return 0;
 }
-- 
2.43.0


From 81b55530f76158c1a31fc84a5cc82bf8198974e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 14/42] fix: do not let rests of free memory pile up

---
 src/duma.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index b79f12d..834f092 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1597,6 +1597,30 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
       _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
       fullSlot->internalSize = chunkSize * numChunks;
+
+#if !defined(WIN32)
+      /*
+       * The free memory I have was too small. Give it back when there will be
+       * new free memory, or the rests would pile up.
+       */
+      if (fullSlot->internalSize > internalSize)
+        for (slot = _duma_g.allocList, count = _duma_s.slotCount; count > 0;
+             --count, ++slot)
+          if (DUMAST_FREE == slot->state) {
+            Page_Delete(slot->internalAddress, slot->internalSize);
+            _duma_s.sumAllocatedMem -= (slot->internalSize + 1023) >> 10;
+            slot->internalAddress = slot->userAddress = 0;
+            slot->internalSize = slot->userSize = 0;
+            slot->state = DUMAST_EMPTY;
+#ifndef DUMA_NO_LEAKDETECTION
+            slot->fileSource = DUMAFS_EMPTY;
+            slot->filename = 0;
+            slot->lineno = 0;
+#endif
+            ++_duma_s.unUsedSlots;
+          }
+#endif
+
       fullSlot->state = DUMAST_FREE;
       --_duma_s.unUsedSlots;
 
-- 
2.43.0


From 3e7e2ed8eeb9529bd9e81d0c3c2d87ec2f7d48bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 15/42] fix: look up the old address before realloc() allocates
 the new block

---
 src/duma.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 834f092..e780de7 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2178,6 +2178,11 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                      EFA_REALLOC DUMA_PARAMS_FL);
     ptr = NULL;
   } else {
+    /* check before the new block may get placed at this address */
+    if (_duma_g.null_addr != oldBuffer && !slotForUserAddress(oldBuffer))
+      DUMA_Abort("realloc(%a, %d): address not from malloc().",
+                 (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
+
     ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
                          0 /*=protectAllocList*/, EFA_REALLOC,
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
-- 
2.43.0


From 3fb51f975798dd7d045d2063124a172fee2056c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 16/42] fix: copy strings and memory of 4 GB and more

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index e780de7..bfaff34 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2283,7 +2283,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   size_t size;
   char *dup;
   DUMA_TLSVARS_T *duma_tls;
-  unsigned i;
+  size_t i;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2318,7 +2318,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
 void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   char *d = (char *)dest;
   const char *s = (const char *)src;
-  unsigned i;
+  size_t i;
 
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
@@ -2451,7 +2451,7 @@ char *_duma_strncpy(char *dest, const char *src,
  * of dest to verify assumptions.
  */
 char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
@@ -2482,7 +2482,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen, srclen;
 
   /* do nothing, when size not > 0 */
-- 
2.43.0


From 2c8aff932b16a87fca486c6730f5b10d03bfc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 17/42] fix: report strncpy() overwriting the terminator of its
 source

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index bfaff34..368e8ee 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2416,7 +2416,7 @@ char *_duma_strncpy(char *dest, const char *src,
 
   srclen = _duma_strnlen(src, size);
 
-  if (size > 0 && ((src < dest && dest < src + srclen) ||
+  if (size > 0 && ((src < dest && dest < src + srclen + (srclen < size)) ||
                    (dest < src && src < dest + size))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncpy(%a, %a, %d): memory regions overlap at %s(%i).",
-- 
2.43.0


From 73468a8076c58732bc4eb107ac675e0c68bb9643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 18/42] fix: do not replace the program's new-handler while
 reading it

---
 src/dumapp.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index ba9ea03..9d9631c 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -36,6 +36,7 @@
 #include <stdlib.h>
 
 #include "dumapp.h"
+#include "duma_sem.h"
 #include "noduma.h"
 
 /* define the global variables */
@@ -61,7 +62,9 @@ int DUMA_CDECL duma_new_handler(size_t size) { return 0; }
 
 #else
 
+#if __cplusplus < 201103L
 void duma_new_handler() {}
+#endif
 
 #endif
 
@@ -148,8 +151,15 @@ void *duma_new_operator(DUMA_SIZE_T userSize, enum _DUMA_Allocator allocator,
       _PNH h = _set_new_handler(duma_new_handler);
       _set_new_handler(h);
 #else
+#if __cplusplus >= 201103L
+      std::new_handler h = std::get_new_handler();
+#else
+      // no other thread may see the temporary handler
+      DUMA_GET_SEMAPHORE();
       std::new_handler h = std::set_new_handler(duma_new_handler);
       std::set_new_handler(h);
+      DUMA_RELEASE_SEMAPHORE(0);
+#endif
 #endif
 
       // is there any handler?
-- 
2.43.0


From 1c37572379bde050d3e712c6170968c472e22b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 19/42] fix: print the smallest long

---
 src/print.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/print.c b/src/print.c
index 7ef5425..966ad1d 100644
--- a/src/print.c
+++ b/src/print.c
@@ -89,7 +89,7 @@ typedef LPVOID caddr_t;
 /* define prototypes / forward declarations */
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
-static int sprintLong(char *dest, long number, long base);
+static int sprintLong(char *dest, unsigned long number, unsigned long base);
 static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
 
 /*
@@ -130,7 +130,7 @@ static int sprintAddr(char *dest, DUMA_ADDR value, DUMA_ADDR base) {
  *
  * internal function to print a int into a buffer
  */
-static int sprintLong(char *dest, long value, long base) {
+static int sprintLong(char *dest, unsigned long value, unsigned long base) {
   char buffer[NUMBER_BUFFER_SIZE + 1];
   char *s = &buffer[NUMBER_BUFFER_SIZE];
   long size;
@@ -199,21 +199,23 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
       case 'i': /* int */
       {
         long n = (long)va_arg(args, int);
+        unsigned long u = (unsigned long)n;
         if (n < 0) {
           buffer[len++] = '-';
-          n = -n;
+          u = 0 - u;
         }
-        len += sprintLong(&buffer[len], n, 10);
+        len += sprintLong(&buffer[len], u, 10);
         break;
       }
       case 'l': /* long */
       {
         long n = va_arg(args, long);
+        unsigned long u = (unsigned long)n;
         if (n < 0) {
           buffer[len++] = '-';
-          n = -n;
+          u = 0 - u;
         }
-        len += sprintLong(&buffer[len], n, 10);
+        len += sprintLong(&buffer[len], u, 10);
         break;
       }
       case 's': /* string */
-- 
2.43.0


From 5d775b821655322ea0920c80b64a9ad43ab48cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 20/42] fix: do not report DUMA's own copies of settings as
 leaks

---
 src/duma.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 368e8ee..fc2276e 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -762,6 +762,28 @@ static const char *duma_getenv(const char *varname) {
 
 #endif
 
+/* Function: duma_strdup_internal
+ *
+ * Copy a string for DUMA itself: the copy isn't a leak of the program.
+ */
+static char *duma_strdup_internal(const char *str) {
+  size_t size = strlen(str) + 1;
+  char *dup;
+
+#ifndef DUMA_NO_LEAKDETECTION
+  dup = (char *)_duma_allocate(0, size, 0 /*=protectBelow*/, -1 /*=fillByte*/,
+                               1 /*=protectAllocList*/, EFA_INT_ALLOC,
+                               DUMA_FAIL_ENV, __FILE__, __LINE__);
+#else
+  dup = (char *)_duma_allocate(0, size, 0 /*=protectBelow*/, -1 /*=fillByte*/,
+                               1 /*=protectAllocList*/, EFA_INT_ALLOC,
+                               DUMA_FAIL_ENV);
+#endif
+  if (dup)
+    memcpy(dup, str, size);
+  return dup;
+}
+
 static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   const char *string;
 
@@ -902,11 +924,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that this option is disabled.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_STACKTRACE_MAPFILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_STACKTRACE_MAPFILE = duma_strdup_internal(string);
 
   /*
    * DUMA_OUTPUT_DEBUG is a global variable used to control if DUMA
@@ -938,11 +956,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that output is not by default sent to a file.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_FILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_FILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_FILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_FILE = duma_strdup_internal(string);
 
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
-- 
2.43.0


From a52d84619ba17e991b0b6bd40fb4d663716d079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 21/42] fix: leave new and delete alone with DUMA_NO_DUMA

---
 dumapp.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dumapp.h b/dumapp.h
index de00918..d7ce9a9 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -43,13 +43,19 @@
 /* remove previous macro definitions */
 #include "noduma.h"
 
-#if (defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION))
+#if (defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION) ||         \
+     defined(DUMA_NO_DUMA))
 /* define macros as wrapper without special functionality */
 #define NEW_ELEM(TYPE) new TYPE
 #define NEW_ARRAY(TYPE, COUNT) new TYPE[COUNT]
 #define DEL_ELEM(PTR) delete PTR
 #define DEL_ARRAY(PTR) delete[] PTR
-#endif /* ( defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION) )   \
+#define NEW_ELEM_NOTHROW(TYPE) new (std::nothrow) TYPE
+#define NEW_ARRAY_NOTHROW(TYPE, COUNT) new (std::nothrow) TYPE[COUNT]
+#define DEL_ELEM_NOTHROW(PTR) delete PTR
+#define DEL_ARRAY_NOTHROW(PTR) delete[] PTR
+#endif /* ( defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION) ||  \
+        *   defined(DUMA_NO_DUMA) )                                            \
         */
 
 #ifndef DUMA_CDECL
@@ -74,7 +80,7 @@
 #define NEW_THROW_SPEC
 #endif
 
-#ifndef DUMA_NO_CPP_SUPPORT
+#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_DUMA)
 
 #ifndef DUMA_CPP_OPERATORS_DECLARED /* && !defined(DUMA_NO_CPP_SUPPORT) */
 #define DUMA_CPP_OPERATORS_DECLARED
@@ -207,6 +213,6 @@ void DUMA_CDECL operator delete[](void *, const std::nothrow_t &, const char *,
 
 #endif /* end ifdef DUMA_NO_LEAKDETECTION */
 
-#endif /* end ifdef DUMA_NO_CPP_SUPPORT */
+#endif /* end if !DUMA_NO_CPP_SUPPORT && !DUMA_NO_DUMA */
 
 #include "duma.h"
-- 
2.43.0


From 8c2ff9afbf5d388cce6ae4de2f15c7653ef60af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 22/42] fix: all macros compile wherever they may stand with
 DUMA_NO_DUMA

---
 duma.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/duma.h b/duma.h
index 6c28ca2..892e3e7 100644
--- a/duma.h
+++ b/duma.h
@@ -83,9 +83,19 @@
   do {                                                                         \
   } while (0)
 
-#define CA_DECLARE(NAME, SIZE)                                                 \
+#define DUMA_FN_PROT_START {
+#define DUMA_FN_PROT_END }
+#define DUMA_FN_PROT_RET(EXPR)                                                 \
+  do {                                                                         \
+    return (EXPR);                                                             \
+  } while (0)
+#define DUMA_FN_PROT_RET_VOID()                                                \
   do {                                                                         \
+    return;                                                                    \
   } while (0)
+
+/* a declaration, so that it may stand outside of functions */
+#define CA_DECLARE(NAME, SIZE) struct NAME##_unchecked
 #define CA_DEFINE(TYPE, NAME, SIZE) TYPE NAME[SIZE]
 #define CA_REF(NAME, INDEX) NAME[INDEX]
 
-- 
2.43.0


From 5a63014c0106c70403c2340b773a802f63633018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 23/42] fix: fail allocations cleanly when the allocation list
 cannot grow

---
 src/duma.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index fc2276e..cbfe2ff 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1315,6 +1315,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   struct _DUMA_Slot *slot;
   struct _DUMA_Slot *fullSlot;
   struct _DUMA_Slot *emptySlots[2];
+  int outOfSlots = 0;
   DUMA_ADDR intAddr, userAddr, protAddr, endAddr;
   size_t internalSize;
   int allocationStrategy;
@@ -1498,9 +1499,20 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
    * I don't have enough slots left to make an allocation.
    */
   if (DUMAAT_INTERNAL != _duma_allocDesc[allocator].type &&
-      _duma_s.unUsedSlots < 7)
+      _duma_s.unUsedSlots < 7) {
     allocateMoreSlots();
 
+    /*
+     * No memory for more slots: keep the last ones, allocateMoreSlots() needs
+     * them later. There's no memory for this allocation, either.
+     */
+    if (_duma_s.unUsedSlots < 4) {
+      if (DUMA_FAIL_ENV == fail && _duma_s.MALLOC_FAILEXIT)
+        DUMA_Abort("Out of memory: cannot create more slots.\n");
+      outOfSlots = 1;
+    }
+  }
+
   /*
    * Iterate through all of the slot structures. Attempt to find a slot
    * containing free memory of the exact right size. Accept a slot with
@@ -1510,8 +1522,8 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
    * we have to create new memory and mark it as free.
    *
    */
-  for (slot = _duma_g.allocList, count = _duma_s.slotCount; count > 0;
-       --count, ++slot) {
+  for (slot = _duma_g.allocList, count = outOfSlots ? 0 : _duma_s.slotCount;
+       count > 0; --count, ++slot) {
     /*
      * Windows needs special treatment, cause Page_Delete() needs exactly
      * the same memory region as Page_Create()!
@@ -1538,7 +1550,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   }
 
-  if (!fullSlot) {
+  if (!fullSlot && !outOfSlots) {
     /*
      * I get here if I haven't been able to find a free buffer
      * with all of the memory I need. I'll have to create more
@@ -1643,7 +1655,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   } /* end if ( !fullSlot ) */
 
-  if (fullSlot->internalSize) {
+  if (fullSlot && fullSlot->internalSize) {
 
 #if !defined(WIN32)
     /*
-- 
2.43.0


From 71394e0b0ffa50d60b426d57f5c769de40e23419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 24/42] fix: print both totals of DUMA_delFrame under the lock

---
 src/duma.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index cbfe2ff..a0d6473 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2683,14 +2683,14 @@ void DUMA_delFrame(void) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  IF__DUMA_INIT_DONE
-  DUMA_RELEASE_SEMAPHORE(0);
-
   if (_duma_s.SHOW_ALLOC)
     DUMA_Print(
         "\nDUMA:   Allocation(s): %l"
         "\nDUMA: Deallocation(s): %l\n",
         _duma_s.numAllocs, _duma_s.numDeallocs);
+
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
 }
 
 /* Function: _duma_exit
-- 
2.43.0


From a18bf737d27e451f1942c0e2b48318b56882ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 25/42] fix: plain operator delete reads the location under the
 lock

---
 src/dumapp.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index 9d9631c..1b7816d 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -218,9 +218,12 @@ void *DUMA_CDECL operator new(DUMA_SIZE_T size,
 void DUMA_CDECL operator delete(void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  // another thread's delete statement may hold the location
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -234,9 +237,12 @@ void DUMA_CDECL operator delete(void *ptr) throw() {
 void DUMA_CDECL operator delete(void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  // another thread's delete statement may hold the location
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -274,9 +280,12 @@ void *DUMA_CDECL operator new[](DUMA_SIZE_T size,
 void DUMA_CDECL operator delete[](void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  // another thread's delete statement may hold the location
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
@@ -290,9 +299,12 @@ void DUMA_CDECL operator delete[](void *ptr) throw() {
 void DUMA_CDECL operator delete[](void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  // another thread's delete statement may hold the location
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
-- 
2.43.0


From b8e3405a525ab153e53f0effeadc64edfd43e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 26/42] fix: reading the settings needs no environment

---
 src/duma.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index a0d6473..b645930 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -747,6 +747,11 @@ static const char *duma_getenv(const char *varname) {
   if (varname[0] == '\0')
     return ret;
 
+  /* there is no environment before the C library is set up, or after
+   * clearenv() */
+  if (!environ)
+    return ret;
+
   while (environ[varno]) {
     const char *v = environ[varno++];
     int idx = 0;
-- 
2.43.0


From c77e123d4ee8e2ac2cee2f8d753c60ef7a7e49d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 27/42] fix: reports and checks of all blocks read the settings
 when they come first

---
 src/duma.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index b645930..06c09f2 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2064,6 +2064,10 @@ void duma_check(void *address) {
  *
  */
 void duma_checkAll() {
+  if (_duma_g.allocList == 0)
+    _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
+         ... */
+
   IF__DUMA_INIT_DONE
   DUMA_GET_SEMAPHORE();
 
@@ -2632,6 +2636,10 @@ void DUMA_delFrame(void) {
   int nonFreedReported = 0;
   int iExtraLeaks;
 
+  if (_duma_g.allocList == 0)
+    _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
+         ... */
+
   IF__DUMA_INIT_DONE
   DUMA_GET_SEMAPHORE();
 
-- 
2.43.0


From 2e59791c078597316ce4f7f25d2d9be2fee44393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 28/42] fix: accept the release of null before the first
 allocation

---
 src/duma.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 06c09f2..a48642e 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1815,6 +1815,9 @@ void _duma_deallocate(void *address, int protectAllocList,
   struct _DUMA_Slot *slot;
   long internalSizekB;
 
+  if (0 == address || _duma_g.null_addr == address)
+    return;
+
   if (0 == _duma_g.allocList) {
 #ifdef DUMA_DETOURS
     /* Odd things happen with detours sometimes... */
@@ -1825,9 +1828,6 @@ void _duma_deallocate(void *address, int protectAllocList,
 #endif
   }
 
-  if (0 == address || _duma_g.null_addr == address)
-    return;
-
   if (protectAllocList) {
     IF__DUMA_INIT_DONE
     DUMA_GET_SEMAPHORE();
-- 
2.43.0


From abaeea84345a1ccb85fcad22170182b090ae2217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 29/42] fix: settings made by the program before the first
 allocation stay in force

---
 duma.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/duma.h b/duma.h
index 892e3e7..db930eb 100644
--- a/duma.h
+++ b/duma.h
@@ -191,14 +191,18 @@ DUMA_EXTERN_C DUMA_GLOBALVARS_T _duma_g;
 
 #define GET_DUMA_TLSVARS() (&_duma_g.TLS)
 
+/* read the environment first: it shall not override these */
 #ifndef DUMA_SET_ALIGNMENT
-#define DUMA_SET_ALIGNMENT(V) GET_DUMA_TLSVARS()->ALIGNMENT = (V)
+#define DUMA_SET_ALIGNMENT(V)                                                  \
+  (_duma_init(), GET_DUMA_TLSVARS()->ALIGNMENT = (V))
 #endif
 #ifndef DUMA_SET_PROTECT_BELOW
-#define DUMA_SET_PROTECT_BELOW(V) GET_DUMA_TLSVARS()->PROTECT_BELOW = (V)
+#define DUMA_SET_PROTECT_BELOW(V)                                              \
+  (_duma_init(), GET_DUMA_TLSVARS()->PROTECT_BELOW = (V))
 #endif
 #ifndef DUMA_SET_FILL
-#define DUMA_SET_FILL(V) GET_DUMA_TLSVARS()->FILL = (V)
+#define DUMA_SET_FILL(V)                                                       \
+  (_duma_init(), GET_DUMA_TLSVARS()->FILL = (V))
 #endif
 
 #ifndef DUMA_ENUMS_DECLARED
-- 
2.43.0


From 33f5575e694771d694f9a5f90fa36e548f2546d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 30/42] fix: memcpy reads the settings when it comes first

---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index a48642e..96adde8 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2355,6 +2355,10 @@ void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   const char *s = (const char *)src;
   size_t i;
 
+  /* the settings decide about overlapping regions */
+  if (_duma_g.allocList == 0 && d < s && s < d + size)
+    _duma_init();
+
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
 #ifndef DUMA_NO_LEAKDETECTION
-- 
2.43.0


From 69dda89d213096d99676653dc487ff72fe91b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 31/42] fix: trace allocations only once the outputs are known

---
 src/duma.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 96adde8..1e2482b 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -897,12 +897,6 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
     _duma_s.SLACKFILL = atoi(string);
   _duma_s.SLACKFILL &= 255;
 
-  /*
-   * See if the user wants to see allocations / frees
-   */
-  if ((string = DUMA_GETENV("DUMA_SHOW_ALLOC")) != 0)
-    _duma_s.SHOW_ALLOC = (atoi(string) != 0);
-
   /*
    * See if the user wants to call atexit()
    */
@@ -963,6 +957,13 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   if ((string = DUMA_GETENV("DUMA_OUTPUT_FILE")) != 0)
     DUMA_OUTPUT_FILE = duma_strdup_internal(string);
 
+  /*
+   * See if the user wants to see allocations / frees;
+   * only now all messages reach the wanted outputs
+   */
+  if ((string = DUMA_GETENV("DUMA_SHOW_ALLOC")) != 0)
+    _duma_s.SHOW_ALLOC = (atoi(string) != 0);
+
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
     _duma_s.SKIPCOUNT_INIT = (atoi(string) != 0);
-- 
2.43.0


From c6c7fd55c3d0940224b9e8434737a9d3b187bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 32/42] fix: write messages completely when write is
 interrupted or partial

---
 src/print.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/print.c b/src/print.c
index 966ad1d..b8c266a 100644
--- a/src/print.c
+++ b/src/print.c
@@ -31,6 +31,7 @@
 #define _POSIX_C_SOURCE 200809L
 #endif
 
+#include <errno.h>
 #include <signal.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -285,6 +286,22 @@ void DUMA_Abort(const char *pattern, ...) {
   _exit(-1);
 }
 
+/* Function: printTo
+ *
+ * internal function to write a complete text, also if write() is interrupted
+ * or takes only a part of it
+ */
+static void printTo(int fd, const char *text, int len) {
+  while (len > 0) {
+    int n = (int)write(fd, text, len);
+    if (n > 0) {
+      text += n;
+      len -= n;
+    } else if (n == 0 || errno != EINTR)
+      break;
+  }
+}
+
 /* Function: DUMA_Print
  *
  * external print function
@@ -306,10 +323,10 @@ void DUMA_Print(const char *pattern, ...) {
 #endif
 
   if (DUMA_OUTPUT_STDOUT)
-    write(1, buffer, len);
+    printTo(1, buffer, len);
 
   if (DUMA_OUTPUT_STDERR)
-    write(2, buffer, len);
+    printTo(2, buffer, len);
 
   if (DUMA_OUTPUT_FILE != NULL) {
 #if defined(WIN32) && !defined(__CYGWIN__)
@@ -318,7 +335,7 @@ void DUMA_Print(const char *pattern, ...) {
     fd = open(DUMA_OUTPUT_FILE, O_APPEND | O_CREAT | O_WRONLY, 0600);
 #endif
     if (fd >= 0) {
-      write(fd, buffer, len);
+      printTo(fd, buffer, len);
 #if defined(WIN32) && !defined(__CYGWIN__)
       _close(fd);
 #else
-- 
2.43.0


From f9182ba1d71a9e72234328a4da057c565ee9a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 33/42] fix: keep messages within their buffers

---
 src/print.c | 66 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/src/print.c b/src/print.c
index b8c266a..6032312 100644
--- a/src/print.c
+++ b/src/print.c
@@ -91,7 +91,8 @@ typedef LPVOID caddr_t;
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
 static int sprintLong(char *dest, unsigned long number, unsigned long base);
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
+static int DUMA_vsprintf(char *buffer, int size, const char *pattern,
+                         va_list args);
 
 /*
  * NUMBER_BUFFER_SIZE is the longest character string that could be needed
@@ -152,10 +153,23 @@ static int sprintLong(char *dest, unsigned long value, unsigned long base) {
   return size;
 }
 
+/* Function: appendText
+ *
+ * internal function to append text to a buffer; what does not fit is cut off
+ * returns the new length of the text in the buffer
+ */
+static int appendText(char *buffer, int size, int len, const char *text,
+                      size_t length) {
+  while (length-- > 0 && len < size - 1)
+    buffer[len++] = *text++;
+  return len;
+}
+
 /* Function: DUMA_vsprintf
  *
  * internal function to print a formatted string into a buffer
- * int sprintf(char* buffer, const char *pattern, va_list args)
+ * int vsprintf(char* buffer, int size, const char *pattern, va_list args)
+ * the text, with its terminating '\0', never exceeds size bytes
  * allowed format specifier are:
  *
  *   %a = adress of type DUMA_ADDR
@@ -166,8 +180,10 @@ static int sprintLong(char *dest, unsigned long value, unsigned long base) {
  *   %s = string teminated with '\0'
  *   %c = char
  */
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
+static int DUMA_vsprintf(char *buffer, int size, const char *pattern,
+                         va_list args) {
   char c;
+  char number[NUMBER_BUFFER_SIZE + 1];
   static const char bad_pattern[] =
       "\nDUMA: Bad pattern specifier %%%c in DUMA_Print().\n";
   const char *s = pattern;
@@ -180,7 +196,7 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
       c = *s++;
       switch (c) {
       case '%':
-        buffer[len++] = c;
+        len = appendText(buffer, size, len, &c, 1);
         break;
       case 'a': /* DUMA_ADDR */
       case 'x': /* DUMA_ADDR */
@@ -191,21 +207,21 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
          * bits of a void pointer.
          */
         n = va_arg(args, DUMA_ADDR);
-        len += sprintAddr(&buffer[len], n, 16);
+        len = appendText(buffer, size, len, number, sprintAddr(number, n, 16));
         break;
       case 'd': /* DUMA_SIZE */
         n = va_arg(args, DUMA_SIZE);
-        len += sprintAddr(&buffer[len], n, 10);
+        len = appendText(buffer, size, len, number, sprintAddr(number, n, 10));
         break;
       case 'i': /* int */
       {
         long n = (long)va_arg(args, int);
         unsigned long u = (unsigned long)n;
         if (n < 0) {
-          buffer[len++] = '-';
+          len = appendText(buffer, size, len, "-", 1);
           u = 0 - u;
         }
-        len += sprintLong(&buffer[len], u, 10);
+        len = appendText(buffer, size, len, number, sprintLong(number, u, 10));
         break;
       }
       case 'l': /* long */
@@ -213,37 +229,32 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
         long n = va_arg(args, long);
         unsigned long u = (unsigned long)n;
         if (n < 0) {
-          buffer[len++] = '-';
+          len = appendText(buffer, size, len, "-", 1);
           u = 0 - u;
         }
-        len += sprintLong(&buffer[len], u, 10);
+        len = appendText(buffer, size, len, number, sprintLong(number, u, 10));
         break;
       }
       case 's': /* string */
       {
         const char *string;
-        size_t length;
 
         string = va_arg(args, char *);
-        if (string) {
-          length = strlen(string);
-          strcpy(&buffer[len], string);
-        } else {
-          length = 4; /* = strlen("NULL") */
-          strcpy(&buffer[len], "NULL");
-        }
-        len += length;
+        if (!string)
+          string = "NULL";
+        len = appendText(buffer, size, len, string, strlen(string));
         break;
       }
       case 'c': /* char */
         /* characters are passed as int ! */
-        buffer[len++] = (char)va_arg(args, int);
+        c = (char)va_arg(args, int);
+        len = appendText(buffer, size, len, &c, 1);
         break;
       default:
         DUMA_Print(bad_pattern, c);
       }
     } else /* if ( c != '%' ) */
-      buffer[len++] = c;
+      len = appendText(buffer, size, len, &c, 1);
 
     c = *s++;
   } /* end while (c) */
@@ -266,7 +277,7 @@ void DUMA_Abort(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Aborting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], STRING_BUFFER_SIZE - 1 - lena, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
   va_end(args);
@@ -314,7 +325,7 @@ void DUMA_Print(const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, STRING_BUFFER_SIZE, pattern, args);
   va_end(args);
 
 #ifdef WIN32
@@ -359,7 +370,7 @@ void DUMA_Exit(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Exiting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], STRING_BUFFER_SIZE - 1 - lena, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
 #ifdef WIN32
@@ -375,13 +386,16 @@ void DUMA_Exit(const char *pattern, ...) {
   _exit(-1);
 }
 
-/* Function: DUMA_sprintf */
+/* Function: DUMA_sprintf
+ *
+ * the buffer has to provide STRING_BUFFER_SIZE bytes
+ */
 void DUMA_sprintf(char *buffer, const char *pattern, ...) {
   int len;
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, STRING_BUFFER_SIZE, pattern, args);
   va_end(args);
   if (len <= 0)
     buffer[0] = 0;
-- 
2.43.0


From aa3d7db4c8adcfa5bd8948456c620725d90d2f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 34/42] fix: DUMA_SUPPRESS_ATEXIT also suppresses the
 destructor's report

---
 src/duma.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 1e2482b..1377a8e 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2729,7 +2729,9 @@ void
   StackTraceCleanup();
 #endif
 
-  DUMA_delFrame();
+  /* The user may not want the check at exit */
+  if (!_duma_s.SUPPRESS_ATEXIT)
+    DUMA_delFrame();
 }
 
 #endif /* end ifndef DUMA_NO_LEAKDETECTION */
-- 
2.43.0


From 3dd688e70b1820d47ae3b2472b895c80594a2ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 35/42] fix: CA_REF compiles where a comma in a subscript is
 not an operator (C++23)

---
 duma.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/duma.h b/duma.h
index db930eb..57d136c 100644
--- a/duma.h
+++ b/duma.h
@@ -431,7 +431,7 @@ DUMA_EXTERN_C char *_duma_strncat(char *dest, const char *src, size_t size);
  * index, when index contains f.e. a "++".
  */
 #define CA_REF(NAME, INDEX)                                                    \
-  NAME[DUMA_ASSERT((NAME##_checkedidx = (INDEX)) < NAME##_checkedsize),        \
-       NAME##_checkedidx]
+  NAME[(DUMA_ASSERT((NAME##_checkedidx = (INDEX)) < NAME##_checkedsize),       \
+        NAME##_checkedidx)]
 
 #endif /* end ifdef DUMA_NO_DUMA */
-- 
2.43.0


From 2dd05b79650e00e494f91d3ce21ab7dc8c331125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 36/42] fix: replace aligned_alloc: free stopped programs using
 it

---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 1377a8e..126b51f 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2580,6 +2580,10 @@ void *memalign(size_t alignment, size_t size) {
   return _duma_memalign(alignment, size DUMA_PARAMS_UK);
 }
 
+void *aligned_alloc(size_t alignment, size_t size) {
+  return _duma_memalign(alignment, size DUMA_PARAMS_UK);
+}
+
 int posix_memalign(void **memptr, size_t alignment, size_t size) {
   return _duma_posix_memalign(memptr, alignment, size DUMA_PARAMS_UK);
 }
-- 
2.43.0


From cd1d3e07d1417066f49a3562af866eead888e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 37/42] fix: delete macros: run destructors with
 DEL_ELEM/DEL_ARRAY, release the lock when an exception leaves the statement

---
 dumapp.h | 74 ++++++++++++++++++++++++--------------------------------
 1 file changed, 31 insertions(+), 43 deletions(-)

diff --git a/dumapp.h b/dumapp.h
index d7ce9a9..05cf22b 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -137,15 +137,31 @@ void DUMA_CDECL operator delete[](void *, const char *, int) throw();
 void DUMA_CDECL operator delete[](void *, const std::nothrow_t &, const char *,
                                   int) throw();
 
+#include "duma_sem.h"
+
+/* location of a delete statement; DUMA is locked until the statement is left,
+ * even when by an exception */
+struct DUMA_DelScope {
+  int todo;
+  DUMA_DelScope(const char *filename, int lineno) : todo(1) {
+    DUMA_GET_SEMAPHORE();
+    if (_duma_g.TLS.DelPtr + 1 >= DUMA_MAX_DEL_DEPTH)
+      _duma_assert("_duma_g.TLS.DelPtr < DUMA_MAX_DEL_DEPTH", filename, lineno);
+    ++_duma_g.TLS.DelPtr;
+    _duma_g.TLS.DelFile[_duma_g.TLS.DelPtr] = filename;
+    _duma_g.TLS.DelLine[_duma_g.TLS.DelPtr] = lineno;
+  }
+  ~DUMA_DelScope() {
+    --_duma_g.TLS.DelPtr;
+    DUMA_RELEASE_SEMAPHORE(0);
+  }
+};
+
 #endif /* DUMA_NO_LEAKDETECTION */
 #endif /* DUMA_CPP_OPERATORS_DECLARED */
 
 #ifndef DUMA_NO_LEAKDETECTION /* && !defined(DUMA_CPP_OPERATORS_DECLARED) */
 
-#ifndef DUMA_NO_THREAD_SAFETY
-#include "duma_sem.h"
-#endif
-
 /* define macros as wrapper for our special operators */
 
 #ifdef DUMA_OLD_NEW_MACRO
@@ -162,53 +178,25 @@ void DUMA_CDECL operator delete[](void *, const std::nothrow_t &, const char *,
 #define new new (__FILE__, __LINE__)
 #endif /* DUMA_OLD_NEW_MACRO */
 
+/* a delete expression whose location is known while it runs */
+#define DUMA_DELETE_STATEMENT                                                  \
+  for (DUMA_DelScope DUMA_delScope(__FILE__, __LINE__); DUMA_delScope.todo;    \
+       DUMA_delScope.todo = 0)                                                 \
+  delete
+
 #ifdef DUMA_OLD_DEL_MACRO
 /* always use _duma_g.TLS.DelPtr/DUMA_DeleteFile/DUMA_DeleteLine
  * to allow best possible filename/line reports when
  * non-DUMA deallocations are called from destructors
  */
 /* non-throwing */
-#define DEL_ELEM(PTR)                                                          \
-  for (++_duma_g.TLS.DelPtr, _duma_g.TLS.Magic = 1; _duma_g.TLS.Magic;         \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
-  operator delete(PTR, __FILE__, __LINE__)
-
-#define DEL_ARRAY(PTR)                                                         \
-  for (++_duma_g.TLS.DelPtr, _duma_g.TLS.Magic = 1; _duma_g.TLS.Magic;         \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
-  operator delete[](PTR, __FILE__, __LINE__)
+#define DEL_ELEM(PTR) DUMA_DELETE_STATEMENT(PTR)
+#define DEL_ARRAY(PTR) DUMA_DELETE_STATEMENT[](PTR)
 /* explicitly non-throwing */
-#define DEL_ELEM_NOTHROW(PTR)                                                  \
-  for (++_duma_g.TLS.DelPtr, _duma_g.TLS.Magic = 1; _duma_g.TLS.Magic;         \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
-  operator delete(PTR, std::nothrow, __FILE__, __LINE__)
-#define DEL_ARRAY_NOTHROW(PTR)                                                 \
-  for (++_duma_g.TLS.DelPtr, _duma_g.TLS.Magic = 1; _duma_g.TLS.Magic;         \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
-  operator delete[](PTR, std::nothrow, __FILE__, __LINE__)
+#define DEL_ELEM_NOTHROW(PTR) DUMA_DELETE_STATEMENT(PTR)
+#define DEL_ARRAY_NOTHROW(PTR) DUMA_DELETE_STATEMENT[](PTR)
 #else
-#ifndef DUMA_NO_THREAD_SAFETY
-/* define a thread safe delete */
-#define delete                                                                 \
-  for (DUMA_GET_SEMAPHORE(), DUMA_GET_SEMAPHORE(), ++_duma_g.TLS.DelPtr,       \
-       DUMA_ASSERT(_duma_g.TLS.DelPtr < DUMA_MAX_DEL_DEPTH),                   \
-       _duma_g.TLS.Magic = 1,                                                  \
-       _duma_g.TLS.DelFile[_duma_g.TLS.DelPtr] = __FILE__,                     \
-       _duma_g.TLS.DelLine[_duma_g.TLS.DelPtr] = __LINE__;                     \
-       DUMA_RELEASE_SEMAPHORE(_duma_g.TLS.Magic);                              \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
-  delete
-#else
-/* also thread safe by using TLS variables */
-#define delete                                                                 \
-  for (++_duma_g.TLS.DelPtr,                                                   \
-       DUMA_ASSERT(_duma_g.TLS.DelPtr < DUMA_MAX_DEL_DEPTH),                   \
-       _duma_g.TLS.Magic = 1,                                                  \
-       _duma_g.TLS.DelFile[_duma_g.TLS.DelPtr] = __FILE__,                     \
-       _duma_g.TLS.DelLine[_duma_g.TLS.DelPtr] = __LINE__;                     \
-       _duma_g.TLS.Magic; _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)         \
-  delete
-#endif /* DUMA_NO_THREAD_SAFETY */
+#define delete DUMA_DELETE_STATEMENT
 #endif /* DUMA_OLD_DEL_MACRO */
 
 #endif /* end ifdef DUMA_NO_LEAKDETECTION */
-- 
2.43.0


From 67fcca105656cb4ee4c0972219af2ce39641df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 38/42] fix: over-aligned types with the new macro: right
 alignment, and delete does not stop the program

---
 dumapp.h | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/dumapp.h b/dumapp.h
index 05cf22b..3213f39 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -157,6 +157,44 @@ struct DUMA_DelScope {
   }
 };
 
+#if defined(__cpp_aligned_new) && defined(__cpp_exceptions)
+/* the standard library's aligned operator delete calls free():
+ * memory for over-aligned types must match that
+ */
+inline void *duma_new_aligned(DUMA_SIZE_T size, std::align_val_t alignment,
+                              const char *filename, int lineno) {
+  for (;;) {
+    if (_duma_g.allocList == 0)
+      _duma_init();
+    if (void *ret = _duma_allocate((DUMA_SIZE_T)alignment, size ? size : 1,
+                                   _duma_g.TLS.PROTECT_BELOW, _duma_g.TLS.FILL,
+                                   1, EFA_MEMALIGN, DUMA_FAIL_NULL, filename,
+                                   lineno))
+      return ret;
+    std::new_handler h = std::get_new_handler();
+    if (!h)
+      throw std::bad_alloc();
+    h();
+  }
+}
+inline void *operator new(DUMA_SIZE_T size, std::align_val_t alignment,
+                          const char *filename, int lineno) {
+  return duma_new_aligned(size, alignment, filename, lineno);
+}
+inline void *operator new[](DUMA_SIZE_T size, std::align_val_t alignment,
+                            const char *filename, int lineno) {
+  return duma_new_aligned(size, alignment, filename, lineno);
+}
+inline void operator delete(void *ptr, std::align_val_t, const char *filename,
+                            int lineno) noexcept {
+  _duma_deallocate(ptr, 1, EFA_FREE, filename, lineno);
+}
+inline void operator delete[](void *ptr, std::align_val_t, const char *filename,
+                              int lineno) noexcept {
+  _duma_deallocate(ptr, 1, EFA_FREE, filename, lineno);
+}
+#endif
+
 #endif /* DUMA_NO_LEAKDETECTION */
 #endif /* DUMA_CPP_OPERATORS_DECLARED */
 
-- 
2.43.0


From 7f860820c704493f2e58c823f00578a46b3ee29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 39/42] fix: DUMA_LIB_NO_CPP_SUPPORT did not compile:
 dumapp.cpp tested it before reading the configuration

---
 src/dumapp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index 1b7816d..95f1fa4 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -24,6 +24,8 @@
  * replaces various global C++ new/delete/new[]/delete[] operators
  */
 
+#include "duma_config.h"
+
 #ifndef DUMA_NO_CPP_SUPPORT
 
 #ifdef _MSC_VER
-- 
2.43.0


From deed10747cb6cad5c72ac0d49df312eb0e1deb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 40/42] fix: DUMA_NO_DUMA: the macros are expressions, as in
 debug code

---
 duma.h | 44 +++++++++++++-------------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/duma.h b/duma.h
index 57d136c..ea51038 100644
--- a/duma.h
+++ b/duma.h
@@ -54,34 +54,20 @@
 
 #ifdef DUMA_NO_DUMA
 
-/* enable these macros even in release code, but do nothing */
-#define DUMA_newFrame()                                                        \
-  do {                                                                         \
-  } while (0)
-#define DUMA_delFrame()                                                        \
-  do {                                                                         \
-  } while (0)
+/* enable these macros even in release code, but do nothing;
+ * expressions, as the macros of the debug code are
+ */
+#define DUMA_newFrame() ((void)0)
+#define DUMA_delFrame() ((void)0)
 
-#define DUMA_SET_ALIGNMENT(V)                                                  \
-  do {                                                                         \
-  } while (0)
-#define DUMA_SET_PROTECT_BELOW(V)                                              \
-  do {                                                                         \
-  } while (0)
-#define DUMA_SET_FILL(V)                                                       \
-  do {                                                                         \
-  } while (0)
+#define DUMA_SET_ALIGNMENT(V) ((void)0)
+#define DUMA_SET_PROTECT_BELOW(V) ((void)0)
+#define DUMA_SET_FILL(V) ((void)0)
 
-#define DUMA_ASSERT(EXPR)                                                      \
-  do {                                                                         \
-  } while (0)
+#define DUMA_ASSERT(EXPR) ((void)0)
 
-#define DUMA_CHECK(BASEADR)                                                    \
-  do {                                                                         \
-  } while (0)
-#define DUMA_CHECKALL()                                                        \
-  do {                                                                         \
-  } while (0)
+#define DUMA_CHECK(BASEADR) ((void)0)
+#define DUMA_CHECKALL() ((void)0)
 
 #define DUMA_FN_PROT_START {
 #define DUMA_FN_PROT_END }
@@ -348,12 +334,8 @@ DUMA_EXTERN_C char *_duma_strncat(char *dest, const char *src, size_t size);
 #define strncat(DEST, SRC, SIZE)                                               \
   _duma_strncat(DEST, SRC, SIZE, __FILE__, __LINE__)
 #else /* DUMA_NO_LEAKDETECTION */
-#define DUMA_newFrame()                                                        \
-  do {                                                                         \
-  } while (0)
-#define DUMA_delFrame()                                                        \
-  do {                                                                         \
-  } while (0)
+#define DUMA_newFrame() ((void)0)
+#define DUMA_delFrame() ((void)0)
 #endif /* DUMA_NO_LEAKDETECTION */
 #endif // DUMA_SKIP_SETUP
 
-- 
2.43.0


From 9481bec87f6595453cb7eb584e803c2a33420a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 41/42] fix: DEL_ELEM/DEL_ARRAY of an expression without DUMA

---
 dumapp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dumapp.h b/dumapp.h
index 3213f39..accabf0 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -48,12 +48,12 @@
 /* define macros as wrapper without special functionality */
 #define NEW_ELEM(TYPE) new TYPE
 #define NEW_ARRAY(TYPE, COUNT) new TYPE[COUNT]
-#define DEL_ELEM(PTR) delete PTR
-#define DEL_ARRAY(PTR) delete[] PTR
+#define DEL_ELEM(PTR) delete (PTR)
+#define DEL_ARRAY(PTR) delete[] (PTR)
 #define NEW_ELEM_NOTHROW(TYPE) new (std::nothrow) TYPE
 #define NEW_ARRAY_NOTHROW(TYPE, COUNT) new (std::nothrow) TYPE[COUNT]
-#define DEL_ELEM_NOTHROW(PTR) delete PTR
-#define DEL_ARRAY_NOTHROW(PTR) delete[] PTR
+#define DEL_ELEM_NOTHROW(PTR) delete (PTR)
+#define DEL_ARRAY_NOTHROW(PTR) delete[] (PTR)
 #endif /* ( defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION) ||  \
         *   defined(DUMA_NO_DUMA) )                                            \
         */
-- 
2.43.0


From 593bef442908a777c70a9e317bb8ef9c8d79aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:43 +0000
Subject: [PATCH 42/42] fix: duma_check() and malloc_usable_size() accepted the
 address of DUMA's own table

---
 src/duma.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 126b51f..342d19d 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2014,7 +2014,9 @@ void duma_check(void *address) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!(slot = slotForUserAddress(address))) {
+  /* the table of slots is no block of the program */
+  if (!(slot = slotForUserAddress(address)) ||
+      EFA_INT_ALLOC == slot->allocator) {
     if ((slot = nearestSlotForUserAddress(address))) {
 #ifndef DUMA_NO_LEAKDETECTION
       if (DUMAFS_ALLOCATION == slot->fileSource)
@@ -2297,7 +2299,8 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!(slot = slotForUserAddress(ptr)) || DUMAST_IN_USE != slot->state) {
+  if (!(slot = slotForUserAddress(ptr)) || DUMAST_IN_USE != slot->state ||
+      EFA_INT_ALLOC == slot->allocator) {
     DUMA_Abort("malloc_usable_size(%a): address not from malloc or already freed.",
       (DUMA_ADDR)ptr);
   }
-- 
2.43.0

