From 2f5102bc43773006eacb89233d925cf26fd92c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 01/25] fix: malloc_usable_size() read the allocation list
 without the lock

---
 src/duma.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index ae1c2bc..fcf26a8 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2197,6 +2197,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 #endif
   }
 
+  IF__DUMA_INIT_DONE
+  DUMA_GET_SEMAPHORE();
+
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
   if (!(slot = slotForUserAddress(ptr))) {
@@ -2207,6 +2210,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
+
   return size;
 }
 
-- 
2.43.0


From cd34ed0867c44aec5385c504b34098a265799578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 02/25] fix: DUMA_delFrame() used the allocation list and
 counters outside the lock

---
 src/duma.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index fcf26a8..9aa61e7 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2536,8 +2536,8 @@ void DUMA_newFrame(void) {}
  * the application to locate memory leaks.
  */
 void DUMA_delFrame(void) {
-  struct _DUMA_Slot *slot = _duma_g.allocList;
-  size_t count = _duma_s.slotCount;
+  struct _DUMA_Slot *slot;
+  size_t count;
   int nonFreedTotal = 0;
   int nonFreedReported = 0;
   int iExtraLeaks;
@@ -2547,6 +2547,8 @@ void DUMA_delFrame(void) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  slot = _duma_g.allocList;
+  count = _duma_s.slotCount;
   for (; count > 0; --count, ++slot) {
     if (DUMAST_IN_USE == slot->state && EFA_INT_ALLOC != slot->allocator
 #ifdef DUMA_EXPLICIT_INIT
@@ -2594,16 +2596,16 @@ void DUMA_delFrame(void) {
                "allocation information.\n",
                nonFreedReported, iExtraLeaks);
 
-  Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
-
-  IF__DUMA_INIT_DONE
-  DUMA_RELEASE_SEMAPHORE(0);
-
   if (_duma_s.SHOW_ALLOC)
     DUMA_Print(
         "\nDUMA:   Allocation(s): %l"
         "\nDUMA: Deallocation(s): %l\n",
         _duma_s.numAllocs, _duma_s.numDeallocs);
+
+  Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
+
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
 }
 
 /* Function: _duma_exit
-- 
2.43.0


From 35c726f9f8e2f534d3486fbcba7a48607e1c76b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 03/25] fix: the allocation counter was incremented outside the
 lock

---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 9aa61e7..671e373 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1348,8 +1348,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   /* initialize return value */
   userAddr = 0;
 
-  /* count and show allocation, if requested */
-  _duma_s.numAllocs++;
+  /* show allocation, if requested */
   if (_duma_s.SHOW_ALLOC) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Print("\nDUMA: Allocating %d byte(s) at %s(%i).", (DUMA_SIZE)userSize,
@@ -1460,6 +1459,9 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   }
 
+  /* count allocation; the lock is held from here on */
+  _duma_s.numAllocs++;
+
   /*
    * If I'm running out of empty slots, create some more before
    * I don't have enough slots left to make an allocation.
-- 
2.43.0


From 283b033be3e9781a1991ab62b6b5765bf2542aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 04/25] fix: Page_Create() truncated the size of a mapping to
 an int

---
 paging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paging.h b/paging.h
index 61ee8d8..5193dfa 100644
--- a/paging.h
+++ b/paging.h
@@ -153,7 +153,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 
 #ifndef __hpux
@@ -198,7 +198,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
                     devZeroFd, 0);
 
   startAddr = allocation + size;
-- 
2.43.0


From d127c69a82b069b5dab118b533b79ccadbca42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 05/25] fix: size computations of an allocation wrapped around
 near SIZE_MAX

---
 src/duma.c | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 671e373..72e3407 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1268,6 +1268,10 @@ static void allocateMoreSlots(void) {
  */
 void *duma_alloc_return(void *address) { return address; }
 
+#ifndef SIZE_MAX
+#define SIZE_MAX ((size_t)(-1))
+#endif
+
 /* Function: _duma_allocate
  *
  * This is the memory allocator. When asked to allocate a buffer, allocate
@@ -1425,11 +1429,15 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
      * the dead page.
      */
     /* a bit tricky but no modulo and no if () */
-    internalSize = ((userSize + DUMA_PAGE_SIZE - 1) & ~(DUMA_PAGE_SIZE - 1)) +
-                   DUMA_PAGE_SIZE;
+    /* size of dead page and of the room for the alignment */
+    internalSize = (alignment > DUMA_PAGE_SIZE) ? alignment : DUMA_PAGE_SIZE;
 
-    if (alignment > DUMA_PAGE_SIZE)
-      internalSize += alignment - DUMA_PAGE_SIZE;
+    if (userSize > SIZE_MAX - (DUMA_PAGE_SIZE - 1) - internalSize)
+      /* not representable: no region is that large; let the request fail */
+      internalSize = SIZE_MAX & ~(size_t)(DUMA_PAGE_SIZE - 1);
+    else
+      internalSize +=
+          ((userSize + DUMA_PAGE_SIZE - 1) & ~(DUMA_PAGE_SIZE - 1));
   } /* end if ( userSize ) */
 
   /*
@@ -1547,19 +1555,9 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         _duma_s.sumAllocatedMem + chunkSizekB > _duma_s.MAX_ALLOC)
       reduceProtectedMemory(chunkSizekB);
 
-#ifndef SIZE_MAX
-#define SIZE_MAX ((size_t)(-1))
-#endif
-    size_t numChunks = SIZE_MAX;
-    if (userSize > (SIZE_MAX) - (chunkSize - 1))
-      fullSlot->internalAddress = 0;
-    else {
-      numChunks =
-          (userSize <= 0) ? 1 : (userSize + (chunkSize - 1)) / chunkSize;
-      DUMA_ASSERT(numChunks >= 1);
-      fullSlot->internalAddress = Page_Create(
-          chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
-    }
+    /* chunkSize >= internalSize > userSize: a single chunk is sufficient */
+    fullSlot->internalAddress =
+        Page_Create(chunkSize, 0 /*= exitonfail*/, 0 /*= printerror*/);
 
     if (0 == fullSlot->internalAddress && 0L != _duma_s.PROTECT_FREE) {
       int reduce_more;
@@ -1567,19 +1565,19 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         /* reduce as much protected memory as we need - or at least try so */
         reduce_more = reduceProtectedMemory((chunkSize + 1023) >> 10);
         /* simply try again */
-        fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
+        fullSlot->internalAddress =
+            Page_Create(chunkSize, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
 
       if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
         fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+            chunkSize, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
     if (fullSlot->internalAddress) {
-      _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-      _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-      fullSlot->internalSize = chunkSize * numChunks;
+      _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10);
+      _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10);
+      fullSlot->internalSize = chunkSize;
       fullSlot->state = DUMAST_FREE;
       --_duma_s.unUsedSlots;
     }
-- 
2.43.0


From ae5c6e16610eb481078eb711f0326da9917e1ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 06/25] fix: DUMA_MALLOC_FAILEXIT had no effect with
 DUMA_PROTECT_FREE=0

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 72e3407..7b4bb51 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1568,12 +1568,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         fullSlot->internalAddress =
             Page_Create(chunkSize, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
-
-      if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
-        fullSlot->internalAddress = Page_Create(
-            chunkSize, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
+    if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
+      fullSlot->internalAddress = Page_Create(
+          chunkSize, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+
     if (fullSlot->internalAddress) {
       _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10);
       _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10);
-- 
2.43.0


From 07e105c917fe8f572fcd42d7a5f5a1e07dc63a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 07/25] fix: calloc() ignored the overflow of its product

---
 src/duma.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 7b4bb51..1e1f371 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2032,7 +2032,13 @@ void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
 
   duma_tls = GET_DUMA_TLSVARS();
 
-  return _duma_allocate(0, nelem * elsize, duma_tls->PROTECT_BELOW,
+  /* let the allocation fail, when the product is not representable */
+  if (elsize && nelem > SIZE_MAX / elsize)
+    elsize = SIZE_MAX;
+  else
+    elsize *= nelem;
+
+  return _duma_allocate(0, elsize, duma_tls->PROTECT_BELOW,
                         0 /*=fillByte*/, 1 /*=protectAllocList*/, EFA_CALLOC,
                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
 }
-- 
2.43.0


From 95efdcc098c43691eb62b11f0ca33e56fb3dffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 08/25] fix: protect-below blocks aligned beyond a page made
 foreign memory accessible

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 1e1f371..78c037f 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1660,7 +1660,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       /* DUMA_ASSERT(intAddr < userAddr && intAddr <= protAddr ); */
 
       /* Set up the "live" page(s). userAddr == protAddr + DUMA_PAGE_SIZE ! */
-      Page_AllowAccess((char *)userAddr, internalSize - (userAddr - protAddr));
+      Page_AllowAccess((char *)userAddr, endAddr - userAddr);
       /* Set up the "dead" page(s). */
       Page_DenyAccess((char *)intAddr, userAddr - intAddr);
     }
-- 
2.43.0


From 9c93547649ab1f7e5283926c80db10da84d10061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 09/25] fix: power-of-two test looked at the low 32 bits of an
 alignment only

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 78c037f..c12ffb4 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1411,7 +1411,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       alignment = (size_t)a; /* this is new alignment */
     }
 
-    if ((int)alignment != ((int)alignment & -(int)alignment)) {
+    if (alignment & (alignment - 1)) {
 #ifndef DUMA_NO_LEAKDETECTION
       DUMA_Abort("Alignment (=%d) is not a power of 2; requested from %s(%i)",
                  (DUMA_SIZE)alignment, filename, lineno);
-- 
2.43.0


From c0e167657b1d93097f6708e35d95b0211af05b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 10/25] fix: releasing protected memory left the statistics
 behind

---
 duma_hlp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index 58993ed..e990bfc 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -81,6 +81,7 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       slot->filename = 0;
       slot->lineno = 0;
 #endif
+      ++_duma_s.unUsedSlots;
 
       if (alreadyReducekB >= reductionSizekB) {
         _duma_s.sumProtectedMem -= alreadyReducekB;
@@ -89,6 +90,9 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       }
     }
 
+  /* not as much as wanted, but this much is released now */
+  _duma_s.sumProtectedMem -= alreadyReducekB;
+  _duma_s.sumAllocatedMem -= alreadyReducekB;
   return 0;
 }
 
-- 
2.43.0


From f9148c8a6116de634e1022d4c3c3d138b82f80aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 11/25] fix: the zero-size strategies were not read under their
 documented names

---
 src/duma.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index c12ffb4..be3b9fc 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -825,7 +825,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for malloc(0).
    */
-  if ((string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_MALLOC_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 0 && tmp <= 3)
       _duma_s.MALLOC_0_STRATEGY = tmp;
@@ -834,7 +834,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for C++ operator new with size zero.
    */
-  if ((string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_NEW_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 2 && tmp <= 3)
       _duma_s.NEW_0_STRATEGY = tmp;
-- 
2.43.0


From 6d750855974e5e1d4087c89c80089b15ad259843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 12/25] fix: string functions counted bytes in an unsigned int

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index be3b9fc..e3f37e8 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2230,7 +2230,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   size_t size;
   char *dup;
   DUMA_TLSVARS_T *duma_tls;
-  unsigned i;
+  size_t i;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2265,7 +2265,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
 void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   char *d = (char *)dest;
   const char *s = (const char *)src;
-  unsigned i;
+  size_t i;
 
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
@@ -2398,7 +2398,7 @@ char *_duma_strncpy(char *dest, const char *src,
  * of dest to verify assumptions.
  */
 char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
@@ -2429,7 +2429,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen, srclen;
 
   /* do nothing, when size not > 0 */
-- 
2.43.0


From a091f21ad44490b83bc9b35561d31696d0a8e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 13/25] fix: strncpy() missed an overlap with the terminator of
 its source

---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index e3f37e8..aee196f 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2363,8 +2363,10 @@ char *_duma_strncpy(char *dest, const char *src,
 
   srclen = _duma_strnlen(src, size);
 
-  if (size > 0 && ((src < dest && dest < src + srclen) ||
-                   (dest < src && src < dest + size))) {
+  /* the terminator of src is read, too - if it is within size */
+  if (size > 0 &&
+      ((src < dest && dest < src + srclen + (srclen < size ? 1 : 0)) ||
+       (dest < src && src < dest + size))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncpy(%a, %a, %d): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, (DUMA_SIZE)size, filename,
-- 
2.43.0


From 09810f8a0faf6821f57a7b5783969f18d9f39bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 14/25] fix: strncat() reported an overlap with a byte it does
 not read

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index aee196f..2a033a3 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2443,7 +2443,7 @@ char *_duma_strncat(char *dest, const char *src,
   srclen = _duma_strnlen(src, size);
 
   /* CHECK: Verify memory regions do not overlap */
-  if (src < (dest + destlen) && (dest + destlen) < (src + srclen + 1)) {
+  if (src < (dest + destlen) && (dest + destlen) < (src + srclen + (srclen < size ? 1 : 0))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncat(%a, %a, %d): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, (DUMA_SIZE)size, filename,
-- 
2.43.0


From 94ccac3915d13a06c85af4d7797eaa577ad4f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 15/25] fix: realloc() and duma_check() refused the common
 block for size 0

---
 src/duma.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 2a033a3..7b05c90 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1928,7 +1928,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 void duma_check(void *address) {
   struct _DUMA_Slot *slot;
 
-  if (0 == address)
+  if (0 == address || _duma_g.null_addr == address)
     return;
 
   IF__DUMA_INIT_DONE
@@ -2124,7 +2124,8 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!oldBuffer) {
+  /* the common block for size 0 has no contents and needs no release */
+  if (!oldBuffer || _duma_g.null_addr == oldBuffer) {
     ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, duma_tls->FILL,
                          0 /*=protectAllocList*/, EFA_REALLOC,
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
-- 
2.43.0


From 8fb6bbf9ce4bf3e81d2d3ca4f44dbb60df0047aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 16/25] fix: realloc() of a freed block crashed instead of
 reporting

---
 src/duma.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 7b05c90..1f6ec89 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2146,6 +2146,11 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
         DUMA_Abort("realloc(%a, %d): address not from malloc().",
                    (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
 
+      if (DUMAST_ALL_PROTECTED == slot->state ||
+          DUMAST_BEGIN_PROTECTED == slot->state)
+        DUMA_Abort("realloc(%a, %d): memory already freed.",
+                   (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
+
       if (newSize > slot->userSize) {
         memcpy(ptr, oldBuffer, slot->userSize);
         memset((char *)ptr + slot->userSize, 0, newSize - slot->userSize);
-- 
2.43.0


From 8cf9cbea537969873d18c81c6c6b3da23cfa45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 17/25] fix: deleting a null pointer before the first
 allocation was fatal

---
 src/duma.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 1f6ec89..79f4145 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1738,6 +1738,9 @@ void _duma_deallocate(void *address, int protectAllocList,
   struct _DUMA_Slot *slot;
   long internalSizekB;
 
+  if (0 == address || _duma_g.null_addr == address)
+    return;
+
   if (0 == _duma_g.allocList) {
 #ifdef DUMA_DETOURS
     /* Odd things happen with detours sometimes... */
@@ -1748,9 +1751,6 @@ void _duma_deallocate(void *address, int protectAllocList,
 #endif
   }
 
-  if (0 == address || _duma_g.null_addr == address)
-    return;
-
   if (protectAllocList) {
     IF__DUMA_INIT_DONE
     DUMA_GET_SEMAPHORE();
-- 
2.43.0


From bbcc0b93ca91725ed261f628abdb6ddb8e468c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 18/25] fix: the smallest long value was printed as garbage

---
 src/print.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/print.c b/src/print.c
index 7ef5425..0b3b5ed 100644
--- a/src/print.c
+++ b/src/print.c
@@ -140,10 +140,13 @@ static int sprintLong(char *dest, long value, long base) {
     if (--s == buffer)
       DUMA_Abort("Internal error printing number.");
 
+    /* also for negative values: the sign is up to the caller */
     digit = value % base;
+    if (digit < 0)
+      digit = -digit;
     *s = (char)((digit < 10) ? ('0' + digit) : ('a' + digit - 10));
 
-  } while ((value /= base) > 0);
+  } while ((value /= base) != 0);
 
   size = &buffer[NUMBER_BUFFER_SIZE] - s;
   buffer[NUMBER_BUFFER_SIZE] = '\0';
@@ -199,20 +202,16 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
       case 'i': /* int */
       {
         long n = (long)va_arg(args, int);
-        if (n < 0) {
+        if (n < 0)
           buffer[len++] = '-';
-          n = -n;
-        }
         len += sprintLong(&buffer[len], n, 10);
         break;
       }
       case 'l': /* long */
       {
         long n = va_arg(args, long);
-        if (n < 0) {
+        if (n < 0)
           buffer[len++] = '-';
-          n = -n;
-        }
         len += sprintLong(&buffer[len], n, 10);
         break;
       }
-- 
2.43.0


From 4b5c1754c78bfd3fdce5dff4b45262c825547420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 19/25] fix: long texts in a report overflowed its buffer

---
 src/print.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/print.c b/src/print.c
index 0b3b5ed..0911d00 100644
--- a/src/print.c
+++ b/src/print.c
@@ -90,7 +90,8 @@ typedef LPVOID caddr_t;
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
 static int sprintLong(char *dest, long number, long base);
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
+static int DUMA_vsprintf(char *buffer, int size, const char *pattern,
+                         va_list args);
 
 /*
  * NUMBER_BUFFER_SIZE is the longest character string that could be needed
@@ -167,17 +168,22 @@ static int sprintLong(char *dest, long value, long base) {
  *   %l = long
  *   %s = string teminated with '\0'
  *   %c = char
+ *
+ * the output is cut off, when it does not fit into the size bytes of buffer
  */
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
+static int DUMA_vsprintf(char *buffer, int size, const char *pattern,
+                         va_list args) {
   char c;
   static const char bad_pattern[] =
       "\nDUMA: Bad pattern specifier %%%c in DUMA_Print().\n";
   const char *s = pattern;
   int len = 0;
   DUMA_ADDR n;
+  /* keep room for a number with sign and for the termination */
+  const int maxlen = size - (int)NUMBER_BUFFER_SIZE - 2;
 
   c = *s++;
-  while (c) {
+  while (c && len < maxlen) {
     if (c == '%') {
       c = *s++;
       switch (c) {
@@ -221,13 +227,12 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
         size_t length;
 
         string = va_arg(args, char *);
-        if (string) {
-          length = strlen(string);
-          strcpy(&buffer[len], string);
-        } else {
-          length = 4; /* = strlen("NULL") */
-          strcpy(&buffer[len], "NULL");
-        }
+        if (!string)
+          string = "NULL";
+        length = strlen(string);
+        if (length > (size_t)(maxlen - len))
+          length = (size_t)(maxlen - len);
+        memcpy(&buffer[len], string, length);
         len += length;
         break;
       }
@@ -262,7 +267,7 @@ void DUMA_Abort(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Aborting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], STRING_BUFFER_SIZE - lena - 1, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
   va_end(args);
@@ -294,7 +299,7 @@ void DUMA_Print(const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, STRING_BUFFER_SIZE, pattern, args);
   va_end(args);
 
 #ifdef WIN32
@@ -339,7 +344,7 @@ void DUMA_Exit(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Exiting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], STRING_BUFFER_SIZE - lena - 1, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
 #ifdef WIN32
@@ -361,7 +366,7 @@ void DUMA_sprintf(char *buffer, const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, STRING_BUFFER_SIZE, pattern, args);
   va_end(args);
   if (len <= 0)
     buffer[0] = 0;
-- 
2.43.0


From 4df2187a14a4d0b1dc4c96e61af6408740c20fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 20/25] fix: the name of the output file was reported as a leak
 of the program

---
 src/duma.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 79f4145..a3e68f7 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -762,6 +762,22 @@ static const char *duma_getenv(const char *varname) {
 
 #endif
 
+/* keep a copy of a setting for the library's own use; is never freed */
+static char *duma_keep_string(const char *string) {
+  size_t size = strlen(string) + 1;
+  char *copy = (char *)_duma_allocate(
+      1 /*=alignment*/, size, 0 /*=protectBelow*/, -1 /*=fillByte*/,
+      1 /*=protectAllocList*/, EFA_INT_ALLOC,
+#ifndef DUMA_NO_LEAKDETECTION
+      DUMA_FAIL_ENV, __FILE__, __LINE__);
+#else
+      DUMA_FAIL_ENV);
+#endif
+  if (copy)
+    memcpy(copy, string, size);
+  return copy;
+}
+
 static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   const char *string;
 
@@ -900,11 +916,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that this option is disabled.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_STACKTRACE_MAPFILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_STACKTRACE_MAPFILE = duma_keep_string(string);
 
   /*
    * DUMA_OUTPUT_DEBUG is a global variable used to control if DUMA
@@ -936,11 +948,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that output is not by default sent to a file.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_FILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_FILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_FILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_FILE = duma_keep_string(string);
 
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
-- 
2.43.0


From b2e360cc88e629444b94f013e18a320276cd9215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 21/25] fix: programs did not compile or link with the library
 compiled out

---
 duma.h   | 41 ++++++++++++++---------------------------
 dumapp.h |  5 +++--
 2 files changed, 17 insertions(+), 29 deletions(-)

diff --git a/duma.h b/duma.h
index 6c28ca2..29d6fd6 100644
--- a/duma.h
+++ b/duma.h
@@ -55,40 +55,27 @@
 #ifdef DUMA_NO_DUMA
 
 /* enable these macros even in release code, but do nothing */
-#define DUMA_newFrame()                                                        \
-  do {                                                                         \
-  } while (0)
-#define DUMA_delFrame()                                                        \
-  do {                                                                         \
-  } while (0)
+#define DUMA_newFrame() ((void)0)
+#define DUMA_delFrame() ((void)0)
 
-#define DUMA_SET_ALIGNMENT(V)                                                  \
-  do {                                                                         \
-  } while (0)
-#define DUMA_SET_PROTECT_BELOW(V)                                              \
-  do {                                                                         \
-  } while (0)
-#define DUMA_SET_FILL(V)                                                       \
-  do {                                                                         \
-  } while (0)
+#define DUMA_SET_ALIGNMENT(V) ((void)0)
+#define DUMA_SET_PROTECT_BELOW(V) ((void)0)
+#define DUMA_SET_FILL(V) ((void)0)
 
-#define DUMA_ASSERT(EXPR)                                                      \
-  do {                                                                         \
-  } while (0)
+#define DUMA_ASSERT(EXPR) ((void)0)
 
-#define DUMA_CHECK(BASEADR)                                                    \
-  do {                                                                         \
-  } while (0)
-#define DUMA_CHECKALL()                                                        \
-  do {                                                                         \
-  } while (0)
+#define DUMA_CHECK(BASEADR) ((void)0)
+#define DUMA_CHECKALL() ((void)0)
 
-#define CA_DECLARE(NAME, SIZE)                                                 \
-  do {                                                                         \
-  } while (0)
+#define CA_DECLARE(NAME, SIZE) struct NAME##_unchecked
 #define CA_DEFINE(TYPE, NAME, SIZE) TYPE NAME[SIZE]
 #define CA_REF(NAME, INDEX) NAME[INDEX]
 
+#define DUMA_FN_PROT_START {
+#define DUMA_FN_PROT_END }
+#define DUMA_FN_PROT_RET(EXPR) return (EXPR)
+#define DUMA_FN_PROT_RET_VOID() return
+
 #else /* ifndef DUMA_NO_DUMA */
 
 #ifndef DUMA_EXTERNS_DECLARED
diff --git a/dumapp.h b/dumapp.h
index de00918..d4f0ac4 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -43,7 +43,8 @@
 /* remove previous macro definitions */
 #include "noduma.h"
 
-#if (defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION))
+#if (defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION) ||         \
+     defined(DUMA_NO_DUMA))
 /* define macros as wrapper without special functionality */
 #define NEW_ELEM(TYPE) new TYPE
 #define NEW_ARRAY(TYPE, COUNT) new TYPE[COUNT]
@@ -74,7 +75,7 @@
 #define NEW_THROW_SPEC
 #endif
 
-#ifndef DUMA_NO_CPP_SUPPORT
+#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_DUMA)
 
 #ifndef DUMA_CPP_OPERATORS_DECLARED /* && !defined(DUMA_NO_CPP_SUPPORT) */
 #define DUMA_CPP_OPERATORS_DECLARED
-- 
2.43.0


From 8bc04ee6a4d1b72fa2c5d5a6361570067414d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 22/25] fix: running out of records fails the allocation
 instead of aborting or writing through NULL

---
 src/duma.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index a3e68f7..5a1fbee 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1523,6 +1523,19 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   }
 
+#if !defined(WIN32)
+  /* no record left for the rest of a larger buffer: don't use it */
+  if (fullSlot && !emptySlots[0] && fullSlot->internalSize > internalSize)
+    fullSlot = 0;
+
+  if (!fullSlot && !emptySlots[1] &&
+      (DUMA_FAIL_ENV != fail || !_duma_s.MALLOC_FAILEXIT)) {
+    /*
+     * The list of records is full and couldn't be enlarged: out of memory.
+     * fullSlot stays 0, thus NULL is returned.
+     */
+  } else
+#endif
   if (!fullSlot) {
     /*
      * I get here if I haven't been able to find a free buffer
@@ -1591,7 +1604,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   } /* end if ( !fullSlot ) */
 
-  if (fullSlot->internalSize) {
+  if (fullSlot && fullSlot->internalSize) {
 
 #if !defined(WIN32)
     /*
-- 
2.43.0


From 938cb589ae8afad609f19a1039b3adcc074c6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:05 +0000
Subject: [PATCH 23/25] fix: realloc() of an invalid address reports it also
 when no memory is left

---
 src/duma.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 5a1fbee..1512052 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2155,26 +2155,30 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                      EFA_REALLOC DUMA_PARAMS_FL);
     ptr = NULL;
   } else {
+    struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
+    size_t oldSize;
+
+    if (slot == 0)
+      DUMA_Abort("realloc(%a, %d): address not from malloc().",
+                 (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
+
+    if (DUMAST_ALL_PROTECTED == slot->state ||
+        DUMAST_BEGIN_PROTECTED == slot->state)
+      DUMA_Abort("realloc(%a, %d): memory already freed.",
+                 (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
+
+    /* the list of records may move */
+    oldSize = slot->userSize;
+
     ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
                          0 /*=protectAllocList*/, EFA_REALLOC,
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
 
     DUMA_ASSERT(oldBuffer);
     if (ptr) {
-      struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
-
-      if (slot == 0)
-        DUMA_Abort("realloc(%a, %d): address not from malloc().",
-                   (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
-
-      if (DUMAST_ALL_PROTECTED == slot->state ||
-          DUMAST_BEGIN_PROTECTED == slot->state)
-        DUMA_Abort("realloc(%a, %d): memory already freed.",
-                   (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
-
-      if (newSize > slot->userSize) {
-        memcpy(ptr, oldBuffer, slot->userSize);
-        memset((char *)ptr + slot->userSize, 0, newSize - slot->userSize);
+      if (newSize > oldSize) {
+        memcpy(ptr, oldBuffer, oldSize);
+        memset((char *)ptr + oldSize, 0, newSize - oldSize);
       } else // if (newSize > 0) // (newSize <= 0) already in other case
         memcpy(ptr, oldBuffer, newSize);
 
-- 
2.43.0


From 1d3be92a5558754cfe3c680afbcfa468abf1d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:24 +0000
Subject: [PATCH 24/25] fix: report failing first mapping instead of walking a
 list of records that does not exist yet

---
 src/duma.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 1512052..a329a52 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1140,20 +1140,10 @@ void
    */
   slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
       size, 0 /*=exitonfail*/, 0 /*=printerror*/);
-  if (0 == _duma_g.allocList && 0L != _duma_s.PROTECT_FREE) {
-    int reduce_more;
-    do {
-      /* reduce as much protected memory as we need - or at least try so */
-      reduce_more = reduceProtectedMemory((size + 1023) >> 10);
-      /* simply try again */
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 0 /*=exitonfail*/, 0 /*= printerror*/);
-    } while (reduce_more && 0 == _duma_g.allocList);
-
-    if (0 == _duma_g.allocList)
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 1 /*=exitonfail*/, 1 /*= printerror*/);
-  }
+  /* there is no list of records yet: no protected memory to be reduced */
+  if (0 == _duma_g.allocList)
+    slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
+        size, 1 /*=exitonfail*/, 1 /*= printerror*/);
 
   memset((char *)_duma_g.allocList, 0, _duma_s.allocListSize);
 
-- 
2.43.0


From a8c1b95f5cca0ac8b03e4ab722b2d3a8469da6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:52 +0000
Subject: [PATCH 25/25] fix: count the memory mapped by the initialisation as
 allocated

---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index a329a52..5c43cc3 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1183,6 +1183,10 @@ void
    */
   _duma_s.unUsedSlots = _duma_s.slotCount - 2;
 
+  /* .. and for the memory: it is subtracted again when it gets released */
+  _duma_s.sumAllocatedMem += (long)((size + 1023) >> 10);
+  _duma_s.sumTotalAllocatedMem += (long)((size + 1023) >> 10);
+
   /* construction done */
   if (_duma_s.init_state < DUMAIS_OUT_CONSTRUCTOR)
     _duma_s.init_state = DUMAIS_OUT_CONSTRUCTOR;
-- 
2.43.0

