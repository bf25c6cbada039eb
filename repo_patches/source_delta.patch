From 2f0798f045c0880c14c94952ad52b13aa6b4144a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 001/160] fix: merge sort of double and long double arrays
 compared elements as float

---
 src/Sort.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 433027a..9d48bd2 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -1437,7 +1437,7 @@ static void mergesort0_float(T * pl, T * pr, T * pw, T * head)
         pk = pl;
         while (pj < pi && pm < pr)
         {
-            if (COMPARE_LT<float, Ascending>(*pm, *pj))
+            if (COMPARE_LT<T, Ascending>(*pm, *pj))
             {
                 *pk++ = *pm++;
             }
@@ -1470,7 +1470,7 @@ static void mergesort0_float(T * pl, T * pr, T * pw, T * head)
             vp = *pi;
             pj = pi;
             pk = pi - 1;
-            while (pj > pl && COMPARE_LT<float, Ascending>(vp, *pk))
+            while (pj > pl && COMPARE_LT<T, Ascending>(vp, *pk))
             {
                 *pj-- = *pk--;
             }
-- 
2.43.0


From 034b9dcb029aaca0f45e44cd89a289ee92557b2c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 002/160] fix: descending sort of void keys compared the odd
 last byte in ascending order

---
 src/Sort.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 9d48bd2..3efa834 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -162,7 +162,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 4:
@@ -180,7 +180,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 4;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 6:
@@ -210,7 +210,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
         }
         return 0;
     case 8:
@@ -237,7 +237,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
             case 1:
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 2:
@@ -255,7 +255,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 2;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 4:
@@ -273,7 +273,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 4;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 6:
@@ -303,7 +303,7 @@ NPY_INLINE static int VOID_LT(const char * s1, const char * s2, size_t len)
                 c2 += 2;
                 if (*c1 != *c2)
                 {
-                    return *c1 < *c2;
+                    return COMPARE_LT<unsigned char, Ascending>(*c1, *c2);
                 }
                 return 0;
             case 8:
-- 
2.43.0


From c47226895c4c249272760eb8d29dff2d5585094c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 003/160] fix: group from lexsort merged distinct 7-byte keys
 whose last byte decreases

---
 src/Sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 3efa834..4c6e903 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -396,7 +396,7 @@ NPY_INLINE static int BINARY_LT(const char * s1, const char * s2, size_t len)
         c2 += 2;
         if (*c1 != *c2)
         {
-            return *c1 < *c2;
+            return 1;
         }
         return 0;
     case 8:
-- 
2.43.0


From 9f9cdfa5ce9c7ed687fe600d96c4394bdad20a8e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 004/160] fix: SDS writer dropped empty arrays when not
 compressing

---
 src/SDSFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index e489f76..7c1ad1e 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -2590,7 +2590,8 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
         wantedSize += bandCount * sizeof(int64_t);
     }
 
-    if (pstCompressArrays->pCoreMemorySize[core] < wantedSize)
+    // An empty, uncompressed array wants no memory, but still has to be recorded
+    if (!pstCompressArrays->pCoreMemory[core] || pstCompressArrays->pCoreMemorySize[core] < wantedSize)
     {
         if (pstCompressArrays->pCoreMemory[core])
         {
@@ -2599,7 +2600,7 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
         }
 
         pstCompressArrays->pCoreMemorySize[core] = wantedSize;
-        pstCompressArrays->pCoreMemory[core] = WORKSPACE_ALLOC(wantedSize);
+        pstCompressArrays->pCoreMemory[core] = WORKSPACE_ALLOC(wantedSize > 0 ? wantedSize : 1);
 
         logger->debug("-");
     }
-- 
2.43.0


From df67b9bcbe9f6ceb0d641ee50b38978b272cc2f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 005/160] fix: SDS reader took a banded array for an
 uncompressed one when its sizes happen to match

---
 src/SDSFile.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 7c1ad1e..4a64ad1 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1297,6 +1297,14 @@ int64_t GetBytesPerBand(SDSArrayInfo * pArrayInfo, int64_t bandSize, int64_t * b
     return bytesPerBand;
 }
 
+//------------------------------------
+// An array is stored as is when both of its sizes are the same
+// (not when banded: the band offsets count toward the compressed size)
+static bool IsStoredUncompressed(const SDS_ARRAY_BLOCK * pBlockInfo)
+{
+    return pBlockInfo->ArrayBandCount <= 0 && pBlockInfo->ArrayCompressedSize == pBlockInfo->ArrayUncompressedSize;
+}
+
 //------------------------------------
 //
 static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayCompressedSize
@@ -1741,7 +1749,7 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                   pBlockInfo->ArrayCompressedSize);
 
     // Check if uncompressed
-    if (compressedSize == pBlockInfo->ArrayUncompressedSize)
+    if (IsStoredUncompressed(pBlockInfo))
     {
         // Read uncompressed chunk directly into our destination
         result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, compressedSize, pBlockInfo->ArrayDataOffset);
@@ -2508,7 +2516,7 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
     {
         // Check if uncompressed
         // check if our temporary buffer is large enough to hold decompression data
-        if (source_size != pBlockInfo->ArrayUncompressedSize && (pstCompressArrays->pCoreMemorySize[core] < source_size))
+        if (! IsStoredUncompressed(pBlockInfo) && (pstCompressArrays->pCoreMemorySize[core] < source_size))
         {
             //  Not large enough, allocate more
             if (pstCompressArrays->pCoreMemory[core])
@@ -5938,7 +5946,7 @@ bool DecompressMultiArray(void * pstCompressArraysV,
 
         // Check if uncompressed
         // check if our temporary buffer is large enough to hold decompression data
-        if ((source_size != pBlockInfo->ArrayUncompressedSize) && (pMultiIOPackets->pCoreMemorySize[core] < source_size))
+        if (! IsStoredUncompressed(pBlockInfo) && (pMultiIOPackets->pCoreMemorySize[core] < source_size))
         {
             if (pMultiIOPackets->pCoreMemory[core])
             {
-- 
2.43.0


From 4346469362a4907152e5afa83c6568ff8f024918 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 006/160] fix: one-element arrays taken with a step were
 refused as not contiguous

---
 src/MultiKey.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index d2bd21d..ce12281 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -252,7 +252,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                     goto EXIT_ROUTINE;
                 }
 
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     PyErr_Format(PyExc_ValueError, "BuildArrayInfo array strides must match itemsize -- %lld %lld", itemSize,
                                  stride0);
@@ -261,7 +261,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
             }
             else
             {
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     // If 2 dims and Fortran, then strides will not match
                     // TODO: better check
-- 
2.43.0


From 063cbfacdd56328ec4726b0e028d1fbd16c5d795 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 007/160] fix: CompressFile returned None with an exception set
 when an array could not be taken

---
 src/SDSFilePython.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 994343f..e668c65 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1509,7 +1509,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     }
 
     // If there are errors, return NULL
-    if (CheckErrors())
+    if (CheckErrors() || PyErr_Occurred())
     {
         return NULL;
     }
-- 
2.43.0


From 7ba4a241d493feeebd9fb36787a45428433d729e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:09:36 +0000
Subject: [PATCH 008/160] fix: stacking byte strings with wider or narrower
 unicode columns scrambled or overran the column

---
 src/SDSFile.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 4a64ad1..fcf9af8 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -5546,7 +5546,13 @@ SDS_COMPATIBLE IsArrayCompatible(const char * colName, SDS_ARRAY_BLOCK * pMaster
                 {
                     // upgrade the dtype
                     logger->debug("step2 conversion {}", pArrayBlock->ItemSize);
-                    UpgradeType(pMasterArrayBlock, odtype, pArrayBlock->ItemSize);
+                    int64_t newItemSize = pArrayBlock->ItemSize;
+                    if (mdtype == SDS_STRING && odtype == SDS_UNICODE && newItemSize < (int64_t)pMasterArrayBlock->ItemSize * 4)
+                    {
+                        // keep room for the strings of the master once they are unicode
+                        newItemSize = (int64_t)pMasterArrayBlock->ItemSize * 4;
+                    }
+                    UpgradeType(pMasterArrayBlock, odtype, newItemSize);
                 }
             }
             else
@@ -6053,6 +6059,12 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                             pIOPacket->pMasterBlock->Dimensions[0], slaveRowLength, pIOPacket->Compatible.NeedsStringFixup,
                             pMasterBlock->Flags);
                         ConvertDType((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, slaveItemSize);
+
+                        if (pMasterBlock->DType == SDS_UNICODE && pBlockInfo->DType == SDS_STRING)
+                        {
+                            // the strings became unicode of their own width, expand to the width of the column
+                            StringFixup((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, slaveItemSize * 4);
+                        }
                     }
                 }
             }
-- 
2.43.0


From cfb26f0bdb9db3d2eea65e90f486c5cdd4203fd7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 009/160] fix: stacking a boolean column with a numeric one
 turned False into the invalid value

---
 src/SDSFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index fcf9af8..f826105 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -14,6 +14,7 @@
 #include <stdarg.h>
 #include <string.h>
 #include <string_view>
+#include <type_traits>
 #include <unordered_map>
 #include <unordered_set>
 #include <vector>
@@ -4573,7 +4574,8 @@ static void ConvertInplace(void * pDataIn, void * pDataOut, int64_t dataInSize,
     for (int64_t i = 0; i < len; i++)
     {
         // printf("[%lld]converted %lf -> %lf\n", i, (double)*pIn, (double)*pOut);
-        if (*pIn != pBadValueIn)
+        // booleans have no invalid: False is a value
+        if (std::is_same<T, bool>::value || *pIn != pBadValueIn)
         {
             U temp = (U)*pIn;
             *pOut = temp;
-- 
2.43.0


From 9bbce7250f72f5cd366512a8119c688e6be61d2d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 010/160] fix: stacking files that lack a Fortran-ordered
 uint64, complex or string column crashed

---
 src/SDSFile.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index f826105..5d9ceaa 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -4789,7 +4789,7 @@ void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
     }
 
     // Get the invalid fill type
-    void * pDefaultType = SDSGetDefaultType(pDestInfo->NumpyDType);
+    void * pDefaultType = SDSGetDefaultType(FixupDType(pDestInfo->NumpyDType, pDestInfo->ItemSize));
     int64_t bytesToFill = oneRowSize * pDestInfo->ArrayLength;
 
     switch (pDestInfo->ItemSize)
@@ -5260,13 +5260,25 @@ void GapFillAny(SDSArrayInfo * pDestInfo, void * destBuffer, SDS_IO_PACKET * pIO
         // startrow:%lld   dtype: %d\n", (int)pMasterBlock->NDim, rowLength, colSize,
         // pIOPacket->ArrayOffset, (int)pMasterBlock->DType);
 
-        SDS_GAP_FILL_SPECIAL pGapFill = GetGapFillSpecial(pMasterBlock->DType);
+        SDS_GAP_FILL_SPECIAL pGapFill = GetGapFillSpecial(FixupDType(pMasterBlock->DType, pMasterBlock->ItemSize));
 
-        pGapFill(destBuffer, // upper left corner of src
-                 totalRowLength,
-                 pIOPacket->ArrayOffset, // array offset (start row)
-                 rowLength,              // rows for this file only
-                 colSize);
+        if (pGapFill)
+        {
+            pGapFill(destBuffer, // upper left corner of src
+                     totalRowLength,
+                     pIOPacket->ArrayOffset, // array offset (start row)
+                     rowLength,              // rows for this file only
+                     colSize);
+        }
+        else
+        {
+            // strings and other types without an invalid are filled with zeros, column by column
+            for (int64_t col = 0; col < colSize; col++)
+            {
+                memset((char *)destBuffer + (col * totalRowLength + pIOPacket->ArrayOffset) * pMasterBlock->ItemSize, 0,
+                       rowLength * pMasterBlock->ItemSize);
+            }
+        }
     }
     else
     {
-- 
2.43.0


From ff2827541ee95daa8292cf551ca05b7e66f442be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 011/160] fix: rows missing from a stacked long double column
 were filled with zero, not NaN

---
 src/SDSFile.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 5d9ceaa..3ea9cd1 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -4838,6 +4838,17 @@ void GapFill(void * destBuffer, SDSArrayInfo * pDestInfo)
         }
         break;
     default:
+        if (pDestInfo->NumpyDType == SDS_LONGDOUBLE)
+        {
+            long double * pDestBuffer = (long double *)destBuffer;
+            long double invalid = *(long double *)pDefaultType;
+            bytesToFill /= sizeof(long double);
+            for (int64_t j = 0; j < bytesToFill; j++)
+            {
+                pDestBuffer[j] = invalid;
+            }
+            break;
+        }
         // probably a string
         // does matlab want ' ' spaces instead?
         memset(destBuffer, 0, bytesToFill);
-- 
2.43.0


From 064f327f403d4c9774b7a5f77804fc7663eb85a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 012/160] fix: stacking Fortran-ordered arrays of three or more
 dimensions misplaced every column after the first plane

---
 src/SDSFile.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 3ea9cd1..e66b36e 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -5813,10 +5813,6 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
 
         if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
         {
-            if (pMasterBlock->NDim > 2)
-            {
-                logger->error("!!! error cannot rotate above two dimensions");
-            }
             int64_t allocSize = pBlockInfo->ItemSize;
             for (int32_t j = 0; j < pBlockInfo->NDim; j++)
             {
@@ -5862,7 +5858,12 @@ bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void *
     {
         int64_t totalRowLength = pMasterBlock->Dimensions[0];
         int64_t rowLength = pBlockInfo->Dimensions[0];
-        int64_t colLength = pMasterBlock->Dimensions[1];
+        // every dimension but the first (rows) is a column
+        int64_t colLength = 1;
+        for (int32_t j = 1; j < pMasterBlock->NDim; j++)
+        {
+            colLength *= pMasterBlock->Dimensions[j];
+        }
 
         RotationalFixup((char *)origBuffer, // original buffer (upper left of final destination)
                         (char *)tempBuffer, // upper left corner of src
-- 
2.43.0


From ff664ae4a27982d514a836bd1ab7f2e51354422d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 013/160] fix: stacking multi-dimensional string columns of
 different widths scrambled the strings

---
 src/SDSFile.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index e66b36e..81641b2 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -5456,10 +5456,17 @@ void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BL
 {
     // Only the itemsize for master is correct
     // The other dimensions are correct in the pSlaveBlock
+    // Every string is expanded, a row holds one for each element of the other dimensions
     int64_t oneRowSize = pMasterBlock->ItemSize;
+    int64_t stringsPerRow = 1;
     for (int32_t j = 1; j < pSlaveBlock->NDim; j++)
     {
-        oneRowSize *= pSlaveBlock->Dimensions[j];
+        stringsPerRow *= pSlaveBlock->Dimensions[j];
+    }
+
+    if (stringsPerRow > 1)
+    {
+        slaveItemSize /= stringsPerRow;
     }
 
     int64_t gap = oneRowSize - slaveItemSize;
@@ -5468,7 +5475,7 @@ void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BL
     // int64_t rows = pSlaveBlock->Dimensions[0];
 
     // new code for filtering..
-    int64_t rows = slaveRowLength;
+    int64_t rows = slaveRowLength * stringsPerRow;
 
     if (gap > 0 && rows > 0)
     {
@@ -5481,7 +5488,7 @@ void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BL
             pEndString1--;
             pEndString2--;
 
-            for (int32_t i = 0; i < rows; i++)
+            for (int64_t i = 0; i < rows; i++)
             {
                 char * pFront = pEndString2 - gap;
                 while (pEndString2 > pFront)
@@ -5512,7 +5519,7 @@ void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BL
             pEndString1--;
             pEndString2--;
 
-            for (int32_t i = 0; i < rows; i++)
+            for (int64_t i = 0; i < rows; i++)
             {
                 // first copy the gap
                 for (int32_t j = 0; j < gap; j++)
-- 
2.43.0


From 546d79e1a18fe5c0b67d03fb7e811016992ae95e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 014/160] fix: stacking Fortran-ordered columns of different
 dtypes skipped the conversion

---
 src/SDSFile.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 81641b2..451592d 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -4523,9 +4523,6 @@ void UpgradeType(SDS_ARRAY_BLOCK * pMasterArrayBlock, int32_t newdtype, int64_t
     // Check dims and fortran vs cstyle
     if (pMasterArrayBlock->NDim > 1 && pMasterArrayBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
     {
-        logger->error(
-            "!!!likely internal error with fortran array > dim 1 and upgrading "
-            "dtype!");
         pMasterArrayBlock->Strides[pMasterArrayBlock->NDim - 1] = isize;
     }
     else
@@ -5820,7 +5817,8 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
 
         if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
         {
-            int64_t allocSize = pBlockInfo->ItemSize;
+            // room for the elements once they are converted to the type of the column
+            int64_t allocSize = pBlockInfo->ItemSize > pMasterBlock->ItemSize ? pBlockInfo->ItemSize : pMasterBlock->ItemSize;
             for (int32_t j = 0; j < pBlockInfo->NDim; j++)
             {
                 allocSize *= pBlockInfo->Dimensions[j];
@@ -6066,13 +6064,8 @@ bool DecompressMultiArray(void * pstCompressArraysV,
 
             if (result >= 0)
             {
-                // Check if we had to allocate an extra buffer for rotation
-                if (origBuffer)
-                {
-                    FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer);
-                    destBuffer = origBuffer;
-                }
-                else
+                // matlab strings are converted while they are rotated
+                if (! (origBuffer && (pIOPacket->Compatible.NeedsStringFixup & 2)))
                 {
                     // Python string fixup path
                     if (pIOPacket->Compatible.NeedsStringFixup == 1)
@@ -6100,6 +6093,13 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                         }
                     }
                 }
+
+                // Check if we had to allocate an extra buffer for rotation
+                if (origBuffer)
+                {
+                    FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer);
+                    destBuffer = origBuffer;
+                }
             }
         }
     }
-- 
2.43.0


From 69e275dd576ba718b1d17f28417f15f80b8cb254 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 015/160] fix: masked loads of Fortran-ordered arrays (and of
 single-column 2-D arrays) scrambled rows and overran the buffer

---
 src/SDSFile.cpp | 96 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 92 insertions(+), 4 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 451592d..39d3d64 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1646,6 +1646,74 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
     return result;
 };
 
+static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, SDS_EVENT_HANDLE eventHandle,
+                                          SDS_FILE_HANDLE fileHandle, void * tempBuffer, void * destBuffer, int64_t arrayIndex,
+                                          int32_t core, int32_t compMode);
+
+//------------------------------------------------------------
+// Called when a filter is passed in to read a Fortran ordered array of two or more dimensions
+// Reads the whole array and then keeps the filtered rows of every column
+//
+// On Entry tempBuffer is guaranteed to be at least the compressedSize
+// return size of bytes read or -1 on failure
+static int64_t ReadAndFilterFortranArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, SDS_EVENT_HANDLE eventHandle,
+                                              SDS_FILE_HANDLE fileHandle, void * tempBuffer, void * destBuffer,
+                                              int64_t rowOffset, SDS_FILTER * pFilter, int64_t stackIndex, int32_t core,
+                                              int32_t compMode)
+{
+    // Check if all filtered out
+    if (pFilter->pFilterInfo && pFilter->pFilterInfo[stackIndex].TrueCount == 0)
+    {
+        return 0;
+    }
+
+    char * pWholeArray = (char *)WORKSPACE_ALLOC(pBlockInfo->ArrayUncompressedSize);
+    if (! pWholeArray)
+    {
+        return -1;
+    }
+
+    int64_t result = (int64_t)ReadAndDecompressArrayBlock(pBlockInfo, eventHandle, fileHandle, tempBuffer, pWholeArray, stackIndex,
+                                                          core, compMode);
+
+    if (result >= 0)
+    {
+        int64_t itemSize = pBlockInfo->ItemSize;
+        int64_t colLength = 1;
+        for (int32_t j = 1; j < pBlockInfo->NDim; j++)
+        {
+            colLength *= pBlockInfo->Dimensions[j];
+        }
+        // the rows in the file, the first dimension may already be reduced to the filtered rows
+        int64_t bytesPerRow = itemSize * colLength;
+        int64_t rowLength = bytesPerRow ? pBlockInfo->ArrayUncompressedSize / bytesPerRow : 0;
+
+        // User may have clipped data
+        int64_t maskLength = pFilter->BoolMaskLength - rowOffset;
+        if (maskLength > rowLength)
+        {
+            maskLength = rowLength;
+        }
+
+        bool * pMask = pFilter->pBoolMask + rowOffset;
+        char * pDest = (char *)destBuffer;
+        for (int64_t col = 0; col < colLength; col++)
+        {
+            char * pColumn = pWholeArray + (col * rowLength * itemSize);
+            for (int64_t i = 0; i < maskLength; i++)
+            {
+                if (pMask[i])
+                {
+                    memcpy(pDest, pColumn + (i * itemSize), itemSize);
+                    pDest += itemSize;
+                }
+            }
+        }
+    }
+    WORKSPACE_FREE(pWholeArray);
+    return result;
+}
+
 //------------------------------------------------------------
 // New routine for ver 4.3 (July 2019) to read in data from possibly a band with
 // a mask
@@ -1677,7 +1745,13 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
     // All boolean masks come here
     if (tempBuffer)
     {
-        if (pBlockInfo->ArrayBandCount > 0)
+        if (pBlockInfo->NDim >= 2 && pBlockInfo->Flags & SDS_ARRAY_F_CONTIGUOUS)
+        {
+            // the elements of a row are not next to each other
+            result = ReadAndFilterFortranArrayBlock(pBlockInfo, eventHandle, fileHandle, tempBuffer, destBuffer, rowOffset,
+                                                    pFilter, stackIndex, core, compMode);
+        }
+        else if (pBlockInfo->ArrayBandCount > 0)
         {
             // we have bands
             logger->debug("bandcount:{}  bandsize:{}  uncomp size: {}", pBlockInfo->ArrayBandCount, pBlockInfo->ArrayBandSize,
@@ -3401,6 +3475,20 @@ bool PossiblyShrinkArray(SDS_ALLOCATE_ARRAY * pArrayCallback, SDS_READ_CALLBACKS
                     pArrayCallback->pArrayName, newLength, dim0Length, pReadCallbacks->Filter.BoolMaskTrueCount,
                     pArrayCallback->sdsFlags);
                 pArrayCallback->dims[0] = newLength;
+
+                // the columns of a Fortran ordered array are now closer to each other
+                if (pArrayCallback->ndim >= 2 && pArrayCallback->numpyFlags & SDS_ARRAY_F_CONTIGUOUS)
+                {
+                    int64_t stride = pArrayCallback->itemsize;
+                    for (int32_t j = 0; j < pArrayCallback->ndim; j++)
+                    {
+                        pArrayCallback->strides[j] = stride;
+                        if (pArrayCallback->dims[j])
+                        {
+                            stride *= pArrayCallback->dims[j];
+                        }
+                    }
+                }
             }
         }
         else
@@ -5849,7 +5937,8 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
 //----------------------------------------------------------
 // Called from multiple threads
 // Frees the buffer allocated from CheckRotationalFixup
-bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void * tempBuffer)
+// rowLength is how many rows of this file were read (and not filtered out)
+bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void * tempBuffer, int64_t rowLength)
 {
     if (! tempBuffer || ! origBuffer)
     {
@@ -5862,7 +5951,6 @@ bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void *
     if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
     {
         int64_t totalRowLength = pMasterBlock->Dimensions[0];
-        int64_t rowLength = pBlockInfo->Dimensions[0];
         // every dimension but the first (rows) is a column
         int64_t colLength = 1;
         for (int32_t j = 1; j < pMasterBlock->NDim; j++)
@@ -6097,7 +6185,7 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                 // Check if we had to allocate an extra buffer for rotation
                 if (origBuffer)
                 {
-                    FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer);
+                    FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer, slaveRowLength);
                     destBuffer = origBuffer;
                 }
             }
-- 
2.43.0


From e0e4f2313d28533ed6e2081bb5bd2a18ef3e7297 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 016/160] fix: prime hash mode overran the table for 1 and 2
 byte keys

Items of one or two bytes are hashed perfectly into a table of 65536 slots, which only
the mask mode allocates.  In prime mode grouping merged distinct keys and the membership
functions wrote past the table.
---
 src/HashLinear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 033a06d..d65c551 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -1976,7 +1976,8 @@ CHashLinear<T, U>::CHashLinear(HASH_MODE hashMode, bool deallocate)
     NumUnique = 0;
     NumCollisions = 0;
     HashSize = 0;
-    HashMode = hashMode;
+    // 1 and 2 byte items are hashed perfectly, which needs a table of 65536 slots (see AllocMemory)
+    HashMode = sizeof(T) <= 2 ? HASH_MODE_MASK : hashMode;
     Deallocate = deallocate;
 
     // Can set bad index to 0?
-- 
2.43.0


From 0fddf832d35855ec0138437f5f88dcef482e360c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 017/160] fix: float nansum and nanmean left the last bins
 uninitialised

---
 src/GroupBy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f2438d2..3243bd6 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -395,7 +395,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOutAccum, 0, sizeof(double) * (binHigh - binLow));
         }
 
@@ -880,7 +880,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOriginalOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOriginalOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOut, 0, sizeof(double) * (binHigh - binLow));
         }
 
-- 
2.43.0


From 9820f3816c225828d69b487e4e2dd660b1051e83 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:55:37 +0000
Subject: [PATCH 018/160] fix: median and quantile midpoints overflowed for
 large integers

---
 src/Ema.cpp     |  3 ++-
 src/GroupBy.cpp | 13 ++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 119ebe4..94f439f 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -21,7 +21,8 @@ typedef void (*ROLLING_FUNC)(void * pDataIn, void * pDataOut, int64_t len, int64
 template <typename T, typename U>
 inline U QUANTILE_SPLIT(T X, T Y)
 {
-    return (X + Y) / 2.0;
+    // convert first, the sum may not fit an integer T
+    return (static_cast<U>(X) + static_cast<U>(Y)) / 2.0;
 }
 
 // Overloads to handle cases of bool, float, long double
diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 3243bd6..092ab6e 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -45,19 +45,21 @@ inline uint16_t MEDIAN_SPLIT(uint16_t X, uint16_t Y)
 }
 inline int32_t MEDIAN_SPLIT(int32_t X, int32_t Y)
 {
-    return (X + Y) / 2;
+    // X + Y may overflow when both have the same sign
+    return ((X < 0) == (Y < 0)) ? X / 2 + Y / 2 + (X % 2 + Y % 2) / 2 : (X + Y) / 2;
 }
 inline uint32_t MEDIAN_SPLIT(uint32_t X, uint32_t Y)
 {
-    return (X + Y) / 2;
+    return X / 2 + Y / 2 + (X % 2 + Y % 2) / 2;
 }
 inline int64_t MEDIAN_SPLIT(int64_t X, int64_t Y)
 {
-    return (X + Y) / 2;
+    // X + Y may overflow when both have the same sign
+    return ((X < 0) == (Y < 0)) ? X / 2 + Y / 2 + (X % 2 + Y % 2) / 2 : (X + Y) / 2;
 }
 inline uint64_t MEDIAN_SPLIT(uint64_t X, uint64_t Y)
 {
-    return (X + Y) / 2;
+    return X / 2 + Y / 2 + (X % 2 + Y % 2) / 2;
 }
 inline float MEDIAN_SPLIT(float X, float Y)
 {
@@ -75,7 +77,8 @@ inline long double MEDIAN_SPLIT(long double X, long double Y)
 template <typename T, typename U>
 inline U QUANTILE_SPLIT(T X, T Y)
 {
-    return (X + Y) / 2.0;
+    // convert first, the sum may not fit an integer T
+    return (static_cast<U>(X) + static_cast<U>(Y)) / 2.0;
 }
 
 // Overloads to handle cases of bool, float, long double
-- 
2.43.0


From 653831dc5f0a16f79e292f5278f215a207f9cd09 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:55:37 +0000
Subject: [PATCH 019/160] fix: trimmed mean of integers was truncated to the
 integer type

---
 src/GroupBy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 092ab6e..53b1c60 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -2096,7 +2096,7 @@ public:
                         ++cnt;
                     }
                 }
-                pDest[i] = cnt ? (T)(sum / cnt) : invalid;
+                pDest[i] = cnt ? (U)(sum / cnt) : invalid;
             }
             else
             {
-- 
2.43.0


From ce8227bb556b5ac10073dd9c4a64e0991bedba75 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 020/160] fix: rolling sums, means and variances kept values
 that had left the window

NaN and infinity stayed in the running totals for ever, the NaN-ignoring
variance removed leaving values wrongly and divided by the wrong count, the
variance of the first full window used another divisor than all later ones,
rounding made standard deviations of constants NaN, and the NaN-ignoring mean
and variance counted invalid integers.
---
 src/Ema.cpp         | 328 ++++++++++----------------------------------
 src/GroupBy.cpp     |  49 +++----
 src/RollingWindow.h | 134 ++++++++++++++++++
 3 files changed, 234 insertions(+), 277 deletions(-)
 create mode 100644 src/RollingWindow.h

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 94f439f..4393c77 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -4,6 +4,7 @@
 #include "MultiKey.h"
 #include "Ema.h"
 #include "Heap.h"
+#include "RollingWindow.h"
 
 #include <cmath>
 #include <pymem.h>
@@ -100,23 +101,23 @@ public:
         T * pIn = (T *)pDataIn;
         U * pOut = (U *)pDataOut;
 
-        U currentSum = 0;
+        RollingWindowSum<U> currentSum;
 
         // Priming of the summation
         for (int64_t i = 0; i < len && i < windowSize; i++)
         {
-            currentSum += pIn[i];
-            pOut[i] = currentSum;
+            currentSum.Add((U)pIn[i]);
+            pOut[i] = currentSum.Value();
         }
 
         for (int64_t i = windowSize; i < len; i++)
         {
-            currentSum += pIn[i];
+            currentSum.Add((U)pIn[i]);
 
             // subtract the item leaving the window
-            currentSum -= pIn[i - windowSize];
+            currentSum.Remove((U)pIn[i - windowSize]);
 
-            pOut[i] = currentSum;
+            pOut[i] = currentSum.Value();
         }
     }
 
@@ -125,69 +126,32 @@ public:
         T * pIn = (T *)pDataIn;
         U * pOut = (U *)pDataOut;
 
-        U currentSum = 0;
+        RollingWindowSum<U> currentSum;
 
-        T invalid = GET_INVALID((T)0);
-
-        if (invalid == invalid)
+        // Priming of the summation
+        for (int64_t i = 0; i < len && i < windowSize; i++)
         {
-            // NON_FLOAT
-            // Priming of the summation
-            for (int64_t i = 0; i < len && i < windowSize; i++)
-            {
-                T temp = pIn[i];
-
-                if (temp != invalid)
-                {
-                    currentSum += temp;
-                }
-                pOut[i] = currentSum;
-            }
-
-            for (int64_t i = windowSize; i < len; i++)
-            {
-                T temp = pIn[i];
-
-                if (temp != invalid)
-                    currentSum += pIn[i];
+            T temp = pIn[i];
 
-                // subtract the item leaving the window
-                temp = pIn[i - windowSize];
-                if (temp != invalid)
-                    currentSum -= pIn[i - windowSize];
+            if (riptide::invalid_for_type<T>::is_valid(temp))
+                currentSum.Add((U)temp);
 
-                pOut[i] = currentSum;
-            }
+            pOut[i] = currentSum.Value();
         }
-        else
-        {
-            // FLOAT
-            // Priming of the summation
-            for (int64_t i = 0; i < len && i < windowSize; i++)
-            {
-                T temp = pIn[i];
 
-                if (temp == temp)
-                {
-                    currentSum += temp;
-                }
-                pOut[i] = currentSum;
-            }
-
-            for (int64_t i = windowSize; i < len; i++)
-            {
-                T temp = pIn[i];
+        for (int64_t i = windowSize; i < len; i++)
+        {
+            T temp = pIn[i];
 
-                if (temp == temp)
-                    currentSum += pIn[i];
+            if (riptide::invalid_for_type<T>::is_valid(temp))
+                currentSum.Add((U)temp);
 
-                // subtract the item leaving the window
-                temp = pIn[i - windowSize];
-                if (temp == temp)
-                    currentSum -= pIn[i - windowSize];
+            // subtract the item leaving the window
+            temp = pIn[i - windowSize];
+            if (riptide::invalid_for_type<T>::is_valid(temp))
+                currentSum.Remove((U)temp);
 
-                pOut[i] = currentSum;
-            }
+            pOut[i] = currentSum.Value();
         }
     }
 
@@ -196,23 +160,23 @@ public:
         T * pIn = (T *)pDataIn;
         U * pOut = (U *)pDataOut;
 
-        U currentSum = 0;
+        RollingWindowSum<U> currentSum;
 
         // Priming of the summation
         for (int64_t i = 0; i < len && i < windowSize; i++)
         {
-            currentSum += pIn[i];
-            pOut[i] = currentSum / (i + 1);
+            currentSum.Add((U)pIn[i]);
+            pOut[i] = currentSum.Value() / (i + 1);
         }
 
         for (int64_t i = windowSize; i < len; i++)
         {
-            currentSum += pIn[i];
+            currentSum.Add((U)pIn[i]);
 
             // subtract the item leaving the window
-            currentSum -= pIn[i - windowSize];
+            currentSum.Remove((U)pIn[i - windowSize]);
 
-            pOut[i] = currentSum / windowSize;
+            pOut[i] = currentSum.Value() / windowSize;
         }
     }
 
@@ -221,7 +185,7 @@ public:
         T * pIn = (T *)pDataIn;
         U * pOut = (U *)pDataOut;
 
-        U currentSum = 0;
+        RollingWindowSum<U> currentSum;
         U count = 0;
 
         // Priming of the summation
@@ -229,34 +193,34 @@ public:
         {
             T temp = pIn[i];
 
-            if (temp == temp)
+            if (riptide::invalid_for_type<T>::is_valid(temp))
             {
-                currentSum += temp;
+                currentSum.Add((U)temp);
                 count++;
             }
-            pOut[i] = currentSum / count;
+            pOut[i] = currentSum.Value() / count;
         }
 
         for (int64_t i = windowSize; i < len; i++)
         {
             T temp = pIn[i];
 
-            if (temp == temp)
+            if (riptide::invalid_for_type<T>::is_valid(temp))
             {
-                currentSum += pIn[i];
+                currentSum.Add((U)temp);
                 count++;
             }
 
             // subtract the item leaving the window
             temp = pIn[i - windowSize];
 
-            if (temp == temp)
+            if (riptide::invalid_for_type<T>::is_valid(temp))
             {
-                currentSum -= pIn[i - windowSize];
+                currentSum.Remove((U)temp);
                 count--;
             }
 
-            pOut[i] = currentSum / count;
+            pOut[i] = currentSum.Value() / count;
         }
     }
 
@@ -330,35 +294,19 @@ public:
         T * pIn = (T *)pDataIn;
         U * pOut = (U *)pDataOut;
 
-        U amean = 0;
-        U asqr = 0;
-        U delta;
+        RollingWindowVariance<U> window;
 
         // Priming of the summation
         for (int64_t i = 0; i < len && i < windowSize; i++)
         {
-            T item = pIn[i];
-
-            delta = item - amean;
-            amean += delta / (i + 1);
-            asqr += delta * (item - amean);
-            pOut[i] = asqr / i;
+            window.Add((U)pIn[i]);
+            pOut[i] = window.Value();
         }
 
-        U count_inv = (U)1.0 / windowSize;
-
         for (int64_t i = windowSize; i < len; i++)
         {
-            U item = (U)pIn[i];
-            U old = (U)pIn[i - windowSize];
-
-            delta = item - old;
-            old -= amean;
-            amean += delta * count_inv;
-            item -= amean;
-            asqr += (item + old) * delta;
-
-            pOut[i] = asqr * count_inv;
+            window.Replace((U)pIn[i - windowSize], (U)pIn[i]);
+            pOut[i] = window.Value();
         }
     }
 
@@ -367,35 +315,19 @@ public:
         T * pIn = (T *)pDataIn;
         U * pOut = (U *)pDataOut;
 
-        U amean = 0;
-        U asqr = 0;
-        U delta;
+        RollingWindowVariance<U> window;
 
         // Priming of the summation
         for (int64_t i = 0; i < len && i < windowSize; i++)
         {
-            T item = pIn[i];
-
-            delta = item - amean;
-            amean += delta / (i + 1);
-            asqr += delta * (item - amean);
-            pOut[i] = sqrt(asqr / i);
+            window.Add((U)pIn[i]);
+            pOut[i] = sqrt(window.Value());
         }
 
-        U count_inv = (U)1.0 / windowSize;
-
         for (int64_t i = windowSize; i < len; i++)
         {
-            U item = (U)pIn[i];
-            U old = (U)pIn[i - windowSize];
-
-            delta = item - old;
-            old -= amean;
-            amean += delta * count_inv;
-            item -= amean;
-            asqr += (item + old) * delta;
-
-            pOut[i] = sqrt(asqr * count_inv);
+            window.Replace((U)pIn[i - windowSize], (U)pIn[i]);
+            pOut[i] = sqrt(window.Value());
         }
     }
 
@@ -404,85 +336,30 @@ public:
         T * pIn = (T *)pDataIn;
         U * pOut = (U *)pDataOut;
 
-        U amean = 0;
-        U asqr = 0;
-        U delta;
-        U count = 0;
+        RollingWindowVariance<U> window;
 
         // Priming of the summation
         for (int64_t i = 0; i < len && i < windowSize; i++)
         {
-            U item = (U)pIn[i];
+            if (riptide::invalid_for_type<T>::is_valid(pIn[i]))
+                window.Add((U)pIn[i]);
 
-            if (item == item)
-            {
-                count += 1;
-                delta = item - amean;
-                amean += delta / count;
-                asqr += delta * (item - amean);
-                pOut[i] = asqr / count;
-            }
-            else
-            {
-                pOut[i] = NAN;
-            }
+            pOut[i] = window.Value();
         }
 
-        U count_inv = (U)1.0 / windowSize;
-
         for (int64_t i = windowSize; i < len; i++)
         {
-            U item = (U)pIn[i];
-            U old = (U)pIn[i - windowSize];
+            bool const itemValid = riptide::invalid_for_type<T>::is_valid(pIn[i]);
+            bool const oldValid = riptide::invalid_for_type<T>::is_valid(pIn[i - windowSize]);
 
-            if (item == item)
-            {
-                if (old == old)
-                {
-                    delta = item - old;
-                    old -= amean;
-                    amean += delta * count_inv;
-                    item -= amean;
-                    asqr += (item + old) * delta;
-                }
-                else
-                {
-                    count += 1;
-                    count_inv = (U)1 / count;
-                    // ddof
-                    delta = item - amean;
-                    amean += delta * count_inv;
-                    asqr += delta * (item - amean);
-                }
-            }
-            else
-            {
-                if (old == old)
-                {
-                    count -= 1;
-                    count_inv = (U)1 / count;
-                    // dd
-                    if (count > 0)
-                    {
-                        delta = old = amean;
-                        amean -= delta * count_inv;
-                        asqr -= delta * (old - amean);
-                    }
-                    else
-                    {
-                        amean = 0;
-                        asqr = 0;
-                    }
-                }
-            }
-            if (! (asqr >= 0))
-            {
-                asqr = 0;
-            }
-
-            pOut[i] = asqr * count_inv;
+            if (itemValid && oldValid)
+                window.Replace((U)pIn[i - windowSize], (U)pIn[i]);
+            else if (itemValid)
+                window.Add((U)pIn[i]);
+            else if (oldValid)
+                window.Remove((U)pIn[i - windowSize]);
 
-            // SQR pOut[i] = sqrt(asqr*count_inv);
+            pOut[i] = window.Value();
         }
     }
 
@@ -491,85 +368,30 @@ public:
         T * pIn = (T *)pDataIn;
         U * pOut = (U *)pDataOut;
 
-        U amean = 0;
-        U asqr = 0;
-        U delta;
-        U count = 0;
+        RollingWindowVariance<U> window;
 
         // Priming of the summation
         for (int64_t i = 0; i < len && i < windowSize; i++)
         {
-            U item = (U)pIn[i];
+            if (riptide::invalid_for_type<T>::is_valid(pIn[i]))
+                window.Add((U)pIn[i]);
 
-            if (item == item)
-            {
-                count += 1;
-                delta = item - amean;
-                amean += delta / count;
-                asqr += delta * (item - amean);
-                pOut[i] = sqrt(asqr / count);
-            }
-            else
-            {
-                pOut[i] = NAN;
-            }
+            pOut[i] = sqrt(window.Value());
         }
 
-        U count_inv = (U)1.0 / windowSize;
-
         for (int64_t i = windowSize; i < len; i++)
         {
-            U item = (U)pIn[i];
-            U old = (U)pIn[i - windowSize];
-
-            if (item == item)
-            {
-                if (old == old)
-                {
-                    delta = item - old;
-                    old -= amean;
-                    amean += delta * count_inv;
-                    item -= amean;
-                    asqr += (item + old) * delta;
-                }
-                else
-                {
-                    count += 1;
-                    count_inv = (U)1 / count;
-                    // ddof
-                    delta = item - amean;
-                    amean += delta * count_inv;
-                    asqr += delta * (item - amean);
-                }
-            }
-            else
-            {
-                if (old == old)
-                {
-                    count -= 1;
-                    count_inv = (U)1 / count;
-                    // dd
-                    if (count > 0)
-                    {
-                        delta = old = amean;
-                        amean -= delta * count_inv;
-                        asqr -= delta * (old - amean);
-                    }
-                    else
-                    {
-                        amean = 0;
-                        asqr = 0;
-                    }
-                }
-            }
-            if (! (asqr >= 0))
-            {
-                asqr = 0;
-            }
+            bool const itemValid = riptide::invalid_for_type<T>::is_valid(pIn[i]);
+            bool const oldValid = riptide::invalid_for_type<T>::is_valid(pIn[i - windowSize]);
 
-            pOut[i] = sqrt(asqr * count_inv);
+            if (itemValid && oldValid)
+                window.Replace((U)pIn[i - windowSize], (U)pIn[i]);
+            else if (itemValid)
+                window.Add((U)pIn[i]);
+            else if (oldValid)
+                window.Remove((U)pIn[i - windowSize]);
 
-            // SQR pOut[i] = sqrt(asqr*count_inv);
+            pOut[i] = sqrt(window.Value());
         }
     }
 
diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 53b1c60..c105f1f 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -5,6 +5,7 @@
 #include "GroupBy.h"
 #include "Sort.h"
 #include "Heap.h"
+#include "RollingWindow.h"
 #include "missing_values.h"
 #include "numpy_traits.h"
 #include "logging/logging.h"
@@ -1398,27 +1399,27 @@ public:
             V start = pFirst[i];
             V last = start + pCount[i];
 
-            U currentSum = 0;
+            RollingWindowSum<U> currentSum;
 
             // Priming of the summation
             for (V j = start; j < last && j < (start + windowSize); j++)
             {
                 V const index{ pGroup[j] };
 
-                currentSum += (U)pSrc[index];
-                pDest[index] = currentSum;
+                currentSum.Add((U)pSrc[index]);
+                pDest[index] = currentSum.Value();
             }
 
             for (V j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
-                currentSum += (U)pSrc[index];
+                currentSum.Add((U)pSrc[index]);
 
                 // subtract the item leaving the window
-                currentSum -= (U)pSrc[pGroup[j - windowSize]];
+                currentSum.Remove((U)pSrc[pGroup[j - windowSize]]);
 
-                pDest[index] = currentSum;
+                pDest[index] = currentSum.Value();
             }
         }
     }
@@ -1461,7 +1462,7 @@ public:
             V start = pFirst[i];
             V last = start + pCount[i];
 
-            U currentSum = 0;
+            RollingWindowSum<U> currentSum;
 
             // Priming of the summation
             for (V j = start; j < last && j < (start + windowSize); j++)
@@ -1470,9 +1471,9 @@ public:
                 T value = pSrc[index];
                 if (riptide::invalid_for_type<T>::is_valid(value))
                 {
-                    currentSum += static_cast<U>(value);
+                    currentSum.Add(static_cast<U>(value));
                 }
-                pDest[index] = currentSum;
+                pDest[index] = currentSum.Value();
             }
 
             for (V j = start + windowSize; j < last; j++)
@@ -1482,17 +1483,17 @@ public:
                 T value = pSrc[index];
                 if (riptide::invalid_for_type<T>::is_valid(value))
                 {
-                    currentSum += static_cast<U>(value);
+                    currentSum.Add(static_cast<U>(value));
                 }
 
                 // subtract the item leaving the window
                 value = pSrc[pGroup[j - windowSize]];
                 if (riptide::invalid_for_type<T>::is_valid(value))
                 {
-                    currentSum -= static_cast<U>(value);
+                    currentSum.Remove(static_cast<U>(value));
                 }
 
-                pDest[index] = currentSum;
+                pDest[index] = currentSum.Value();
             }
         }
     }
@@ -1536,27 +1537,27 @@ public:
             V start = pFirst[i];
             V last = start + pCount[i];
 
-            double currentSum = 0;
+            RollingWindowSum<double> currentSum;
 
             // Priming of the summation
             for (V j = start; j < last && j < (start + windowSize); j++)
             {
                 V const index{ pGroup[j] };
 
-                currentSum += pSrc[index];
-                pDest[index] = currentSum / (j - start + 1);
+                currentSum.Add((U)pSrc[index]);
+                pDest[index] = currentSum.Value() / (j - start + 1);
             }
 
             for (V j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
-                currentSum += pSrc[index];
+                currentSum.Add((U)pSrc[index]);
 
                 // subtract the item leaving the window
-                currentSum -= pSrc[pGroup[j - windowSize]];
+                currentSum.Remove((U)pSrc[pGroup[j - windowSize]]);
 
-                pDest[index] = currentSum / windowSize;
+                pDest[index] = currentSum.Value() / windowSize;
             }
         }
     }
@@ -1599,7 +1600,7 @@ public:
             V start = pFirst[i];
             V last = start + pCount[i];
 
-            double currentSum = 0;
+            RollingWindowSum<double> currentSum;
             double count = 0;
 
             // Priming of the summation
@@ -1609,10 +1610,10 @@ public:
                 T value = pSrc[index];
                 if (riptide::invalid_for_type<T>::is_valid(value))
                 {
-                    currentSum += static_cast<U>(value);
+                    currentSum.Add(static_cast<U>(value));
                     count++;
                 }
-                pDest[index] = count > 0 ? currentSum / count : invalid_out;
+                pDest[index] = count > 0 ? currentSum.Value() / count : invalid_out;
             }
 
             for (V j = start + windowSize; j < last; j++)
@@ -1622,7 +1623,7 @@ public:
                 T value = pSrc[index];
                 if (riptide::invalid_for_type<T>::is_valid(value))
                 {
-                    currentSum += static_cast<U>(value);
+                    currentSum.Add(static_cast<U>(value));
                     count++;
                 }
 
@@ -1630,11 +1631,11 @@ public:
                 value = pSrc[pGroup[j - windowSize]];
                 if (riptide::invalid_for_type<T>::is_valid(value))
                 {
-                    currentSum -= static_cast<U>(value);
+                    currentSum.Remove(static_cast<U>(value));
                     count--;
                 }
 
-                pDest[index] = count > 0 ? currentSum / count : invalid_out;
+                pDest[index] = count > 0 ? currentSum.Value() / count : invalid_out;
             }
         }
     }
diff --git a/src/RollingWindow.h b/src/RollingWindow.h
new file mode 100644
index 0000000..5359939
--- /dev/null
+++ b/src/RollingWindow.h
@@ -0,0 +1,134 @@
+#pragma once
+
+#include "CommonInc.h"
+#include <cmath>
+#include <type_traits>
+
+// Accumulators for a window that slides over the data: values are added as they enter the window and removed as they leave it.
+// NaNs and infinities are only counted, so that they do not stay in the running totals once they have left the window.
+
+//-------------------------------------------------------------------
+// U = type of the running sum
+template <typename U>
+class RollingWindowSum
+{
+    U sum{ 0 };
+    int64_t nans{ 0 };
+    int64_t posInfs{ 0 };
+    int64_t negInfs{ 0 };
+
+    // returns true if value was counted
+    bool CountNonFinite(U value, int64_t step)
+    {
+        if constexpr (std::is_floating_point_v<U>)
+        {
+            if (std::isnan(value))
+            {
+                nans += step;
+                return true;
+            }
+            if (std::isinf(value))
+            {
+                (value > 0 ? posInfs : negInfs) += step;
+                return true;
+            }
+        }
+        return false;
+    }
+
+public:
+    void Add(U value)
+    {
+        if (! CountNonFinite(value, 1))
+            sum += value;
+    }
+
+    void Remove(U value)
+    {
+        if (! CountNonFinite(value, -1))
+            sum -= value;
+    }
+
+    U Value() const
+    {
+        if constexpr (std::is_floating_point_v<U>)
+        {
+            if (nans || (posInfs && negInfs))
+                return std::numeric_limits<U>::quiet_NaN();
+            if (posInfs)
+                return std::numeric_limits<U>::infinity();
+            if (negInfs)
+                return -std::numeric_limits<U>::infinity();
+        }
+        return sum;
+    }
+};
+
+//-------------------------------------------------------------------
+// U = type of the running mean and sum of squared differences (float, double or long double)
+template <typename U>
+class RollingWindowVariance
+{
+    U mean{ 0 };
+    U sumSquares{ 0 };
+    int64_t count{ 0 };
+    int64_t nonFinite{ 0 };
+
+public:
+    void Add(U value)
+    {
+        if (! std::isfinite(value))
+        {
+            ++nonFinite;
+            return;
+        }
+        ++count;
+        U const delta{ value - mean };
+        mean += delta / count;
+        sumSquares += delta * (value - mean);
+    }
+
+    void Remove(U value)
+    {
+        if (! std::isfinite(value))
+        {
+            --nonFinite;
+            return;
+        }
+        if (--count > 0)
+        {
+            U const delta{ value - mean };
+            mean -= delta / count;
+            sumSquares -= delta * (value - mean);
+        }
+        else
+        {
+            mean = 0;
+            sumSquares = 0;
+        }
+    }
+
+    // Same as Remove(oldValue) and Add(newValue), with less rounding
+    void Replace(U oldValue, U newValue)
+    {
+        if (! std::isfinite(oldValue) || ! std::isfinite(newValue))
+        {
+            Remove(oldValue);
+            Add(newValue);
+            return;
+        }
+        U const delta{ newValue - oldValue };
+        U const oldOffset{ oldValue - mean };
+        mean += delta / count;
+        sumSquares += (newValue - mean + oldOffset) * delta;
+    }
+
+    // Population variance of the window
+    U Value() const
+    {
+        if (nonFinite || count == 0)
+            return std::numeric_limits<U>::quiet_NaN();
+        // rounding may leave a small negative number
+        return sumSquares > 0 ? sumSquares / count : 0;
+    }
+};
-- 
2.43.0


From 55dfee303498239acfa620272b35aa495025aee3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 021/160] fix: rolling windows that are negative or longer than
 the data accessed memory out of bounds

---
 src/Ema.cpp     | 12 ++++++++++++
 src/GroupBy.cpp | 34 ++++++++++++++++++++++++++--------
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 4393c77..ad39446 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -521,6 +521,11 @@ PyObject * Rolling(PyObject * self, PyObject * args)
     // TODO: determine based on function
     int32_t numpyOutType = NPY_FLOAT64;
 
+    if (param1 < 0)
+    {
+        return PyErr_Format(PyExc_ValueError, "Negative window sizes are not supported");
+    }
+
     // In case user passes in sliced array or reversed array
     PyArrayObject * inArr = EnsureContiguousArray(inArrObject);
     if (! inArr)
@@ -577,6 +582,13 @@ PyObject * Rolling(PyObject * self, PyObject * args)
         if (outArray)
         {
             pRollingFunc(PyArray_BYTES(inArr), PyArray_BYTES(outArray), size, param1);
+
+            if (PyErr_Occurred())
+            {
+                // the function refused the window size
+                Py_DECREF(outArray);
+                outArray = NULL;
+            }
         }
     }
     else
diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index c105f1f..d8f388c 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -1373,7 +1373,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = funcParam;
+        int64_t windowSize = std::min(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1437,7 +1437,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = funcParam;
+        int64_t windowSize = std::min(funcParam, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1511,7 +1511,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t const windowSize = funcParam;
+        int64_t const windowSize = std::min(funcParam, totalInputRows);
         U const invalid_out{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1575,7 +1575,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t const windowSize = funcParam;
+        int64_t const windowSize = std::min(funcParam, totalInputRows);
         U const invalid_out{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -1659,7 +1659,7 @@ public:
 
         int64_t quantile_with_1e9_mult{ funcParam % (multiplier + 1) };
         long double const quantile{ static_cast<long double>(quantile_with_1e9_mult) / static_cast<long double>(multiplier) };
-        int64_t const windowSize = funcParam / (multiplier + 1);
+        int64_t const windowSize = std::min(funcParam / (multiplier + 1), std::max<int64_t>(totalInputRows, 1));
 
         U const invalid{ riptide::invalid_for_type<U>::value };
 
@@ -1755,7 +1755,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t const windowSize = funcParam;
+        int64_t const windowSize = std::clamp(funcParam, -totalInputRows, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         logger->debug("AccumRollingCount {} {}  sizeofdest {}", binLow, binHigh, sizeof(U));
@@ -1821,7 +1821,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = (int64_t)funcParam;
+        int64_t windowSize = std::clamp(funcParam, -totalInputRows, totalInputRows);
 
         logger->debug("AcculRollingShift: binlow {},  binhigh {},  windowSize: {}", binLow, binHigh, windowSize);
 
@@ -1931,7 +1931,7 @@ public:
         V const * const pFirst = (V *)pFirstT;
         V const * const pCount = (V *)pCountT;
 
-        int64_t windowSize = funcParam;
+        int64_t windowSize = std::clamp(funcParam, -totalInputRows, totalInputRows);
         U const invalid{ riptide::invalid_for_type<U>::value };
 
         if (binLow == 0)
@@ -5056,6 +5056,24 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
 
             numpyOutType = aInfo[i].NumpyDType;
 
+            switch (funcNum)
+            {
+            case GB_ROLLING_SUM:
+            case GB_ROLLING_NANSUM:
+            case GB_ROLLING_MEAN:
+            case GB_ROLLING_NANMEAN:
+            case GB_ROLLING_QUANTILE:
+                // negative window sizes not accepted yet, quantiles do not accept zero either
+                if (funcParam < (funcNum == GB_ROLLING_QUANTILE ? int64_t(1e9) + 1 : 0))
+                {
+                    PyErr_Format(PyExc_ValueError, "GroupByAllPack32: this window size is not supported");
+                    return NULL;
+                }
+                break;
+            default:
+                break;
+            }
+
             GROUPBY_X_FUNC pFunction = NULL;
 
             switch (iGroupType)
-- 
2.43.0


From c5d8473b18a3afd84ea7baaea5c869a1ef14e129 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 022/160] fix: exponential averages over long double times
 overran their output

---
 src/Ema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index ad39446..5d952ae 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1794,7 +1794,7 @@ static EMA_BY_TWO_FUNC GetEmaByStep2(int timeType, EMA_FUNCTIONS func)
     case NPY_DOUBLE:
         return EmaByBase<T, double, double, K>::GetFunc(func);
     case NPY_LONGDOUBLE:
-        return EmaByBase<T, long double, long double, K>::GetFunc(func);
+        return EmaByBase<T, double, long double, K>::GetFunc(func);
     CASE_NPY_INT32:
         return EmaByBase<T, double, int32_t, K>::GetFunc(func);
     CASE_NPY_INT64:
-- 
2.43.0


From 0bb57c9a1a8b5cc64f3cf2002f462808c3068612 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 023/160] fix: ema_decay with both a filter and a reset mask
 returned zeros

---
 src/Ema.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 5d952ae..890c5ec 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1303,11 +1303,10 @@ public:
                                 pLastEma[location] = 0;
                                 pLastTime[location] = 0;
                             }
-                            pLastEma[location] = value + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
-                            pLastTime[location] = pTime[i];
                         }
-
-                        pDest[i] = 0;
+                        pLastEma[location] = value + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
+                        pLastTime[location] = pTime[i];
+                        pDest[i] = pLastEma[location];
                     }
                     else
                     {
-- 
2.43.0


From 7207e3f12a897062e729702da06802c3864756f1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 024/160] fix: cumulative min/max of rows in no group were
 uninitialised or accumulated

---
 src/Ema.cpp | 76 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 890c5ec..cc32c62 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -786,6 +786,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -813,6 +817,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -845,6 +853,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -855,18 +867,25 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                 K const location = pKey[i];
 
                 // Bin 0 is bad
-                // if new value (pSrc[i]) is invalid, do nothing
-                if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
+                if (location >= GB_BASE_INDEX)
                 {
-                    // if old value (pWorkSpace[location]) is invalid, OR both values are valid and comparison
-                    // is in favor of new value, set answer to new value.
-                    if ((not riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) ||
-                        _compare(pSrc[i], pWorkSpace[location]))
+                    // if new value (pSrc[i]) is invalid, do nothing
+                    if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
                     {
-                        pWorkSpace[location] = pSrc[i];
+                        // if old value (pWorkSpace[location]) is invalid, OR both values are valid and comparison
+                        // is in favor of new value, set answer to new value.
+                        if ((not riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) ||
+                            _compare(pSrc[i], pWorkSpace[location]))
+                        {
+                            pWorkSpace[location] = pSrc[i];
+                        }
                     }
+                    pDest[i] = pWorkSpace[location];
+                }
+                else
+                {
+                    pDest[i] = Invalid;
                 }
-                pDest[i] = pWorkSpace[location];
             }
         }
     }
@@ -935,6 +954,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -965,6 +988,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -996,6 +1023,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1006,21 +1037,28 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                 K const location = pKey[i];
 
                 // Bin 0 is bad
-                if (not pWorkSpaceDataSeen[location])
+                if (location >= GB_BASE_INDEX)
                 {
-                    pWorkSpace[location] = pSrc[i];
-                    pWorkSpaceDataSeen[location] = true;
+                    if (not pWorkSpaceDataSeen[location])
+                    {
+                        pWorkSpace[location] = pSrc[i];
+                        pWorkSpaceDataSeen[location] = true;
+                    }
+                    // if new value (pSrc[i]) is invalid, or old value (pWorkSpace[location]) is valid
+                    // AND new value passes comparison to old value, set answer to new value
+                    else if ((not riptide::invalid_for_type<T>::is_valid(pSrc[i])) ||
+                             ((riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) &&
+                              _compare(pSrc[i], pWorkSpace[location])))
+                    {
+                        pWorkSpace[location] = pSrc[i];
+                        pWorkSpaceDataSeen[location] = true;
+                    }
+                    pDest[i] = pWorkSpace[location];
                 }
-                // if new value (pSrc[i]) is invalid, or old value (pWorkSpace[location]) is valid
-                // AND new value passes comparison to old value, set answer to new value
-                else if ((not riptide::invalid_for_type<T>::is_valid(pSrc[i])) ||
-                         ((riptide::invalid_for_type<T>::is_valid(pWorkSpace[location])) &&
-                          _compare(pSrc[i], pWorkSpace[location])))
+                else
                 {
-                    pWorkSpace[location] = pSrc[i];
-                    pWorkSpaceDataSeen[location] = true;
+                    pDest[i] = Invalid;
                 }
-                pDest[i] = pWorkSpace[location];
             }
         }
     }
-- 
2.43.0


From aaa3deeb29092b71baa44d741c27bf680202d9e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 025/160] fix: cumulative min/max leaked a workspace

---
 src/Ema.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index cc32c62..a732ece 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1063,6 +1063,7 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
         }
     }
 
+    WORKSPACE_FREE(pWorkSpaceDataSeen);
     WORKSPACE_FREE(pWorkSpace);
 }
 
-- 
2.43.0


From 7684b277a0b044efbd3ca703618a292d1e9fd1bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 026/160] fix: ema_decay of a group's first row was NaN when
 its time was far below zero

---
 src/Ema.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index a732ece..c339cd8 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1268,6 +1268,13 @@ public:
     EmaByBase(){};
     ~EmaByBase(){};
 
+    // What is left at time of an average last updated at lastTime
+    // A group that has nothing yet (its lastTime is not meaningful) has nothing left, however far away time is
+    static double Decayed(U lastEma, V lastTime, V time, double decayRate)
+    {
+        return lastEma == 0 ? 0 : lastEma * exp(-decayRate * (time - lastTime));
+    }
+
     //------------------------------
     // EmaDecay uses entire size: totalInputRows
     // AccumBin is output array
@@ -1343,7 +1350,7 @@ public:
                                 pLastTime[location] = 0;
                             }
                         }
-                        pLastEma[location] = value + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
+                        pLastEma[location] = value + Decayed(pLastEma[location], pLastTime[location], pTime[i], decayRate);
                         pLastTime[location] = pTime[i];
                         pDest[i] = pLastEma[location];
                     }
@@ -1376,7 +1383,7 @@ public:
                             LOGGING("fill forward location: %lld\n", (long long)location);
                             value = 0;
                         }
-                        pLastEma[location] = value + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
+                        pLastEma[location] = value + Decayed(pLastEma[location], pLastTime[location], pTime[i], decayRate);
                         pLastTime[location] = pTime[i];
                         pLastValue[location] = value;
                         pDest[i] = pLastEma[location];
@@ -1405,7 +1412,7 @@ public:
                             pLastEma[location] = 0;
                             pLastTime[location] = 0;
                         }
-                        pLastEma[location] = pSrc[i] + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
+                        pLastEma[location] = pSrc[i] + Decayed(pLastEma[location], pLastTime[location], pTime[i], decayRate);
                         pLastTime[location] = pTime[i];
                         pDest[i] = pLastEma[location];
                     }
@@ -1428,7 +1435,7 @@ public:
                         // printf("inputs: %lf  %lf  %lf  %lf  %lf\n", (double)pSrc[i],
                         // (double)pLastEma[location], (double)-decayRate, (double)pTime[i],
                         // (double)pLastTime[location] );
-                        pLastEma[location] = pSrc[i] + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
+                        pLastEma[location] = pSrc[i] + Decayed(pLastEma[location], pLastTime[location], pTime[i], decayRate);
                         // printf("[%d][%d] %lf\n", i, (int32_t)location,
                         // (double)pLastEma[location]);
                         pLastTime[location] = pTime[i];
-- 
2.43.0


From fb0d8e2660ee76623d2c00c2f985e1a98ead8a86 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 027/160] fix: cumulative and exponential functions misread
 sliced keys, times and masks, and took non-arrays for them

---
 src/Ema.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index c339cd8..b5617d8 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2259,6 +2259,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inTime))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inTime must be an array");
+            return NULL;
         }
 
         if (inIncludeMask == (PyArrayObject *)Py_None)
@@ -2268,6 +2269,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inIncludeMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inIncludeMask must be an array");
+            return NULL;
         }
 
         if (inResetMask == (PyArrayObject *)Py_None)
@@ -2277,6 +2279,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inResetMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inResetMask must be an array");
+            return NULL;
         }
         break;
 
@@ -2306,6 +2309,30 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The loops read these arrays element after element: take copies of sliced or reversed ones
+    PyArrayObject ** const inArrays[] = { &iKey, &inTime, &inIncludeMask, &inResetMask };
+    PyArrayObject * copies[] = { NULL, NULL, NULL, NULL };
+    auto const freeCopies = [&copies]()
+    {
+        for (PyArrayObject * copy : copies)
+            Py_XDECREF((PyObject *)copy);
+    };
+
+    for (int i = 0; i < 4; i++)
+    {
+        if (*inArrays[i] != NULL)
+        {
+            PyArrayObject * contiguous = EnsureContiguousArray(*inArrays[i]);
+            if (! contiguous)
+            {
+                freeCopies();
+                return NULL;
+            }
+            if (contiguous != *inArrays[i])
+                *inArrays[i] = copies[i] = contiguous;
+        }
+    }
+
     int32_t numpyInType2 = ObjectToDtype(iKey);
 
     int64_t totalItemSize = 0;
@@ -2314,6 +2341,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
     if (! aInfo)
     {
         PyErr_Format(PyExc_ValueError, "EmaAll32 failed to produce aInfo");
+        freeCopies();
         return NULL;
     }
 
@@ -2413,6 +2441,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
     // LOGGING("Return tuple ref %llu\n", returnTuple->ob_refcnt);
     WORKSPACE_FREE(pstEma32);
     FreeArrayInfo(aInfo);
+    freeCopies();
 
     LOGGING("!!ema returning\n");
 
-- 
2.43.0


From 2fef9273a9a886fd207d0164371539f18d60e547 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 028/160] fix: ema_normal and ema_weighted started from a
 group's first row even when it is filtered out

---
 src/Ema.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index b5617d8..af6cc96 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1499,7 +1499,8 @@ public:
         for (int64_t i = totalInputRows - 1; i >= 0; i--)
         {
             K location = pKey[i];
-            T value = pSrc[i];
+            // a row that is filtered out contributes nothing, not even the starting point
+            T value = (pIncludeMask == NULL || pIncludeMask[i]) ? pSrc[i] : T(0);
             pLastEma[location] = (U)value;
         }
 
@@ -1695,7 +1696,8 @@ public:
         for (int64_t i = totalInputRows - 1; i >= 0; i--)
         {
             K location = pKey[i];
-            T value = pSrc[i];
+            // a row that is filtered out contributes nothing, not even the starting point
+            T value = (pIncludeMask == NULL || pIncludeMask[i]) ? pSrc[i] : T(0);
             pLastEma[location] = (U)value;
         }
 
-- 
2.43.0


From 79f7f1f4d915721cd21083fe38af3381560e0655 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:21:39 +0000
Subject: [PATCH 029/160] fix: time window functions misread sliced arrays

---
 src/TimeWindow.cpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/TimeWindow.cpp b/src/TimeWindow.cpp
index 81f26a0..3f653e5 100644
--- a/src/TimeWindow.cpp
+++ b/src/TimeWindow.cpp
@@ -190,6 +190,18 @@ PyObject * TimeWindow(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // In case user passes in sliced or reversed arrays
+    PyArrayObject * const inContiguous = EnsureContiguousArray(inArr);
+    if (! inContiguous)
+        return NULL;
+    PyArrayObject * const timeContiguous = EnsureContiguousArray(timeArr);
+    if (! timeContiguous)
+    {
+        if (inContiguous != inArr)
+            Py_DECREF(inContiguous);
+        return NULL;
+    }
+
     TIMEWINDOW_FUNC pTimeWindowFunc;
 
     // determine based on function
@@ -229,20 +241,25 @@ PyObject * TimeWindow(PyObject * self, PyObject * args)
             };
 
             stTWCallback.func = pTimeWindowFunc;
-            stTWCallback.pDataIn = PyArray_BYTES(inArr);
-            stTWCallback.pTimeIn = PyArray_BYTES(timeArr);
+            stTWCallback.pDataIn = PyArray_BYTES(inContiguous);
+            stTWCallback.pTimeIn = PyArray_BYTES(timeContiguous);
             stTWCallback.pDataOut = PyArray_BYTES(outArray);
             stTWCallback.timeDelta = param1;
 
             g_cMathWorker->DoMultiThreadedChunkWork(arrayLength, lambdaTWCallback, &stTWCallback);
-
-            return (PyObject *)outArray;
         }
-
-        // out of memory
-        return NULL;
+        // else out of memory
+    }
+    else
+    {
+        Py_INCREF(Py_None);
+        outArray = (PyArrayObject *)Py_None;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    // cleanup if we made copies
+    if (inContiguous != inArr)
+        Py_DECREF(inContiguous);
+    if (timeContiguous != timeArr)
+        Py_DECREF(timeContiguous);
+    return (PyObject *)outArray;
 }
-- 
2.43.0


From dd69132e37cdc6f07fd9c1957012749981fa38b2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 030/160] fix: rolling_quantile crashed on a window far longer
 than the array

---
 src/Ema.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index af6cc96..a1009d8 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -235,7 +235,8 @@ public:
 
         int64_t quantile_with_1e9_mult{ windowSize % (multiplier + 1) };
         long double const quantile{ static_cast<long double>(quantile_with_1e9_mult) / static_cast<long double>(multiplier) };
-        windowSize = windowSize / (multiplier + 1);
+        // no window holds more than all the rows
+        windowSize = std::min(windowSize / (multiplier + 1), std::max<int64_t>(len, 1));
 
         U const invalid{ GET_INVALID(U{}) };
 
-- 
2.43.0


From 712ed7d5ec9136a0aa6ab2b98c4d21534044cf55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:29:02 +0000
Subject: [PATCH 031/160] fix: rolling means of windows without valid values
 were infinite after rounding

---
 src/RollingWindow.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/RollingWindow.h b/src/RollingWindow.h
index 5359939..7d06fc4 100644
--- a/src/RollingWindow.h
+++ b/src/RollingWindow.h
@@ -13,6 +13,7 @@ template <typename U>
 class RollingWindowSum
 {
     U sum{ 0 };
+    int64_t finites{ 0 };
     int64_t nans{ 0 };
     int64_t posInfs{ 0 };
     int64_t negInfs{ 0 };
@@ -40,13 +41,21 @@ public:
     void Add(U value)
     {
         if (! CountNonFinite(value, 1))
+        {
             sum += value;
+            ++finites;
+        }
     }
 
     void Remove(U value)
     {
         if (! CountNonFinite(value, -1))
+        {
             sum -= value;
+            // an empty window has no rounding left over
+            if (--finites == 0)
+                sum = 0;
+        }
     }
 
     U Value() const
-- 
2.43.0


From 8e76914a7ac6097e68e96eb4ee4888288a8329cb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 032/160] fix: membership of floats found -0.0 and 0.0 in
 different places although they are equal

---
 src/HashLinear.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index d65c551..5660022 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -2028,7 +2028,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT3;
                     uint64_t hash = h;
                     while (1)
@@ -2076,7 +2076,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT4;
                     uint64_t hash = h;
                     while (1)
@@ -2130,7 +2130,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT1;
                     uint64_t hash = h;
                     while (1)
@@ -2178,7 +2178,7 @@ void CHashLinear<T, U>::MakeHashLocationFloat(int64_t arraySize, T * pHashList,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT2;
                     uint64_t hash = h;
                     while (1)
@@ -2261,7 +2261,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT3;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2314,7 +2314,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT4;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2370,7 +2370,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT1;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2423,7 +2423,7 @@ void IsMemberFloat(void * pHashLinearVoid, int64_t arraySize, void * pHashListT,
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT2;
                     uint64_t hash = (uint64_t)h;
                     while (1)
@@ -2493,7 +2493,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT3;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
@@ -2513,7 +2513,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint64_t * pHashList2 = (uint64_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT4;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
@@ -2536,7 +2536,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT1;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
@@ -2556,7 +2556,7 @@ int64_t CHashLinear<T, U>::IsMemberFloatCategorical(int64_t arraySize, T * pHash
                 if (item == item)
                 {
                     uint32_t * pHashList2 = (uint32_t *)pHashList;
-                    uint64_t h = pHashList2[i];
+                    uint64_t h = (item == 0) ? 0 : pHashList2[i]; // -0.0 equals 0.0 and must hash like it
                     HASH_FLOAT2;
                     InternalGetLocationCategorical(i, pLocation, pLocationOutput, item, h, &missed);
                 }
-- 
2.43.0


From ea57695e6df4f8e0a20771dc09bca3343ce9f7ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 033/160] fix: membership functions misread sliced arrays

---
 src/HashFunctions.cpp | 22 ++++++++++++++++++++++
 src/HashLinear.cpp    | 10 ++++++++++
 src/RipTide.h         | 37 +++++++++++++++++++++++++++++++++++++
 3 files changed, 69 insertions(+)

diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 46b0770..cc65656 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -131,6 +131,16 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The hash reads the rows one after the other
+    ContiguousArray const contiguous1(inArr1);
+    ContiguousArray const contiguous2(inArr2);
+    if (! contiguous1 || ! contiguous2)
+    {
+        return NULL;
+    }
+    inArr1 = contiguous1.get();
+    inArr2 = contiguous2.get();
+
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t arraySize2 = ArrayLength(inArr2);
 
@@ -376,6 +386,18 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
                            &unique2Length, &baseoffset1, &baseoffset2))
         return NULL;
 
+    // The rows are read one after the other
+    ContiguousArray const contiguous1(inArr1);
+    ContiguousArray const contiguous2(inArr2);
+    ContiguousArray const contiguousUnique(isMemberUnique);
+    if (! contiguous1 || ! contiguous2 || ! contiguousUnique)
+    {
+        return NULL;
+    }
+    inArr1 = contiguous1.get();
+    inArr2 = contiguous2.get();
+    isMemberUnique = contiguousUnique.get();
+
     int64_t const arraySize1 = (int64_t)ArrayLength(inArr1);
     int64_t const arraySize2 = (int64_t)ArrayLength(inArr2);
     int64_t const arraySizeUnique64 = (int64_t)ArrayLength(isMemberUnique);
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 5660022..01366f5 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5748,6 +5748,16 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The hash reads the rows one after the other
+    ContiguousArray const contiguous1(inArr1);
+    ContiguousArray const contiguous2(inArr2);
+    if (! contiguous1 || ! contiguous2)
+    {
+        return NULL;
+    }
+    inArr1 = contiguous1.get();
+    inArr2 = contiguous2.get();
+
     int64_t arraySize1 = ArrayLength(inArr1);
     int64_t arraySize2 = ArrayLength(inArr2);
 
diff --git a/src/RipTide.h b/src/RipTide.h
index 7e4edf9..b850e9d 100644
--- a/src/RipTide.h
+++ b/src/RipTide.h
@@ -169,6 +169,43 @@ extern bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t
 extern bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest, int16_t numpyType);
 extern PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject);
 
+/**
+ * @brief Holds a contiguous version of an array for as long as it is in scope:
+ * the array itself when it is contiguous, a temporary copy otherwise.
+ * @note Tests false (with a python error set) when no copy could be made.
+ */
+class ContiguousArray
+{
+public:
+    explicit ContiguousArray(PyArrayObject * inArr)
+        : m_pOriginal(inArr)
+        , m_pArray(EnsureContiguousArray(inArr))
+    {
+    }
+    ~ContiguousArray()
+    {
+        if (m_pArray != m_pOriginal)
+        {
+            Py_XDECREF((PyObject *)m_pArray);
+        }
+    }
+    ContiguousArray(ContiguousArray const &) = delete;
+    ContiguousArray & operator=(ContiguousArray const &) = delete;
+
+    explicit operator bool() const
+    {
+        return m_pArray != nullptr;
+    }
+    PyArrayObject * get() const
+    {
+        return m_pArray;
+    }
+
+private:
+    PyArrayObject * const m_pOriginal;
+    PyArrayObject * const m_pArray;
+};
+
 extern int64_t NpyItemSize(PyObject * self);
 extern const char * NpyToString(int32_t numpyType);
 extern int32_t NpyToSize(int32_t numpyType);
-- 
2.43.0


From 46ae460b88e304a1836babeac781ee0452ac1801 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:50:33 +0000
Subject: [PATCH 034/160] fix: membership of long double and complex arrays
 returned uninitialized memory

---
 src/HashFunctions.cpp | 9 ++++++++-
 src/HashLinear.cpp    | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index cc65656..756c856 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -123,6 +123,13 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (arrayType1 < NPY_OBJECT && sizeType1 > 8)
+    {
+        // There is no hash for these, the result would be left uninitialized
+        PyErr_Format(PyExc_ValueError, "IsMemberCategorical cannot handle type %s", NpyToString(arrayType1));
+        return NULL;
+    }
+
     if (arrayType1 == NPY_OBJECT)
     {
         PyErr_Format(PyExc_ValueError,
@@ -162,7 +169,7 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
                                                       arraySize2, sizeType2, (const char *)pDataIn2, HASH_MODE(hashMode), hintSize,
                                                       arrayType1 == NPY_UNICODE);
         }
-        else if (arrayType1 == NPY_FLOAT32 || arrayType1 == NPY_FLOAT64 || arrayType1 == NPY_LONGDOUBLE)
+        else if (arrayType1 == NPY_FLOAT32 || arrayType1 == NPY_FLOAT64)
         {
             LOGGING("Calling float!\n");
             if (arraySize1 < 2100000000)
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 01366f5..59e32a0 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5740,6 +5740,13 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (arrayType1 < NPY_OBJECT && sizeType1 > 8)
+    {
+        // There is no hash for these, the result would be left uninitialized
+        PyErr_Format(PyExc_ValueError, "IsMember32 cannot handle type %s", NpyToString(arrayType1));
+        return NULL;
+    }
+
     if (arrayType1 == NPY_OBJECT)
     {
         PyErr_Format(PyExc_ValueError,
-- 
2.43.0


From f689108a438045c642860f12fb6f0d6b2dc43bf2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 035/160] fix: membership functions leaked their result arrays

---
 src/HashFunctions.cpp | 13 +++++++++++++
 src/HashLinear.cpp    |  6 +++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 756c856..76da1b6 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -208,6 +208,7 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
     }
     catch (std::runtime_error const & e)
     {
+        Py_XDECREF((PyObject *)indexArray);
         PyErr_Format(PyExc_RuntimeError, e.what());
         return NULL;
     }
@@ -467,11 +468,19 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
                                               arraySizeUnique, unique2Length, baseoffset2);
             break;
         default:
+            WORKSPACE_FREE(reverseMapArray);
+            WORKSPACE_FREE(reIndexArray);
+            Py_DECREF((PyObject *)boolArray);
+            Py_DECREF((PyObject *)indexArray);
             PyErr_Format(PyExc_ValueError, "IsMemberCategoricalFixup second argument is not INT8/16/32/64");
             return NULL;
         }
         if (err)
         {
+            WORKSPACE_FREE(reverseMapArray);
+            WORKSPACE_FREE(reIndexArray);
+            Py_DECREF((PyObject *)boolArray);
+            Py_DECREF((PyObject *)indexArray);
             PyErr_Format(PyExc_RuntimeError, err);
             return NULL;
         }
@@ -495,6 +504,10 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
             FinalMatch<int64_t>((int64_t *)pArray1, pIndexOut, pBoolOut, reIndexArray, arraySize1, baseoffset1);
             break;
         default:
+            WORKSPACE_FREE(reverseMapArray);
+            WORKSPACE_FREE(reIndexArray);
+            Py_DECREF((PyObject *)boolArray);
+            Py_DECREF((PyObject *)indexArray);
             PyErr_Format(PyExc_ValueError, "IsMemberCategoricalFixup first argument is not INT8/16/32/64");
             return NULL;
         }
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 59e32a0..528ba35 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5868,6 +5868,9 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
                     // Performance gain: if STRING and itemsize matches and itemsize is 1 or 2
                     // --> Send to IsMemberHash32
                     // sizeType2 is taken to the be fixed length of each string
+                    // The index array is allocated again, its type depends on both lengths
+                    Py_DECREF((PyObject *)indexArray);
+                    indexArray = NULL;
                     IsMemberHashString32Pre(&indexArray, inArr1, arraySize1, sizeType1, (const char *)pDataIn1, arraySize2,
                                             sizeType2, (const char *)pDataIn2, pDataOut1, HASH_MODE(hashMode), hintSize,
                                             arrayType1 == NPY_UNICODE);
@@ -5916,7 +5919,8 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
     }
     catch (std::runtime_error const & e)
     {
-        // TODO: Need to release some objects that may have been allocated? E.g. 'boolArray', 'indexArray'.
+        Py_XDECREF((PyObject *)boolArray);
+        Py_XDECREF((PyObject *)indexArray);
         PyErr_Format(PyExc_RuntimeError, e.what());
         return NULL;
     }
-- 
2.43.0


From b3b39c4b17cb97b287ed0795b516b935be7b0dc6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 036/160] fix: MergeBinnedAndSorted took the second table's
 keys from the first table's position

---
 src/HashLinear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 528ba35..2a9ea7d 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -819,7 +819,7 @@ void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1,
         else
         {
             // key2 is first
-            U lookup = pKey2[i];
+            U lookup = pKey2[j];
             pLocation[lookup] = j;
             j++;
         }
-- 
2.43.0


From bda151f73ce0cb560f976e993700e055c34cb80c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 037/160] fix: MergeBinnedAndSorted read the keys with the type
 of the values, and misread sliced arrays

---
 src/HashLinear.cpp | 55 +++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 2a9ea7d..a02f256 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -6212,46 +6212,57 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
         }
     }
 
-    void * pVal1 = PyArray_BYTES(pvalArray1);
-    void * pVal2 = PyArray_BYTES(pvalArray2);
-    void * pKey1 = PyArray_BYTES(key1);
-    void * pKey2 = PyArray_BYTES(key2);
+    // The type of the keys is independent of the type of the values
+    int32_t const keyType = ObjectToDtype(key1);
+    int64_t const keySize = PyArray_ITEMSIZE(key1);
+    if (! PyArray_ISSIGNED(key1) || ! PyArray_ISSIGNED(key2) || PyArray_ITEMSIZE(key2) != keySize || (keySize != 4 && keySize != 8))
+    {
+        PyErr_Format(PyExc_ValueError, "MergeBinnedAndSorted keys must both be int32 or both be int64");
+        return NULL;
+    }
+    if (ArrayLength(key1) != ArrayLength(pvalArray1) || ArrayLength(key2) != ArrayLength(pvalArray2))
+    {
+        PyErr_Format(PyExc_ValueError, "MergeBinnedAndSorted keys and values must have the same length");
+        return NULL;
+    }
+
+    ContiguousArray const contiguousKey1(key1);
+    ContiguousArray const contiguousKey2(key2);
+    ContiguousArray const contiguousVal1(pvalArray1);
+    ContiguousArray const contiguousVal2(pvalArray2);
+    if (! contiguousKey1 || ! contiguousKey2 || ! contiguousVal1 || ! contiguousVal2)
+    {
+        return NULL;
+    }
+
+    void * pVal1 = PyArray_BYTES(contiguousVal1.get());
+    void * pVal2 = PyArray_BYTES(contiguousVal2.get());
+    void * pKey1 = PyArray_BYTES(contiguousKey1.get());
+    void * pKey2 = PyArray_BYTES(contiguousKey2.get());
 
-    PyArrayObject * indexArray = (PyArrayObject *)Py_None;
-    bool isIndex32 = true;
     bool success = false;
 
-    indexArray = AllocateLikeNumpyArray(key1, dtype1);
+    PyArrayObject * indexArray = AllocateLikeNumpyArray(contiguousKey1.get(), keyType);
 
     if (indexArray)
     {
-        switch (dtype1)
+        if (keySize == 4)
         {
-        case NPY_INT8:
-            success = MergePreBinned<int8_t>(ArrayLength(key1), (int8_t *)pKey1, pVal1, ArrayLength(key2), (int8_t *)pKey2, pVal2,
-                                             (int8_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
-        case NPY_INT16:
-            success =
-                MergePreBinned<int16_t>(ArrayLength(key1), (int16_t *)pKey1, pVal1, ArrayLength(key2), (int16_t *)pKey2, pVal2,
-                                        (int16_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
-        CASE_NPY_INT32:
             success =
                 MergePreBinned<int32_t>(ArrayLength(key1), (int32_t *)pKey1, pVal1, ArrayLength(key2), (int32_t *)pKey2, pVal2,
                                         (int32_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
-        CASE_NPY_INT64:
-
+        }
+        else
+        {
             success =
                 MergePreBinned<int64_t>(ArrayLength(key1), (int64_t *)pKey1, pVal1, ArrayLength(key2), (int64_t *)pKey2, pVal2,
                                         (int64_t *)PyArray_BYTES(indexArray), totalUniqueSize, HASH_MODE_MASK, dtype1);
-            break;
         }
     }
 
     if (! success)
     {
+        Py_XDECREF((PyObject *)indexArray);
         PyErr_Format(PyExc_ValueError, "MultiKeyAlign failed.  Only accepts int32_t,int64_t,float32,float64");
         return NULL;
     }
-- 
2.43.0


From e820de9ceccf7153e6e90549c2a0a3d7d48fda5e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 038/160] fix: as-of alignment misread sliced value arrays

---
 src/MultiKey.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index ce12281..af804dc 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1788,8 +1788,15 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
 
     if (mkp1.pSuperArray && mkp2.pSuperArray)
     {
-        void * pVal1 = PyArray_BYTES(pvalArray1);
-        void * pVal2 = PyArray_BYTES(pvalArray2);
+        // In case user passes in sliced or reversed arrays
+        ContiguousArray const contiguous1(pvalArray1);
+        ContiguousArray const contiguous2(pvalArray2);
+        if (! contiguous1 || ! contiguous2)
+        {
+            return NULL;
+        }
+        void * pVal1 = PyArray_BYTES(contiguous1.get());
+        void * pVal2 = PyArray_BYTES(contiguous2.get());
         PyArrayObject * indexArray = (PyArrayObject *)Py_None;
         bool isIndex32 = true;
         bool success = false;
-- 
2.43.0


From 5b6f11a6622d0a5de2fe7a4e7bd7d38e94516983 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 039/160] fix: ReIndexGroups and ReverseShuffle misread sliced
 arrays and ReIndexGroups wrote past the keys

---
 src/Merge.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 1e9c356..2c3c4ae 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1792,6 +1792,12 @@ bool ReIndexGroupsMT(void * preindexV, int core, int64_t t)
     int64_t stopi = pICutOffs[t];
     int32_t * pUniques = &pUKey[start];
 
+    // Check for out of bounds when indexing the keys
+    if (starti < 0)
+        starti = 0;
+    if (stopi > preindex->ikey_length)
+        stopi = preindex->ikey_length;
+
     // Check for out of bounds when indexing uniques
     int64_t uKeyLength = preindex->uikey_length - start;
     if (uKeyLength < 0)
@@ -1855,6 +1861,30 @@ PyObject * ReIndexGroups(PyObject * self, PyObject * args)
 
     int64_t u_cutoffs_length = ArrayLength(u_cutoffs);
 
+    if (ArrayLength(i_cutoffs) != u_cutoffs_length)
+    {
+        PyErr_Format(PyExc_ValueError, "u-cutoffs and i-cutoffs must have the same length");
+        return NULL;
+    }
+
+    // ikey is changed in place, so no copy of it can be used
+    if (! PyArray_ISCONTIGUOUS(ikey))
+    {
+        PyErr_Format(PyExc_ValueError, "ikey must be contiguous");
+        return NULL;
+    }
+
+    ContiguousArray const contiguousUKey(uikey);
+    ContiguousArray const contiguousUCutOffs(u_cutoffs);
+    ContiguousArray const contiguousICutOffs(i_cutoffs);
+    if (! contiguousUKey || ! contiguousUCutOffs || ! contiguousICutOffs)
+    {
+        return NULL;
+    }
+    uikey = contiguousUKey.get();
+    u_cutoffs = contiguousUCutOffs.get();
+    i_cutoffs = contiguousICutOffs.get();
+
     stReIndex preindex;
 
     preindex.pUCutOffs = (int64_t *)PyArray_BYTES(u_cutoffs);
@@ -1949,6 +1979,14 @@ PyObject * ReverseShuffle(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // In case user passes in a sliced or reversed array
+    ContiguousArray const contiguousKey(ikey);
+    if (! contiguousKey)
+    {
+        return NULL;
+    }
+    ikey = contiguousKey.get();
+
     PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, dtype);
 
     if (pReturnArray)
-- 
2.43.0


From ef1fb5f4f213343ef79020bef4e6413c8c75fda9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 040/160] fix: BooleanIndex misplaced the last strings selected
 from a strided array

---
 src/Merge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 2c3c4ae..f3d2ad0 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -583,7 +583,7 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
                                 if (*pBooleanMask++)
                                 {
                                     memcpy(pValuesOut, pValuesIn, itemSize);
-                                    pValuesOut += strideValues;
+                                    pValuesOut += itemSize;
                                 }
                                 pValuesIn += strideValues;
                             }
-- 
2.43.0


From 32a64f82ff04c8d15ea681a2959147954e10695d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 041/160] fix: MBGet read unsigned indexes as signed and wrote
 past the result for strings

---
 src/Merge.cpp | 64 +++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index f3d2ad0..cca9688 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -855,7 +855,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             *pDataOut =
                 // Make sure the item is in range
-                index >= 0 && index < valLength ? pValues[index] : defaultVal;
+                static_cast<uint64_t>(index) < static_cast<uint64_t>(valLength) ? pValues[index] : defaultVal;
             pIndex++;
             pDataOut++;
         }
@@ -868,9 +868,9 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             // Make sure the item is in range; if the index is negative -- but
             // otherwise still in range -- mimic Python's negative-indexing support.
-            if (index >= 0 && index < valLength)
+            if (static_cast<uint64_t>(index) < static_cast<uint64_t>(valLength))
             {
-                *pDataOut = *(VALUE *)((char *)pValues + (strideValue * index));
+                *pDataOut = *(VALUE *)((char *)pValues + (strideValue * (int64_t)index));
             }
             else
             {
@@ -990,9 +990,9 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if (static_cast<uint64_t>(index) < static_cast<uint64_t>(valLength))
             {
-                pSrc = pValues + (itemSize * index);
+                pSrc = pValues + (itemSize * (int64_t)index);
             }
             else
             {
@@ -1014,7 +1014,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else
@@ -1024,9 +1023,9 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if (static_cast<uint64_t>(index) < static_cast<uint64_t>(valLength))
             {
-                pSrc = pValues + (strideValue * index);
+                pSrc = pValues + (strideValue * (int64_t)index);
             }
             else
             {
@@ -1046,7 +1045,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
@@ -1151,17 +1149,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int8_t>;
+            return GetItemUInt<int8_t, uint8_t>;
         case 2:
-            return GetItemUInt<int16_t, int8_t>;
+            return GetItemUInt<int16_t, uint8_t>;
         case 4:
-            return GetItemUInt<int32_t, int8_t>;
+            return GetItemUInt<int32_t, uint8_t>;
         case 8:
-            return GetItemUInt<int64_t, int8_t>;
+            return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<__m128, int8_t>;
+            return GetItemUInt<__m128, uint8_t>;
         default:
-            return GetItemUIntVariable<int8_t>;
+            return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -1186,17 +1184,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int16_t>;
+            return GetItemUInt<int8_t, uint16_t>;
         case 2:
-            return GetItemUInt<int16_t, int16_t>;
+            return GetItemUInt<int16_t, uint16_t>;
         case 4:
-            return GetItemUInt<int32_t, int16_t>;
+            return GetItemUInt<int32_t, uint16_t>;
         case 8:
-            return GetItemUInt<int64_t, int16_t>;
+            return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<__m128, int16_t>;
+            return GetItemUInt<__m128, uint16_t>;
         default:
-            return GetItemUIntVariable<int16_t>;
+            return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -1221,17 +1219,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int32_t>;
+            return GetItemUInt<int8_t, uint32_t>;
         case 2:
-            return GetItemUInt<int16_t, int32_t>;
+            return GetItemUInt<int16_t, uint32_t>;
         case 4:
-            return GetItemUInt<int32_t, int32_t>;
+            return GetItemUInt<int32_t, uint32_t>;
         case 8:
-            return GetItemUInt<int64_t, int32_t>;
+            return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<__m128, int32_t>;
+            return GetItemUInt<__m128, uint32_t>;
         default:
-            return GetItemUIntVariable<int32_t>;
+            return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1256,17 +1254,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int64_t>;
+            return GetItemUInt<int8_t, uint64_t>;
         case 2:
-            return GetItemUInt<int16_t, int64_t>;
+            return GetItemUInt<int16_t, uint64_t>;
         case 4:
-            return GetItemUInt<int32_t, int64_t>;
+            return GetItemUInt<int32_t, uint64_t>;
         case 8:
-            return GetItemUInt<int64_t, int64_t>;
+            return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<__m128, int64_t>;
+            return GetItemUInt<__m128, uint64_t>;
         default:
-            return GetItemUIntVariable<int64_t>;
+            return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From f2464eb15630535a3cff3802302b9e35abec10bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 042/160] fix: MBGet of a long strided array wrote the result
 blocks at the strided offsets

---
 src/Merge.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index cca9688..c4d692f 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1100,15 +1100,16 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
         // work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // (the output is contiguous even when the values are strided)
+        int64_t outAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING(
             "%d : workBlock %lld   blocksize: %lld    lenx: %lld  %lld  %lld  "
             "%lld %lld\n",
-            core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, valueAdj, indexAdj);
+            core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, outAdj, indexAdj);
 
-        Callback->GetItemCallback(aValues, aIndex + indexAdj, (char *)Callback->pDataOut + valueAdj, Callback->aValueLength,
+        Callback->GetItemCallback(aValues, aIndex + indexAdj, (char *)Callback->pDataOut + outAdj, Callback->aValueLength,
                                   valueItemSize, lenX, strideIndex, strideValue, Callback->pDefault);
 
         // Indicate we completed a block
-- 
2.43.0


From c6e3e02824d7eae1a9fd4d061f6af9ce803050cb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 043/160] fix: MBGet ignored a string default, read past the
 default of long strings, and ended the process for dtypes without a default

---
 src/Merge.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index c4d692f..8761c53 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1,3 +1,4 @@
+#include <vector>
 #include "RipTide.h"
 #include "ndarray.h"
 #include "MathWorker.h"
@@ -1326,6 +1327,14 @@ PyObject * MBGet(PyObject * self, PyObject * args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
+    // Out of range indexes need a default, which only these types have
+    const bool isString = PyTypeNum_ISSTRING(numpyValuesType);
+    if (numpyValuesType > NPY_LONGDOUBLE && ! isString)
+    {
+        PyErr_Format(PyExc_ValueError, "Dont know how to index values of type %d", numpyValuesType);
+        return NULL;
+    }
+
     int ndimValue;
     int ndimIndex;
     int64_t strideValue = 0;
@@ -1388,8 +1397,30 @@ PyObject * MBGet(PyObject * self, PyObject * args)
                 // reserve a full 16 bytes for default in case we have oneS
                 _m256all tempDefault;
 
+                // A string default has the size of the values
+                std::vector<char> stringDefault;
+                if (isString)
+                {
+                    stringDefault.resize(aValueItemSize + 1, 0);
+                    pDefault = stringDefault.data();
+
+                    if (PyBytes_Check(defaultValue) || PyUnicode_Check(defaultValue))
+                    {
+                        PyArray_Descr * descr = PyArray_DESCR(aValues);
+                        Py_INCREF(descr);
+                        PyArrayObject * converted =
+                            (PyArrayObject *)PyArray_FromAny(defaultValue, descr, 0, 0, NPY_ARRAY_CARRAY | NPY_ARRAY_FORCECAST, NULL);
+                        if (! converted)
+                        {
+                            Py_DECREF((PyObject *)outArray);
+                            return NULL;
+                        }
+                        memcpy(pDefault, PyArray_BYTES(converted), aValueItemSize);
+                        Py_DECREF((PyObject *)converted);
+                    }
+                }
                 // Check if a default value was passed in as third parameter
-                if (defaultValue != Py_None)
+                else if (defaultValue != Py_None)
                 {
                     bool result;
                     int64_t itemSize;
-- 
2.43.0


From dc34da43a0913c381b24cbd506f823ba144cd0cc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 044/160] fix: scalars converted to long double had the bit
 pattern of doubles

---
 src/RipTide.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index dd43761..4757f56 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1133,6 +1133,9 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
         case NPY_FLOAT64:
             pDest->d = _mm256_set1_pd((double)value);
             break;
+        case NPY_LONGDOUBLE:
+            *(long double *)pDest = (long double)value;
+            break;
         default:
             printf("unknown bool scalar type in convertScalarObject %d\n", numpyOutType);
             return false;
@@ -1224,6 +1227,9 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
             case NPY_FLOAT64:
                 pDest->d = _mm256_set1_pd((double)value);
                 break;
+            case NPY_LONGDOUBLE:
+                *(long double *)pDest = (long double)value;
+                break;
             default:
                 printf("unknown long scalar type in convertScalarObject %d\n", numpyOutType);
                 return false;
@@ -1271,7 +1277,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 pDest->d = _mm256_set1_pd((double)value);
                 break;
             case NPY_LONGDOUBLE:
-                pDest->d = _mm256_set1_pd((double)(long double)value);
+                *(long double *)pDest = (long double)value;
                 break;
             default:
                 printf("unknown float scalar type in convertScalarObject %d\n", numpyOutType);
-- 
2.43.0


From 32f439101cdc564ddc93bf56d2cbf5c32ac1d9c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 045/160] fix: converting a numpy integer scalar leaked its
 dtype

---
 src/RipTide.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 4757f56..1dfbf9e 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1170,8 +1170,9 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
             else
             {
                 PyArray_Descr * dtype = PyArray_DescrFromScalar(inObject1);
-                //// NOTE: memory leak here?
-                if (dtype->type_num <= NPY_LONGDOUBLE)
+                const int scalarType = dtype->type_num;
+                Py_DECREF(dtype);
+                if (scalarType <= NPY_LONGDOUBLE)
                 {
                     if (g_pDescrLongLong == NULL)
                     {
@@ -1185,7 +1186,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 else
                 {
                     // datetime64 falls into here
-                    LOGGING("!!punting on scalar type is %d\n", dtype->type_num);
+                    LOGGING("!!punting on scalar type is %d\n", scalarType);
                     return false;
                 }
             }
-- 
2.43.0


From a123debb44f59adaf5d9b4d47a801ab99da65a67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 046/160] fix: BooleanIndex lost the unit of datetime64 arrays
 and failed on void arrays

---
 src/RipTide.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 1dfbf9e..d7a0ef0 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -862,6 +862,17 @@ PyArrayObject * AllocateLikeResize(PyArrayObject * inArr, npy_intp rowSize)
         int64_t itemSize = NpyItemSize((PyObject *)inArr);
         result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
     }
+    else if (PyTypeNum_ISDATETIME(numpyType) || PyTypeNum_ISFLEXIBLE(numpyType))
+    {
+        // the type number alone does not tell the unit, size or fields
+        PyArray_Descr * descr = PyArray_DESCR(inArr);
+        Py_INCREF(descr);
+        result = (PyArrayObject *)PyArray_NewFromDescr(&PyArray_Type, descr, 1, &rowSize, NULL, NULL, 0, NULL);
+        if (result)
+        {
+            result = (PyArrayObject *)SetFastArrayView(result);
+        }
+    }
     else
     {
         result = AllocateNumpyArray(1, &rowSize, numpyType);
-- 
2.43.0


From 3537810576f68a2bb253ebdfde274dfbde0c4bb5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 047/160] fix: BooleanToFancy and BooleanSum misread sliced
 masks

---
 src/Merge.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 8761c53..7d9ddb3 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -746,8 +746,22 @@ PyObject * BooleanSum(PyObject * self, PyObject * args)
 
     int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
 
+    // only a multidimensional array may need more than one stride
+    PyArrayObject * aContig = NULL;
+    if (result1 != 0 && ! PyArray_ISCONTIGUOUS(aIndex))
+    {
+        aContig = (PyArrayObject *)PyArray_NewCopy(aIndex, NPY_CORDER);
+        if (! aContig)
+        {
+            return NULL;
+        }
+        aIndex = aContig;
+        strideBoolean = 1;
+    }
+
     int64_t * pChunkCount = NULL;
     int64_t chunks = BooleanCount(aIndex, &pChunkCount, strideBoolean);
+    Py_XDECREF((PyObject *)aContig);
 
     int64_t totalTrue = 0;
     for (int64_t i = 0; i < chunks; i++)
@@ -1534,10 +1548,18 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
-    int ndimBoolean;
-    int64_t strideBoolean;
-
-    int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
+    // the mask is read in order, one byte per element
+    PyArrayObject * aContig = NULL;
+    if (! PyArray_ISCONTIGUOUS(aIndex))
+    {
+        aContig = (PyArrayObject *)PyArray_NewCopy(aIndex, NPY_CORDER);
+        if (! aContig)
+        {
+            return NULL;
+        }
+        aIndex = aContig;
+    }
+    int64_t strideBoolean = 1;
 
     // if bothMode is set, will return fancy index for both True and False
     bool bothMode = GetKwargBoth(kwargs);
@@ -1723,6 +1745,8 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         g_cMathWorker->DoMultiThreadedChunkWork(indexLength, lambdaCallback, &stBTFCallback);
     }
 
+    Py_XDECREF((PyObject *)aContig);
+
     //_mm_i32gather_epi32
 
     WORKSPACE_FREE(pChunkCount);
-- 
2.43.0


From 6ea8a3ba2925091a3133c44b51642db620c6d550 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 048/160] fix: SetItem wrote the wrong elements of sliced,
 overlapping or read-only arrays, and overwrote references in object arrays

---
 src/Convert.cpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d8df26c..b22dc9e 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3771,6 +3771,35 @@ PyObject * SetItemBooleanMaskLarge(PyArrayObject * arr, PyArrayObject * mask, Py
     return Py_False;
 }
 
+//--------------------------------------------------------------------------
+// Mask assignment walks its arrays in order with pointers: returns true if
+// that does what numpy would do, i.e. the arrays are contiguous, the
+// destination may be written, and no source overlaps the destination (other
+// than element for element).
+static bool CanMaskAssign(PyArrayObject * arr, PyArrayObject * mask, PyArrayObject * inValues, bool sameElements)
+{
+    if (! PyArray_ISCARRAY(arr) || ! PyArray_ISCARRAY_RO(mask) || ! PyArray_ISCARRAY_RO(inValues))
+    {
+        return false;
+    }
+
+    auto overlaps = [arr](PyArrayObject * other) -> bool
+    {
+        return PyArray_BYTES(arr) < PyArray_BYTES(other) + PyArray_NBYTES(other) &&
+               PyArray_BYTES(other) < PyArray_BYTES(arr) + PyArray_NBYTES(arr);
+    };
+    auto sameItems = [arr](PyArrayObject * other) -> bool
+    {
+        return PyArray_BYTES(arr) == PyArray_BYTES(other) && PyArray_ITEMSIZE(arr) == PyArray_ITEMSIZE(other);
+    };
+
+    if (overlaps(mask) && ! sameItems(mask))
+    {
+        return false;
+    }
+    return ! overlaps(inValues) || (sameElements && sameItems(inValues));
+}
+
 //--------------------------------------------------------------------------
 // def __setitem__(self, fld, value) :
 //   : param fld : boolean or fancy index mask
@@ -3817,12 +3846,12 @@ PyObject * SetItem(PyObject * self, PyObject * args)
             // TODO: improvement when string itemsize is different length -- we can do
             // a custom string copy
             if (PyArray_NDIM(arr) == 1 && PyArray_ITEMSIZE(arr) > 0 && PyArray_NDIM(inValues) == 1 &&
-                PyArray_ITEMSIZE(inValues) == PyArray_ITEMSIZE(arr) && PyArray_TYPE(arr) == PyArray_TYPE(inValues))
+                PyArray_EquivTypes(PyArray_DESCR(arr), PyArray_DESCR(inValues)) && ! PyDataType_REFCHK(PyArray_DESCR(arr)))
             {
                 // Boolean path...
                 int arrType = PyArray_TYPE(mask);
 
-                if (arrType == NPY_BOOL)
+                if (arrType == NPY_BOOL && PyArray_NDIM(mask) == 1 && CanMaskAssign(arr, mask, inValues, false))
                 {
                     int64_t arrayLength = ArrayLength(arr);
 
@@ -3861,6 +3890,7 @@ PyObject * SetItem(PyObject * self, PyObject * args)
     else
     {
         LOGGING("SetItem Could not convert value to array\n");
+        PyErr_Clear();
     }
     // punt to numpy
     Py_IncRef(Py_False);
-- 
2.43.0


From 005dec8b08d9c06c9118451ccd76bed4ccf15163 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 049/160] fix: PutMask misread sliced masks and values, wrote
 overlapping or read-only arrays, and leaked or crashed on converted values

---
 src/Convert.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index b22dc9e..5ee85ef 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3917,9 +3917,17 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
     // Try to convert value if we have to
     PyObject * value = PyTuple_GetItem(args, 2);
+    bool newValue{ false };
     if (! PyArray_Check(value))
     {
         value = PyArray_FromAny(value, NULL, 0, 0, NPY_ARRAY_ENSUREARRAY, NULL);
+        newValue = true;
+        if (! value)
+        {
+            PyErr_Clear();
+            Py_IncRef(Py_False);
+            return Py_False;
+        }
     }
 
     if (PyArray_Check(arr) && PyArray_Check(mask) && PyArray_Check(value))
@@ -3931,9 +3939,8 @@ PyObject * PutMask(PyObject * self, PyObject * args)
             int64_t itemSizeOut = PyArray_ITEMSIZE(arr);
             int64_t itemSizeIn = PyArray_ITEMSIZE(inValues);
 
-            // check for strides... ?
             int64_t arrayLength = ArrayLength(arr);
-            if (arrayLength == ArrayLength(mask) && (arrayLength <= 1 || itemSizeOut == PyArray_STRIDE(arr, 0)))
+            if (arrayLength == ArrayLength(mask) && CanMaskAssign(arr, mask, inValues, true))
             {
                 int64_t valLength = ArrayLength(inValues);
 
@@ -3990,6 +3997,10 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         g_cMathWorker->DoMultiThreadedChunkWork(arrayLength, lambdaMaskCallback, &stMask);
 
+                        if (newValue)
+                        {
+                            Py_DECREF(value);
+                        }
                         Py_IncRef(Py_True);
                         return Py_True;
                     }
@@ -3998,6 +4009,11 @@ PyObject * PutMask(PyObject * self, PyObject * args)
         }
     }
 
+    if (newValue)
+    {
+        Py_DECREF(value);
+    }
+
     // punt to numpy
     Py_IncRef(Py_False);
     return Py_False;
-- 
2.43.0


From 72299369bc7fcf2cc70c96703229b48b95f5e1b5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 050/160] fix: PutMask turned False into invalid values

---
 src/Convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 5ee85ef..47387bd 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3987,7 +3987,8 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         stMask.itemSizeIn = itemSizeIn;
                         stMask.itemSizeOut = itemSizeOut;
-                        stMask.pBadInput1 = GetDefaultForType(inDType);
+                        // bool has no invalid value: its bytes never equal the one of int8
+                        stMask.pBadInput1 = GetDefaultForType(inDType == NPY_BOOL ? NPY_INT8 : inDType);
                         stMask.pBadOutput1 = GetDefaultForType(outDType);
 
                         stMask.pIn = (char *)PyArray_BYTES(inValues);
-- 
2.43.0


From 5a3236763629c877d3a75b7a22f6011203af6937 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 051/160] fix: MBGet and ReIndex crashed on unaligned 16 byte
 items

---
 src/Bins.cpp  |  9 ++++++++-
 src/Merge.cpp | 24 ++++++++++++++++--------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 0959de3..b1f9812 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -54,6 +54,13 @@ void ReIndexData(void * pDataOut, void * pDataIn, void * pIndex1, int64_t size,
     }
 }
 
+// 16 byte items (an array of them need not be aligned to 16 bytes)
+struct Bytes16
+{
+    int64_t lo;
+    int64_t hi;
+};
+
 //--------------------------------------------------------
 // T is the type of the index -- usually int32_t or INT64
 template <typename T>
@@ -70,7 +77,7 @@ REINDEXCALLBACK ReIndexDataStep1(int64_t itemSize)
     case 8:
         return ReIndexData<T, double>;
     case 16:
-        return ReIndexData<T, __m128>;
+        return ReIndexData<T, Bytes16>;
     default:
         return ReIndexData<T>;
     }
diff --git a/src/Merge.cpp b/src/Merge.cpp
index 7d9ddb3..2c9558f 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1137,6 +1137,14 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
     return didSomeWork > 0;
 }
 
+//------------------------------------------------------------
+// 16 byte items (an array of them need not be aligned to 16 bytes)
+struct Bytes16
+{
+    int64_t lo;
+    int64_t hi;
+};
+
 //------------------------------------------------------------
 // itemSize is Values itemSize
 // indexType is Index type
@@ -1156,7 +1164,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int8_t>;
         case 16:
-            return GetItemInt<__m128, int8_t>;
+            return GetItemInt<Bytes16, int8_t>;
         default:
             return GetItemIntVariable<int8_t>;
         }
@@ -1173,7 +1181,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<__m128, uint8_t>;
+            return GetItemUInt<Bytes16, uint8_t>;
         default:
             return GetItemUIntVariable<uint8_t>;
         }
@@ -1191,7 +1199,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int16_t>;
         case 16:
-            return GetItemInt<__m128, int16_t>;
+            return GetItemInt<Bytes16, int16_t>;
         default:
             return GetItemIntVariable<int16_t>;
         }
@@ -1208,7 +1216,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<__m128, uint16_t>;
+            return GetItemUInt<Bytes16, uint16_t>;
         default:
             return GetItemUIntVariable<uint16_t>;
         }
@@ -1226,7 +1234,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int32_t>;
         case 16:
-            return GetItemInt<__m128, int32_t>;
+            return GetItemInt<Bytes16, int32_t>;
         default:
             return GetItemIntVariable<int32_t>;
         }
@@ -1243,7 +1251,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<__m128, uint32_t>;
+            return GetItemUInt<Bytes16, uint32_t>;
         default:
             return GetItemUIntVariable<uint32_t>;
         }
@@ -1261,7 +1269,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int64_t>;
         case 16:
-            return GetItemInt<__m128, int64_t>;
+            return GetItemInt<Bytes16, int64_t>;
         default:
             return GetItemIntVariable<int64_t>;
         }
@@ -1278,7 +1286,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<__m128, uint64_t>;
+            return GetItemUInt<Bytes16, uint64_t>;
         default:
             return GetItemUIntVariable<uint64_t>;
         }
-- 
2.43.0


From 6761237fe487af713909e2bd7a3bd098a3091ba7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 052/160] fix: ConvertSafe lost invalids or transposed the
 elements of sliced multidimensional arrays

---
 src/Convert.cpp | 39 ++++++++++-----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 47387bd..358f0ce 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1130,39 +1130,20 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
                           pBadOutput1, strideIn, strideOut);
             }
         }
-        else if (directionIn == -1 && directionOut == 0)
+        else
         {
-            // Col Major 2dim like array with output being fully contiguous
-            int64_t innerLen = 1;
-            directionIn = -directionIn;
-            for (int i = 0; i < directionIn; i++)
-            {
-                innerLen *= PyArray_DIM(inArr1, i);
-            }
-            // TODO: consider dividing the work over multiple threads if innerLen is
-            // large enough
-            const int64_t outerLen = PyArray_DIM(inArr1, (ndim - 1));
-            const int64_t outerStride = PyArray_STRIDE(inArr1, (ndim - 1));
-
-            LOGGING("Col Major  innerLen:%lld  outerLen:%lld  outerStride:%lld\n", innerLen, outerLen, outerStride);
+            // Don't leak the memory we allocated -- free it before starting over
+            Py_DECREF(outArray);
 
-            for (int64_t j = 0; j < outerLen; j++)
+            // convert a contiguous copy
+            PyArrayObject * contig = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_CORDER);
+            if (! contig)
             {
-                pFunction((char *)pDataIn + (j * outerStride), (char *)pDataOut + (j * innerLen * strideOut), innerLen, pBadInput1,
-                          pBadOutput1, strideIn, strideOut);
+                return NULL;
             }
-        }
-        else
-        {
-            // Don't leak the memory we allocated -- free it before raising the Python
-            // error and returning.
-            Py_DECREF(outArray);
-            // have numpy do the work
-            outArray = (PyArrayObject *)PyArray_FROM_OT((PyObject *)inArr1, numpyOutType);
-            // return PyErr_Format(PyExc_RuntimeError, "ConvertSafe allocated an
-            // output array whose *_CONTIGUOUS flags were not set even though the input
-            // array was contiguous. %d %d   out:%d %d  strideIn:%lld  strideOut:%lld",
-            // contigIn, ndim, contigOut, ndimOut, strideIn, strideOut);
+            PyObject * result = ConvertSafeInternal(contig, out_dtype);
+            Py_DECREF((PyObject *)contig);
+            return result;
         }
     }
     else
-- 
2.43.0


From 0841eefede061dc1a21aa177c4ec53b7c9a7ab97 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 053/160] fix: ConvertUnsafe read and wrote multidimensional
 arrays with the stride of their rows

---
 src/Convert.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 358f0ce..8821c8f 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1252,13 +1252,25 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
 
     LOGGING("ConvertUnsafe converting type %d to type %d\n", numpyInType, numpyOutType);
 
+    int ndimIn;
+    int64_t strideIn;
+    if (GetStridesAndContig(inArr1, ndimIn, strideIn) != 0)
+    {
+        // the elements cannot be walked with one stride: convert a contiguous copy
+        PyArrayObject * contig = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_CORDER);
+        if (! contig)
+        {
+            return NULL;
+        }
+        PyObject * result = ConvertUnsafeInternal(contig, out_dtype);
+        Py_DECREF((PyObject *)contig);
+        return result;
+    }
+
     void * pDataIn = PyArray_BYTES(inArr1);
 
     const int ndim = PyArray_NDIM(inArr1);
     npy_intp * const dims = PyArray_DIMS(inArr1);
-    // auto* const inArr1_strides = PyArray_STRIDES(inArr1);
-    // TODO: CalcArrayLength probably needs to be fixed to account for any
-    // non-default striding
     const int64_t arraySize1 = CalcArrayLength(ndim, dims);
     const int64_t len = arraySize1;
 
@@ -1284,7 +1296,7 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     {
         // Threading not allowed for this work item, call it directly from main
         // thread
-        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, PyArray_STRIDE(inArr1, 0), PyArray_STRIDE(outArray, 0));
+        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, strideIn, PyArray_ITEMSIZE(outArray));
     }
     else
     {
@@ -1298,8 +1310,8 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
         stConvertCallback.pBadInput1 = pBadInput1;
         stConvertCallback.pBadOutput1 = pBadOutput1;
 
-        stConvertCallback.typeSizeIn = PyArray_STRIDE(inArr1, 0);
-        stConvertCallback.typeSizeOut = PyArray_STRIDE(outArray, 0);
+        stConvertCallback.typeSizeIn = strideIn;
+        stConvertCallback.typeSizeOut = PyArray_ITEMSIZE(outArray);
 
         // This will notify the worker threads of a new work item
         g_cMathWorker->WorkMain(pWorkItem, len, 0);
-- 
2.43.0


From 24ce03ca07ffac5cbc2588e406a9a8e6a9c1cd7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 054/160] fix: ConvertSafe turned infinite values into NaN
 between long double and the other floats

---
 src/Convert.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 8821c8f..34e5385 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -403,9 +403,14 @@ public:
     {
         T * pIn = (T *)pDataIn;
         U * pOut = (U *)pDataOut;
-        T pBadValueIn = *(T *)pBadInput1;
         U pBadValueOut = *(U *)pBadOutput1;
 
+        // an infinite value has no integer to go to, but a float to stay in
+        auto isValid = [](T value) -> bool
+        {
+            return std::is_floating_point<U>::value ? value == value : std::isfinite(value);
+        };
+
         // How to handle nan conversions?
         // NAN converts to MININT (for float --> int conversion)
         // then the reverse, MIININT converts to NAN (for int --> float conversion)
@@ -415,7 +420,7 @@ public:
         {
             for (int64_t i = 0; i < len; i++)
             {
-                if (std::isfinite(pIn[i]) && (pIn[i] != pBadValueIn))
+                if (isValid(pIn[i]))
                 {
                     pOut[i] = (U)pIn[i];
                 }
@@ -431,7 +436,7 @@ public:
             U * pEndOut = (U *)((char *)pOut + (len * strideOut));
             while (pOut != pEndOut)
             {
-                if (std::isfinite(*pIn) && (*pIn != pBadValueIn))
+                if (isValid(*pIn))
                 {
                     *pOut = (U)*pIn;
                 }
-- 
2.43.0


From 35a6c306f735c5410193f7e2a790cf18397001f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 055/160] fix: arrays of equal or unit strides were taken as
 contiguous

---
 src/RipTide.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index d7a0ef0..f0d9acb 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -2347,7 +2347,33 @@ int GetStridesAndContig(PyArrayObject const * inArray, int & ndim, int64_t & str
             }
             if (lastStride == stride)
             {
-                // contiguous with one of the dimensions having length 1
+                // contiguous if all dimensions but one have length 1, otherwise
+                // check that each dimension spans the ones after it
+                int64_t expectedStride = 0;
+                bool found = false;
+                for (int dim = ndims - 1; dim >= 0 && ! PyArray_IS_F_CONTIGUOUS(inArray); dim--)
+                {
+                    const int64_t dimLength = PyArray_DIM(inArray, dim);
+                    if (dimLength > 1)
+                    {
+                        if (found && PyArray_STRIDE(inArray, dim) != expectedStride)
+                        {
+                            direction = ndims - 1;
+                            break;
+                        }
+                        if (! found)
+                        {
+                            stride = PyArray_STRIDE(inArray, dim);
+                            expectedStride = stride;
+                            found = true;
+                        }
+                        expectedStride *= dimLength;
+                    }
+                }
+                if (direction != 0)
+                {
+                    stride = lastStride;
+                }
             }
             else if (std::abs(lastStride) < std::abs(stride))
             {
-- 
2.43.0


From 7a4a4b2b8dc5c504c6f728b7c41a9c60b3c3e7b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 056/160] fix: conversions of permuted Fortran arrays keep
 their order

---
 src/Convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 34e5385..0d5cfa5 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1141,7 +1141,7 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
             Py_DECREF(outArray);
 
             // convert a contiguous copy
-            PyArrayObject * contig = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_CORDER);
+            PyArrayObject * contig = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_ANYORDER);
             if (! contig)
             {
                 return NULL;
@@ -1262,7 +1262,7 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     if (GetStridesAndContig(inArr1, ndimIn, strideIn) != 0)
     {
         // the elements cannot be walked with one stride: convert a contiguous copy
-        PyArrayObject * contig = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_CORDER);
+        PyArrayObject * contig = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_ANYORDER);
         if (! contig)
         {
             return NULL;
-- 
2.43.0


From 0f812dc28be3ce9b00bc2bb3939e877c95cccbf2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 057/160] fix: sliced Fortran arrays were walked by column as
 if in row order

---
 src/RipTide.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index f0d9acb..d86369f 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -2410,6 +2410,11 @@ int GetStridesAndContig(PyArrayObject const * inArray, int & ndim, int64_t & str
                 // think!
                 // direction = (ndims - 1) - currentdim;
                 direction = currentdim - (ndims - 1);
+                if (direction == 0 && ! PyArray_IS_F_CONTIGUOUS(inArray))
+                {
+                    // one stride walks it, but in the order of its columns
+                    direction = 1 - ndims;
+                }
                 // contig = currentdim == (ndims - 1);
             }
         }
-- 
2.43.0


From 9549974695e7a5fe8c1901f2c9c4d178de625e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 058/160] fix: bools stacked with unsigned integers changed
 their dtype and lost large values

---
 src/Convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 0d5cfa5..ed838e5 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2705,8 +2705,8 @@ int GetUpcastDtype(ArrayInfo * aInfo, int64_t tupleSize)
                 return maxint;
             }
 
-            // check if any ints
-            if (maxint == -1)
+            // check if any ints (a bool fits in any uint)
+            if (maxint <= NPY_BOOL)
             {
                 // no integers and no floats
                 return maxuint;
-- 
2.43.0


From 7832e5e2c65fad0fc993b225cf6055d6caaf4703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 059/160] fix: HomogenizeArrays turned False into invalid
 values

---
 src/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index ed838e5..778a140 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3276,7 +3276,7 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
             if (dtype != aInfo[t].NumpyDType)
             {
                 CONVERT_SAFE convertSafe = GetConversionFunctionSafe(aInfo[t].NumpyDType, dtype);
-                void * pBadInput1 = GetDefaultForType(aInfo[t].NumpyDType);
+                void * pBadInput1 = GetInvalid(aInfo[t].NumpyDType);
                 PyArrayObject * pOutput = AllocateLikeNumpyArray(aInfo[t].pObject, dtype);
 
                 // TODO: multithread this
-- 
2.43.0


From 1b14fd23edf1c1016fb8f900ccbb909aec910a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 060/160] fix: stacking, shifting or homogenizing None, 0-dim,
 sliced or read-only arrays crashed or was dropped

---
 src/Convert.cpp  | 43 ++++++++++++++++++++++++++++++++++++++++++-
 src/MultiKey.cpp |  3 ++-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 778a140..ec42763 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2823,6 +2823,17 @@ PyObject * HStack(PyObject * self, PyObject * args)
         int64_t maxItemSize = 0;
         PyArrayObject * outputArray = NULL;
 
+        for (int64_t t = 0; t < tupleSize; t++)
+        {
+            // None and other than one dimension cannot be stacked
+            if (! aInfo[t].pObject || aInfo[t].NDim != 1)
+            {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "HStack only stacks arrays of 1 dimension");
+                return NULL;
+            }
+        }
+
         if (dtype == -1)
         {
             dtype = GetUpcastDtype(aInfo, tupleSize);
@@ -2853,6 +2864,7 @@ PyObject * HStack(PyObject * self, PyObject * args)
                 }
                 else
                 {
+                    FreeArrayInfo(aInfo);
                     PyErr_Format(PyExc_ValueError,
                                  "Dont know how to convert dtype num %d.  Please make "
                                  "sure all arrays are ints or floats.",
@@ -2968,6 +2980,7 @@ PyObject * HStack(PyObject * self, PyObject * args)
 
                 if (a_dtype > NPY_LONGDOUBLE || aInfo[t].NDim != 1)
                 {
+                    WORKSPACE_FREE(pHStack);
                     FreeArrayInfo(aInfo);
                     PyErr_Format(PyExc_ValueError,
                                  "Dont know how to convert dtype num %d or more than 1 dimension. "
@@ -3080,7 +3093,16 @@ PyObject * ShiftArrays(PyObject * self, PyObject * args)
 
     if (aInfo)
     {
-        int64_t totalLength = 0;
+        // The arrays are shifted in place
+        for (int64_t t = 0; t < tupleSize; t++)
+        {
+            if (aInfo[t].pOriginalObject || (aInfo[t].pObject && ! PyArray_ISWRITEABLE(aInfo[t].pObject)))
+            {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "ShiftArrays: the arrays must be contiguous and writeable");
+                return NULL;
+            }
+        }
 
         // Callback routine from multithreaded worker thread (items just count up
         // from 0,1,2,...)
@@ -3244,10 +3266,27 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
     {
         int32_t dtype = (int32_t)PyLong_AsLong(dtypeObject);
 
+        if (dtype == -1 && PyErr_Occurred())
+        {
+            FreeArrayInfo(aInfo);
+            return NULL;
+        }
+
+        for (int64_t t = 0; t < tupleSize; t++)
+        {
+            if (! aInfo[t].pObject || aInfo[t].NumpyDType > NPY_LONGDOUBLE)
+            {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "HomogenizeArrays: all arrays must be ints or floats");
+                return NULL;
+            }
+        }
+
         if (dtype != -1)
         {
             if (dtype < 0 || dtype > NPY_LONGDOUBLE)
             {
+                FreeArrayInfo(aInfo);
                 PyErr_Format(PyExc_ValueError,
                              "HomogenizeArrays: Dont know how to convert dtype num %d. "
                              " Please make sure all arrays are ints or floats.",
@@ -3260,6 +3299,8 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
             dtype = GetUpcastDtype(aInfo, tupleSize);
             if (dtype == -1)
             {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "HomogenizeArrays: no arrays to homogenize");
                 return NULL;
             }
         }
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index af804dc..f4a9bb5 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -241,8 +241,9 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                 goto EXIT_ROUTINE;
             }
 
-            int64_t stride0 = PyArray_STRIDE((PyArrayObject *)inObject, 0);
             int64_t itemSize = aInfo[i].ItemSize;
+            // a 0-dim array has no strides
+            int64_t stride0 = aInfo[i].NDim > 0 ? PyArray_STRIDE((PyArrayObject *)inObject, 0) : itemSize;
 
             if (checkrows)
             {
-- 
2.43.0


From 646f151f185b93001974be3eb95b877729526eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 061/160] fix: long long stacked with 64 bit unsigned integers
 lost large values

---
 src/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index ec42763..2d23259 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2699,7 +2699,7 @@ int GetUpcastDtype(ArrayInfo * aInfo, int64_t tupleSize)
         if (maxuint > 0)
         {
             // Do we have a uint and no floats?
-            if (maxint > maxuint)
+            if (maxint > maxuint && ! (sizeof(long) == 8 && maxuint == NPY_ULONG))
             {
                 // we can safely upcast the uint to maxint
                 return maxint;
-- 
2.43.0


From cbe01380c33081e5c79b917c70e5d2fbc19074b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 062/160] fix: arithmetic misread sliced, transposed,
 misaligned or byte-swapped arrays and paired arrays of different shapes

---
 src/BasicMath.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index d3271b3..56499c8 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2301,6 +2301,22 @@ public:
         flags2 = PyArray_FLAGS(inArr2);
     }
 
+    //-------------------------------------------------------------------
+    // The kernels walk an array as one block of native, aligned elements
+    static bool IsOneBlock(PyArrayObject * arr)
+    {
+        return (PyArray_IS_C_CONTIGUOUS(arr) || PyArray_IS_F_CONTIGUOUS(arr)) && PyArray_ISALIGNED(arr) && PyArray_ISNOTSWAPPED(arr);
+    }
+
+    // Returns true if walking both blocks visits the same positions: same shape and same memory order
+    static bool IsSameWalk(PyArrayObject * arr1, PyArrayObject * arr2)
+    {
+        return PyArray_NDIM(arr1) == PyArray_NDIM(arr2) &&
+               PyArray_CompareLists(PyArray_DIMS(arr1), PyArray_DIMS(arr2), PyArray_NDIM(arr1)) &&
+               ((PyArray_IS_C_CONTIGUOUS(arr1) && PyArray_IS_C_CONTIGUOUS(arr2)) ||
+                (PyArray_IS_F_CONTIGUOUS(arr1) && PyArray_IS_F_CONTIGUOUS(arr2)));
+    }
+
     //-------------------------------------------------------------------
     // Arg1: defaultScalarType currently not used
     // returns false on failure
@@ -2591,6 +2607,10 @@ public:
             {
                 return false;
             }
+            if (! IsOneBlock(inArr))
+            {
+                return false;
+            }
 
             // If expecting a specific length, check for that
             if (expectedLength && len1 != expectedLength)
@@ -2652,6 +2672,10 @@ public:
             {
                 return false;
             }
+            if (! IsOneBlock(inArr2))
+            {
+                return false;
+            }
 
             // If expecting a specific length, check for that
             if (expectedLength && len2 != expectedLength)
@@ -2684,6 +2708,12 @@ public:
 
             if (len1 != len2)
             {
+                // broadcasting a single item against fewer dimensions adds dimensions
+                if ((len1 == 1 && ndim1 > ndim2) || (len2 == 1 && ndim2 > ndim1))
+                {
+                    return false;
+                }
+
                 // if ndim ==0, then first argument was likely a scalar numpy array
                 if (len1 == 1 && len2 >= 1)
                 {
@@ -2781,6 +2811,10 @@ public:
             }
             else
             {
+                // different shapes must be broadcast, different orders be aligned
+                if (! IsSameWalk(inArr, inArr2))
+                    return false;
+
                 // Check if we need to upcast one or both of the arrays
                 // bool, NPY_INT8, NPY_UINT8
                 if (! CheckUpcast())
-- 
2.43.0


From cfe75b0af5ce024da892562f98f8fad931b5f4b4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 063/160] fix: arithmetic wrote outside or over the wrong
 elements of strided, read-only, misshapen or overlapping outputs

---
 src/BasicMath.cpp | 70 ++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 47 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 56499c8..f44813c 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2858,19 +2858,14 @@ public:
             }
             else
             {
-                int64_t len3 = ArrayLength((PyArrayObject *)outputObject);
-                LOGGING("oref %llu  len1:%lld  len2:%lld  len3: %lld\n", outputObject->ob_refcnt, len1, len2, len3);
-                if (len3 < len2 || len3 < len1)
-                {
-                    // something wrong with output size (gonna crash)
-                    return nullptr;
-                }
+                PyArrayObject * const outArr = (PyArrayObject *)outputObject;
 
-                if (PyArray_DIM(reinterpret_cast<PyArrayObject const *>(outputObject), 0) > 1 &&
-                    PyArray_ITEMSIZE((PyArrayObject *)outputObject) != PyArray_STRIDE((PyArrayObject *)outputObject, 0))
+                // the output must be walked exactly as the (longest) input is
+                PyArrayObject * const walkArr = scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR ? inArr2 : inArr;
+
+                if (! PyArray_ISWRITEABLE(outArr) || ! IsOneBlock(outArr) || ! IsSameWalk(outArr, walkArr))
                 {
-                    // output array is strided
-                    LOGGING("Punting because output array is strided\n");
+                    LOGGING("Punting because output array is strided, read only or has another shape\n");
                     return nullptr;
                 }
 
@@ -2894,47 +2889,28 @@ public:
             // a[1:] -= a[:-1]
             char * pOutput = PyArray_BYTES(returnObject);
             char * pOutputEnd = pOutput + ArrayLength(returnObject) * PyArray_ITEMSIZE(returnObject);
-            bool bOverlapProblem = false;
 
-            if (len1)
-            {
-                if (pDataIn1 > pOutput && pDataIn1 < pOutputEnd)
-                {
-                    printf(
-                        "!!!warning: inplace operation has memory overlap in "
-                        "beginning for input1\n");
-                    bOverlapProblem = true;
-                }
-                char * pTempEnd = (char *)pDataIn1 + (len1 * itemSize1);
-                if (pTempEnd > pOutput && pTempEnd < pOutputEnd)
-                {
-                    printf(
-                        "!!!warning: inplace operation has memory overlap at end for "
-                        "input1\n");
-                    bOverlapProblem = true;
-                }
-            }
-            if (len2)
+            // the very same elements may be written in place, anything else that overlaps may not
+            auto const overlaps = [&](PyArrayObject * arr, void * pDataIn, int64_t len, int64_t itemSize)
             {
-                if (pDataIn2 > pOutput && pDataIn2 < pOutputEnd)
-                {
-                    printf(
-                        "!!!warning: inplace operation has memory overlap in "
-                        "beginning for input2\n");
-                    bOverlapProblem = true;
-                }
-                char * pTempEnd = (char *)pDataIn2 + (len2 * itemSize2);
-                if (pTempEnd > pOutput && pTempEnd < pOutputEnd)
-                {
-                    printf(
-                        "!!!warning: inplace operation has memory overlap at end for "
-                        "input2\n");
-                    bOverlapProblem = true;
-                }
-            }
+                char * const pInput = (char *)pDataIn;
+                if (arr == nullptr || len == 0)
+                    return false;
+                if (pInput == pOutput && itemSize == PyArray_ITEMSIZE(returnObject))
+                    return false;
+                return pInput < pOutputEnd && pOutput < pInput + len * itemSize;
+            };
+            bool bOverlapProblem = false;
+
+            if (scalarMode != SCALAR_MODE::FIRST_ARG_SCALAR)
+                bOverlapProblem |= overlaps(inArr, pDataIn1, len1, itemSize1);
+            if (scalarMode != SCALAR_MODE::SECOND_ARG_SCALAR)
+                bOverlapProblem |= overlaps(inArr2, pDataIn2, len2, itemSize2);
 
             if (bOverlapProblem)
             {
+                Py_DECREF(outputObject);
+                returnObject = nullptr;
                 return nullptr;
             }
         }
-- 
2.43.0


From ee4dd7029d7ea09700217054b293737b01737c7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 064/160] fix: arithmetic refusing its arguments returned None
 with an error set

---
 src/BasicMath.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index f44813c..6676414 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3539,6 +3539,11 @@ PyObject * BasicMathTwoInputs(PyObject * self, PyObject * args)
         return TwoInputsInternal(twoInputs, funcNumber);
     }
 
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
+
     // punt to numpy
     Py_INCREF(Py_None);
     return Py_None;
@@ -3560,6 +3565,11 @@ PyObject * BasicMathTwoInputsFromNumber(PyObject * input1, PyObject * input2, Py
         return TwoInputsInternal(twoInputs, funcNumber);
     }
 
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
+
     // punt to numpy
     Py_INCREF(Py_None);
     return Py_None;
@@ -3978,6 +3988,11 @@ PyObject * Where(PyObject * self, PyObject * args)
         return nullptr;
     }
 
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
+
     // punt to numpy
     Py_INCREF(Py_None);
     return Py_None;
-- 
2.43.0


From 2098e3b2dd112af7e72bdba32bbc32a5430875a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 065/160] fix: arithmetic on 0-dim arrays returned a 1-dim
 array

---
 src/BasicMath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 6676414..3eed4ad 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2700,6 +2700,12 @@ public:
             //}
         }
 
+        // a result without dimensions cannot be allocated here
+        if ((isScalar1 || ndim1 == 0) && (isScalar2 || ndim2 == 0) && ! (isScalar1 && isScalar2))
+        {
+            return false;
+        }
+
         // If both are arrays, need to be same size
         if (scalarMode == SCALAR_MODE::NO_SCALARS)
         {
-- 
2.43.0


From 8ca8054f43241eabbb139821479e21cab41970ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 066/160] fix: arithmetic on empty multi-dimensional arrays
 lost the shape

---
 src/BasicMath.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 3eed4ad..dd5d478 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2926,15 +2926,8 @@ public:
 
             // TODO: when handling 2 dim arrays that are contiguous and same ORDER,
             // allocate an array with the flags for order 'F' or 'C'
-            if (len1 <= 0 && len2 <= 0)
-            {
-                // Handle empty
-                npy_intp dimensions[1] = { 0 };
-                returnObject = AllocateNumpyArray(1, dimensions, wantOutType);
-            }
-            else
                 // Check for functions that always output a boolean
-                if (len1 >= len2)
+                if (scalarMode != SCALAR_MODE::FIRST_ARG_SCALAR)
                 {
                     LOGGING("Going to allocate for len1 type %d  %lld  %lld  %d %lld\n", wantOutType, len1, len2, ndim1,
                             dims1 ? (int64_t)dims1[0] : 0);
-- 
2.43.0


From 45e0f8b03d12c7e8a6d86f7179c22ce614ea9a10 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 067/160] fix: arithmetic on two scalars returned an empty
 array

---
 src/BasicMath.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index dd5d478..a9ff7ea 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3403,6 +3403,13 @@ static PyObject * PossiblyAddUnicode(CTwoInputs & twoInputs)
 // If NONE is returned, punt to numpy
 PyObject * TwoInputsInternal(CTwoInputs & twoInputs, int64_t funcNumber)
 {
+    // two scalars have no length: leave them to numpy
+    if (twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR)
+    {
+        Py_INCREF(Py_None);
+        return Py_None;
+    }
+
     // SPECIAL HOOK FOR ADDING TWO STRINGS -------------------------
     if (funcNumber == MATH_OPERATION::ADD)
     {
-- 
2.43.0


From 476621b9c6b37bd9f4131524bdc34570f841a584 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 068/160] fix: integer modulus and floor division by zero or -1
 ended the process, modulus had the sign of the dividend

---
 src/BasicMath.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index a9ff7ea..499f69d 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -297,6 +297,10 @@ static const inline T FloorDivOp(T x, T y)
 {
     if (y != 0)
     {
+        // the smallest integer divided by -1 does not fit and traps
+        if (std::is_signed<T>::value && y == (T)-1)
+            return (T)(0 - (typename std::make_unsigned<T>::type)x);
+
         if ((x < 0) == (y < 0))
             return x / y;
 
@@ -334,10 +338,17 @@ static const inline float FloorDivOp(float x, float y)
         return NAN;
 }
 
+// Same as numpy: the result has the sign of the divisor, anything % 0 is 0
 template <typename T>
 static const inline T ModOp(T x, T y)
 {
-    return x % y;
+    if (y == 0 || (std::is_signed<T>::value && y == (T)-1))
+        return 0;
+
+    T r = x % y;
+    if (r != 0 && ((r < 0) != (y < 0)))
+        r += y;
+    return r;
 }
 template <typename T>
 static const inline float ModOp(T x, T y)
-- 
2.43.0


From 4d2a1756a70dbdb8cde9d0f0950974d235ed1bee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 069/160] fix: float modulus and floor division were wrong for
 rounding quotients, large quotients and infinities

---
 src/BasicMath.cpp | 56 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 499f69d..846c213 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -292,6 +292,41 @@ static const inline int64_t SubDatesOp(int64_t x, int64_t y)
     return (x - y);
 }
 
+// Floored division and its remainder, as numpy defines them: the remainder comes
+// from the exact fmod. Deriving it from floor(x / y) goes wrong when the quotient
+// rounds up to an integer, is large, or y is infinite.
+template <typename T>
+static inline T RemainderFloat(T x, T y)
+{
+    T mod = std::fmod(x, y);
+    if (y == 0)
+        return mod;
+    if (mod != 0)
+    {
+        if ((y < 0) != (mod < 0))
+            mod += y;
+    }
+    else
+    {
+        mod = std::copysign((T)0, y);
+    }
+    return mod;
+}
+
+template <typename T>
+static inline T FloorDivFloat(T x, T y)
+{
+    if (y == 0)
+        return x / y;
+    T div = (x - RemainderFloat(x, y)) / y;
+    if (div == 0)
+        return std::copysign((T)0, x / y);
+    T floordiv = std::floor(div);
+    if (div - floordiv > (T)0.5)
+        floordiv += 1;
+    return floordiv;
+}
+
 template <typename T>
 static const inline T FloorDivOp(T x, T y)
 {
@@ -316,26 +351,17 @@ static const inline T FloorDivOp(T x, T y)
 template <typename T>
 static const inline long double FloorDivOp(long double x, long double y)
 {
-    if (y == y)
-        return floorl(x / y);
-    else
-        return NAN;
+    return FloorDivFloat(x, y);
 }
 template <typename T>
 static const inline double FloorDivOp(double x, double y)
 {
-    if (y == y)
-        return floor(x / y);
-    else
-        return NAN;
+    return FloorDivFloat(x, y);
 }
 template <typename T>
 static const inline float FloorDivOp(float x, float y)
 {
-    if (y == y)
-        return floorf(x / y);
-    else
-        return NAN;
+    return FloorDivFloat(x, y);
 }
 
 // Same as numpy: the result has the sign of the divisor, anything % 0 is 0
@@ -405,17 +431,17 @@ static const inline bool PowerOp(bool x, bool y)
 template <typename T>
 static const inline long double REMAINDER_OP(long double x, long double y)
 {
-    return x - (y * floorl(x / y));
+    return RemainderFloat(x, y);
 }
 template <typename T>
 static const inline double REMAINDER_OP(double x, double y)
 {
-    return x - (y * floor(x / y));
+    return RemainderFloat(x, y);
 }
 template <typename T>
 static const inline float REMAINDER_OP(float x, float y)
 {
-    return x - (y * floorf(x / y));
+    return RemainderFloat(x, y);
 }
 
 template <typename T>
-- 
2.43.0


From 928ad9c748e7ae885f572e04d7c7a96e186c7deb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 070/160] fix: integer powers lost digits above 53 bits

---
 src/BasicMath.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 846c213..b0533e4 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -395,7 +395,20 @@ static const inline bool ModOp(bool x, bool y)
 template <typename T>
 static const inline T PowerOp(T x, T y)
 {
-    return (T)pow(x, y);
+    // integers: a double holds neither large results nor the wrap around
+    if (y < 0)
+    {
+        return x == 1 ? 1 : ((x + 1 == 0) ? ((y & 1) ? x : 1) : (x != 0 ? 0 : (T)pow(x, y)));
+    }
+    uint64_t base = (uint64_t)x;
+    uint64_t result = 1;
+    for (uint64_t e = (uint64_t)y; e != 0; e >>= 1)
+    {
+        if (e & 1)
+            result *= base;
+        base *= base;
+    }
+    return (T)result;
 }
 template <typename T>
 static const inline float PowerOp(float x, float y)
-- 
2.43.0


From fa6d3ce7cf7ad43ce71b7cd1f4f6c850b3c73d2d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 071/160] fix: modulus of bools returned exclusive or

---
 src/BasicMath.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index b0533e4..c949e26 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -386,11 +386,6 @@ static const inline double ModOp(T x, T y)
 {
     return fmod(x, y);
 }
-template <typename T>
-static const inline bool ModOp(bool x, bool y)
-{
-    return (x ^ y);
-}
 
 template <typename T>
 static const inline T PowerOp(T x, T y)
@@ -1890,8 +1885,6 @@ static ANY_TWO_FUNC GetSimpleMathOpSlow(int func, int scalarMode, int numpyInTyp
             *wantedOutType = numpyInType2;
         switch (*wantedOutType)
         {
-        case NPY_BOOL:
-            return SimpleMathOpSlowMod<bool>;
         case NPY_FLOAT:
             return SimpleMathOpSlowRemainder<float>;
         case NPY_DOUBLE:
-- 
2.43.0


From 96a84c4dc62c00b710fc13d0681de6a6abe14164 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 072/160] fix: long double division returned doubles

---
 src/BasicMath.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index c949e26..9c094cb 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -1790,8 +1790,6 @@ static ANY_TWO_FUNC GetSimpleMathOpSlow(int func, int scalarMode, int numpyInTyp
             return SimpleMathOpSlowDivFloat<float>;
         case NPY_DOUBLE:
             return SimpleMathOpSlowDiv<double>;
-        case NPY_LONGDOUBLE:
-            return SimpleMathOpSlowDiv<long double>;
         CASE_NPY_INT32:
             return SimpleMathOpSlowDiv<int32_t>;
         CASE_NPY_INT64:
-- 
2.43.0


From fa806ed9e78f8826642e91bfd7224c50bba6507e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 073/160] fix: and-not with a scalar read the scalar as an
 array

---
 src/BasicMath.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 9c094cb..ac4ce7b 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -952,6 +952,11 @@ inline void SimpleMathOpFast(void * pDataIn1X, void * pDataIn2X, void * pDataOut
 template <typename T, typename U256, const T MATH_OP(T, T), const U256 MATH_OP256(U256, U256)>
 inline void SimpleMathOpFastReverse(void * pDataIn1X, void * pDataIn2X, void * pDataOutX, int64_t datalen, int32_t scalarMode)
 {
+    // the scalar, if any, changes place as well
+    if (scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR)
+        scalarMode = SCALAR_MODE::SECOND_ARG_SCALAR;
+    else if (scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR)
+        scalarMode = SCALAR_MODE::FIRST_ARG_SCALAR;
     return SimpleMathOpFast<T, U256, MATH_OP, MATH_OP256>(pDataIn2X, pDataIn1X, pDataOutX, datalen, scalarMode);
 }
 
-- 
2.43.0


From 9a04f6bf1030a28b7d1373295400aa2b09fb7985 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 074/160] fix: unsigned array with a negative scalar of its own
 width wrapped

---
 src/BasicMath.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index ac4ce7b..0cf3d70 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2113,11 +2113,11 @@ static int g_signed_table[65] = {
     NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64
 };
 
-// the dtype is signed but the scalar has no sign
+// the dtype is unsigned but the scalar is negative
 static int g_mixedsign_table[65] = {
-    NPY_INT8,  NPY_INT8,  NPY_INT8,  NPY_INT8,  NPY_INT8,  NPY_INT8,   NPY_INT8,  NPY_INT8,  NPY_UINT8, NPY_INT16, NPY_INT16,
-    NPY_INT16, NPY_INT16, NPY_INT16, NPY_INT16, NPY_INT16, NPY_UINT16, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32,
-    NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32,  NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_UINT32,
+    NPY_INT8,  NPY_INT8,  NPY_INT8,  NPY_INT8,  NPY_INT8,  NPY_INT8,   NPY_INT8,  NPY_INT8,  NPY_INT16, NPY_INT16, NPY_INT16,
+    NPY_INT16, NPY_INT16, NPY_INT16, NPY_INT16, NPY_INT16, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32,
+    NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32,  NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT32, NPY_INT64,
     NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,  NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,
     NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,  NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,
     NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64, NPY_INT64,  NPY_INT64, NPY_INT64, NPY_INT64, NPY_UINT64
-- 
2.43.0


From 0ec7980af3a13dbe214fa833e7f0d4aa48500ed9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 075/160] fix: Where misread multi-dimensional or strided masks
 and arrays of another dtype, leaked strings

---
 src/BasicMath.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 0cf3d70..ea39791 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3939,6 +3939,28 @@ PyObject * Where(PyObject * self, PyObject * args)
             "itemsize: %lld\n",
             twoInputs.scalarMode, twoInputs.numpyInType1, twoInputs.numpyInType2, twoInputs.numpyOutType, length, numpyItemSize);
 
+        // The inputs are copied as they are, item by item: arrays must already be one dimensional of the
+        // output type, and no string may be longer than the output's strings
+        auto const fits = [&](bool isScalar, PyArrayObject * arr, int64_t itemSize)
+        {
+            if (isScalar)
+                return itemSize <= numpyItemSize;
+            return PyArray_NDIM(arr) == 1 && PyArray_EquivTypenums(PyArray_TYPE(arr), (int)numpyOutputType) &&
+                   PyArray_ITEMSIZE(arr) == numpyItemSize;
+        };
+        if (PyArray_NDIM(inBool1) != 1 || ! fits(twoInputs.isScalar1, twoInputs.inArr, twoInputs.itemSize1) ||
+            ! fits(twoInputs.isScalar2, twoInputs.inArr2, twoInputs.itemSize2))
+        {
+            Py_INCREF(Py_None);
+            return Py_None;
+        }
+
+        ContiguousArray condition(inBool1);
+        if (! condition)
+        {
+            return nullptr;
+        }
+
         // Place holder for output array
         PyArrayObject * outputArray = nullptr;
 
@@ -3948,7 +3970,7 @@ PyObject * Where(PyObject * self, PyObject * args)
 
         if (outputArray)
         {
-            int8_t * pCondition = (int8_t *)PyArray_BYTES(inBool1);
+            int8_t * pCondition = (int8_t *)PyArray_BYTES(condition.get());
             void * pOutput = PyArray_BYTES(outputArray);
 
             // for scalar strings, the item size is twoInputs.itemSize1
@@ -4029,7 +4051,7 @@ PyObject * Where(PyObject * self, PyObject * args)
             {
                 free(extraAlloc1);
             }
-            if (extraAlloc2 == nullptr)
+            if (extraAlloc2)
             {
                 free(extraAlloc2);
             }
-- 
2.43.0


From 825a73a5313bb3573a968f8be66e403c0fff751d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 076/160] fix: signed integer arrays with uint64 scalars or
 length 1 arrays gave float32 or int64

---
 src/RipTide.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index d86369f..89d7ea0 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -2059,9 +2059,21 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
         }
     }
 
+    stUpCast * pRow;
+    if (sizeof(long) == 8)
+    {
+        // An 8 byte NPY_ULONG next to a signed integer is in need of a double just as NPY_ULONGLONG is
+        for (int signedType : { NPY_BYTE, NPY_SHORT, NPY_INT, NPY_LONG, NPY_LONGLONG })
+        {
+            pRow = &gUpcastTable[NPY_ULONG * 14 + signedType];
+            pRow->dtype1 = pRow->dtype2 = NPY_FLOAT64;
+            pRow = &gUpcastTable[signedType * 14 + NPY_ULONG];
+            pRow->dtype1 = pRow->dtype2 = NPY_FLOAT64;
+        }
+    }
+
     // Comparisons should be able to handle int64 to uint64 specially
     memcpy(&gUpcastTableComparison, &gUpcastTable, sizeof(gUpcastTable));
-    stUpCast * pRow;
     if (sizeof(long) == 8)
     {
         pRow = &gUpcastTableComparison[NPY_LONG * 14 + NPY_ULONG];
-- 
2.43.0


From 6ec0e0afb99f457668bcb5f0e07e8f696708b2e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 077/160] fix: long double scalars lost digits

---
 src/RipTide.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 89d7ea0..d582158 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1251,6 +1251,15 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
         {
             double value = PyFloat_AsDouble(inObject1);
 
+            if (numpyOutType == NPY_LONGDOUBLE && PyArray_IsScalar(inObject1, LongDouble))
+            {
+                // a double does not hold all of it
+                long double longValue;
+                PyArray_ScalarAsCtype(inObject1, &longValue);
+                *(long double *)pDest = longValue;
+                return true;
+            }
+
             switch (numpyOutType)
             {
             case NPY_BOOL:
-- 
2.43.0


From 49744cc01337d64b8952feadaf2e5a31a38ea6c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 078/160] fix: integer scalars beyond 63 bits turned negative

---
 src/RipTide.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index d582158..c963ba3 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1159,6 +1159,8 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
             int overflow = 0;
             int64_t value;
             uint64_t value2;
+            // holds every 64 bit integer
+            long double fvalue;
 
             if (! isNumpyScalarInteger)
             {
@@ -1177,6 +1179,29 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 {
                     value2 = (uint64_t)value;
                 }
+
+                fvalue = (long double)value;
+                if (overflow)
+                {
+                    // an unsigned 64 bit integer may still hold it, a float holds it rounded
+                    const uint64_t unsignedValue = PyLong_AsUnsignedLongLong(inObject1);
+                    const bool fits = ! PyErr_Occurred();
+                    PyErr_Clear();
+
+                    if (numpyOutType >= NPY_FLOAT && numpyOutType <= NPY_LONGDOUBLE)
+                    {
+                        fvalue = fits ? (long double)unsignedValue : (long double)PyLong_AsDouble(inObject1);
+                        if (PyErr_Occurred())
+                        {
+                            PyErr_Clear();
+                            return false;
+                        }
+                    }
+                    else if (! fits || (numpyOutType != NPY_ULONG && numpyOutType != NPY_ULONGLONG))
+                    {
+                        return false;
+                    }
+                }
             }
             else
             {
@@ -1193,6 +1218,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
 
                     PyArray_CastScalarToCtype(inObject1, &value, g_pDescrLongLong);
                     PyArray_CastScalarToCtype(inObject1, &value2, g_pDescrULongLong);
+                    fvalue = PyArray_IsScalar(inObject1, UnsignedInteger) ? (long double)value2 : (long double)value;
                 }
                 else
                 {
@@ -1234,13 +1260,13 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 pDest->ci.i2 = _mm_set1_epi64x(value2);
                 break;
             case NPY_FLOAT32:
-                pDest->s = _mm256_set1_ps((float)value);
+                pDest->s = _mm256_set1_ps((float)fvalue);
                 break;
             case NPY_FLOAT64:
-                pDest->d = _mm256_set1_pd((double)value);
+                pDest->d = _mm256_set1_pd((double)fvalue);
                 break;
             case NPY_LONGDOUBLE:
-                *(long double *)pDest = (long double)value;
+                *(long double *)pDest = fvalue;
                 break;
             default:
                 printf("unknown long scalar type in convertScalarObject %d\n", numpyOutType);
-- 
2.43.0


From b0ed2d59e6578a18ac8ad67ff78a542c7eb1b7c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 079/160] fix: half float scalars with integer arrays lost
 their fraction

---
 src/RipTide.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index c963ba3..a65a1bd 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1277,6 +1277,12 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
         {
             double value = PyFloat_AsDouble(inObject1);
 
+            // no type was found which holds a half float and an integer
+            if (PyArray_IsScalar(inObject1, Half) && numpyOutType < NPY_FLOAT)
+            {
+                return false;
+            }
+
             if (numpyOutType == NPY_LONGDOUBLE && PyArray_IsScalar(inObject1, LongDouble))
             {
                 // a double does not hold all of it
-- 
2.43.0


From d619f9732437afbba836395ce003e7c7f9b3c8ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 080/160] fix: length 1 unsigned arrays beyond 63 bits turned
 negative, long double ones were refused

---
 src/RipTide.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index a65a1bd..909710b 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -985,47 +985,48 @@ int32_t GetArrDType(PyArrayObject * inArr)
 bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest, int16_t numpyOutType)
 {
     int64_t value = 0;
-    double fvalue = 0;
+    // holds every 64 bit integer
+    long double fvalue = 0;
 
     switch (numpyInType)
     {
     case NPY_BOOL:
         value = (int64_t) * (bool *)pInput;
-        fvalue = (double)value;
+        fvalue = (long double)value;
         break;
     case NPY_INT8:
         value = (int64_t) * (int8_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (long double)value;
         break;
     case NPY_UINT8:
         value = (int64_t) * (uint8_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (long double)value;
         break;
     case NPY_INT16:
         value = (int64_t) * (int16_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (long double)value;
         break;
     case NPY_UINT16:
         value = (int64_t) * (uint16_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (long double)value;
         break;
     CASE_NPY_UINT32:
         value = (int64_t) * (uint32_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (long double)value;
         break;
     CASE_NPY_INT32:
         value = (int64_t) * (int32_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (long double)value;
         break;
     CASE_NPY_UINT64:
 
         value = (int64_t) * (uint64_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (long double)*(uint64_t *)pInput;
         break;
     CASE_NPY_INT64:
 
         value = (int64_t) * (int64_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (long double)value;
         break;
     case NPY_FLOAT32:
         fvalue = (double)*(float *)pInput;
@@ -1035,6 +1036,10 @@ bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest
         fvalue = (double)*(double *)pInput;
         value = (int64_t)fvalue;
         break;
+    case NPY_LONGDOUBLE:
+        fvalue = *(long double *)pInput;
+        value = (int64_t)fvalue;
+        break;
     default:
         return false;
     }
@@ -1068,6 +1073,9 @@ bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest
         // printf("setting value to %lf\n", fvalue);
         pDest->d = _mm256_set1_pd((double)fvalue);
         break;
+    case NPY_LONGDOUBLE:
+        *(long double *)pDest = fvalue;
+        break;
     default:
         printf("unknown scalar type in convertScalarObject %d\n", numpyOutType);
         return false;
-- 
2.43.0


From 4c34f9e98ed86978983c31c95417fde9cc914dce Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 081/160] fix: arithmetic and comparisons with a str leaked it

---
 src/BasicMath.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index ea39791..ade93bf 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2160,6 +2160,8 @@ public:
         {
             Py_DecRef(toDelete4);
         }
+        PyMem_Free(ucs4Copy1);
+        PyMem_Free(ucs4Copy2);
     }
 
     //-------------------------------------------------------------------
@@ -2632,6 +2634,8 @@ public:
 
             // pDataIn1 will be set pointing to 256 bit value
             bool bResult = ConvertScalarObject(inObject1, &m256Scalar1, numpyInType2, &pDataIn1, &itemSize1);
+            if (bResult && PyUnicode_Check(inObject1) && pDataIn1 != &m256Scalar1)
+                ucs4Copy1 = pDataIn1;
 
             LOGGING(
                 "Converting first scalar type to %d, bresult: %d,  value: %lld  "
@@ -2699,6 +2703,8 @@ public:
 
             // pDataIn2 will be set pointing to 256 bit value
             bool bResult = ConvertScalarObject(inObject2, &m256Scalar2, numpyInType1, &pDataIn2, &itemSize2);
+            if (bResult && PyUnicode_Check(inObject2) && pDataIn2 != &m256Scalar2)
+                ucs4Copy2 = pDataIn2;
 
             LOGGING(
                 "Converting second scalar type to %d, bresult: %d,  value: %lld  "
@@ -3047,6 +3053,9 @@ public:
     PyObject * inObject1 = nullptr;
     PyObject * inObject2 = nullptr;
 
+    // copies of str scalars
+    void * ucs4Copy1 = nullptr;
+    void * ucs4Copy2 = nullptr;
     PyObject * toDelete1 = nullptr;
     PyObject * toDelete2 = nullptr;
     PyObject * toDelete3 = nullptr;
-- 
2.43.0


From 26c224668226f30c67c852e89c4a8bf0802c5407 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 082/160] fix: float floor division by infinity was nan

---
 src/BasicMath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index ade93bf..fe77591 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -318,7 +318,10 @@ static inline T FloorDivFloat(T x, T y)
 {
     if (y == 0)
         return x / y;
-    T div = (x - RemainderFloat(x, y)) / y;
+    const T mod = std::fmod(x, y);
+    T div = (x - mod) / y;
+    if (mod != 0 && (y < 0) != (mod < 0))
+        div -= (T)1;
     if (div == 0)
         return std::copysign((T)0, x / y);
     T floordiv = std::floor(div);
-- 
2.43.0


From 9dc4cb2d2bead12468e22f0f16971886ac435fee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 083/160] fix: Where mixed up bytes of unaligned bytes strings

---
 src/BasicMath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index fe77591..e9f1cdc 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -4039,7 +4039,11 @@ PyObject * Where(PyObject * self, PyObject * args)
                     WCBS.strideSize2 = PyArray_STRIDE(twoInputs.inArr2, 0) / twoInputs.itemSize2;
             }
 
-            switch (numpyItemSize)
+            // bytes strings can start anywhere in memory, then they are not read as integers
+            const bool isUnaligned =
+                numpyItemSize > 1 && numpyItemSize <= 8 && ((uintptr_t)pInput1 | (uintptr_t)pInput2) % numpyItemSize != 0;
+
+            switch (isUnaligned ? 0 : numpyItemSize)
             {
             case 1:
                 g_cMathWorker->DoMultiThreadedChunkWork(length, WhereCallback<int8_t>, &WCBS);
-- 
2.43.0


From 6ca8f84729340bf931ed19f8970d96831c6a1d6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 084/160] fix: converting a 0-dim array gave it one dimension

---
 src/RipTide.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 909710b..6ebed26 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -639,7 +639,8 @@ PyArrayObject * AllocateNumpyArray(int ndim, npy_intp * dims, int32_t numpyType,
     volatile int64_t dimensions[1] = { len };
 
     // This is the safest way...
-    if (! dims)
+    // (an array without dimensions has no list of them)
+    if (! dims && ndim > 0)
     {
         // Happens with a=FA([]); 100*a;  or  FA([1])[0] / FA([2])
         // printf("dims was null when allocating\n");
-- 
2.43.0


From 39ead1d20f14a9b7a6b13ab4a51d7afdf432b047 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 085/160] fix: arithmetic on two scalars taken as doubles had
 no result

---
 src/BasicMath.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index e9f1cdc..c8cda95 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3461,8 +3461,10 @@ static PyObject * PossiblyAddUnicode(CTwoInputs & twoInputs)
 // If NONE is returned, punt to numpy
 PyObject * TwoInputsInternal(CTwoInputs & twoInputs, int64_t funcNumber)
 {
-    // two scalars have no length: leave them to numpy
-    if (twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR)
+    // two scalars have no length: only numbers which were both taken as doubles are handled
+    if (twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR &&
+        (twoInputs.numpyInType1 != NPY_DOUBLE || twoInputs.pDataIn1 != &twoInputs.m256Scalar1 ||
+         twoInputs.pDataIn2 != &twoInputs.m256Scalar2 || (twoInputs.outputObject && PyArray_Check(twoInputs.outputObject))))
     {
         Py_INCREF(Py_None);
         return Py_None;
@@ -3508,7 +3510,12 @@ PyObject * TwoInputsInternal(CTwoInputs & twoInputs, int64_t funcNumber)
         fl.AnyTwoStubCall = pTwoFunc;
         fl.FunctionName = "BMath";
 
-        if (twoInputs.len1 > 0 || twoInputs.len2 > 0)
+        if (twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR)
+        {
+            // the output has one item
+            pTwoFunc(twoInputs.pDataIn1, twoInputs.pDataIn2, pDataOut, 1, SCALAR_MODE::SECOND_ARG_SCALAR);
+        }
+        else if (twoInputs.len1 > 0 || twoInputs.len2 > 0)
         {
             // if there is a scalar
             fl.Input1Strides = 0;
-- 
2.43.0


From 46aa28f273d7e177297a841fa07322a3fa29d312 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 086/160] fix: comparisons of uint64 with int64 ignored the
 sign

---
 src/BasicMath.cpp | 17 ++++++++++++++++-
 src/Compare.cpp   |  5 ++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index c8cda95..17c66d5 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2232,7 +2232,9 @@ public:
                     }
                     int convertType1 = dtype;
                     int convertType2 = scalar_dtype;
-                    bool result = GetUpcastType(dtype, scalar_dtype, convertType1, convertType2, funcNumber);
+                    // the scalar will be converted to the one type returned here, thus comparisons of signed with
+                    // unsigned cannot be left to compare two types
+                    bool result = GetUpcastType(dtype, scalar_dtype, convertType1, convertType2, MATH_OPERATION::ADD);
                     LOGGING("Getting upcast %d %d, result %d  convert:%d\n", dtype, scalar_dtype, result, convertType1);
                     if (result)
                     {
@@ -2286,6 +2288,19 @@ public:
                 int convertType1 = dtype;
                 int convertType2 = scalarType;
                 bool result = GetUpcastType(dtype, scalarType, convertType1, convertType2, funcNumber);
+                if (result && convertType1 != convertType2)
+                {
+                    // A comparison of signed with unsigned, and the scalar will be converted to the type returned
+                    // here: the array's if it holds the scalar
+                    _m256all value;
+                    void * pValue = nullptr;
+                    int64_t valueItemSize = 0;
+                    if (! ConvertScalarObject(scalarObject, &value, scalarType, &pValue, &valueItemSize))
+                        return dtype;
+                    if (*(int64_t *)&value >= 0)
+                        return dtype;
+                    GetUpcastType(dtype, scalarType, convertType1, convertType2, MATH_OPERATION::ADD);
+                }
                 if (result)
                 {
                     return convertType1;
diff --git a/src/Compare.cpp b/src/Compare.cpp
index d9c0626..68f6cc4 100644
--- a/src/Compare.cpp
+++ b/src/Compare.cpp
@@ -1091,11 +1091,10 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
         {
             switch (func)
             {
-                // For equal, not equal the sign does not matter
             case MATH_OPERATION::CMP_EQ:
-                return CompareAny<int64_t, COMP_EQ>;
+                return CompareAny<uint64_t, COMP_EQ_uint64_t>;
             case MATH_OPERATION::CMP_NE:
-                return CompareAny<int64_t, COMP_NE>;
+                return CompareAny<uint64_t, COMP_NE_uint64_t>;
             case MATH_OPERATION::CMP_GT:
                 return CompareAny<uint64_t, COMP_GT_uint64_t>;
             case MATH_OPERATION::CMP_GTE:
-- 
2.43.0


From 7d423f7f0d70931feeac141ba85a7a6911ec84b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 087/160] fix: comparisons of long long with unsigned long lost
 digits

---
 src/RipTide.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 6ebed26..259f315 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -2124,23 +2124,22 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
 
     // Comparisons should be able to handle int64 to uint64 specially
     memcpy(&gUpcastTableComparison, &gUpcastTable, sizeof(gUpcastTable));
-    if (sizeof(long) == 8)
+    for (int signedType : { NPY_LONG, NPY_LONGLONG })
     {
-        pRow = &gUpcastTableComparison[NPY_LONG * 14 + NPY_ULONG];
-        pRow->dtype1 = NPY_LONG;
-        pRow->dtype2 = NPY_ULONG;
-        pRow = &gUpcastTableComparison[NPY_ULONG * 14 + NPY_LONG];
-        pRow->dtype1 = NPY_ULONG;
-        pRow->dtype2 = NPY_LONG;
+        for (int unsignedType : { NPY_ULONG, NPY_ULONGLONG })
+        {
+            if ((signedType == NPY_LONG || unsignedType == NPY_ULONG) && sizeof(long) != 8)
+                continue;
+
+            pRow = &gUpcastTableComparison[signedType * 14 + unsignedType];
+            pRow->dtype1 = signedType;
+            pRow->dtype2 = unsignedType;
+            pRow = &gUpcastTableComparison[unsignedType * 14 + signedType];
+            pRow->dtype1 = unsignedType;
+            pRow->dtype2 = signedType;
+        }
     }
 
-    pRow = &gUpcastTableComparison[NPY_LONGLONG * 14 + NPY_ULONGLONG];
-    pRow->dtype1 = NPY_LONGLONG;
-    pRow->dtype2 = NPY_ULONGLONG;
-    pRow = &gUpcastTableComparison[NPY_ULONGLONG * 14 + NPY_LONGLONG];
-    pRow->dtype1 = NPY_ULONGLONG;
-    pRow->dtype2 = NPY_LONGLONG;
-
     // Register types defined by this module.
     PyObject * mod_dict = PyModule_GetDict(m);
     if (! mod_dict)
-- 
2.43.0


From 3086730c9a5ab98a3fdfa415c0746ac7ded023f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 088/160] fix: a length 1 int64 array compared with uint64 as
 unsigned

---
 src/Compare.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Compare.cpp b/src/Compare.cpp
index 68f6cc4..be2e569 100644
--- a/src/Compare.cpp
+++ b/src/Compare.cpp
@@ -953,6 +953,12 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
     *wantedOutType = NPY_BOOL;
     int mainType = scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR ? numpyInType2 : numpyInType1;
 
+    // signed compared with unsigned 64 bit integers are told apart below by the first type
+    if (PyTypeNum_ISINTEGER(numpyInType1) && numpyInType1 != numpyInType2)
+    {
+        mainType = numpyInType1;
+    }
+
     LOGGING("Comparison maintype %d for func %d  inputs: %d %d\n", mainType, func, numpyInType1, numpyInType2);
 
     // NOTE: Intel on Nans
-- 
2.43.0


From 718e4b594c870418c7ea253b7aaaf312f4ae22dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 089/160] fix: rounding went half away from zero or half to
 even depending on the position in the array

---
 src/UnaryOps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index f552b38..dc49690 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -292,17 +292,17 @@ static const inline bool ISNANORZERO_OP(T x)
 template <typename T>
 static const inline long double ROUND_OP(long double x)
 {
-    return roundl(x);
+    return rintl(x);
 }
 template <typename T>
 static const inline double ROUND_OP(double x)
 {
-    return round(x);
+    return rint(x);
 }
 template <typename T>
 static const inline float ROUND_OP(float x)
 {
-    return roundf(x);
+    return rintf(x);
 }
 
 template <typename T>
-- 
2.43.0


From 39eac551ad3ca6c8dfa8b3679ebcc264babe8ff1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 090/160] fix: abs and negative kept or lost the sign of zeros
 depending on the position in the array

---
 src/UnaryOps.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index dc49690..4d48601 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -192,7 +192,11 @@ const union
 template <typename T>
 static const inline T ABS_OP(T x)
 {
-    return x < 0 ? -x : x;
+    // also clears the sign of -0.0
+    if constexpr (std::is_floating_point_v<T>)
+        return std::fabs(x);
+    else
+        return x < 0 ? -x : x;
 }
 template <typename T>
 static const inline double FABS_OP(T x)
@@ -587,17 +591,19 @@ static const inline __m256i NEG_OP_256i8(__m256i x)
 template <typename T>
 static const inline __m256 NEG_OP_256(__m256 x)
 {
-    const __m256 m8 = _mm256_setzero_ps();
+    // flips the sign, also of 0.0
+    const __m256 m8 = _mm256_set1_ps(-0.0f);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_ps(m8, x);
+    return _mm256_xor_ps(m8, x);
 }
 
 template <typename T>
 static const inline __m256d NEG_OP_256(__m256d x)
 {
-    const __m256d m8 = _mm256_setzero_pd();
+    // flips the sign, also of 0.0
+    const __m256d m8 = _mm256_set1_pd(-0.0);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_pd(m8, x);
+    return _mm256_xor_pd(m8, x);
 }
 
 template <typename T>
-- 
2.43.0


From 26c3d9fc48ff363a24f01621686b1b8c6456646b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 091/160] fix: roots, logarithms and exponentials took large
 uint64 values as negative

---
 src/UnaryOps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 4d48601..b2bd860 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2066,7 +2066,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_SQRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_SQRT<int64_t>;
+            return UnaryOpSlowDouble_SQRT<uint64_t>;
         case NPY_DOUBLE:
             return UnaryOpSlow_SQRT<double>;
         case NPY_LONGDOUBLE:
@@ -2093,7 +2093,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_CBRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_CBRT<int64_t>;
+            return UnaryOpSlowDouble_CBRT<uint64_t>;
         }
         break;
 
@@ -2122,7 +2122,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG<int64_t>;
+            return UnaryOpSlowDouble_LOG<uint64_t>;
         }
         break;
 
@@ -2151,7 +2151,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG10<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG10<int64_t>;
+            return UnaryOpSlowDouble_LOG10<uint64_t>;
         }
         break;
 
@@ -2180,7 +2180,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP<int64_t>;
+            return UnaryOpSlowDouble_EXP<uint64_t>;
         }
         break;
 
@@ -2209,7 +2209,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP2<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP2<int64_t>;
+            return UnaryOpSlowDouble_EXP2<uint64_t>;
         }
         break;
 
-- 
2.43.0


From 360e08b0bb2695195d9fb69486db6809bf83eff3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 092/160] fix: unicode strings whose first character has a zero
 low byte were reported as invalid

---
 src/UnaryOps.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index b2bd860..e9dcd22 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -1372,6 +1372,26 @@ static void UnaryOpSlow_ISNOTINVALID(void * pDataIn1, void * pDataOut, int64_t l
     }
 }
 
+// A unicode string is empty (invalid) when its first character, all four bytes, is 0
+static bool ISEMPTY_OP(npy_ucs4 x)
+{
+    return x == 0;
+}
+static bool ISNOTEMPTY_OP(npy_ucs4 x)
+{
+    return x != 0;
+}
+
+static void UnaryOpSlow_ISEMPTY(void * pDataIn1, void * pDataOut, int64_t len, int64_t strideIn, int64_t strideOut)
+{
+    return UnaryOpSlowBool<npy_ucs4, bool (*)(npy_ucs4)>(ISEMPTY_OP, pDataIn1, pDataOut, len, strideIn, strideOut);
+}
+
+static void UnaryOpSlow_ISNOTEMPTY(void * pDataIn1, void * pDataOut, int64_t len, int64_t strideIn, int64_t strideOut)
+{
+    return UnaryOpSlowBool<npy_ucs4, bool (*)(npy_ucs4)>(ISNOTEMPTY_OP, pDataIn1, pDataOut, len, strideIn, strideOut);
+}
+
 template <typename T>
 static void UnaryOpSlow_ISFINITE(void * pDataIn1, void * pDataOut, int64_t len, int64_t strideIn, int64_t strideOut)
 {
@@ -1764,8 +1784,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISNOTINVALID<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISNOTINVALID<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISNOTEMPTY;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISNOTINVALID<flexible_t>;
             }
@@ -1803,8 +1824,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISINVALID<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISINVALID<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISEMPTY;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISINVALID<flexible_t>;
             }
@@ -1842,8 +1864,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISINVALID<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISINVALID<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISEMPTY;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISINVALID<flexible_t>;
             }
@@ -1880,8 +1903,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISINVALIDORZERO<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISINVALIDORZERO<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISEMPTY;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISINVALID<flexible_t>;
             }
@@ -1919,8 +1943,9 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
                 return UnaryOpSlow_ISNOTINVALID<int16_t>;
             case NPY_UINT16:
                 return UnaryOpSlow_ISNOTINVALID<uint16_t>;
-            case NPY_STRING:
             case NPY_UNICODE:
+                return UnaryOpSlow_ISNOTEMPTY;
+            case NPY_STRING:
             case NPY_VOID:
                 return UnaryOpSlow_ISNOTINVALID<flexible_t>;
             }
-- 
2.43.0


From e86867a9615577243a3de1bcdda23a135bd2af98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 093/160] fix: unary functions of 0-dim arrays returned arrays
 of shape (1,)

---
 src/UnaryOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index e9dcd22..255536b 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2534,7 +2534,7 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
             LOGGING("Fastpath: Going to allocate   contig: %d  len: %lld\n",
                     PyArray_FLAGS(inArray) & (NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_C_CONTIGUOUS), len);
             // This will always produce a contiguous array
-            PyArrayObject * outputArray = (ndim <= 1) ? AllocateNumpyArray(1, (npy_intp *)&len, wantedOutputType) :
+            PyArrayObject * outputArray = (ndim == 1) ? AllocateNumpyArray(1, (npy_intp *)&len, wantedOutputType) :
                                                         AllocateLikeNumpyArray(inArray, wantedOutputType);
 
             if (outputArray)
-- 
2.43.0


From 42c68b6362f4be32f6e27a4c921e32f24ddbed0c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 094/160] fix: unary functions wrote outputs of another shape
 or order, read-only or overlapping ones, and misread sliced 3-D arrays

---
 src/UnaryOps.cpp | 155 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 105 insertions(+), 50 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 255536b..7bd5d63 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2508,6 +2508,105 @@ static bool UnaryThreadCallbackStrided(struct stMATH_WORKER_ITEM * pstWorkerItem
     return didSomeWork;
 }
 
+//------------------------------------------------------------------------------
+// Returns true if one loop over the array visits it column by column
+static bool IsColumnOrder(PyArrayObject * arr)
+{
+    return PyArray_IS_F_CONTIGUOUS(arr) && ! PyArray_IS_C_CONTIGUOUS(arr);
+}
+
+//------------------------------------------------------------------------------
+// Returns the first and one past the last byte an array covers
+static void GetExtent(PyArrayObject * arr, char *& begin, char *& end)
+{
+    begin = PyArray_BYTES(arr);
+    end = begin + PyArray_ITEMSIZE(arr);
+    for (int i = 0; i < PyArray_NDIM(arr); i++)
+    {
+        int64_t const span = (PyArray_DIM(arr, i) - 1) * PyArray_STRIDE(arr, i);
+        (span < 0 ? begin : end) += span;
+    }
+}
+
+//------------------------------------------------------------------------------
+// Returns true if a result for each element of inArray may be written to outArray
+static bool CanWriteOutput(PyArrayObject * inArray, PyArrayObject * outArray)
+{
+    int const ndim = PyArray_NDIM(inArray);
+
+    if (! PyArray_ISWRITEABLE(outArray) || ndim != PyArray_NDIM(outArray) ||
+        ! PyArray_CompareLists(PyArray_DIMS(inArray), PyArray_DIMS(outArray), ndim))
+    {
+        return false;
+    }
+    if (PyArray_SIZE(inArray) == 0)
+    {
+        return true;
+    }
+    // the very same elements may be written in place, anything else that overlaps may not
+    if (PyArray_BYTES(inArray) == PyArray_BYTES(outArray) && PyArray_ITEMSIZE(inArray) == PyArray_ITEMSIZE(outArray) &&
+        PyArray_CompareLists(PyArray_STRIDES(inArray), PyArray_STRIDES(outArray), ndim))
+    {
+        return true;
+    }
+    char *inBegin, *inEnd, *outBegin, *outEnd;
+    GetExtent(inArray, inBegin, inEnd);
+    GetExtent(outArray, outBegin, outEnd);
+    return inEnd <= outBegin || outEnd <= inBegin;
+}
+
+//------------------------------------------------------------------------------
+// Calls the function for one run of elements after the other, along the dimension the input is densest in
+static void WalkRows(UNARY_FUNC pUnaryFunc, PyArrayObject * inArray, PyArrayObject * outArray)
+{
+    int const ndim = PyArray_NDIM(inArray);
+    npy_intp index[NPY_MAXDIMS] = { 0 };
+
+    if (PyArray_SIZE(inArray) == 0)
+    {
+        return;
+    }
+
+    int inner = ndim - 1;
+    for (int i = 0; i < ndim; i++)
+    {
+        if (PyArray_DIM(inArray, i) > 1 &&
+            (PyArray_DIM(inArray, inner) == 1 || std::abs(PyArray_STRIDE(inArray, i)) < std::abs(PyArray_STRIDE(inArray, inner))))
+        {
+            inner = i;
+        }
+    }
+
+    while (true)
+    {
+        char * pIn = PyArray_BYTES(inArray);
+        char * pOut = PyArray_BYTES(outArray);
+        for (int i = 0; i < ndim; i++)
+        {
+            pIn += index[i] * PyArray_STRIDE(inArray, i);
+            pOut += index[i] * PyArray_STRIDE(outArray, i);
+        }
+        pUnaryFunc(pIn, pOut, PyArray_DIM(inArray, inner), PyArray_STRIDE(inArray, inner), PyArray_STRIDE(outArray, inner));
+
+        int dim = ndim - 1;
+        for (; dim >= 0; dim--)
+        {
+            if (dim != inner)
+            {
+                if (++index[dim] < PyArray_DIM(inArray, dim))
+                {
+                    break;
+                }
+                index[dim] = 0;
+            }
+        }
+        if (dim < 0)
+        {
+            return;
+        }
+    }
+}
+
 //------------------------------------------------------------------------------
 // Main routine for unary operations
 // if numpyOutType is -1, then outObject1 is IGNORED
@@ -2599,8 +2698,6 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
             RETURN_NONE;
         }
 
-        int64_t lenOut = len;
-
         if (numpyOutType == -1)
         {
             LOGGING("Going to allocate   contig: %d  len: %lld\n",
@@ -2617,14 +2714,9 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
         {
             outputArray = outObject1;
             LOGGING("Output specified oref %llu\n", outObject1->ob_base.ob_refcnt);
-            int64_t lenOut = ArrayLength(outputArray);
-
-            if (len != lenOut)
+            if (! CanWriteOutput(inArray, outputArray))
             {
-                LOGGING(
-                    "Wanted output length does not match %lld vs %lld or output is "
-                    "not contiguous\n",
-                    len, lenOut);
+                LOGGING("Output array has another shape, is read only, or overlaps the input\n");
                 // punt to numpy
                 RETURN_NONE;
             }
@@ -2642,7 +2734,7 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
         // F contig on 2 dim =>  dim0 * stride0 == stride1
         // C contig on 2 dim1 * stride1 == stride0
         // Handle single or 0 dim, can also handle contig any dim
-        if (directionIn == 0 && directionOut == 0)
+        if (directionIn == 0 && directionOut == 0 && IsColumnOrder(inArray) == IsColumnOrder(outputArray))
         {
             stMATH_WORKER_ITEM * pWorkItem = g_cMathWorker->GetWorkItem(len);
             if (pWorkItem == NULL)
@@ -2675,48 +2767,11 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
             // non-contiguous loop
             // Walk the input, dimension by dimension, getting the stride
             // Check if we can process, else punt to numpy
-            if (directionIn == 1 && directionOut == 0)
-            {
-                // Row Major 2dim like array with output being fully contiguous
-                int64_t innerLen = 1;
-                for (int i = directionIn; i < ndim; i++)
-                {
-                    innerLen *= PyArray_DIM(inArray, i);
-                }
-                // TODO: consider dividing the work over multiple threads if innerLen is
-                // large enough
-                const int64_t outerLen = PyArray_DIM(inArray, 0);
-                const int64_t outerStride = PyArray_STRIDE(inArray, 0);
-
-                LOGGING("Row Major  innerLen:%lld  outerLen:%lld  outerStride:%lld\n", innerLen, outerLen, outerStride);
-
-                for (int64_t j = 0; j < outerLen; j++)
-                {
-                    pUnaryFunc((char *)pDataIn + (j * outerStride), (char *)pDataOut + (j * innerLen * strideOut), innerLen,
-                               strideIn, strideOut);
-                }
-            }
-            else if (directionIn == -1 && directionOut == 0)
+            if (directionIn >= -1 && directionIn <= 1 && directionOut == 0)
             {
-                // Col Major 2dim like array with output being fully contiguous
-                int64_t innerLen = 1;
-                directionIn = -directionIn;
-                for (int i = 0; i < directionIn; i++)
-                {
-                    innerLen *= PyArray_DIM(inArray, i);
-                }
-                // TODO: consider dividing the work over multiple threads if innerLen is
+                // TODO: consider dividing the work over multiple threads if the inner loop is
                 // large enough
-                const int64_t outerLen = PyArray_DIM(inArray, (ndim - 1));
-                const int64_t outerStride = PyArray_STRIDE(inArray, (ndim - 1));
-
-                LOGGING("Col Major  innerLen:%lld  outerLen:%lld  outerStride:%lld\n", innerLen, outerLen, outerStride);
-
-                for (int64_t j = 0; j < outerLen; j++)
-                {
-                    pUnaryFunc((char *)pDataIn + (j * outerStride), (char *)pDataOut + (j * innerLen * strideOut), innerLen,
-                               strideIn, strideOut);
-                }
+                WalkRows(pUnaryFunc, inArray, outputArray);
             }
             else
             {
-- 
2.43.0


From a6148a1bedc94c7f8ba672351a7c28050db11cbd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 095/160] fix: sums, means and variances of long float arrays
 came out nan when a part reached 2^63

---
 src/Reduce.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 2ff168c..b407cfb 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -545,17 +545,9 @@ void CMathWorker::WorkScatterGatherCall(FUNCTION_LIST * anyScatterGatherCall, vo
             {
                 pstScatterGatherFunc->lenOut += pZeroArray[i].lenOut;
                 pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, pZeroArray[i].resultOut);
-                pstScatterGatherFunc->resultOutInt64 =
-                    riptide::add(pstScatterGatherFunc->resultOutInt64, pZeroArray[i].resultOutInt64);
-
-                if (! invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
-                {
-                    pstScatterGatherFunc->resultOutInt64 = invalid_for_type<int64_t>::value;
-                }
-                else if (! invalid_for_type<int64_t>::is_valid(pstScatterGatherFunc->resultOutInt64))
-                {
-                    pstScatterGatherFunc->resultOut = invalid_for_type<double>::value;
-                }
+                // An integer sum is invalid when its double is nan; any bit pattern is a possible partial integer sum
+                pstScatterGatherFunc->resultOutInt64 = static_cast<int64_t>(
+                    static_cast<uint64_t>(pstScatterGatherFunc->resultOutInt64) + static_cast<uint64_t>(pZeroArray[i].resultOutInt64));
             }
         }
         WORKSPACE_FREE(pWorkSpace);
@@ -3265,6 +3257,10 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
         {
         case REDUCE_SUM:
         case REDUCE_NANSUM:
+            if (! riptide::invalid_for_type<double>::is_valid(sgFunc.resultOut))
+            {
+                sgFunc.resultOutInt64 = riptide::invalid_for_type<int64_t>::value;
+            }
             switch (numpyInType)
             {
             CASE_NPY_INT64:
-- 
2.43.0


From f339ee87b60aa2ad33c96e70f6c51d94bfa44bd3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 096/160] fix: sums of 64-bit integers were rounded to a double

---
 src/Reduce.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index b407cfb..2a47f09 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -2170,10 +2170,13 @@ class ReduceSum final
         T * pIn = (T *)pDataIn;
         T * pEnd;
         double result = 0;
+        // exact sum of integers (modulo 2^64)
+        uint64_t resultInt = 0;
 
         if (pstScatterGatherFunc->inputType == NPY_BOOL)
         {
-            result = (double)SumBooleanMask((int8_t *)pDataIn, length);
+            resultInt = (uint64_t)SumBooleanMask((int8_t *)pDataIn, length);
+            result = (double)resultInt;
         }
         else
         {
@@ -2188,12 +2191,17 @@ class ReduceSum final
                     break;
                 }
                 result += static_cast<double>(value);
+                if constexpr (std::is_integral_v<T>)
+                {
+                    resultInt += static_cast<uint64_t>(value);
+                }
             }
         }
 
         pstScatterGatherFunc->lenOut += length;
         pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, result);
-        pstScatterGatherFunc->resultOutInt64 = riptide::cast<int64_t>(pstScatterGatherFunc->resultOut);
+        pstScatterGatherFunc->resultOutInt64 =
+            static_cast<int64_t>(static_cast<uint64_t>(pstScatterGatherFunc->resultOutInt64) + resultInt);
         return result;
     }
 
@@ -2610,6 +2618,8 @@ class ReduceNanSum final
     static double non_vector(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
         double result = 0;
+        // exact sum of integers (modulo 2^64)
+        uint64_t resultInt = 0;
         int64_t count = 0;
         T * pIn = (T *)pDataIn;
 
@@ -2618,12 +2628,17 @@ class ReduceNanSum final
             if (invalid_for_type<T>::is_valid(pIn[i]))
             {
                 result += pIn[i];
+                if constexpr (std::is_integral_v<T>)
+                {
+                    resultInt += static_cast<uint64_t>(pIn[i]);
+                }
                 count += 1;
             }
         }
         pstScatterGatherFunc->lenOut += count;
         pstScatterGatherFunc->resultOut += result;
-        pstScatterGatherFunc->resultOutInt64 += (int64_t)result;
+        pstScatterGatherFunc->resultOutInt64 =
+            static_cast<int64_t>(static_cast<uint64_t>(pstScatterGatherFunc->resultOutInt64) + resultInt);
         return result;
     }
 
@@ -3264,19 +3279,21 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
             switch (numpyInType)
             {
             CASE_NPY_INT64:
-                if (sgFunc.resultOut > 9223372036854775807.0 || sgFunc.resultOut < -9223372036854775808.0)
+                if (sgFunc.resultOut >= 9223372036854775807.0 || sgFunc.resultOut < -9223372036854775808.0)
                 {
                     LOGGING("Returning overflow %lf  for func %lld\n", sgFunc.resultOut, func);
                     return PyFloat_FromDouble(sgFunc.resultOut);
                 }
                 return PyLong_FromLongLong(sgFunc.resultOutInt64);
             CASE_NPY_UINT64:
-                if (sgFunc.resultOut > 18446744073709551615.0)
+                if (sgFunc.resultOut >= 18446744073709551615.0)
                 {
                     LOGGING("Returning overflow %lf  for func %lld\n", sgFunc.resultOut, func);
                     return PyFloat_FromDouble(sgFunc.resultOut);
                 }
-                return PyLong_FromUnsignedLongLong(riptide::cast<uint64_t>(sgFunc.resultOutInt64));
+                return PyLong_FromUnsignedLongLong(riptide::invalid_for_type<double>::is_valid(sgFunc.resultOut) ?
+                                                       static_cast<uint64_t>(sgFunc.resultOutInt64) :
+                                                       riptide::invalid_for_type<uint64_t>::value);
             case NPY_FLOAT:
             case NPY_DOUBLE:
             case NPY_LONGDOUBLE:
-- 
2.43.0


From 63aa800daa13eb501f36a718745fcee6ed450c14 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 097/160] fix: reductions misread sliced or Fortran-order
 arrays of several dimensions and read past 0-dim shapes

---
 src/Reduce.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 2a47f09..710e0cd 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3198,7 +3198,7 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
     fl.NumpyOutputType = 0;
     fl.NumpyType = numpyInType;
     fl.InputItemSize = PyArray_ITEMSIZE(inArr1);
-    fl.Input1Strides = len > 1 ? PyArray_STRIDE(inArr1, 0) : 0;
+    fl.Input1Strides = len > 1 ? PyArray_ITEMSIZE(inArr1) : 0;
     fl.OutputItemSize = 0;
     fl.TypeOfFunctionCall = TYPE_OF_FUNCTION_CALL::ANY_SCATTER_GATHER;
 
@@ -3408,13 +3408,23 @@ PyObject * Reduce(PyObject * self, PyObject * args)
     if (IsFastArrayOrNumpy(inArr1))
     {
         // make sure not strided -- we don't currently handle those
-        if (PyArray_DIM(inArr1, 0) <= 1 || PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1))
+        // (arrays of several dimensions are copied to C order when they are not laid out so)
+        if (PyArray_NDIM(inArr1) != 1 || PyArray_DIM(inArr1, 0) <= 1 ||
+            PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1))
         {
             PyObject * object2 = PyTuple_GET_ITEM(args, 1);
             if (PyLong_Check(object2))
             {
                 int64_t func = PyLong_AsLongLong(object2);
 
+                if (PyArray_NDIM(inArr1) > 1 && ! PyArray_IS_C_CONTIGUOUS(inArr1))
+                {
+                    PyArrayObject * inCopy = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_CORDER);
+                    PyObject * result = inCopy ? ReduceInternal(inCopy, (REDUCE_FUNCTIONS)func, ddof) : NULL;
+                    Py_XDECREF((PyObject *)inCopy);
+                    return result;
+                }
+
                 // possible TODO: wrap result back into np scalar type
                 return ReduceInternal(inArr1, (REDUCE_FUNCTIONS)func, ddof);
             }
-- 
2.43.0


From 4a60d6e4f002ec79b1c842e26526adaa3196d184 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 098/160] fix: arg reductions of unsupported types blamed
 invalid values instead of declining

---
 src/Reduce.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 710e0cd..3c840eb 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3166,11 +3166,14 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
         stArgScatterGatherFunc sgFunc = { numpyInType, 0, 0, 0, -1 };
         ARG_SCATTER_GATHER_FUNC pFunction = GetArgReduceFuncPtr(numpyInType, func);
 
-        if (pFunction)
+        // If we don't know how to handle this, return None to punt to numpy.
+        if (! pFunction)
         {
-            // TODO: Make multithreaded
-            pFunction(pDataIn, len, 0, &sgFunc);
+            Py_RETURN_NONE;
         }
+
+        // TODO: Make multithreaded
+        pFunction(pDataIn, len, 0, &sgFunc);
         if (sgFunc.resultOutArgInt64 == -1)
         {
             return PyErr_Format(PyExc_ValueError,
@@ -3368,7 +3371,8 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
                 }
             }
         default:
-            return NULL;
+            // Not a reduction of this kind: punt to numpy
+            Py_RETURN_NONE;
         }
     }
 }
-- 
2.43.0


From 40d73f2dae550277e72a3e1aa150782bdba7537d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 099/160] fix: mean and variance of unsupported types crashed

---
 src/Reduce.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 3c840eb..a8394b1 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3211,6 +3211,12 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
         REDUCE_FUNCTIONS newFunc = (REDUCE_FUNCTIONS)(REDUCE_SUM + (func & 1));
         fl.AnyScatterGatherCall = GetReduceFuncPtr(numpyInType, newFunc);
 
+        if (! fl.AnyScatterGatherCall)
+        {
+            // punt to numpy
+            Py_RETURN_NONE;
+        }
+
         // First call add
         g_cMathWorker->WorkScatterGatherCall(&fl, pDataIn, len, newFunc, &sgFunc);
 
-- 
2.43.0


From 28106d30aab5e8743fdafa0d26deff81d090a9fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 100/160] fix: cutting by bins misread sliced arrays

---
 src/Bins.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index b1f9812..411fc2a 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -719,6 +719,19 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
 
     LOGGING("counts %lld %lld %lld\n", nancount, infcount, neginfcount);
 
+    // the arrays are walked as contiguous memory
+    ContiguousArray inContig(inArr1);
+    ContiguousArray binContig(binArr1);
+    ContiguousArray indexContig(indexArr1);
+
+    if (! inContig || ! binContig || ! indexContig)
+    {
+        return NULL;
+    }
+    inArr1 = inContig.get();
+    binArr1 = binContig.get();
+    indexArr1 = indexContig.get();
+
     if (PyArray_TYPE(binArr1) != NPY_DOUBLE)
     {
         PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
@@ -1748,6 +1761,17 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!O!i", &PyArray_Type, &inArr1, &PyArray_Type, &binArr1, &searchMode))
         return NULL;
 
+    // the arrays are walked as contiguous memory
+    ContiguousArray inContig(inArr1);
+    ContiguousArray binContig(binArr1);
+
+    if (! inContig || ! binContig)
+    {
+        return NULL;
+    }
+    inArr1 = inContig.get();
+    binArr1 = binContig.get();
+
     int binType = PyArray_TYPE(binArr1);
 
     int numpyInType = PyArray_TYPE(inArr1);
-- 
2.43.0


From 64563a99f518a152ea18e6e91c08671eb85987cb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 101/160] fix: cutting long string arrays by bins misread the
 part of every thread but the first

---
 src/Bins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 411fc2a..73f3e49 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -1188,7 +1188,7 @@ void SearchSortedLeftString(void * pDataIn1, void * pOut1, const int64_t start,
                             int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1283,7 +1283,7 @@ void MakeBinsBSearchString(void * pDataIn1, void * pOut1, const int64_t start, c
                            int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
-- 
2.43.0


From 2a6a967369e4c0b4f577a0430652ee5575755403 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 102/160] fix: cutting unicode strings by bins returned
 uninitialized memory, and searching byte strings left or right cut them

---
 src/Bins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 73f3e49..1a39d46 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -1796,8 +1796,8 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
 
     if (numpyInType == binType)
     {
-        // string or unicode comparison
-        if (numpyInType == NPY_STRING || numpyInType == NPY_UNICODE)
+        // only byte strings can be cut, there is no unicode comparison nor left or right search of strings
+        if (numpyInType == NPY_STRING && searchMode == 0)
         {
             isString = true;
         }
-- 
2.43.0


From 7dc498ef529d4d97e3409b151c2bc7cdf6aa8e33 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 103/160] fix: cutting booleans by bins took False as invalid

---
 src/Bins.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 1a39d46..a9cebf7 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -1499,7 +1499,8 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
     {
         const T value = pData[i];
 
-        if (value != defaultNan && value >= veryfirst && value <= verylast)
+        // bool has no invalid value
+        if ((value != defaultNan || numpyInType == NPY_BOOL) && value >= veryfirst && value <= verylast)
         {
             // bin search
             OUT_TYPE middle;
-- 
2.43.0


From 1fd06546ca63e756c14a6ee262c2da67acbd379d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 104/160] fix: cutting by an empty array of bins read before it

---
 src/Bins.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index a9cebf7..7ae18c8 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -1841,6 +1841,13 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
             break;
         }
 
+        if (result && binSize == 0)
+        {
+            // no edges: nothing is in a bin or past an edge
+            memset(PyArray_BYTES(result), 0, PyArray_NBYTES(result));
+            return (PyObject *)result;
+        }
+
         if (result)
         {
             if (isString)
-- 
2.43.0


From 763192e0c0d7b8d2f8db5e7a4001581a7ae13c09 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 105/160] fix: cutting by bins from a sort read past the bins,
 and past the arrays when the lengths or counts did not fit

---
 src/Bins.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 7ae18c8..0cd05f4 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -617,7 +617,10 @@ void MakeBinsSorted(void * pDataIn1, void * pSortIndex1, void * pOut1, int64_t l
             {
                 // move to next bin
                 ++bin;
-                compare = pBin1[bin];
+                if (bin < maxbin)
+                {
+                    compare = pBin1[bin];
+                }
                 LOGGING("comparing to %lld %lld  %lf  %lf\n", i, (int64_t)bin, (double)pData[index], compare);
             }
             if (bin >= maxbin)
@@ -736,6 +739,13 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     {
         PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
     }
+    else if (ArrayLength(indexArr1) != ArrayLength(inArr1) || ArrayLength(binArr1) == 0 || nancount < 0 || infcount < 0 ||
+             neginfcount < 0 || nancount > ArrayLength(inArr1) || infcount > ArrayLength(inArr1) - nancount ||
+             neginfcount > ArrayLength(inArr1) - nancount - infcount)
+    {
+        return PyErr_Format(PyExc_ValueError,
+                            "BinsToCutsSorted: the sort must be as long as the values, the counts within that length, and the bins not empty");
+    }
     else
     {
         int numpyInType = PyArray_TYPE(inArr1);
-- 
2.43.0


From 03237cc786a11f90f67db4527cc2a37624c323df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 106/160] fix: values cut by bins of another type were compared
 with truncated edges, or truncated themselves

---
 src/Bins.cpp | 74 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 0cd05f4..141cfba 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -5,6 +5,8 @@
 #include "Sort.h"
 #include "MathWorker.h"
 
+#include <utility>
+
 #define LOGGING(...)
 //#define LOGGING printf
 
@@ -524,6 +526,26 @@ PyObject * NanInfCountFromSort(PyObject * self, PyObject * args)
 //=================================================================================================
 //=================================================================================================
 
+// Exact comparison of a value with a bin edge, which may be of another type
+// (integers are compared with floats as doubles)
+template <typename A, typename B>
+static inline bool EdgeLess(A const a, B const b)
+{
+    if constexpr (std::is_integral_v<A> && std::is_integral_v<B>)
+    {
+        return std::cmp_less(a, b);
+    }
+    else if constexpr (std::is_integral_v<A> || std::is_integral_v<B>)
+    {
+        using C = std::conditional_t<std::is_same_v<A, long double> || std::is_same_v<B, long double>, long double, double>;
+        return (C)a < (C)b;
+    }
+    else
+    {
+        return a < b;
+    }
+}
+
 typedef void (*MAKE_BINS_SORTED)(void * pDataIn1, void * pIndex1, void * pOut1, int64_t length, double * pBin1, int64_t maxbin,
                                  int64_t nancount, int64_t infcount, int64_t neginfcount);
 typedef void (*MAKE_BINS_BSEARCH)(void * pDataIn1, void * pOut1, int64_t start, int64_t length, void * pBin1, int64_t maxbin,
@@ -866,8 +888,8 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    const BINTYPE verylast = pBin1[lastbin];
+    const BINTYPE veryfirst = pBin1[0];
 
     LOGGING("SearchSortedRight Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -876,25 +898,24 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     {
         const T value = pData[i];
 
-        if (value >= veryfirst && value < verylast)
+        if (! EdgeLess(value, veryfirst) && EdgeLess(value, verylast))
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if (EdgeLess(value, pBin1[middle])) // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] <= val)
+                else
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -911,7 +932,7 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value < veryfirst)
+            if (EdgeLess(value, veryfirst))
             {
                 pOut[i] = 0;
             }
@@ -946,8 +967,8 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    const BINTYPE verylast = pBin1[lastbin];
+    const BINTYPE veryfirst = pBin1[0];
 
     LOGGING("SearchSortedLeft Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -956,25 +977,24 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     {
         const T value = pData[i];
 
-        if (value > veryfirst && value <= verylast)
+        if (EdgeLess(veryfirst, value) && ! EdgeLess(verylast, value))
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] >= val)     // if it's in the lower half
+                if (! EdgeLess(pBin1[middle], value)) // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -991,7 +1011,7 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value <= veryfirst)
+            if (value == value && ! EdgeLess(veryfirst, value))
             {
                 pOut[i] = 0;
             }
@@ -1402,8 +1422,8 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     OUT_TYPE maxbin = (OUT_TYPE)maxbin1;
 
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    const BINTYPE verylast = pBin1[lastbin];
+    const BINTYPE veryfirst = pBin1[0];
 
     LOGGING(
         "MakeBinsBSearchFloat Array length %lld   bin length %lld    bintype "
@@ -1414,24 +1434,23 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
-        if (std::isfinite(value) && value >= veryfirst && value <= verylast)
+        if (std::isfinite(value) && ! EdgeLess(value, veryfirst) && ! EdgeLess(verylast, value))
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if (EdgeLess(value, pBin1[middle])) // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if (EdgeLess(pBin1[middle], value))
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1450,7 +1469,7 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (! EdgeLess(pBin1[first], value))
                 {
                     pOut[i] = first;
                 }
@@ -1499,8 +1518,8 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
     void * pDefault = GetDefaultForType(numpyInType);
     const T defaultNan = *(T *)pDefault;
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    const BINTYPE verylast = pBin1[lastbin];
+    const BINTYPE veryfirst = pBin1[0];
 
     LOGGING("MakeBinsBSearch Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -1510,25 +1529,24 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
         const T value = pData[i];
 
         // bool has no invalid value
-        if ((value != defaultNan || numpyInType == NPY_BOOL) && value >= veryfirst && value <= verylast)
+        if ((value != defaultNan || numpyInType == NPY_BOOL) && ! EdgeLess(value, veryfirst) && ! EdgeLess(verylast, value))
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if (EdgeLess(value, pBin1[middle])) // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if (EdgeLess(pBin1[middle], value))
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1547,7 +1565,7 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (! EdgeLess(pBin1[first], value))
                 {
                     pOut[i] = first;
                 }
-- 
2.43.0


From e4d3efd4c53cc25d1eab087a92b1f17c01c69bb6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 107/160] fix: parsing date strings looked characters outside
 ASCII up past the end of a table

---
 src/DateTime.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index db40c95..226af40 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -49,9 +49,15 @@ public:
     RT_FORCEINLINE int64_t ParseNumber(int64_t maxplaces);
     bool ParseSingleNonNumber(T expected);
 
+    // std::isspace is only defined for the values of unsigned char
+    static bool is_space(T c)
+    {
+        return static_cast<uint32_t>(c) < 0x80 && std::isspace(static_cast<int>(c));
+    }
+
     void consume_leading_whitespace()
     {
-        while (! at_end() && std::isspace(*pStart))
+        while (! at_end() && is_space(*pStart))
             pStart++;
     }
 
@@ -59,7 +65,7 @@ public:
     {
         while (! at_end())
         {
-            if (! std::isspace(*pStart))
+            if (! is_space(*pStart))
                 set_error("Unexpected characters");
 
             pStart++;
-- 
2.43.0


From dae128fdaeca33c65fe511a1e696639e0a15be01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 108/160] fix: parsing date strings misread sliced arrays

---
 src/DateTime.cpp | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index 226af40..e9a135e 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -3,7 +3,9 @@
 #include "MathWorker.h"
 #include "DateTime.h"
 
+#include <cctype>
 #include <format>
+#include <memory>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -459,6 +461,11 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
     }
 }
 
+static void decref(PyArrayObject * array)
+{
+    Py_DECREF(array);
+}
+
 template <typename T>
 void parsing_error_to_py_warning(const parsing_error<T> & error);
 
@@ -506,6 +513,14 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The parsers walk the rows one after the other
+    std::unique_ptr<PyArrayObject, decltype(&decref)> contiguous(PyArray_GETCONTIGUOUS(inArr), &decref);
+
+    if (! contiguous)
+    {
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -513,7 +528,7 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
     {
         int64_t itemSize = PyArray_ITEMSIZE(inArr);
         int64_t * pNanoTime = (int64_t *)PyArray_BYTES(outArray);
-        char * pString = (char *)PyArray_BYTES(inArr);
+        char * pString = (char *)PyArray_BYTES(contiguous.get());
 
         if (dType == NPY_STRING)
         {
@@ -569,6 +584,14 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The parsers walk the rows one after the other
+    std::unique_ptr<PyArrayObject, decltype(&decref)> contiguous(PyArray_GETCONTIGUOUS(inArr), &decref);
+
+    if (! contiguous)
+    {
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -576,7 +599,7 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
     {
         int64_t itemSize = PyArray_ITEMSIZE(inArr);
         int64_t * pNanoTime = (int64_t *)PyArray_BYTES(outArray);
-        char * pString = (char *)PyArray_BYTES(inArr);
+        char * pString = (char *)PyArray_BYTES(contiguous.get());
 
         if (dType == NPY_STRING)
         {
@@ -632,6 +655,14 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The parsers walk the rows one after the other
+    std::unique_ptr<PyArrayObject, decltype(&decref)> contiguous(PyArray_GETCONTIGUOUS(inArr), &decref);
+
+    if (! contiguous)
+    {
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -639,7 +670,7 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
     {
         int64_t itemSize = PyArray_ITEMSIZE(inArr);
         int64_t * pNanoTime = (int64_t *)PyArray_BYTES(outArray);
-        char * pString = (char *)PyArray_BYTES(inArr);
+        char * pString = (char *)PyArray_BYTES(contiguous.get());
 
         if (dType == NPY_STRING)
         {
@@ -770,6 +801,14 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // The parsers walk the rows one after the other
+    std::unique_ptr<PyArrayObject, decltype(&decref)> contiguous(PyArray_GETCONTIGUOUS(inArr), &decref);
+
+    if (! contiguous)
+    {
+        return NULL;
+    }
+
     // Dont bother allocating if we cannot call the function
     outArray = AllocateNumpyArray(1, (npy_intp *)&arrayLength, NPY_INT64);
 
@@ -777,7 +816,7 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
     {
         int64_t itemSize = PyArray_ITEMSIZE(inArr);
         int64_t * pNanoTime = (int64_t *)PyArray_BYTES(outArray);
-        char * pString = (char *)PyArray_BYTES(inArr);
+        char * pString = (char *)PyArray_BYTES(contiguous.get());
 
         if (dType == NPY_STRING)
         {
-- 
2.43.0


From d0d0e7d3faec70d55f87cc185651fe7db0d94d19 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 109/160] fix: days past the end of their month were parsed as
 days of the next one

---
 src/DateTime.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index e9a135e..1be951a 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -293,14 +293,14 @@ int64_t YearToEpochNano(int64_t year, int64_t month, int64_t day)
     if (year >= 1970 && year <= 2099 && month >= 1 && month <= 12 && day >= 1 && day <= 31)
     {
         // check for leap.
-        if ((year % 4) == 0)
-        {
-            day = MONTH_SPLITS_LEAP[month - 1] + day - 1;
-        }
-        else
+        const int64_t * splits = (year % 4) == 0 ? MONTH_SPLITS_LEAP : MONTH_SPLITS;
+
+        // December has 31 days, and so does not need the check
+        if (month < 12 && day > splits[month] - splits[month - 1])
         {
-            day = MONTH_SPLITS[month - 1] + day - 1;
+            return -1;
         }
+        day = splits[month - 1] + day - 1;
         // calculate how many leap years we skipped over
         // 1973 has 1 leap year (3)
         // 1977 has 2 leap years (7)
-- 
2.43.0


From c66665aafb354afdcbf7c6e7b31be40c681d1263 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 110/160] fix: date strings shorter than the longest one in
 their array raised parsing warnings

---
 src/DateTime.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index 1be951a..5d038ed 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -57,6 +57,15 @@ public:
         return static_cast<uint32_t>(c) < 0x80 && std::isspace(static_cast<int>(c));
     }
 
+    // Strings shorter than the longest one in their array are padded with zeros
+    static const T * end_of_string(const T * string, int64_t itemSize)
+    {
+        const T * end = string + itemSize;
+        while (end > string && end[-1] == '\0')
+            end--;
+        return end;
+    }
+
     void consume_leading_whitespace()
     {
         while (! at_end() && is_space(*pStart))
@@ -201,7 +210,7 @@ void DateTimeParser<T>::ParseTimeString(int64_t * pOutNanoTime, int64_t arrayLen
     for (int64_t i = 0; i < arrayLength; i++)
     {
         pStartCopy = pStart = &pString[i * itemSize];
-        pEnd = pStart + itemSize;
+        pEnd = end_of_string(pStart, itemSize);
 
         consume_leading_whitespace();
 
@@ -326,7 +335,7 @@ void DateTimeParser<T>::ParseDateString(int64_t * pOutNanoTime, int64_t arrayLen
     for (int64_t i = 0; i < arrayLength; i++)
     {
         pStartCopy = pStart = &pString[i * itemSize];
-        pEnd = pStart + itemSize;
+        pEnd = end_of_string(pStart, itemSize);
 
         consume_leading_whitespace();
 
@@ -372,7 +381,7 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
     for (int64_t i = 0; i < arrayLength; i++)
     {
         pStartCopy = pStart = &pString[i * itemSize];
-        pEnd = pStart + itemSize;
+        pEnd = end_of_string(pStart, itemSize);
 
         consume_leading_whitespace();
 
-- 
2.43.0


From 827fb287fb9d75b36b324ebfc8f53b6e0d23f2d3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 111/160] fix: date parsing warnings that are turned into
 errors raised SystemError

---
 src/DateTime.cpp | 60 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index 5d038ed..8cb5d25 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -475,22 +475,28 @@ static void decref(PyArrayObject * array)
     Py_DECREF(array);
 }
 
+// Returns false, with the exception set, when the warning is turned into an error
 template <typename T>
-void parsing_error_to_py_warning(const parsing_error<T> & error);
+bool parsing_error_to_py_warning(const parsing_error<T> & error);
 
 template <>
-void parsing_error_to_py_warning<char>(const parsing_error<char> & error)
+bool parsing_error_to_py_warning<char>(const parsing_error<char> & error)
 {
     std::string datetime(error.start, error.end);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(), error.position);
+    return PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(),
+                            error.position) == 0;
 }
 
 template <>
-void parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
+bool parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
 {
     PyObject * datetime = PyUnicode_FromKindAndData(PyUnicode_4BYTE_KIND, error.start, error.end - error.start);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime, error.position);
-    Py_XDECREF(datetime);
+    if (! datetime)
+        return false;
+    const int result = PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime,
+                                        error.position);
+    Py_DECREF(datetime);
+    return result == 0;
 }
 
 //--------------------------------------------------------------
@@ -545,8 +551,11 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -554,8 +563,11 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
@@ -616,8 +628,11 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -625,8 +640,11 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
@@ -687,8 +705,11 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -696,8 +717,11 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
-- 
2.43.0


From 638612f871cb76acd79ff609c096fce413146bca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 112/160] fix: times of dates out of range were parsed as
 instants

---
 src/DateTime.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index 8cb5d25..c540552 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -773,16 +773,19 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
             // 1900 is the strptime base year
             yearresult = YearToEpochNano(timeBack.tm_year + 1900, timeBack.tm_mon + 1, timeBack.tm_mday);
 
-            // addin hours min secs
-            yearresult += (1000000000LL * ((timeBack.tm_hour * 3600LL) + (timeBack.tm_min * 60LL) + timeBack.tm_sec));
-
-            // check for milli/micro/etc seconds
-            if (*pStop == PERIOD)
+            if (yearresult >= 0)
             {
-                // skip decimal
-                pStop++;
+                // addin hours min secs
+                yearresult += (1000000000LL * ((timeBack.tm_hour * 3600LL) + (timeBack.tm_min * 60LL) + timeBack.tm_sec));
 
-                yearresult += ParseDecimal<char>(&pStop, pEnd);
+                // check for milli/micro/etc seconds
+                if (*pStop == PERIOD)
+                {
+                    // skip decimal
+                    pStop++;
+
+                    yearresult += ParseDecimal<char>(&pStop, pEnd);
+                }
             }
         }
         else
-- 
2.43.0


From bcddabe380bc67dcadc6959b5afe93ccb0d5826a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 113/160] fix: parsing dates by a format took characters
 outside Latin-1 for ASCII ones

---
 src/DateTime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index c540552..32eb3cd 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -750,7 +750,8 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
         // so we can add a terminating zero
         for (int64_t j = 0; j < itemSize; j++)
         {
-            pTempString[j] = (char)pStart[j];
+            // characters that do not fit match nothing
+            pTempString[j] = static_cast<uint32_t>(pStart[j]) > 0xff && sizeof(T) > 1 ? '\x01' : (char)pStart[j];
         }
         pTempString[itemSize] = 0;
 
-- 
2.43.0


From 25bc347d0cb6c934c4216ddc5e58e516f5b314ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 114/160] fix: the ISO week year in a date format read past the
 end of the string

---
 src/strptime5.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/strptime5.cpp b/src/strptime5.cpp
index 9908264..c07c198 100644
--- a/src/strptime5.cpp
+++ b/src/strptime5.cpp
@@ -296,6 +296,8 @@ const char * rt_strptime(const char * buf, const char * fmt, struct tm * tm)
             /* The year corresponding to the ISO week
              * number with century.
              */
+            if (! isdigit(*bp))
+                return NULL;
             do
                 bp++;
             while (isdigit(*bp));
-- 
2.43.0


From d5e4fdd4a25a9e5e4a966040e080e6937158fbce Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 115/160] fix: parsing dates by a format took the leading
 digits of numbers out of range

---
 src/DateTime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index 32eb3cd..cca70ac 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -764,7 +764,8 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
         int64_t yearresult = 0;
 
         // Check if we parsed it correctly
-        if (pStop && timeBack.tm_year != 0)
+        // (a number left with more digits is out of range)
+        if (pStop && timeBack.tm_year != 0 && ! (*pStop >= '0' && *pStop <= '9'))
         {
             // printf("strtime1: [%lld] %d %d %d %d\n", i, timeBack.tm_year + 1900,
             // timeBack.tm_mon, timeBack.tm_mday, timeBack.tm_yday); printf("strtime2:
-- 
2.43.0


From 85a1cff074caf2ddf6617b91b3d3404486189edd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 116/160] fix: arrays in the other byte order were recycled and
 handed out as native ones

---
 src/Recycler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index a545ba4..4cd9f95 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -628,6 +628,13 @@ static bool FinalizeNumpyArray(PyArrayObject * inArr)
         return false;
     }
 
+    // Arrays are handed out again by their type number, which does not tell the byte order
+    if (! PyArray_ISNOTSWAPPED(inArr))
+    {
+        LOGRECYCLE("Rejected recycling because object is not in native byte order.\n");
+        return false;
+    }
+
     if (gRecursion)
     {
         // printf("recursion on %lld  %lld\n", refCount, totalSize);
-- 
2.43.0


From 47569c4f59a0bc0116f2595fcedcbc01920b4696 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 117/160] fix: arrays changed while the recycler held them too
 were handed out changed

---
 src/Recycler.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index 4cd9f95..20bfb80 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -523,6 +523,18 @@ PyObject * RecycleDump(PyObject * self, PyObject * args)
     return PyLong_FromLongLong(totalSize);
 }
 
+//-----------------------------------
+// Checks what the type, number of dimensions and length of an array do not tell
+static bool IsRecyclable(PyArrayObject * inArr)
+{
+    // Check writeable flag on BASE array
+    // Cannot recycle readonly (not writeable) or (not owned)
+    const int needed = NPY_ARRAY_WRITEABLE | NPY_ARRAY_OWNDATA | NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_C_CONTIGUOUS;
+
+    // Arrays are handed out again by their type number, which does not tell the byte order
+    return (PyArray_FLAGS(inArr) & needed) == needed && PyArray_ISNOTSWAPPED(inArr);
+}
+
 //-----------------------------------
 // Called when we look for recycled array
 // Scans the tables to see if a recycled array is available
@@ -548,7 +560,9 @@ PyArrayObject * RecycleFindArray(int32_t ndim, int32_t type, int64_t totalSize)
                 int64_t refCount = inArr->ob_base.ob_refcnt;
 
                 // If the refcnt is one, it must be just us holding on to it
-                if (refCount == 1)
+                // (whoever held on to it meanwhile may have changed it)
+                if (refCount == 1 && IsRecyclable(inArr) && PyArray_TYPE(inArr) == type && PyArray_NDIM(inArr) == 1 &&
+                    PyArray_DIMS(inArr)[0] == totalSize)
                 {
                     // We will reuse this item so we do not decrement it here
                     RemoveFromList(pItems, i);
@@ -614,24 +628,13 @@ static bool FinalizeNumpyArray(PyArrayObject * inArr)
         return false;
     }
 
-    int flags = PyArray_FLAGS(inArr);
-    LOGRECYCLE("del numpy array flags %d, refCount %lld\n", flags, refCount);
+    LOGRECYCLE("del numpy array flags %d, refCount %lld\n", PyArray_FLAGS(inArr), refCount);
 
-    // Check writeable flag on BASE array
-    // Cannot recycle readonly (not writeable) or (not owned)
-    if ((flags & (NPY_ARRAY_WRITEABLE | NPY_ARRAY_OWNDATA | NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_C_CONTIGUOUS)) !=
-        (NPY_ARRAY_WRITEABLE | NPY_ARRAY_OWNDATA | NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_C_CONTIGUOUS))
+    if (! IsRecyclable(inArr))
     {
         LOGRECYCLE(
             "Rejected recycling because object is not writeable or owned or "
-            "contiguous.\n");
-        return false;
-    }
-
-    // Arrays are handed out again by their type number, which does not tell the byte order
-    if (! PyArray_ISNOTSWAPPED(inArr))
-    {
-        LOGRECYCLE("Rejected recycling because object is not in native byte order.\n");
+            "contiguous or in native byte order.\n");
         return false;
     }
 
-- 
2.43.0


From 180c474480e09cee6e02707b2ba5d0949c343004 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 118/160] fix: sorting strings overflowed the result, and
 sorting sliced arrays sorted other values

---
 src/Sort.cpp | 68 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 4c6e903..ff30a0f 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -2861,12 +2861,18 @@ static int SortIndexVoid(int64_t * pCutOffs, int64_t cutOffLength, const char *
 //================================================================================================
 //===============================================================================
 template <bool Ascending = true>
-static void SortArray(void * pDataIn1, int64_t arraySize1, int32_t arrayType1, SORT_MODE mode)
+static bool SortArray(void * pDataIn1, int64_t arraySize1, int32_t arrayType1, int64_t itemSize, SORT_MODE mode)
 {
     switch (arrayType1)
     {
     case NPY_STRING:
-        SortInPlace<char, Ascending>(pDataIn1, arraySize1, mode);
+        // only single characters are sorted by value
+        if (itemSize != 1)
+        {
+            PyErr_Format(PyExc_ValueError, "Sort does not understand strings longer than one character");
+            return false;
+        }
+        SortInPlace<uint8_t, Ascending>(pDataIn1, arraySize1, mode);
         break;
     case NPY_BOOL:
         SortInPlace<bool, Ascending>(pDataIn1, arraySize1, mode);
@@ -2905,9 +2911,10 @@ static void SortArray(void * pDataIn1, int64_t arraySize1, int32_t arrayType1, S
         SortInPlaceFloat<long double, Ascending>(pDataIn1, arraySize1, mode);
         break;
     default:
-        printf("SortArray does not understand type %d\n", arrayType1);
-        break;
+        PyErr_Format(PyExc_ValueError, "Sort does not understand type %d", arrayType1);
+        return false;
     }
+    return true;
 }
 
 //===============================================================================
@@ -2922,18 +2929,32 @@ PyObject * SortInPlace(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!i", &PyArray_Type, &inArr1, &sortMode))
         return NULL;
 
-    int32_t arrayType1 = PyArray_TYPE(inArr1);
-    int ndim = PyArray_NDIM(inArr1);
-    npy_intp * dims = PyArray_DIMS(inArr1);
-
-    int64_t arraySize1 = CalcArrayLength(ndim, dims);
-    void * pDataIn1 = PyArray_BYTES(inArr1);
+    // an array which is not in one piece is sorted in a copy of it which is then written back
+    PyArrayObject * sortArr = (PyArrayObject *)PyArray_FROM_OF((PyObject *)inArr1, NPY_ARRAY_INOUT_ARRAY2 | NPY_ARRAY_NOTSWAPPED);
+    if (sortArr == NULL)
+    {
+        return NULL;
+    }
 
     // printf("Arary size %llu  type %d\n", arraySize1, arrayType1);
 
     SORT_MODE mode = (SORT_MODE)sortMode;
 
-    SortArray(pDataIn1, arraySize1, arrayType1, mode);
+    bool const sorted =
+        SortArray(PyArray_BYTES(sortArr), ArrayLength(sortArr), PyArray_TYPE(sortArr), PyArray_ITEMSIZE(sortArr), mode);
+
+    if (! sorted)
+    {
+        PyArray_DiscardWritebackIfCopy(sortArr);
+        Py_DECREF(sortArr);
+        return NULL;
+    }
+    int const written = PyArray_ResolveWritebackIfCopy(sortArr);
+    Py_DECREF(sortArr);
+    if (written < 0)
+    {
+        return NULL;
+    }
 
     Py_IncRef((PyObject *)inArr1);
     return SetFastArrayView(inArr1);
@@ -3036,31 +3057,22 @@ PyObject * Sort(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!i", &PyArray_Type, &inArr1, &sortMode))
         return NULL;
 
-    int32_t arrayType1 = PyArray_TYPE(inArr1);
-    int ndim = PyArray_NDIM(inArr1);
-    npy_intp * dims = PyArray_DIMS(inArr1);
-
-    int64_t arraySize1 = CalcArrayLength(ndim, dims);
-
-    // The output is a boolean where the nth item was found
-    PyArrayObject * duplicateArray = AllocateNumpyArray(ndim, dims, arrayType1);
+    PyArrayObject * duplicateArray =
+        (PyArrayObject *)PyArray_FROM_OF((PyObject *)inArr1, NPY_ARRAY_OUT_ARRAY | NPY_ARRAY_NOTSWAPPED | NPY_ARRAY_ENSURECOPY);
 
     if (duplicateArray == NULL)
     {
-        PyErr_Format(PyExc_ValueError, "Sort out of memory");
         return NULL;
     }
 
-    void * pDataIn1 = PyArray_BYTES(inArr1);
-    void * pDataOut1 = PyArray_BYTES(duplicateArray);
-
-    int64_t itemSize = NpyItemSize((PyObject *)inArr1);
-
-    memcpy(pDataOut1, pDataIn1, arraySize1 * itemSize);
-
     SORT_MODE mode = (SORT_MODE)sortMode;
 
-    SortArray(pDataOut1, arraySize1, arrayType1, mode);
+    if (! SortArray(PyArray_BYTES(duplicateArray), ArrayLength(duplicateArray), PyArray_TYPE(duplicateArray),
+                    PyArray_ITEMSIZE(duplicateArray), mode))
+    {
+        Py_DECREF(duplicateArray);
+        return NULL;
+    }
 
     return SetFastArrayView(duplicateArray);
 }
-- 
2.43.0


From 2dd2a58a79c23f6d8eca57bf5b9d55df73bf6db8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 119/160] fix: replacing keys by their sorted positions wrote
 and read past the arrays, or did nothing

---
 src/Sort.cpp | 117 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 65 insertions(+), 52 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index ff30a0f..0e52a86 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -2960,6 +2960,39 @@ PyObject * SortInPlace(PyObject * self, PyObject * args)
     return SetFastArrayView(inArr1);
 }
 
+//===============================================================================
+// Replaces every key by its position in pSort
+// Returns false, with the keys unchanged, when a key or an entry of pSort is not an index into pSort
+template <typename KEY, typename INDEX>
+static bool ReplaceByInverse(KEY * pKey, int64_t keySize, const INDEX * pSort, int64_t sortSize)
+{
+    for (int64_t i = 0; i < sortSize; i++)
+    {
+        if (pSort[i] < 0 || pSort[i] >= sortSize)
+        {
+            return false;
+        }
+    }
+    for (int64_t i = 0; i < keySize; i++)
+    {
+        if (pKey[i] < 0 || pKey[i] >= sortSize)
+        {
+            return false;
+        }
+    }
+
+    std::vector<INDEX> inverseSort(sortSize);
+    for (int64_t i = 0; i < sortSize; i++)
+    {
+        inverseSort[pSort[i]] = (INDEX)i;
+    }
+    for (int64_t i = 0; i < keySize; i++)
+    {
+        pKey[i] = (KEY)inverseSort[pKey[i]];
+    }
+    return true;
+}
+
 //===============================================================================
 // Pass in a numpy array, it will be sorted in place
 // the same array is returned
@@ -2974,72 +3007,52 @@ PyObject * SortInPlaceIndirect(PyObject * self, PyObject * args)
     PyArrayObject * inArr1 = NULL;
     PyArrayObject * inSort = NULL;
 
-    // THIS CODE IS NOT FINSIHED
-
     if (! PyArg_ParseTuple(args, "O!O!", &PyArray_Type, &inArr1, &PyArray_Type, &inSort))
         return NULL;
 
-    int32_t arrayType1 = PyArray_TYPE(inArr1);
-    int32_t sortType = PyArray_TYPE(inSort);
+    int const keyBytes = PyArray_ISSIGNED(inArr1) ? PyArray_ITEMSIZE(inArr1) : 0;
+    int const sortBytes = PyArray_ISSIGNED(inSort) ? PyArray_ITEMSIZE(inSort) : 0;
 
-    int64_t arraySize1 = ArrayLength(inArr1);
-    int64_t sortSize = ArrayLength(inSort);
+    if (! ((keyBytes == 4 && sortBytes == 4) || (keyBytes == 4 && sortBytes == 8) || (keyBytes == 8 && sortBytes == 8)))
+    {
+        PyErr_Format(PyExc_ValueError, "SortInPlaceIndirect: arrays must be int32 or int64");
+        return NULL;
+    }
 
-    if (arrayType1 == NPY_INT32 && sortType == NPY_INT32)
+    // arrays which are not in one piece are copied, and the keys then written back
+    PyArrayObject * sortArr = (PyArrayObject *)PyArray_FROM_OF((PyObject *)inSort, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_NOTSWAPPED);
+    PyArrayObject * keyArr =
+        sortArr ? (PyArrayObject *)PyArray_FROM_OF((PyObject *)inArr1, NPY_ARRAY_INOUT_ARRAY2 | NPY_ARRAY_NOTSWAPPED) : NULL;
+    if (keyArr == NULL)
     {
-        int32_t * pDataIn = (int32_t *)PyArray_BYTES(inArr1);
-        int32_t * pSort = (int32_t *)PyArray_BYTES(inSort);
+        Py_XDECREF(sortArr);
+        return NULL;
+    }
 
-        int32_t * inverseSort = (int32_t *)WORKSPACE_ALLOC(sortSize * sizeof(int32_t));
-        for (int i = 0; i < sortSize; i++)
-        {
-            inverseSort[pSort[i]] = i;
-        }
+    void * pKey = PyArray_BYTES(keyArr);
+    void * pSort = PyArray_BYTES(sortArr);
+    int64_t const keySize = ArrayLength(keyArr);
+    int64_t const sortSize = ArrayLength(sortArr);
 
-        for (int i = 0; i < arraySize1; i++)
-        {
-            pDataIn[i] = inverseSort[pDataIn[i]];
-        }
+    bool const inRange = keyBytes == 4 ? (sortBytes == 4 ? ReplaceByInverse((int32_t *)pKey, keySize, (int32_t *)pSort, sortSize) :
+                                                           ReplaceByInverse((int32_t *)pKey, keySize, (int64_t *)pSort, sortSize)) :
+                                         ReplaceByInverse((int64_t *)pKey, keySize, (int64_t *)pSort, sortSize);
 
-        WORKSPACE_FREE(inverseSort);
-    }
-    else if (arrayType1 == NPY_INT32 && sortType == NPY_INT64)
+    int written = 0;
+    if (inRange)
     {
-        int32_t * pDataIn = (int32_t *)PyArray_BYTES(inArr1);
-        int64_t * pSort = (int64_t *)PyArray_BYTES(inSort);
-
-        int64_t * inverseSort = (int64_t *)WORKSPACE_ALLOC(sortSize * sizeof(int64_t));
-        for (int64_t i = 0; i < sortSize; i++)
-        {
-            inverseSort[pSort[i]] = i;
-        }
-
-        for (int i = 0; i < arraySize1; i++)
-        {
-            pDataIn[i] = (int32_t)inverseSort[pDataIn[i]];
-        }
-        WORKSPACE_FREE(inverseSort);
+        written = PyArray_ResolveWritebackIfCopy(keyArr);
     }
-    else if (arrayType1 == NPY_INT64 && sortType == NPY_INT64)
+    else
     {
-        int64_t * pDataIn = (int64_t *)PyArray_BYTES(inArr1);
-        int64_t * pSort = (int64_t *)PyArray_BYTES(inSort);
-
-        int64_t * inverseSort = (int64_t *)WORKSPACE_ALLOC(sortSize * sizeof(int64_t));
-        for (int64_t i = 0; i < sortSize; i++)
-        {
-            inverseSort[pSort[i]] = i;
-        }
-
-        for (int64_t i = 0; i < arraySize1; i++)
-        {
-            pDataIn[i] = inverseSort[pDataIn[i]];
-        }
-        WORKSPACE_FREE(inverseSort);
+        PyArray_DiscardWritebackIfCopy(keyArr);
+        PyErr_Format(PyExc_IndexError, "SortInPlaceIndirect: every key must be an index into the sort array, and the sort array hold such indexes");
     }
-    else
+    Py_DECREF(keyArr);
+    Py_DECREF(sortArr);
+    if (! inRange || written < 0)
     {
-        printf("**SortInplaceIndirect failure!  arrays must be int32 or int64\n");
+        return NULL;
     }
 
     Py_IncRef((PyObject *)inArr1);
-- 
2.43.0


From bfffd26f5f8e09aeaa574da81c39bc0bcb5e3ac7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 120/160] fix: counting the bits of sliced arrays counted those
 of other elements

---
 src/BitCount.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/BitCount.cpp b/src/BitCount.cpp
index 59b181e..d82338b 100644
--- a/src/BitCount.cpp
+++ b/src/BitCount.cpp
@@ -22,8 +22,13 @@ PyObject * BitCount(PyObject * self, PyObject * args)
                                                   3,   // 0b1101
                                                   3,   // 0b1110
                                                   4 }; // 0b1111
-    PyArrayObject * inArr = NULL;
-    if (! PyArg_ParseTuple(args, "O!", &PyArray_Type, &inArr))
+    PyArrayObject * inArrArg = NULL;
+    if (! PyArg_ParseTuple(args, "O!", &PyArray_Type, &inArrArg))
+        return NULL;
+
+    // the loops below walk the elements in C order, one behind the other
+    PyArrayObject * inArr = PyArray_GETCONTIGUOUS(inArrArg);
+    if (inArr == NULL)
         return NULL;
 
     const int ndim = PyArray_NDIM(inArr);
@@ -31,7 +36,10 @@ PyObject * BitCount(PyObject * self, PyObject * args)
     npy_intp * dims = PyArray_DIMS(inArr);
     PyArrayObject * returnObject = AllocateNumpyArray(ndim, dims, NPY_INT8);
     if (returnObject == NULL)
+    {
+        Py_DECREF(inArr);
         return NULL;
+    }
     int8_t * pDataOut = (int8_t *)PyArray_BYTES(returnObject);
 
     const npy_intp length = CalcArrayLength(ndim, dims);
@@ -84,11 +92,12 @@ PyObject * BitCount(PyObject * self, PyObject * args)
                 break;
             }
         default:
-            PyArray_XDECREF(returnObject);
-            PyErr_Format(PyExc_ValueError, "%s %i", "Unsupported itemsize", itemsize);
+            Py_DECREF(returnObject);
+            PyErr_Format(PyExc_ValueError, "%s %i", "Unsupported itemsize", (int)itemsize);
             returnObject = NULL;
         }
     }
 
+    Py_DECREF(inArr);
     return (PyObject *)returnObject;
 }
-- 
2.43.0


From e2b2dcbf14e0bb4b784b5ad69c88c81e9ebcbbc9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 121/160] fix: removing the trailing spaces of sliced arrays
 changed other elements, and read-only ones too

---
 src/Convert.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 2d23259..4aeded6 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2571,9 +2571,17 @@ PyObject * RemoveTrailingSpaces(PyObject * self, PyObject * args)
 
     if (dtype == NPY_STRING || dtype == NPY_UNICODE)
     {
-        void * pDataIn1 = PyArray_BYTES(inArr1);
-        int64_t arraySize1 = ArrayLength(inArr1);
-        int64_t itemSize = PyArray_ITEMSIZE(inArr1);
+        // an array which is not in one piece is stripped in a copy of it which is then written back
+        PyArrayObject * stripArr =
+            (PyArrayObject *)PyArray_FROM_OF((PyObject *)inArr1, NPY_ARRAY_INOUT_ARRAY2 | NPY_ARRAY_NOTSWAPPED);
+        if (stripArr == NULL)
+        {
+            return NULL;
+        }
+
+        void * pDataIn1 = PyArray_BYTES(stripArr);
+        int64_t arraySize1 = ArrayLength(stripArr);
+        int64_t itemSize = PyArray_ITEMSIZE(stripArr);
 
         if (dtype == NPY_STRING)
         {
@@ -2584,6 +2592,13 @@ PyObject * RemoveTrailingSpaces(PyObject * self, PyObject * args)
             TrailingSpacesUnicode((uint32_t *)pDataIn1, arraySize1, itemSize);
         }
 
+        int const written = PyArray_ResolveWritebackIfCopy(stripArr);
+        Py_DECREF(stripArr);
+        if (written < 0)
+        {
+            return NULL;
+        }
+
         Py_IncRef((PyObject *)inArr1);
         return (PyObject *)inArr1;
     }
-- 
2.43.0


From 88978150bcfa2df86d1174122dc1859f2f448d0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 122/160] fix: interpolation read past the points, and misread
 sliced arrays

---
 src/Ema.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index a1009d8..ea90276 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2480,7 +2480,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2515,7 +2515,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2561,7 +2561,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2595,7 +2595,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2685,22 +2685,30 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
     PyArrayObject * xp;
     PyArrayObject * yp;
     PyArrayObject * returnArray; // we allocate this
+    PyArrayObject * inArr;
     int32_t clip = 0;
     int32_t mode = 0;
 
-    if (! PyArg_ParseTuple(args, "O!O!O!|i", &PyArray_Type, &arr, &PyArray_Type, &xp, &PyArray_Type, &yp, &clip))
+    if (! PyArg_ParseTuple(args, "O!O!O!|i", &PyArray_Type, &inArr, &PyArray_Type, &xp, &PyArray_Type, &yp, &clip))
     {
         // If pyargparsetuple fails, it will set the error for us
         return NULL;
     }
 
-    if (PyArray_NDIM(arr) > 1)
+    ContiguousArray const contiguousArr(inArr);
+    if (! contiguousArr)
+    {
+        return NULL;
+    }
+    arr = contiguousArr.get();
+
+    if (PyArray_NDIM(arr) != 1)
     {
         PyErr_Format(PyExc_ValueError, "The 1st argument must be 1 dimensional arrays");
         return NULL;
     }
 
-    if ((PyArray_NDIM(xp) != PyArray_NDIM(yp)) || PyArray_NDIM(yp) > 2)
+    if ((PyArray_NDIM(xp) != PyArray_NDIM(yp)) || PyArray_NDIM(yp) < 1 || PyArray_NDIM(yp) > 2)
     {
         PyErr_Format(PyExc_ValueError, "The 2nd and 3rd argument must be the same dimensions");
         return NULL;
-- 
2.43.0


From 5de2216f6e8b1e7318c8bbdaa1f3e12478f9ee48 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 123/160] fix: turning records into columns wrote and read past
 arrays that did not fit

---
 src/TileRepeat.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/TileRepeat.cpp b/src/TileRepeat.cpp
index 5b46e1f..9e31f74 100644
--- a/src/TileRepeat.cpp
+++ b/src/TileRepeat.cpp
@@ -174,6 +174,12 @@ PyObject * RecordArrayToColMajor(PyObject * self, PyObject * args)
 
     int64_t itemSize = PyArray_ITEMSIZE(inArr);
 
+    if (PyArray_NDIM(inArr) != 1)
+    {
+        PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor needs a one dimensional array");
+        return NULL;
+    }
+
     if (PyArray_DIM(inArr, 0) > 1 && itemSize != PyArray_STRIDE(inArr, 0))
     {
         PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor cannot handle strides");
@@ -189,10 +195,38 @@ PyObject * RecordArrayToColMajor(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (PyArray_TYPE(arrArr) != NPY_OBJECT || ! PyArray_ISCARRAY_RO(arrArr))
+    {
+        PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor needs an array of arrays");
+        return NULL;
+    }
+
+    if (! PyArray_ISSIGNED(offsetArr) || PyArray_ITEMSIZE(offsetArr) != sizeof(int64_t) || ! PyArray_ISCARRAY_RO(offsetArr))
+    {
+        PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor offsets must be int64");
+        return NULL;
+    }
+
     int64_t totalRows = length;
     int64_t * pOffsets = (int64_t *)PyArray_BYTES(offsetArr);
     PyArrayObject ** ppArrays = (PyArrayObject **)PyArray_BYTES(arrArr);
 
+    for (int64_t i = 0; i < numArrays; i++)
+    {
+        PyArrayObject * column = ppArrays[i];
+        if (column == NULL || ! PyArray_Check(column) || ArrayLength(column) != totalRows || ! PyArray_IS_C_CONTIGUOUS(column) ||
+            ! PyArray_ISWRITEABLE(column) || PyDataType_REFCHK(PyArray_DESCR(column)))
+        {
+            PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor column %lld must be an array of %lld rows to write to", i, totalRows);
+            return NULL;
+        }
+        if (pOffsets[i] < 0 || pOffsets[i] + PyArray_ITEMSIZE(column) > itemSize)
+        {
+            PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor column %lld lies outside of the records", i);
+            return NULL;
+        }
+    }
+
     stOffsets * pstOffset;
 
     pstOffset = (stOffsets *)WORKSPACE_ALLOC(sizeof(stOffsets) * numArrays);
-- 
2.43.0


From 414977d946472c79fc1615af5fa2153d89bee505 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 124/160] fix: combining labels with filters misread sliced
 arrays

---
 src/Convert.cpp | 87 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 14 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 4aeded6..942a220 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -7,6 +7,7 @@
 #include "Reduce.h"
 
 #include <algorithm>
+#include <optional>
 
 #define LOGGING(...)
 //#define LOGGING printf
@@ -1430,16 +1431,26 @@ static bool CombineThreadCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int
 // Returns new index array with 0
 PyObject * CombineFilter(PyObject * self, PyObject * args)
 {
-    PyArrayObject * inArr1 = NULL;
-    PyArrayObject * inFilter = NULL;
+    PyArrayObject * indexArg = NULL;
+    PyArrayObject * filterArg = NULL;
 
     int64_t out_dtype = 0;
 
-    if (! PyArg_ParseTuple(args, "O!O!:CombineFilter", &PyArray_Type, &inArr1, &PyArray_Type, &inFilter))
+    if (! PyArg_ParseTuple(args, "O!O!:CombineFilter", &PyArray_Type, &indexArg, &PyArray_Type, &filterArg))
     {
         return NULL;
     }
 
+    // the index and the filter are walked one element behind the other
+    ContiguousArray const contiguousIndex(indexArg);
+    ContiguousArray const contiguousFilter(filterArg);
+    if (! contiguousIndex || ! contiguousFilter)
+    {
+        return NULL;
+    }
+    PyArrayObject * inArr1 = contiguousIndex.get();
+    PyArrayObject * inFilter = contiguousFilter.get();
+
     int32_t numpyOutType = PyArray_TYPE(inArr1);
     void * pDataIn = PyArray_BYTES(inArr1);
     int ndim = PyArray_NDIM(inArr1);
@@ -1725,19 +1736,35 @@ static bool CombineThreadAccum2Callback(struct stMATH_WORKER_ITEM * pstWorkerIte
 // Returns new index array and unique count array
 PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
 {
-    PyArrayObject * inArr1 = NULL;
-    PyArrayObject * inArr2 = NULL;
+    PyArrayObject * indexArg1 = NULL;
+    PyArrayObject * indexArg2 = NULL;
     int64_t inArr1Max = 0;
     int64_t inArr2Max = 0;
-    PyObject * inFilter = NULL;
+    PyObject * filterArg = NULL;
 
     int64_t out_dtype = 0;
 
-    if (! PyArg_ParseTuple(args, "O!O!LLO:CombineAccum2Filter", &PyArray_Type, &inArr1, &PyArray_Type, &inArr2, &inArr1Max,
-                           &inArr2Max, &inFilter))
+    if (! PyArg_ParseTuple(args, "O!O!LLO:CombineAccum2Filter", &PyArray_Type, &indexArg1, &PyArray_Type, &indexArg2, &inArr1Max,
+                           &inArr2Max, &filterArg))
+    {
+        return NULL;
+    }
+
+    // the indexes and the filter are walked one element behind the other
+    ContiguousArray const contiguousIndex1(indexArg1);
+    ContiguousArray const contiguousIndex2(indexArg2);
+    std::optional<ContiguousArray> contiguousFilter;
+    if (PyArray_Check(filterArg))
+    {
+        contiguousFilter.emplace((PyArrayObject *)filterArg);
+    }
+    if (! contiguousIndex1 || ! contiguousIndex2 || (contiguousFilter && ! *contiguousFilter))
     {
         return NULL;
     }
+    PyArrayObject * inArr1 = contiguousIndex1.get();
+    PyArrayObject * inArr2 = contiguousIndex2.get();
+    PyObject * inFilter = contiguousFilter ? (PyObject *)contiguousFilter->get() : filterArg;
 
     inArr1Max++;
     inArr2Max++;
@@ -2178,16 +2205,30 @@ int64_t Combine1Filter(void * pInputIndex,
 // Returns new index array and unique count array
 PyObject * CombineAccum1Filter(PyObject * self, PyObject * args)
 {
-    PyArrayObject * inArr1 = NULL;
+    PyArrayObject * indexArg1 = NULL;
     int64_t inArr1Max = 0;
-    PyObject * inFilter = NULL;
+    PyObject * filterArg = NULL;
 
     int64_t out_dtype = 0;
 
-    if (! PyArg_ParseTuple(args, "O!LO:CombineAccum1Filter", &PyArray_Type, &inArr1, &inArr1Max, &inFilter))
+    if (! PyArg_ParseTuple(args, "O!LO:CombineAccum1Filter", &PyArray_Type, &indexArg1, &inArr1Max, &filterArg))
+    {
+        return NULL;
+    }
+
+    // the indexes and the filter are walked one element behind the other
+    ContiguousArray const contiguousIndex1(indexArg1);
+    std::optional<ContiguousArray> contiguousFilter;
+    if (PyArray_Check(filterArg))
+    {
+        contiguousFilter.emplace((PyArrayObject *)filterArg);
+    }
+    if (! contiguousIndex1 || (contiguousFilter && ! *contiguousFilter))
     {
         return NULL;
     }
+    PyArrayObject * inArr1 = contiguousIndex1.get();
+    PyObject * inFilter = contiguousFilter ? (PyObject *)contiguousFilter->get() : filterArg;
 
     void * pDataIn1 = PyArray_BYTES(inArr1);
     int8_t * pFilterIn = NULL;
@@ -2418,17 +2459,31 @@ int64_t iLastFilter(void * pInputIndex,
 // removed
 PyObject * MakeiFirst(PyObject * self, PyObject * args)
 {
-    PyArrayObject * inArr1 = NULL;
+    PyArrayObject * indexArg1 = NULL;
     int64_t inArr1Max = 0;
-    PyObject * inFilter = NULL;
+    PyObject * filterArg = NULL;
     int64_t isLast = 0;
 
     int64_t out_dtype = 0;
 
-    if (! PyArg_ParseTuple(args, "O!LOL:MakeiFirst", &PyArray_Type, &inArr1, &inArr1Max, &inFilter, &isLast))
+    if (! PyArg_ParseTuple(args, "O!LOL:MakeiFirst", &PyArray_Type, &indexArg1, &inArr1Max, &filterArg, &isLast))
+    {
+        return NULL;
+    }
+
+    // the indexes and the filter are walked one element behind the other
+    ContiguousArray const contiguousIndex1(indexArg1);
+    std::optional<ContiguousArray> contiguousFilter;
+    if (PyArray_Check(filterArg))
+    {
+        contiguousFilter.emplace((PyArrayObject *)filterArg);
+    }
+    if (! contiguousIndex1 || (contiguousFilter && ! *contiguousFilter))
     {
         return NULL;
     }
+    PyArrayObject * inArr1 = contiguousIndex1.get();
+    PyObject * inFilter = contiguousFilter ? (PyObject *)contiguousFilter->get() : filterArg;
 
     void * pDataIn1 = PyArray_BYTES(inArr1);
     int8_t * pFilterIn = NULL;
@@ -2518,7 +2573,11 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
 
             return (PyObject *)firstArray;
         }
+        PyErr_Format(PyExc_ValueError, "MakeiFirst out of memory");
+        return NULL;
     }
+
+    PyErr_Format(PyExc_ValueError, "MakeiFirst: Unsupported index type, %d", dtype);
     return NULL;
 }
 
-- 
2.43.0


From 9c52a60dd6108c6fbb60dd5824ad87c41bfd6180 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 125/160] fix: grouping, counting and aggregating by sliced
 label arrays misread the labels

---
 src/GroupBy.cpp  | 38 +++++++++++++++++++++++++-------
 src/MultiKey.cpp | 57 ++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 78 insertions(+), 17 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index d8f388c..ccac0de 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -4588,7 +4588,7 @@ PyObject * GroupBySingleOpMultithreaded(ArrayInfo * aInfo, PyArrayObject * iKey,
 PyObject * GroupByAll32(PyObject * self, PyObject * args)
 {
     PyObject * inList1 = NULL;
-    PyArrayObject * iKey = NULL;
+    PyArrayObject * iKeyArg = NULL;
     PyObject * param = NULL;
 
     int64_t unique_rows = 0;
@@ -4596,13 +4596,21 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
     PyListObject * listBinLow = NULL;
     PyListObject * listBinHigh = NULL;
 
-    if (! PyArg_ParseTuple(args, "OO!LO!O!O!O", &inList1, &PyArray_Type, &iKey, &unique_rows, &PyList_Type, &listFuncNum,
+    if (! PyArg_ParseTuple(args, "OO!LO!O!O!O", &inList1, &PyArray_Type, &iKeyArg, &unique_rows, &PyList_Type, &listFuncNum,
                            &PyList_Type, &listBinLow, &PyList_Type, &listBinHigh, &param))
     {
         // PyArg_ParseTuple sets the error
         return NULL;
     }
 
+    // the loops below walk the arrays one element behind the other
+    ContiguousArray const contiguousIKey(iKeyArg);
+    if (! contiguousIKey)
+    {
+        return NULL;
+    }
+    PyArrayObject * iKey = contiguousIKey.get();
+
     int32_t ndim = PyArray_NDIM(iKey);
 
     if (ndim != 1)
@@ -4875,10 +4883,10 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
 PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
 {
     PyObject * inList1 = NULL;
-    PyArrayObject * iKey = NULL;
-    PyArrayObject * iGroup;
-    PyArrayObject * iFirst;
-    PyArrayObject * nCount;
+    PyArrayObject * iKeyArg = NULL;
+    PyArrayObject * iGroupArg = NULL;
+    PyArrayObject * iFirstArg = NULL;
+    PyArrayObject * nCountArg = NULL;
 
     int64_t unique_rows = 0;
     PyListObject * listFuncNum = 0;
@@ -4886,14 +4894,28 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
     PyListObject * listBinHigh = 0;
     int64_t funcParam = 0;
 
-    if (! PyArg_ParseTuple(args, "OO!O!O!O!LO!O!O!L", &inList1, &PyArray_Type, &iKey, &PyArray_Type, &iGroup, &PyArray_Type,
-                           &iFirst, &PyArray_Type, &nCount, &unique_rows, &PyList_Type, &listFuncNum, &PyList_Type, &listBinLow,
+    if (! PyArg_ParseTuple(args, "OO!O!O!O!LO!O!O!L", &inList1, &PyArray_Type, &iKeyArg, &PyArray_Type, &iGroupArg, &PyArray_Type,
+                           &iFirstArg, &PyArray_Type, &nCountArg, &unique_rows, &PyList_Type, &listFuncNum, &PyList_Type, &listBinLow,
                            &PyList_Type, &listBinHigh, &funcParam))
     {
         // Error already set
         return NULL;
     }
 
+    // the loops below walk the arrays one element behind the other
+    ContiguousArray const contiguousIKey(iKeyArg);
+    ContiguousArray const contiguousIGroup(iGroupArg);
+    ContiguousArray const contiguousIFirst(iFirstArg);
+    ContiguousArray const contiguousNCount(nCountArg);
+    if (! contiguousIKey || ! contiguousIGroup || ! contiguousIFirst || ! contiguousNCount)
+    {
+        return NULL;
+    }
+    PyArrayObject * iKey = contiguousIKey.get();
+    PyArrayObject * iGroup = contiguousIGroup.get();
+    PyArrayObject * iFirst = contiguousIFirst.get();
+    PyArrayObject * nCount = contiguousNCount.get();
+
     logger->debug("GroupByAllPack32 types: key:{}  group:{}  first:{}  count:{}", PyArray_TYPE(iKey), PyArray_TYPE(iGroup),
                   PyArray_TYPE(iFirst), PyArray_TYPE(nCount));
 
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index f4a9bb5..1870957 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -554,15 +554,23 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
 //      Returns index array with next or previous
 PyObject * MakeiNext(PyObject * self, PyObject * args)
 {
-    PyArrayObject * ikey = NULL;
+    PyArrayObject * ikeyArg = NULL;
     int64_t unique_rows = 0;
     int64_t mode = 0;
 
-    if (! PyArg_ParseTuple(args, "O!LL", &PyArray_Type, &ikey, &unique_rows, &mode))
+    if (! PyArg_ParseTuple(args, "O!LL", &PyArray_Type, &ikeyArg, &unique_rows, &mode))
     {
         return NULL;
     }
 
+    // the loops below walk the arrays one element behind the other
+    ContiguousArray const contiguousIkey(ikeyArg);
+    if (! contiguousIkey)
+    {
+        return NULL;
+    }
+    PyArrayObject * ikey = contiguousIkey.get();
+
     int dtype = PyArray_TYPE(ikey);
 
     // check for only signed ints
@@ -841,15 +849,23 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
 //
 PyObject * GroupByPack32(PyObject * self, PyObject * args)
 {
-    PyArrayObject * indexArray = NULL;
+    PyArrayObject * indexArrayArg = NULL;
     PyObject * nextArray = NULL;
 
     int64_t numUnique = 0;
 
-    if (! PyArg_ParseTuple(args, "O!OL", &PyArray_Type, &indexArray, &nextArray, &numUnique))
+    if (! PyArg_ParseTuple(args, "O!OL", &PyArray_Type, &indexArrayArg, &nextArray, &numUnique))
+    {
+        return NULL;
+    }
+
+    // the loops below walk the arrays one element behind the other
+    ContiguousArray const contiguousIndexArray(indexArrayArg);
+    if (! contiguousIndexArray)
     {
         return NULL;
     }
+    PyArrayObject * indexArray = contiguousIndexArray.get();
 
     try
     {
@@ -898,6 +914,11 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
                 PyErr_Format(PyExc_ValueError, "GroupByPack32 array length does not match %llu", totalRows);
                 return NULL;
             }
+            if (PyArray_TYPE((PyArrayObject *)nextArray) != NPY_INT32 || ! PyArray_IS_C_CONTIGUOUS((PyArrayObject *)nextArray))
+            {
+                PyErr_Format(PyExc_ValueError, "GroupByPack32 next array must be a contiguous int32 array");
+                return NULL;
+            }
             pNextArray = (int32_t *)PyArray_BYTES((PyArrayObject *)nextArray);
         }
 
@@ -2066,13 +2087,23 @@ MAKE_I_GROUP GetMakeIGroup(int iKeyType, int outdtype)
 //
 PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
 {
-    PyArrayObject * iKey = NULL;
-    PyArrayObject * nCountGroup = NULL;
+    PyArrayObject * iKeyArg = NULL;
+    PyArrayObject * nCountGroupArg = NULL;
+
+    if (! PyArg_ParseTuple(args, "O!O!", &PyArray_Type, &iKeyArg, &PyArray_Type, &nCountGroupArg))
+    {
+        return NULL;
+    }
 
-    if (! PyArg_ParseTuple(args, "O!O!", &PyArray_Type, &iKey, &PyArray_Type, &nCountGroup))
+    // the loops below walk the arrays one element behind the other
+    ContiguousArray const contiguousIKey(iKeyArg);
+    ContiguousArray const contiguousNCountGroup(nCountGroupArg);
+    if (! contiguousIKey || ! contiguousNCountGroup)
     {
         return NULL;
     }
+    PyArrayObject * iKey = contiguousIKey.get();
+    PyArrayObject * nCountGroup = contiguousNCountGroup.get();
 
     int32_t iKeyType = PyArray_TYPE(iKey);
     int64_t totalRows = ArrayLength(iKey);
@@ -2413,14 +2444,22 @@ int64_t GetPack(PyObject * kwargs)
 //
 PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
 {
-    PyArrayObject * iKey = NULL;
+    PyArrayObject * iKeyArg = NULL;
 
     int64_t unique_rows = 0;
 
-    if (! PyArg_ParseTuple(args, "O!L", &PyArray_Type, &iKey, &unique_rows))
+    if (! PyArg_ParseTuple(args, "O!L", &PyArray_Type, &iKeyArg, &unique_rows))
+    {
+        return NULL;
+    }
+
+    // the loops below walk the arrays one element behind the other
+    ContiguousArray const contiguousIKey(iKeyArg);
+    if (! contiguousIKey)
     {
         return NULL;
     }
+    PyArrayObject * iKey = contiguousIKey.get();
 
     int32_t iKeyType = PyArray_TYPE(iKey);
     int64_t totalRows = ArrayLength(iKey);
-- 
2.43.0


From 3a96187339b733ed44a674999f03d79baf8a8152 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 126/160] fix: grouping and sorting misread sliced filters,
 cutoffs and ascending flags

---
 src/MultiKey.cpp | 13 +++++--
 src/Sort.cpp     | 92 +++++++++++++++++++++++++++++++++++++++++-------
 src/Sort.h       |  2 +-
 3 files changed, 90 insertions(+), 17 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 1870957..80687cf 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -393,7 +393,13 @@ public:
                     }
                     else
                     {
-                        pBoolFilterObject = (PyArrayObject *)filterArray;
+                        // the filter is read as one run of bools
+                        pBoolFilterObject = EnsureContiguousArray((PyArrayObject *)filterArray);
+                        if (! pBoolFilterObject)
+                        {
+                            return;
+                        }
+                        filterObjAllocated = pBoolFilterObject != (PyArrayObject *)filterArray;
                     }
                     pBoolFilter = (bool *)PyArray_BYTES(pBoolFilterObject);
                     LOGGING("Bool array is at %p\n", pBoolFilter);
@@ -1038,7 +1044,8 @@ PyObject * MultiKeyGroupBy32(PyObject * self, PyObject * args, PyObject * kwargs
         }
 
         int64_t cutOffLength = 0;
-        int64_t * pCutOffs = GetCutOffs(kwargs, cutOffLength);
+        std::unique_ptr<ContiguousArray> cutOffsHolder;
+        int64_t * pCutOffs = GetCutOffs(kwargs, cutOffLength, cutOffsHolder);
 
         if (pCutOffs && pCutOffs[cutOffLength - 1] != mkp.totalRows)
         {
@@ -1050,7 +1057,7 @@ PyObject * MultiKeyGroupBy32(PyObject * self, PyObject * args, PyObject * kwargs
         }
         if (cutOffLength == -1)
         {
-            PyErr_Format(PyExc_ValueError, "MultiKeyGroupBy32 'cutoffs' must be an array of type int64_t");
+            PyErr_Format(PyExc_ValueError, "MultiKeyGroupBy32 'cutoffs' must be an increasing array of type int64_t");
             return NULL;
         }
 
diff --git a/src/Sort.cpp b/src/Sort.cpp
index 0e52a86..39ce956 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3373,8 +3373,9 @@ PyObject * IsSorted(PyObject * self, PyObject * args)
 //===============================================================================
 // checks for kwargs cutoff
 // if exists, and is int64_t, returns pointer and length of cutoffs
+// holder keeps the copy that is made of a non-contiguous array
 // cutoffLength of -1 indicates an error
-int64_t * GetCutOffs(PyObject * kwargs, int64_t & cutoffLength)
+int64_t * GetCutOffs(PyObject * kwargs, int64_t & cutoffLength, std::unique_ptr<ContiguousArray> & holder)
 {
     // Check for cutoffs kwarg to see if going into parallel mode
     if (kwargs && PyDict_Check(kwargs))
@@ -3389,8 +3390,28 @@ int64_t * GetCutOffs(PyObject * kwargs, int64_t & cutoffLength)
             switch (PyArray_TYPE(pCutOffs))
             {
             CASE_NPY_INT64:
-                cutoffLength = ArrayLength(pCutOffs);
-                return (int64_t *)PyArray_BYTES(pCutOffs);
+                {
+                    holder.reset(new ContiguousArray(pCutOffs));
+                    cutoffLength = ArrayLength(pCutOffs);
+                    if (! *holder || cutoffLength == 0)
+                    {
+                        PyErr_Clear();
+                        cutoffLength = -1;
+                        return NULL;
+                    }
+
+                    // each partition ends where the next starts
+                    int64_t * pEnds = (int64_t *)PyArray_BYTES(holder->get());
+                    for (int64_t i = 0; i < cutoffLength; i++)
+                    {
+                        if (pEnds[i] < (i == 0 ? 0 : pEnds[i - 1]))
+                        {
+                            cutoffLength = -1;
+                            return NULL;
+                        }
+                    }
+                    return pEnds;
+                }
             default:
                 printf("Bad cutoff dtype... make sure int64_t\n");
                 cutoffLength = -1;
@@ -3402,7 +3423,7 @@ int64_t * GetCutOffs(PyObject * kwargs, int64_t & cutoffLength)
     return NULL;
 }
 
-bool * GetAscending(PyObject * kwargs, int64_t & ascLen, bool & scalarVal)
+static bool * GetAscending(PyObject * kwargs, int64_t & ascLen, bool & scalarVal, std::unique_ptr<ContiguousArray> & holder)
 {
     if (! (kwargs && PyDict_Check(kwargs)))
         return nullptr;
@@ -3420,8 +3441,18 @@ bool * GetAscending(PyObject * kwargs, int64_t & ascLen, bool & scalarVal)
     if (PyArray_Check((PyArrayObject *)asc_item))
     {
         auto const ascending = (PyArrayObject *)asc_item;
+        if (PyArray_TYPE(ascending) != NPY_BOOL)
+        {
+            PyErr_Format(PyExc_ValueError, "LexSort 'ascending' must be a bool or an array of bools");
+            return nullptr;
+        }
+        holder.reset(new ContiguousArray(ascending));
+        if (! *holder)
+        {
+            return nullptr;
+        }
         ascLen = ArrayLength(ascending);
-        return (bool *)PyArray_BYTES(ascending);
+        return (bool *)PyArray_BYTES(holder->get());
     }
 
     return nullptr;
@@ -3507,11 +3538,18 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
         int64_t arraySize1 = mlp.totalRows;
 
         int64_t cutOffLength = 0;
-        int64_t * pCutOffs = GetCutOffs(kwargs, cutOffLength);
+        std::unique_ptr<ContiguousArray> cutOffsHolder;
+        int64_t * pCutOffs = GetCutOffs(kwargs, cutOffLength, cutOffsHolder);
 
         bool scalar_val = true;
         int64_t ascLen = -1;
-        bool * ascending = GetAscending(kwargs, ascLen, scalar_val);
+        std::unique_ptr<ContiguousArray> ascendingHolder;
+        bool * ascending = GetAscending(kwargs, ascLen, scalar_val, ascendingHolder);
+
+        if (PyErr_Occurred())
+        {
+            return NULL;
+        }
 
         if (pCutOffs && pCutOffs[cutOffLength - 1] != arraySize1)
         {
@@ -3525,7 +3563,7 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
         }
         if (cutOffLength == -1)
         {
-            PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be an array of type int64_t");
+            PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be an increasing array of type int64_t");
             return NULL;
         }
 
@@ -3562,6 +3600,22 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
                 return NULL;
             }
 
+            if (! PyArray_ISCARRAY(index))
+            {
+                PyErr_Format(PyExc_ValueError, "LexSort 'index' must be contiguous and writeable, it is sorted in place");
+                return NULL;
+            }
+
+            UINDEX const * pStart = (UINDEX const *)PyArray_BYTES(index);
+            for (int64_t i = 0; i < indexLength; i++)
+            {
+                if (pStart[i] < 0 || pStart[i] >= arraySize1)
+                {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'index' is out of range for array length %lld", arraySize1);
+                    return NULL;
+                }
+            }
+
             // reduce what we sort to the startindex
             arraySize1 = indexLength;
             result = index;
@@ -3661,7 +3715,7 @@ PyObject * LexSort64(PyObject * self, PyObject * args, PyObject * kwargs)
 //===============================================================================
 // checks for kwargs filter
 // if exists, and is bool, returns pointer and length of bool
-static bool * GetFilter(PyObject * kwargs, int64_t & filterLength)
+static bool * GetFilter(PyObject * kwargs, int64_t & filterLength, std::unique_ptr<ContiguousArray> & holder)
 {
     // Check for cutoffs kwarg to see if going into parallel mode
     if (kwargs && PyDict_Check(kwargs))
@@ -3676,8 +3730,13 @@ static bool * GetFilter(PyObject * kwargs, int64_t & filterLength)
             switch (PyArray_TYPE(pFilter))
             {
             case NPY_BOOL:
+                holder.reset(new ContiguousArray(pFilter));
+                if (! *holder)
+                {
+                    return NULL;
+                }
                 filterLength = ArrayLength(pFilter);
-                return (bool *)PyArray_BYTES(pFilter);
+                return (bool *)PyArray_BYTES(holder->get());
             }
         }
     }
@@ -3953,10 +4012,17 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
                                            void * pValues, npy_intp itemSizeValues)
 {
     int64_t cutOffLength = 0;
-    int64_t * pCutOffs = GetCutOffs(kwargs, cutOffLength);
+    std::unique_ptr<ContiguousArray> cutOffsHolder;
+    int64_t * pCutOffs = GetCutOffs(kwargs, cutOffLength, cutOffsHolder);
 
     int64_t filterLength = 0;
-    bool * pFilter = GetFilter(kwargs, filterLength);
+    std::unique_ptr<ContiguousArray> filterHolder;
+    bool * pFilter = GetFilter(kwargs, filterLength, filterHolder);
+
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
 
     int64_t base_index = GetBaseIndex(kwargs);
 
@@ -3966,7 +4032,7 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
     }
     if (cutOffLength == -1)
     {
-        return PyErr_Format(PyExc_ValueError, "GroupFromLexSort 'cutoffs' must be an array of type int64_t");
+        return PyErr_Format(PyExc_ValueError, "GroupFromLexSort 'cutoffs' must be an increasing array of type int64_t");
     }
     if (pFilter && filterLength != indexLength)
     {
diff --git a/src/Sort.h b/src/Sort.h
index 77a0ff8..e7805f5 100644
--- a/src/Sort.h
+++ b/src/Sort.h
@@ -11,7 +11,7 @@ enum SORT_MODE
     SORT_MODE_HEAP = 3
 };
 
-int64_t * GetCutOffs(PyObject * kwargs, int64_t & cutoffLength);
+int64_t * GetCutOffs(PyObject * kwargs, int64_t & cutoffLength, std::unique_ptr<ContiguousArray> & holder);
 PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs);
 
 PyObject * IsSorted(PyObject * self, PyObject * args);
-- 
2.43.0


From da3493fd8737df4dd6142ee783e6c677c4167326 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 127/160] fix: grouping by a sorted index misread sliced
 arrays, and read past the values

---
 src/Sort.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 39ce956..71dca97 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -4034,6 +4034,24 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
     {
         return PyErr_Format(PyExc_ValueError, "GroupFromLexSort 'cutoffs' must be an increasing array of type int64_t");
     }
+    for (int64_t i = 0, part = 0; i < indexLength; i++)
+    {
+        // each partition has an index of its own
+        int64_t limit = indexLengthValues;
+        if (pCutOffs)
+        {
+            while (i >= pCutOffs[part])
+            {
+                part++;
+            }
+            limit = pCutOffs[part] - (part == 0 ? 0 : pCutOffs[part - 1]);
+        }
+        if (pIndex[i] < 0 || pIndex[i] >= limit)
+        {
+            return PyErr_Format(PyExc_ValueError, "GroupFromLexSort index is out of range for array length %lld",
+                                (long long)indexLengthValues);
+        }
+    }
     if (pFilter && filterLength != indexLength)
     {
         return PyErr_Format(PyExc_ValueError, "GroupFromLexSort filter length does not match array length %lld", indexLength);
@@ -4453,8 +4471,22 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
 
     const auto dtype = PyArray_TYPE(inArrSortIndex);
 
-    void * pIndex = PyArray_BYTES(inArrSortIndex);
-    void * pValues = PyArray_BYTES(inArrValues);
+    // with cutoffs the index is turned into that of the whole array, in place
+    PyObject * const cutOffs = kwargs ? PyDict_GetItemString(kwargs, "cutoffs") : NULL;
+    if (cutOffs && PyArray_Check(cutOffs) && ! PyArray_ISCARRAY(inArrSortIndex))
+    {
+        return PyErr_Format(PyExc_ValueError, "GroupFromLexSort with cutoffs needs a contiguous, writeable index");
+    }
+
+    ContiguousArray const indexArray(inArrSortIndex);
+    ContiguousArray const valuesArray(inArrValues);
+    if (! indexArray || ! valuesArray)
+    {
+        return NULL;
+    }
+
+    void * pIndex = PyArray_BYTES(indexArray.get());
+    void * pValues = PyArray_BYTES(valuesArray.get());
 
     switch (dtype)
     {
-- 
2.43.0


From 8f71b1f891635f0be122d8ddb23b691098a87f11 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 128/160] fix: grouping string keys by a sorted index per
 partition shifted the counts by one

---
 src/Sort.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 71dca97..fb9961f 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3915,8 +3915,15 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
     UINDEX baseIndex = (UINDEX)base_index;
     UINDEX curGroup = 0;
 
-    // Invalid bin init when base_index is 1
-    pCountOut[0] = 0;
+    // The invalid bin is counted only when base_index is 1
+    if (base_index == 0)
+    {
+        pCountOut--;
+    }
+    else
+    {
+        pCountOut[0] = 0;
+    }
 
     pFirstOut[0] = curIndex;
     pGroupOut[curIndex] = baseIndex;
@@ -4385,7 +4392,7 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
         g_cMathWorker->DoMultiThreadedWork((int)cutOffLength, lambdaPGADDCallback, &pgroupadd);
 
         Py_DecRef((PyObject *)first);
-        // Py_DecRef((PyObject*)count);
+        Py_DecRef((PyObject *)count);
 
         PyObject * returnObject = PyList_New(4);
         PyList_SET_ITEM(returnObject, 0, (PyObject *)keys);
@@ -4416,7 +4423,16 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
             AllocateNumpyArray(1, (npy_intp *)&uniqueCount, sizeof(UINDEX) == 4 ? NPY_INT32 : NPY_INT64);
         copySize = sizeof(UINDEX) * uniqueCount;
         // reduced
-        memcpy(PyArray_BYTES(countReduced), pCountOut, copySize);
+        if (base_index == 0)
+        {
+            // the zero bin is reserved here too, and not counted above
+            ((UINDEX *)PyArray_BYTES(countReduced))[0] = 0;
+            memcpy(PyArray_BYTES(countReduced) + sizeof(UINDEX), pCountOut, copySize - sizeof(UINDEX));
+        }
+        else
+        {
+            memcpy(PyArray_BYTES(countReduced), pCountOut, copySize);
+        }
 
         Py_DecRef((PyObject *)first);
         Py_DecRef((PyObject *)count);
-- 
2.43.0


From 6458df48534e05c620a78d2d533a27a835804d10 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 129/160] fix: in-memory compression lost empty content,
 compressed object pointers, and trusted damaged headers

---
 src/Compress.cpp | 162 ++++++++++++++++++++++++++++-------------------
 src/Compress.h   |   4 ++
 2 files changed, 102 insertions(+), 64 deletions(-)

diff --git a/src/Compress.cpp b/src/Compress.cpp
index 0330788..0e79efd 100644
--- a/src/Compress.cpp
+++ b/src/Compress.cpp
@@ -62,12 +62,56 @@ NUMPY_HEADERSIZE * AllocCompressedMemory(int64_t arraylength, int32_t dtype, int
 }
 
 //-------------------------------------------------------
-// Decompress
+// Checks that an array holds what CompressDecompressArrays makes of an array
+// Returns the size of the array when decompressed, or -1 with an error set
+static int64_t CheckCompressedArray(ArrayInfo & info)
+{
+    NUMPY_HEADERSIZE const * pNumpyHeader = (NUMPY_HEADERSIZE const *)info.pData;
+
+    if (! info.pObject || info.NumBytes < (int64_t)sizeof(NUMPY_HEADERSIZE) || pNumpyHeader->magic != COMPRESSION_MAGIC ||
+        pNumpyHeader->compressiontype != COMPRESSION_TYPE_ZSTD ||
+        pNumpyHeader->compressedSize > (uint64_t)info.NumBytes - sizeof(NUMPY_HEADERSIZE))
+    {
+        PyErr_Format(PyExc_ValueError, "input data is not a compressed array");
+        return -1;
+    }
+
+    uint64_t const dest_size = (uint64_t)ZSTD_getFrameContentSize(&pNumpyHeader[1], pNumpyHeader->compressedSize);
+    if (dest_size == ZSTD_CONTENTSIZE_UNKNOWN || dest_size == ZSTD_CONTENTSIZE_ERROR)
+    {
+        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
+        return -1;
+    }
+
+    int const dtype = pNumpyHeader->dtype;
+    int64_t const itemsize = pNumpyHeader->itemsize;
+    bool ok = pNumpyHeader->ndim == 1 && itemsize >= 0 && dtype >= 0 && dtype <= NPY_VOID && dtype != NPY_OBJECT;
+    if (ok && ! PyTypeNum_ISFLEXIBLE(dtype))
+    {
+        PyArray_Descr * descr = PyArray_DescrFromType(dtype);
+        ok = descr != NULL && descr->elsize == itemsize;
+        Py_XDECREF(descr);
+    }
+    if (ok)
+    {
+        // (dividing does not overflow)
+        int64_t const rows = pNumpyHeader->dimensions[0];
+        ok = rows >= 0 &&
+             (itemsize == 0 ? dest_size == 0 : dest_size % itemsize == 0 && (uint64_t)rows == dest_size / itemsize);
+    }
+    if (! ok)
+    {
+        PyErr_Format(PyExc_ValueError, "input data has a header that does not describe it");
+        return -1;
+    }
+    return (int64_t)dest_size;
+}
+
+//-------------------------------------------------------
+// Decompress -- called from multiple threads
 bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
 {
     COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays = (COMPRESS_NUMPY_TO_NUMPY *)pstCompressArraysV;
-    ArrayInfo * aInfo = pstCompressArrays->aInfo;
-
     if (pstCompressArrays->pNumpyHeaders[t])
     {
         NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)pstCompressArrays->aInfo[t].pData;
@@ -75,34 +119,15 @@ bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
         void * source = &pNumpyHeader[1];
         uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(source, pNumpyHeader->compressedSize);
 
-        switch (dest_size)
-        {
-        case ZSTD_CONTENTSIZE_UNKNOWN:
-        case ZSTD_CONTENTSIZE_ERROR:
-        case 0:
-            PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-            return false;
-
-        default:
-            break;
-        }
-
         PyArrayObject * pArrayObject = pstCompressArrays->pNumpyArray[t];
         void * dest = PyArray_BYTES(pArrayObject);
 
         size_t cSize = ZSTD_decompress(dest, dest_size, source, pNumpyHeader->compressedSize);
 
-        if (ZSTD_isError(cSize))
-        {
-            PyErr_Format(PyExc_ValueError, "Decompression error: %s", ZSTD_getErrorName(cSize));
-            return false;
-        }
-        else if (cSize != dest_size)
+        if (cSize != dest_size)
         {
-            PyErr_Format(PyExc_ValueError,
-                         "Decompression error: length mismatch -> decomp %llu != "
-                         "%llu [header]",
-                         (uint64_t)cSize, dest_size);
+            // no result, the error is raised once the workers are done
+            pstCompressArrays->failed = 1;
             return false;
         }
     }
@@ -180,10 +205,34 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
 
     int64_t totalItemSize = 0;
     int64_t tupleSize = 0;
+    if (mode != COMPRESSION_MODE_COMPRESS && mode != COMPRESSION_MODE_DECOMPRESS)
+    {
+        PyErr_Format(PyExc_ValueError, "CompressDecompressArrays mode must be 0 to compress or 1 to decompress");
+        return NULL;
+    }
+
     ArrayInfo * aInfo = BuildArrayInfo(inList1, &tupleSize, &totalItemSize, mode == COMPRESSION_MODE_COMPRESS);
 
     if (aInfo)
     {
+        for (int64_t t = 0; t < tupleSize; t++)
+        {
+            if (mode == COMPRESSION_MODE_DECOMPRESS)
+            {
+                if (CheckCompressedArray(aInfo[t]) < 0)
+                {
+                    FreeArrayInfo(aInfo);
+                    return NULL;
+                }
+            }
+            else if (! aInfo[t].pObject || PyDataType_REFCHK(PyArray_DESCR(aInfo[t].pObject)))
+            {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "CompressDecompressArrays cannot compress objects");
+                return NULL;
+            }
+        }
+
         COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays =
             (COMPRESS_NUMPY_TO_NUMPY *)WORKSPACE_ALLOC(sizeof(COMPRESS_NUMPY_TO_NUMPY) + (tupleSize * sizeof(NUMPY_HEADERSIZE *)));
         pstCompressArrays->totalHeaders = tupleSize;
@@ -199,8 +248,7 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
         pstCompressArrays->compMode = (int16_t)mode;
         // pstCompressArrays->pBlockInfo = NULL;
         pstCompressArrays->aInfo = aInfo;
-
-        int32_t numCores = g_cMathWorker->WorkerThreadCount + 1;
+        pstCompressArrays->failed = 0;
 
         switch (mode)
         {
@@ -227,27 +275,26 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                 for (int t = 0; t < tupleSize; t++)
                 {
                     NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)aInfo[t].pData;
-                    uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(&pNumpyHeader[1], pNumpyHeader->compressedSize);
-                    switch (dest_size)
-                    {
-                    case ZSTD_CONTENTSIZE_UNKNOWN:
-                    case ZSTD_CONTENTSIZE_ERROR:
-                        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-                        return NULL;
-
-                    case 0: // empty is allowed
-                    default:
-                        break;
-                    }
-
                     // Allocate all the arrays before multithreading
-                    // NOTE: do we care about flags -- what if Fortran mode when saved?
                     pstCompressArrays->pNumpyArray[t] = AllocateNumpyArray(
                         pNumpyHeader->ndim, (npy_intp *)pNumpyHeader->dimensions, pNumpyHeader->dtype, pNumpyHeader->itemsize);
                     CHECK_MEMORY_ERROR(pstCompressArrays->pNumpyArray[t]);
+                    PyErr_Clear();
                 }
 
                 g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
+
+                if (pstCompressArrays->failed)
+                {
+                    for (int t = 0; t < tupleSize; t++)
+                    {
+                        Py_XDECREF((PyObject *)pstCompressArrays->pNumpyArray[t]);
+                    }
+                    WORKSPACE_FREE(pstCompressArrays);
+                    FreeArrayInfo(aInfo);
+                    PyErr_Format(PyExc_ValueError, "Decompression error: the compressed data is damaged");
+                    return NULL;
+                }
             }
             break;
         }
@@ -258,17 +305,6 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
         // New reference
         PyObject * returnTuple = Py_None;
 
-        if (mode == COMPRESSION_MODE_COMPRESS_FILE)
-        {
-            for (int j = 0; j < numCores; j++)
-            {
-                if (pstCompressArrays->pCoreMemory[j])
-                {
-                    WORKSPACE_FREE(pstCompressArrays->pCoreMemory[j]);
-                }
-            }
-        }
-
         if (mode == COMPRESSION_MODE_COMPRESS)
         {
             returnTuple = PyTuple_New(tupleSize);
@@ -405,16 +441,12 @@ PyObject * CompressString(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (source_size > 0)
     {
+        // no bytes are compressed too, to a frame that says so
         dest = PyBytes_AS_STRING(result);
 
-        printf("trying to compress %s  size:%zu  dest_size:%zu %d\n", source, source_size, dest_size, level);
-
         cSize = ZstdCompressData(dest, dest_size, source, source_size, level);
 
-        printf("compressed to %zu\n", cSize);
-
         if (ZSTD_isError(cSize))
         {
             PyErr_Format(PyExc_ValueError, "Compression error: %s", ZSTD_getErrorName(cSize));
@@ -422,12 +454,10 @@ PyObject * CompressString(PyObject * self, PyObject * args)
             return NULL;
         }
 
-// Py3.9 intoduced Py_SET_SIZE(), and it's preferred over using Py_SIZE() as an l-value.
-#if defined(Py_SET_SIZE)
-        Py_SET_SIZE(result, cSize);
-#else
-        Py_SIZE(result) = cSize;
-#endif // defined(Py_SET_SIZE)
+        if (_PyBytes_Resize(&result, cSize) < 0)
+        {
+            return NULL;
+        }
     }
     return result;
 }
@@ -457,13 +487,17 @@ PyObject * DecompressString(PyObject * self, PyObject * args)
     {
     case ZSTD_CONTENTSIZE_UNKNOWN:
     case ZSTD_CONTENTSIZE_ERROR:
-    case 0:
         PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
         return NULL;
 
     default:
         break;
     }
+    if (dest_size > (uint64_t)PY_SSIZE_T_MAX)
+    {
+        PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
+        return NULL;
+    }
     result = PyBytes_FromStringAndSize(NULL, dest_size);
 
     if (result != NULL)
diff --git a/src/Compress.h b/src/Compress.h
index d09fdb9..c0054b4 100644
--- a/src/Compress.h
+++ b/src/Compress.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "RipTide.h"
+#include <atomic>
 
 /*-=====  Pre-defined compression levels  =====-*/
 #ifndef ZSTD_CLEVEL_DEFAULT
@@ -75,6 +76,9 @@ struct COMPRESS_NUMPY_TO_NUMPY
     int16_t compType;
     int32_t compLevel;
 
+    // set by any worker whose array cannot be decompressed
+    std::atomic<int32_t> failed;
+
     // Per core allocations
     void * pCoreMemory[64];
 
-- 
2.43.0


From e1a7229593fe48a418d148bdab59e0694946bd88 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 130/160] fix: reading damaged compressed data through a mask
 loops forever, the error of the decompressor is not noticed

---
 src/SDSFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 39d3d64..c278318 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -301,12 +301,12 @@ static size_t DecompressDataPartial(int32_t core, int32_t compMode, void * dst,
         do
         {
             cErr = ZSTD_decompressStream(dctx, &output, &input);
-            if (cErr < 0)
+            if (ZSTD_isError(cErr))
                 break;
         }
         while (input.pos < input.size && output.pos < output.size);
 
-        if (cErr >= 0)
+        if (! ZSTD_isError(cErr))
         {
             cErr = output.pos;
         }
-- 
2.43.0


From 097e9ec8143196fc2d688218ca134f7d25917954 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 131/160] fix: an error message with a percent sign of a
 filename is used as a format

---
 src/SDSFilePython.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index e668c65..bb7a567 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -363,7 +363,8 @@ static bool CheckErrors()
 {
     if (g_lastexception)
     {
-        PyErr_Format(PyExc_ValueError, g_errorbuffer);
+        // the message may hold a filename with a percent sign
+        PyErr_Format(PyExc_ValueError, "%s", g_errorbuffer);
         return true;
     }
     return false;
-- 
2.43.0


From 25607bda87e054c86704091188ccfd7e208714b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 132/160] fix: a shared memory that could not be given its size
 is used nevertheless

---
 src/SharedMemory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SharedMemory.cpp b/src/SharedMemory.cpp
index 202727d..1b36169 100644
--- a/src/SharedMemory.cpp
+++ b/src/SharedMemory.cpp
@@ -761,9 +761,11 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t size, PMAPPED_VIEW_STRU
 
     // Needed when non MAP_ANONYMOUS
     int result = ftruncate(fd, size);
-    if (result && errno < 0)
+    if (result)
     {
         printf("Error UtilSharedMemoryCopy ftruncate: %s\n", strerror(errno));
+        close(fd);
+        shm_unlink(pMappingName);
         return -1;
     }
 
-- 
2.43.0


From d790b4ddd7dbd127ca012349a84de088f2d4ff8b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 133/160] fix: writing to a share for the second time uses the
 freed memory of the first

---
 src/SDSFile.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index c278318..2418fc3 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -885,20 +885,11 @@ void AddSharedMemory(const char * name, PMAPPED_VIEW_STRUCT pmvs, void * pointer
 {
     // printf("in add shared memory\n");
 
-    std::string sname = std::string(name);
-    if (g_SMMap.find(sname) == g_SMMap.end())
-    {
-        // not found
-        g_SMMap[sname] = pmvs;
+    // An entry which already exists belongs to an earlier mapping, that may have been unmapped and freed
+    g_SMMap[std::string(name)] = pmvs;
 
-        // init ref count
-        pmvs->RefCount = 1;
-    }
-    else
-    {
-        // increment reference
-        g_SMMap[sname]->RefCount++;
-    }
+    // init ref count
+    pmvs->RefCount = 1;
 }
 
 //------------------------------------------------------------------------------------------
-- 
2.43.0


From 5d527bbc232ba44cc30d3e1782fe84be5ceec56e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 134/160] fix: truncated or damaged SDS files crash, hang, or
 return uninitialised memory instead of raising an error, and a mask overruns
 columns of another length

---
 src/SDSFile.cpp       | 479 ++++++++++++++++++++++++++++++++++++++----
 src/SDSFile.h         |   2 +-
 src/SDSFilePython.cpp |  18 +-
 src/SharedMemory.cpp  |  16 ++
 src/SharedMemory.h    |   6 +
 5 files changed, 466 insertions(+), 55 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 2418fc3..87b42b2 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1019,6 +1019,15 @@ public:
         return hr;
     }
 
+    // Called when the shared memory could not be filled: nobody may find it again
+    void Remove()
+    {
+        if (pMapStruct)
+        {
+            UtilSharedMemoryRemove(SharedMemoryName);
+        }
+    }
+
     void Destroy()
     {
         SharedMemoryName[0] = 0;
@@ -1311,7 +1320,8 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                                    int32_t core,       // thread # we are on
                                    int32_t compMode)
 {
-    int64_t result = -1;
+    // nothing to read is not a failure
+    int64_t result = 0;
 
     int64_t lastRow = pFilter->BoolMaskLength;
     int64_t lastPossibleRow = (uncompressedSize - bytesPerRow) / bytesPerRow;
@@ -1330,6 +1340,10 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
         {
             // Read compressed chunk directly into our destBuffer
             result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, lastData, arrayDataOffset);
+            if (result != lastData)
+            {
+                result = -1;
+            }
         }
         else
         {
@@ -1373,6 +1387,10 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                     result = -1;
                 }
             }
+            else
+            {
+                result = -1;
+            }
         }
     }
     else
@@ -1514,14 +1532,44 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                             }
                         }
                     }
+                    else
+                    {
+                        logger->error("[{}][{}] MTDecompression error size {} vs {}", core, stackIndex, dcSize, uncompressedSize);
+                        result = -1;
+                    }
                     WORKSPACE_FREE(pTempBuffer);
                 }
+                else
+                {
+                    result = -1;
+                }
+            }
+            else
+            {
+                result = -1;
             }
         }
     }
     return result;
 }
 
+//----------------------------------------
+// Returns false if one of the bands lies outside of the compressed data
+static bool AreBandOffsetsValid(const SDS_ARRAY_BLOCK * pBlockInfo, const int64_t * pBands)
+{
+    const int64_t bandDataSize = pBlockInfo->ArrayBandCount * sizeof(int64_t);
+    int64_t previous = 0;
+    for (int32_t i = 0; i < pBlockInfo->ArrayBandCount; i++)
+    {
+        if (pBands[i] < previous || pBands[i] > pBlockInfo->ArrayCompressedSize - bandDataSize)
+        {
+            return false;
+        }
+        previous = pBands[i];
+    }
+    return true;
+}
+
 //-----------------------------------------------------
 // Called when a filter is passed in to read
 // The data is banded.
@@ -1553,7 +1601,8 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
     int64_t boolLength = pFilter->BoolMaskLength;
     int64_t bandStart = 0;
     int64_t bandIndex = 0;
-    int64_t result = -1;
+    // nothing to read is not a failure
+    int64_t result = 0;
     int64_t runningTrueCount = 0;
 
     logger->debug(
@@ -1623,6 +1672,10 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
                                           tempBuffer, destBandBuffer, &tempFilter, rowOffset,
                                           0, // fake to 0 to read our filterinfo
                                           core, compMode);
+            if (result < 0)
+            {
+                break;
+            }
 
             // TODO change based on how many true values in the mask
             destBandBuffer += (trueCount * bytesPerRow);
@@ -1705,6 +1758,25 @@ static int64_t ReadAndFilterFortranArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, SDS_
     return result;
 }
 
+//------------------------------------------------------------
+// Returns false if the mask keeps more (or less) rows of the array than were allocated
+// On Entry rowOffset is the position of the first row of the array in the mask
+static bool IsFilteredRowCountValid(SDS_ARRAY_BLOCK * pBlockInfo, int64_t rowOffset, SDS_FILTER * pFilter, int64_t stackIndex)
+{
+    // the rows in the file, the first dimension may already be reduced to the filtered rows
+    int64_t bytesPerRow = GetBytesPerRow(pBlockInfo);
+    int64_t rowLength = bytesPerRow ? pBlockInfo->ArrayUncompressedSize / bytesPerRow : 0;
+
+    // User may have clipped data
+    if (rowLength > pFilter->BoolMaskLength - rowOffset)
+    {
+        rowLength = pFilter->BoolMaskLength - rowOffset;
+    }
+
+    int64_t keptRows = rowLength > 0 ? SumBooleanMask((int8_t *)pFilter->pBoolMask + rowOffset, rowLength) : 0;
+    return keptRows == (pFilter->pFilterInfo ? pFilter->pFilterInfo[stackIndex].TrueCount : pBlockInfo->Dimensions[0]);
+}
+
 //------------------------------------------------------------
 // New routine for ver 4.3 (July 2019) to read in data from possibly a band with
 // a mask
@@ -1726,6 +1798,13 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
     int64_t result = -1;
     bool didAlloc = false;
 
+    // The room for this array was made for the rows the mask keeps of another column of the file
+    if (! IsFilteredRowCountValid(pBlockInfo, rowOffset, pFilter, stackIndex))
+    {
+        logger->error("[{}][{}] cannot filter an array whose length differs from the first column", core, stackIndex);
+        return -1;
+    }
+
     if (! tempBuffer)
     {
         logger->debug("Allocating tempbuffer of {}", pBlockInfo->ArrayCompressedSize);
@@ -1749,12 +1828,12 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
                           pBlockInfo->ArrayUncompressedSize);
 
             // read in band header
-            // allocate memory on the stack
             int64_t bandDataSize = pBlockInfo->ArrayBandCount * sizeof(int64_t);
-            int64_t * pBands = (int64_t *)alloca(bandDataSize);
+            std::vector<int64_t> bands(pBlockInfo->ArrayBandCount);
+            int64_t * pBands = bands.data();
             result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, pBands, bandDataSize, pBlockInfo->ArrayDataOffset);
 
-            if (result == bandDataSize)
+            if (result == bandDataSize && AreBandOffsetsValid(pBlockInfo, pBands))
             {
                 // read from banded decompressed into array
                 result = ReadAndDecompressBandWithFilter(pBlockInfo, eventHandle, fileHandle, tempBuffer, destBuffer, pFilter,
@@ -1766,6 +1845,7 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
             else
             {
                 logger->error("!!!Error reading in band header");
+                result = -1;
             }
         }
         else
@@ -1838,9 +1918,9 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
             // pBlockInfo->ArrayUncompressedSize);
 
             // read in band
-            // allocate memory on the stack
             int64_t bandDataSize = pBlockInfo->ArrayBandCount * sizeof(int64_t);
-            int64_t * pBands = (int64_t *)alloca(bandDataSize);
+            std::vector<int64_t> bands(pBlockInfo->ArrayBandCount);
+            int64_t * pBands = bands.data();
             result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, pBands, bandDataSize, pBlockInfo->ArrayDataOffset);
 
             int64_t arrayDataOffset = pBlockInfo->ArrayDataOffset + bandDataSize;
@@ -1848,7 +1928,7 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
 
             int64_t bytesPerRow = GetBytesPerRow(pBlockInfo);
 
-            if (result == bandDataSize)
+            if (result == bandDataSize && AreBandOffsetsValid(pBlockInfo, pBands))
             {
                 int64_t previousSize = 0;
 
@@ -1886,7 +1966,9 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                         // printf("[%d] decompressing  %d  size %lld  uncomp: %lld\n", core,
                         // i, compressedSize, uncompressedSize);
                         int64_t dcSize =
-                            DecompressData(NULL, compMode, destBandBuffer, uncompressedSize, tempBuffer, compressedSize);
+                            result == compressedSize ?
+                                DecompressData(NULL, compMode, destBandBuffer, uncompressedSize, tempBuffer, compressedSize) :
+                                -1;
                         if (dcSize != uncompressedSize)
                         {
                             logger->error(
@@ -1905,6 +1987,7 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
             else
             {
                 logger->error("!!!Error reading in band header");
+                result = -1;
             }
         }
         else
@@ -2058,6 +2141,157 @@ int64_t ReadFileHeader(SDS_FILE_HANDLE fileHandle, SDS_FILE_HEADER * pFileHeader
     return 0;
 }
 
+//----------------------------------------
+// Returns true if the block lies within the file (an empty block always does)
+static bool IsBlockInFile(int64_t offset, int64_t size, int64_t fileSize)
+{
+    return size == 0 || (size > 0 && offset >= 0 && offset <= fileSize && size <= fileSize - offset);
+}
+
+//----------------------------------------
+// Returns false if no compressed data of that size can become that large
+// (a block of zstd takes 4 bytes or more, and holds 128KB or less)
+static bool IsUncompressedSizeValid(int64_t compressedSize, int64_t uncompressedSize)
+{
+    return uncompressedSize >= 0 && uncompressedSize / (128 * 1024) <= compressedSize;
+}
+
+//----------------------------------------
+// Returns false if the header of a truncated or damaged file points outside of the file
+// or if its sizes contradict each other.
+static bool IsFileHeaderValid(const SDS_FILE_HEADER * pFileHeader, int64_t fileOffset, int64_t fileSize)
+{
+    // every name has a terminating zero and a flag behind it
+    if (! IsBlockInFile(pFileHeader->NameBlockOffset, pFileHeader->NameBlockSize, fileSize) || pFileHeader->NameBlockCount < 0 ||
+        pFileHeader->NameBlockCount > pFileHeader->NameBlockSize / 2)
+    {
+        return false;
+    }
+    if (! IsBlockInFile(pFileHeader->MetaBlockOffset, pFileHeader->TotalMetaCompressedSize, fileSize) ||
+        ! IsUncompressedSizeValid(pFileHeader->TotalMetaCompressedSize, pFileHeader->TotalMetaUncompressedSize))
+    {
+        return false;
+    }
+    if (! IsBlockInFile(pFileHeader->ArrayBlockOffset, pFileHeader->ArrayBlockSize, fileSize) || pFileHeader->ArraysWritten < 0 ||
+        pFileHeader->ArraysWritten > pFileHeader->ArrayBlockSize / (int64_t)sizeof(SDS_ARRAY_BLOCK))
+    {
+        return false;
+    }
+    // there are no names, or one for every array
+    if (pFileHeader->NameBlockSize && pFileHeader->NameBlockCount < pFileHeader->ArraysWritten)
+    {
+        return false;
+    }
+    // only the first header of a file knows about the sections
+    if (fileOffset == 0 && pFileHeader->SectionBlockCount &&
+        (! IsBlockInFile(pFileHeader->SectionBlockOffset, pFileHeader->SectionBlockSize, fileSize) ||
+         pFileHeader->SectionBlockCount < 0 ||
+         pFileHeader->SectionBlockCount > pFileHeader->SectionBlockSize / (int64_t)(1 + sizeof(int64_t))))
+    {
+        return false;
+    }
+    return true;
+}
+
+//----------------------------------------
+// Returns the size of one item, 0 for strings (any size), -1 if such arrays are not written to a file
+static int64_t GetFileItemSize(const SDS_ARRAY_BLOCK * pBlock)
+{
+    switch (pBlock->DType)
+    {
+    case SDS_BOOL:
+    case SDS_BYTE:
+    case SDS_UBYTE:
+        return 1;
+    case SDS_SHORT:
+    case SDS_USHORT:
+        return 2;
+    case SDS_INT:
+    case SDS_UINT:
+    case SDS_FLOAT:
+        return 4;
+    case SDS_LONG:
+    case SDS_ULONG:
+        // depends on the platform the file was written on
+        return pBlock->ItemSize == 4 ? 4 : 8;
+    case SDS_LONGLONG:
+    case SDS_ULONGLONG:
+    case SDS_DOUBLE:
+    case SDS_CFLOAT:
+        return 8;
+    case SDS_CDOUBLE:
+        return 16;
+    case SDS_LONGDOUBLE:
+        return sizeof(long double);
+    case SDS_CLONGDOUBLE:
+        return 2 * sizeof(long double);
+    case SDS_STRING:
+    case SDS_UNICODE:
+        return 0;
+    default:
+        return -1;
+    }
+}
+
+//----------------------------------------
+// Returns false if the description of an array in a truncated or damaged file points outside of the file
+// or if its sizes contradict each other.
+static bool IsArrayBlockValid(const SDS_ARRAY_BLOCK * pBlock, int64_t fileSize)
+{
+    const int64_t itemSize = GetFileItemSize(pBlock);
+    if (itemSize < 0 || pBlock->ItemSize < 0 || (itemSize > 0 && pBlock->ItemSize != itemSize) || pBlock->NDim < 0 ||
+        pBlock->NDim > SDS_MAX_DIMS)
+    {
+        return false;
+    }
+    if (! IsBlockInFile(pBlock->ArrayDataOffset, pBlock->ArrayCompressedSize, fileSize) ||
+        ! IsUncompressedSizeValid(pBlock->ArrayCompressedSize, pBlock->ArrayUncompressedSize))
+    {
+        return false;
+    }
+
+    // the dimensions have to account for all the data
+    bool isEmpty = pBlock->ItemSize == 0;
+    for (int32_t i = 0; i < pBlock->NDim; i++)
+    {
+        if (pBlock->Dimensions[i] < 0)
+        {
+            return false;
+        }
+        isEmpty |= pBlock->Dimensions[i] == 0;
+    }
+    int64_t bytesPerRow = pBlock->ItemSize;
+    int64_t totalSize = isEmpty ? 0 : pBlock->ItemSize;
+    for (int32_t i = pBlock->NDim - 1; i >= 0 && ! isEmpty; i--)
+    {
+        bytesPerRow = totalSize;
+        if (pBlock->Dimensions[i] > INT64_MAX / totalSize)
+        {
+            return false;
+        }
+        totalSize *= pBlock->Dimensions[i];
+    }
+    if (totalSize != pBlock->ArrayUncompressedSize)
+    {
+        return false;
+    }
+
+    // the offsets of the bands are stored in front of the data, only the last band may be shorter
+    if (pBlock->ArrayBandCount < 0 || pBlock->ArrayBandCount > pBlock->ArrayCompressedSize / (int64_t)sizeof(int64_t))
+    {
+        return false;
+    }
+    if (pBlock->ArrayBandCount > 0 && ! isEmpty)
+    {
+        const int64_t fullBands = pBlock->ArrayBandCount - 1;
+        if (pBlock->ArrayBandSize <= 0 || (fullBands > 0 && pBlock->ArrayBandSize > totalSize / bytesPerRow / fullBands))
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 //----------------------------------------
 //
 //-----------------------------------------------------------
@@ -2071,7 +2305,12 @@ int64_t SDSSectionName::BuildSectionNamesAndOffsets(char ** pListNames, // Retur
 )
 {
     // alloc worst case scenario
-    int64_t allocSize = SDS_PAD_NUMBER((((SDS_MAX_SECTIONNAME + 8) * (SectionCount + 1)) + 1024));
+    int64_t allocSize = strlen(pNewSectionName);
+    for (int32_t i = 0; i < SectionCount; i++)
+    {
+        allocSize += strlen(pSectionNames[i]);
+    }
+    allocSize = SDS_PAD_NUMBER(allocSize + (((SDS_MAX_SECTIONNAME + 8) * (SectionCount + 1)) + 1024));
 
     *pListNames = (char *)WORKSPACE_ALLOC(allocSize);
 
@@ -2125,11 +2364,17 @@ void SDSSectionName::AllocateSectionData(int64_t sectionBlockCount, int64_t sect
 
     // ZERO OUT
     pSectionNames = (const char **)WORKSPACE_ALLOC(SectionCount * sizeof(void *));
+    pSectionOffsets = (int64_t *)WORKSPACE_ALLOC(SectionCount * sizeof(int64_t));
+    if (! pSectionData || ! pSectionNames || ! pSectionOffsets)
+    {
+        DeleteSectionData();
+        SectionCount = 0;
+        return;
+    }
     for (int32_t i = 0; i < SectionCount; i++)
     {
         pSectionNames[i] = NULL;
     }
-    pSectionOffsets = (int64_t *)WORKSPACE_ALLOC(SectionCount * sizeof(int64_t));
     for (int32_t i = 0; i < SectionCount; i++)
     {
         pSectionOffsets[i] = 0;
@@ -2161,7 +2406,8 @@ void SDSSectionName::DeleteSectionData()
 // Returns the section names and offsets of sections written
 //
 // Called by DecompressFileIntenral
-void SDSSectionName::MakeListSections(const int64_t sectionBlockCount, const int64_t sectionByteSize)
+// Returns false if the section block does not hold that many names and offsets
+bool SDSSectionName::MakeListSections(const int64_t sectionBlockCount, const int64_t sectionByteSize)
 {
     const char * startSectionData = pSectionData;
     const char * pSections = pSectionData;
@@ -2172,8 +2418,13 @@ void SDSSectionName::MakeListSections(const int64_t sectionBlockCount, const int
         const char * pStart = pSections;
 
         // skip to end (search for 0 terminating char)
-        while (*pSections++)
-            ;
+        const int64_t bytesLeft = sectionByteSize - (pSections - startSectionData);
+        const void * pEnd = bytesLeft > 0 ? memchr(pSections, 0, bytesLeft) : NULL;
+        if (! pEnd || ((const char *)pEnd - startSectionData) + 1 + (int64_t)sizeof(int64_t) > sectionByteSize)
+        {
+            return false;
+        }
+        pSections = (const char *)pEnd + 1;
 
         // get the offset
         int64_t value = *(int64_t *)pSections;
@@ -2186,10 +2437,8 @@ void SDSSectionName::MakeListSections(const int64_t sectionBlockCount, const int
 
         // Offset within file to SDS_FILE_OFFSET
         pSectionOffsets[i] = value;
-
-        if ((pSections - startSectionData) >= sectionByteSize)
-            break;
     }
+    return true;
 }
 
 //===============================================================
@@ -2245,7 +2494,11 @@ char * SDSSectionName::ReadListSections(SDS_FILE_HANDLE SDSFile, SDS_FILE_HEADER
         }
 
         // Run through Section list and setup pointers
-        MakeListSections(SectionCount, sectionSize);
+        if (! MakeListSections(SectionCount, sectionSize))
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error: the section list is damaged");
+            return NULL;
+        }
         logger->debug("Returning sections: {}", pSectionData);
         return pSectionData;
     }
@@ -2316,8 +2569,24 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
         // Check to make sure the fileheader is valid before appending
         int64_t result = ReadFileHeader(fileHandle, pFileHeader, 0, fileName);
 
+        // leave a file whose list of sections cannot be read as it is
+        if (result == 0 && pFileHeader->SectionBlockSize)
+        {
+            SDSSectionName cSDSSectionName;
+            if (! IsFileHeaderValid(pFileHeader, 0, DefaultFileIO.FileSize(fileName)))
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Compression error: the section list of %s is damaged", fileName);
+                result = -1;
+            }
+            else if (! cSDSSectionName.ReadListSections(fileHandle, pFileHeader))
+            {
+                result = -1;
+            }
+        }
+
         if (result != 0)
         {
+            DefaultFileIO.FileClose(fileHandle);
             return BAD_SDS_HANDLE;
         }
     }
@@ -2488,7 +2757,9 @@ void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, S
 
                 logger->debug("SDS: new section size {} vs {}", sectionSize, fileHeader.SectionBlockReservedSize);
 
-                if (fileHeader.SectionBlockReservedSize < sectionSize)
+                // (the reserved size of a damaged file can be anything)
+                if (fileHeader.SectionBlockReservedSize < sectionSize ||
+                    fileHeader.SectionBlockReservedSize > SDS_PAD_NUMBER(sectionSize + (SDS_MAX_SECTIONNAME * (blockCount + 1))))
                 {
                     // new section with new block offset
                     fileHeader.SectionBlockOffset = LastFileOffset;
@@ -2601,19 +2872,24 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
 
         void * tempBuffer = pstCompressArrays->pCoreMemory[core];
 
+        int64_t result;
         if (pBlockInfo->Flags & SDS_ARRAY_FILTERED)
         {
             // No stacking but filtering
-            int64_t result =
+            result =
                 ReadAndDecompressArrayBlockWithFilter(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
                                                       destBuffer, 0, pstCompressArrays->pFilter, t, core, COMPRESSION_TYPE_ZSTD);
         }
         else
         {
             // No stacking, no filtering
-            int64_t result = ReadAndDecompressArrayBlock(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
+            result = ReadAndDecompressArrayBlock(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
                                                          destBuffer, t, core, COMPRESSION_TYPE_ZSTD);
         }
+        if (result < 0)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error: the data of array %lld is damaged or missing", (long long)t);
+        }
     }
 
     return true;
@@ -3512,7 +3788,7 @@ public:
     const char * ShareName; // May be NULL
     int64_t InstanceIndex;  // 0 if just one instance (for multiday)
     int32_t Mode;
-    int64_t FileSize; // only valid when concat
+    int64_t FileSize;
 
     SDSIncludeExclude * pInclude;      // Inclusion list
     SDSIncludeExclude * pFolderName;   // Folder inclusion
@@ -3576,6 +3852,23 @@ public:
     //   return false;
     //}
 
+    //===================================
+    // The strides of an array without gaps
+    static void SetContiguousStrides(SDS_ARRAY_BLOCK * pBlock)
+    {
+        const bool isFortran = (pBlock->Flags & SDS_ARRAY_F_CONTIGUOUS) != 0;
+        int64_t stride = pBlock->ItemSize;
+        for (int32_t i = 0; i < pBlock->NDim; i++)
+        {
+            const int32_t j = isFortran ? i : pBlock->NDim - 1 - i;
+            pBlock->Strides[j] = stride;
+            if (pBlock->Dimensions[j])
+            {
+                stride *= pBlock->Dimensions[j];
+            }
+        }
+    }
+
     //===================================
     // Prepare an array callback structure
     // Calls into the user specified callback
@@ -3634,8 +3927,12 @@ public:
             // Caller will fill info pArrayObject and pData
             // NOTE: this routine can filter names (will return false if filtered out)
             // pData is valid for shared memory
-            if (pReadCallbacks->AllocateArrayCallback)
+            // the reader wraps the shared memory once it is filled
+            if (pReadCallbacks->AllocateArrayCallback && ! isSharedMemory)
             {
+                // The array allocated for the data is contiguous, whatever strides the file has
+                SetContiguousStrides(pBlock);
+
                 // FILTERING check...
                 wasFiltered |= PossiblyShrinkArray(&sdsArrayCallback, pReadCallbacks, isStackable);
 
@@ -3766,6 +4063,38 @@ public:
         return pArrayBlocks;
     }
 
+    //----------------------------------------
+    // Called after the array blocks were read from the file
+    // Returns false if any of them is damaged
+    bool CheckArrayBlocks(bool checkStrides)
+    {
+        for (int64_t i = 0; i < pFileHeader->ArraysWritten; i++)
+        {
+            SDS_ARRAY_BLOCK * pBlock = &pArrayBlocks[i];
+            bool isValid = IsArrayBlockValid(pBlock, FileSize);
+
+            // set later, when a mask is applied
+            pBlock->Flags &= ~SDS_ARRAY_FILTERED;
+
+            // the last item the strides reach has to be part of the data
+            int64_t bytesLeft = pBlock->ArrayUncompressedSize - pBlock->ItemSize;
+            for (int32_t j = 0; isValid && checkStrides && pBlock->ArrayUncompressedSize > 0 && j < pBlock->NDim; j++)
+            {
+                const int64_t steps = pBlock->Dimensions[j] - 1;
+                isValid = steps == 0 || (pBlock->Strides[j] >= 0 && pBlock->Strides[j] <= bytesLeft / steps);
+                bytesLeft -= isValid && steps ? steps * pBlock->Strides[j] : 0;
+            }
+
+            if (! isValid)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error: array %lld in file %s is damaged or the file is truncated",
+                              (long long)i, FileName);
+                return false;
+            }
+        }
+        return true;
+    }
+
     //----------------------------------------
     // Delete only if allocated
     void DeleteArrayBlocks()
@@ -3920,6 +4249,14 @@ public:
             return BAD_SDS_HANDLE;
         }
 
+        FileSize = DefaultFileIO.FileSize(fileName);
+        if (! IsFileHeaderValid(pFileHeader, fileOffset, FileSize))
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Decompression error: the header of file %s is damaged or the file is truncated", fileName);
+            DefaultFileIO.FileClose(fileHandle);
+            return BAD_SDS_HANDLE;
+        }
+
         // read in meta data!
         return fileHandle;
     }
@@ -4036,6 +4373,12 @@ public:
             // read uncompressed data in
             bytesRead = DefaultFileIO.FileReadChunk(NULL, SDSFile, metaDataUncompressed, metaUncompressedSize,
                                                     pFileHeader->MetaBlockOffset);
+
+            if (bytesRead != metaUncompressedSize)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error in bytesRead: %lld", metaUncompressedSize);
+                return false;
+            }
         }
 
         logger->debug("out decompress meta");
@@ -4070,6 +4413,12 @@ public:
                 return false;
             }
 
+            // the strides are used when wrapping the shared memory
+            if (! CheckArrayBlocks(true))
+            {
+                return false;
+            }
+
             // Calculate size of shared memory
             int64_t totalSize = CalculateSharedMemorySize(pFileHeader, pArrayBlocks);
             int64_t arrayCount = pFileHeader->ArraysWritten;
@@ -4109,7 +4458,7 @@ public:
                 // NO LIST NAMES ARE ALLOWED (root file?)
                 if (pMemoryFileHeader->NameBlockSize && ReadListNames() == NULL)
                 {
-                    // goto EXIT_DECOMPRESS;
+                    return false;
                 }
 
                 logger->debug("Fill meta block");
@@ -4196,6 +4545,13 @@ public:
                         }
                         DefaultFileIO.DestroyEventHandle(pstCompressArrays->eventHandles[j]);
                     }
+                    WORKSPACE_FREE(pstCompressArrays);
+
+                    // the data of one of the arrays is damaged
+                    if (g_lastexception)
+                    {
+                        return false;
+                    }
 
                     pMemoryFileHeader->ArraysWritten = arrayCount;
                     logger->debug("End fill array block {}", arrayCount);
@@ -4236,7 +4592,8 @@ public:
     //--------------------------------------------------------
     // Returns the names and enum flags of everything written
     // Called by DecompressFileIntenral
-    void MakeListNames(const int64_t nameBlockCount, const int64_t nameByteSize)
+    // Returns false if the name block does not hold that many names
+    bool MakeListNames(const int64_t nameBlockCount, const int64_t nameByteSize)
     {
         const char * startNameData = pNameData;
         const char * pNames = pNameData;
@@ -4247,8 +4604,13 @@ public:
             const char * pStart = pNames;
 
             // skip to end (search for 0 terminating char)
-            while (*pNames++)
-                ;
+            const int64_t bytesLeft = nameByteSize - (pNames - startNameData);
+            const void * pEnd = bytesLeft > 0 ? memchr(pNames, 0, bytesLeft) : NULL;
+            if (! pEnd || (const char *)pEnd - startNameData + 2 > nameByteSize)
+            {
+                return false;
+            }
+            pNames = (const char *)pEnd + 1;
 
             // get the enum
             uint8_t value = *pNames++;
@@ -4257,10 +4619,8 @@ public:
 
             pArrayNames[i] = pStart;
             pArrayEnums[i] = value;
-
-            if ((pNames - startNameData) >= nameByteSize)
-                break;
         }
+        return true;
     }
 
     //===============================================================
@@ -4295,7 +4655,11 @@ public:
             }
 
             // Run through name list and setup pointers
-            MakeListNames(NameCount, nameSize);
+            if (! MakeListNames(NameCount, nameSize))
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error: the list of names in file %s is damaged", FileName);
+                return NULL;
+            }
             return pNameData;
         }
         return NULL;
@@ -4323,7 +4687,10 @@ public:
             }
 
             //------------- META DATA -------------------------------
-            DecompressMetaData(pFileHeader, NULL, core);
+            if (! DecompressMetaData(pFileHeader, NULL, core))
+            {
+                goto EXIT_DECOMPRESS;
+            }
 
             //------------- SECTION DATA -------------------------------
             // only offset ==0 (first fileheader) is responsible for reading the
@@ -4360,6 +4727,11 @@ public:
                 goto EXIT_DECOMPRESS;
             }
 
+            if (! CheckArrayBlocks(false))
+            {
+                goto EXIT_DECOMPRESS;
+            }
+
             int64_t tupleSize = pFileHeader->ArraysWritten;
             logger->debug("Arrays to read {}  {}", tupleSize, (void *)pArrayBlocks);
 
@@ -4481,6 +4853,7 @@ public:
 
                     if (! bResult)
                     {
+                        DefaultMemoryIO.Remove();
                         logger->debug("Failed to alloc shared memory for {}", FileName);
                         DefaultMemoryIO.Destroy();
                     }
@@ -6035,7 +6408,11 @@ bool DecompressMultiArray(void * pstCompressArraysV,
     // if the column is not compatible such as string to float, we also gap fill
     if (pBlockInfo == NULL || ! pIOPacket->Compatible.IsCompatible)
     {
-        GapFillAny(pDestInfo, destBuffer, pIOPacket);
+        // nothing to fill when the column was not allocated or has no rows
+        if (destBuffer && pDestInfo->Dimensions[0] > 0)
+        {
+            GapFillAny(pDestInfo, destBuffer, pIOPacket);
+        }
         return true;
     }
 
@@ -6141,7 +6518,12 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                 slaveRowLength = pBlockInfo->ArrayUncompressedSize / slaveItemSize;
             }
 
-            if (result >= 0)
+            if (result < 0)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error: the data of column %s is damaged or missing",
+                              pIOPacket->ColName ? pIOPacket->ColName : "");
+            }
+            else
             {
                 // matlab strings are converted while they are rotated
                 if (! (origBuffer && (pIOPacket->Compatible.NeedsStringFixup & 2)))
@@ -6675,7 +7057,10 @@ public:
             int64_t sizeWritten = DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pBuffer, copySize, currentOffset);
             if (sizeRead != sizeWritten || sizeRead != copySize)
             {
-                logger->warn("!!Failed to copy file {} at offset {} and {}", pSDSDecompress->FileName, currentOffset, localOffset);
+                SetErr_Format(SDS_VALUE_ERROR, "Concat error failed to copy file %s at offset %lld", pSDSDecompress->FileName,
+                              (long long)localOffset);
+                WORKSPACE_FREE(pBuffer);
+                return 0;
             }
             currentOffset += copySize;
             localOffset += copySize;
@@ -6726,10 +7111,15 @@ public:
 
                 if (bytesRead != sizeof(SDS_FILE_HEADER))
                 {
-                    logger->warn(
-                        "!!warning file {} failed to read section header at offset "
-                        "{}",
-                        pSDSDecompress->FileName, sectionOffset);
+                    SetErr_Format(SDS_VALUE_ERROR, "Concat error failed to read the section header of file %s at offset %lld",
+                                  pSDSDecompress->FileName, (long long)sectionOffset);
+                    return 0;
+                }
+                if (tempFileHeader.SDSHeaderMagic != SDS_MAGIC ||
+                    ! IsFileHeaderValid(&tempFileHeader, sectionOffset, pSDSDecompress->FileSize))
+                {
+                    SetErr_Format(SDS_VALUE_ERROR, "Concat error: the section header of file %s at offset %lld is damaged",
+                                  pSDSDecompress->FileName, (long long)sectionOffset);
                     return 0;
                 }
 
@@ -6846,7 +7236,7 @@ public:
                     pFileHeader = &pSDSDecompress->FileHeader;
 
                 // Check for sections
-                if (pSDSDecompress->FileHeader.SectionBlockOffset)
+                if (pSDSDecompress->FileHeader.SectionBlockOffset && pSDSDecompress->cSectionName.SectionCount > 0)
                 {
                     sectionCount += pSDSDecompress->cSectionName.SectionCount;
                 }
@@ -7791,8 +8181,13 @@ public:
 
                         pDestInfo->pArrayObject = sdsArrayCallback.pDestInfo->pArrayObject;
 
-                        if ((pIOPacket->pMasterBlock->NDim >= 2 && pIOPacket->pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS) ||
-                            (pIOPacket->Compatible.NeedsStringFixup & 2))
+                        if (! sdsArrayCallback.pDestInfo->pData)
+                        {
+                            // the column was not allocated, do not read it
+                            pDestInfo->pData = NULL;
+                        }
+                        else if ((pIOPacket->pMasterBlock->NDim >= 2 && pIOPacket->pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS) ||
+                                 (pIOPacket->Compatible.NeedsStringFixup & 2))
                         {
                             // TODO: filter two dimensions
                             // pReadCallbacks->WarningCallback("**matlab!  arrayOffset:%lld
diff --git a/src/SDSFile.h b/src/SDSFile.h
index 2b3d047..8fc5241 100644
--- a/src/SDSFile.h
+++ b/src/SDSFile.h
@@ -420,7 +420,7 @@ public:
     void AllocateSectionData(int64_t sectionBlockCount, int64_t sectionSize);
 
     void DeleteSectionData();
-    void MakeListSections(const int64_t sectionBlockCount, const int64_t sectionByteSize);
+    bool MakeListSections(const int64_t sectionBlockCount, const int64_t sectionByteSize);
     char * MakeFirstSectionName();
     char * ReadListSections(SDS_FILE_HANDLE SDSFile, SDS_FILE_HEADER * pFileHeader);
     ~SDSSectionName();
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index bb7a567..43fab09 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1743,9 +1743,10 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
         DestroyStringList(sectionsName);
     }
 
-    // If there are errors, return NULL
-    if (! result && CheckErrors())
+    // If there are errors (such as damaged data), return NULL
+    if (CheckErrors())
     {
+        Py_XDECREF((PyObject *)result);
         return NULL;
     }
 
@@ -1910,20 +1911,13 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
     bool isThereAnError = CheckErrors();
 
     // If there are errors, return NULL
-    if (! result && isThereAnError)
-    {
-        return NULL;
-    }
-
-    if (isThereAnError && fileCount == 1)
+    if (isThereAnError)
     {
-        // result is good, but there is an error.  decrement the result so we can
-        // get rid of it
-        Py_DecRef((PyObject *)result);
+        // there may be a partial result as well, get rid of it
+        Py_XDECREF((PyObject *)result);
         return NULL;
     }
 
-    // We might have a partial error if we get here
     if (! result)
     {
         Py_INCREF(Py_None);
diff --git a/src/SharedMemory.cpp b/src/SharedMemory.cpp
index 1b36169..f2801da 100644
--- a/src/SharedMemory.cpp
+++ b/src/SharedMemory.cpp
@@ -693,6 +693,14 @@ UtilMappedViewWriteBegin(const char * pszFilename, PMAPPED_VIEW_STRUCT * pReturn
     return (S_OK);
 }
 
+//-------------------------------------------------
+// The memory is gone with its last handle
+HRESULT
+UtilSharedMemoryRemove(const char * pMappingName)
+{
+    return S_OK;
+}
+
 #else
 
     #include <fcntl.h> /* For O_* constants */
@@ -880,4 +888,12 @@ UtilSharedMemoryEnd(PMAPPED_VIEW_STRUCT pMappedViewStruct)
     return 0;
 }
 
+//-------------------------------------------------
+// Removes the name, memory which is still mapped stays valid
+HRESULT
+UtilSharedMemoryRemove(const char * pMappingName)
+{
+    return shm_unlink(pMappingName);
+}
+
 #endif
diff --git a/src/SharedMemory.h b/src/SharedMemory.h
index 497502f..1f160aa 100644
--- a/src/SharedMemory.h
+++ b/src/SharedMemory.h
@@ -28,6 +28,9 @@ UtilSharedNumaMemoryBegin(const char * pMappingName, int64_t Size,
 HRESULT
 UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStruct, int bTest);
 
+HRESULT
+UtilSharedMemoryRemove(const char * pMappingName);
+
 HRESULT
 UtilSharedMemoryEnd(PMAPPED_VIEW_STRUCT pMappedViewStruct);
 
@@ -63,6 +66,9 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t Size, PMAPPED_VIEW_STRU
 HRESULT
 UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStruct, int bTest);
 
+HRESULT
+UtilSharedMemoryRemove(const char * pMappingName);
+
 HRESULT
 UtilSharedMemoryEnd(PMAPPED_VIEW_STRUCT pMappedViewStruct);
 
-- 
2.43.0


From ec032c7d4f13f3c26479a040c75295783179147a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 135/160] fix: group-by aggregations read and wrote out of
 bounds for function, bin or packing lists that are too short or hold anything
 but integers

---
 src/GroupBy.cpp | 108 ++++++++++++++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 44 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index ccac0de..d09991f 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -4585,6 +4585,59 @@ PyObject * GroupBySingleOpMultithreaded(ArrayInfo * aInfo, PyArrayObject * iKey,
 // Arg7 = optional param
 // Example: GroupByOp2(array, ikey, 3, np.float32)
 // Returns cells
+
+//-----------------------------------------------------------------------------------
+// Checks the lists which hold one function number and one range of bins for every column:
+// as many entries as columns, all of them integers, and ranges which lie within the bins
+// returns false with an error set when they do not
+static bool CheckFunctionLists(const char * name, int64_t tupleSize, int64_t unique_rows, PyListObject * listFuncNum,
+                               PyListObject * listBinLow, PyListObject * listBinHigh)
+{
+    if (tupleSize <= 0)
+    {
+        PyErr_Format(PyExc_ValueError, "%s must be passed at least one array", name);
+        return false;
+    }
+
+    if (unique_rows < GB_BASE_INDEX)
+    {
+        PyErr_Format(PyExc_ValueError, "%s the number of unique rows must not be negative", name);
+        return false;
+    }
+
+    PyListObject * lists[] = { listFuncNum, listBinLow, listBinHigh };
+    for (PyListObject * list : lists)
+    {
+        if (PyList_GET_SIZE(list) != tupleSize)
+        {
+            PyErr_Format(PyExc_ValueError, "%s %s numbers do not match array columns %lld %lld", name,
+                         list == listFuncNum ? "func" : "bin", tupleSize, (int64_t)PyList_GET_SIZE(list));
+            return false;
+        }
+    }
+
+    for (int64_t i = 0; i < tupleSize; i++)
+    {
+        int64_t values[3];
+        for (int j = 0; j < 3; j++)
+        {
+            values[j] = PyLong_AsLongLong(PyList_GET_ITEM(lists[j], i));
+            if (values[j] == -1 && PyErr_Occurred())
+            {
+                return false;
+            }
+        }
+
+        if (values[1] < 0 || values[1] > values[2] || values[2] > unique_rows)
+        {
+            PyErr_Format(PyExc_ValueError, "%s the bins from %lld to %lld do not lie within the %lld bins", name, values[1],
+                         values[2], unique_rows);
+            return false;
+        }
+    }
+    return true;
+}
+
 PyObject * GroupByAll32(PyObject * self, PyObject * args)
 {
     PyObject * inList1 = NULL;
@@ -4651,19 +4704,8 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    int64_t funcTupleSize = PyList_GET_SIZE(listFuncNum);
-
-    if (tupleSize != funcTupleSize)
-    {
-        PyErr_Format(PyExc_ValueError, "GroupByAll32 func numbers do not match array columns %lld %lld", tupleSize, funcTupleSize);
-        return NULL;
-    }
-
-    int64_t binTupleSize = PyList_GET_SIZE(listBinLow);
-
-    if (tupleSize != binTupleSize)
+    if (! CheckFunctionLists("GroupByAll32", tupleSize, unique_rows, listFuncNum, listBinLow, listBinHigh))
     {
-        PyErr_Format(PyExc_ValueError, "GroupByAll32 bin numbers do not match array columns %lld %lld", tupleSize, binTupleSize);
         return NULL;
     }
 
@@ -4956,21 +4998,8 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    int64_t funcTupleSize = PyList_GET_SIZE(listFuncNum);
-
-    if (tupleSize != funcTupleSize)
+    if (! CheckFunctionLists("GroupByAllPack32", tupleSize, unique_rows, listFuncNum, listBinLow, listBinHigh))
     {
-        PyErr_Format(PyExc_ValueError, "GroupByAllPack32 func numbers do not match array columns %lld %lld", tupleSize,
-                     funcTupleSize);
-        return NULL;
-    }
-
-    int64_t binTupleSize = PyList_GET_SIZE(listBinLow);
-
-    if (tupleSize != binTupleSize)
-    {
-        PyErr_Format(PyExc_ValueError, "GroupByAllPack32 bin numbers do not match array columns %lld %lld", tupleSize,
-                     binTupleSize);
         return NULL;
     }
 
@@ -4986,6 +5015,15 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    if (ArrayLength(iGroup) < arraySizeKey || ArrayLength(iFirst) < unique_rows || ArrayLength(nCount) < unique_rows)
+    {
+        PyErr_Format(PyExc_ValueError,
+                     "GroupByAllPack32 iGroup must have as many rows as iKey, and iFirstGroup and nCountGroup as there are bins: "
+                     "%lld %lld %lld",
+                     ArrayLength(iGroup), ArrayLength(iFirst), ArrayLength(nCount));
+        return NULL;
+    }
+
     if (tupleSize == 1 && arraySizeKey > 65536)
     {
         int overflow = 0;
@@ -5012,24 +5050,6 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
 
     if (returnTuple == NULL)
     {
-        int64_t funcTupleSize = PyList_GET_SIZE(listFuncNum);
-
-        if (tupleSize != funcTupleSize)
-        {
-            PyErr_Format(PyExc_ValueError, "GroupByAllPack32 func numbers do not match array columns %lld %lld", tupleSize,
-                         funcTupleSize);
-            return NULL;
-        }
-
-        int64_t binTupleSize = PyList_GET_SIZE(listBinLow);
-
-        if (tupleSize != binTupleSize)
-        {
-            PyErr_Format(PyExc_ValueError, "GroupByAllPack32 bin numbers do not match array columns %lld %lld", tupleSize,
-                         binTupleSize);
-            return NULL;
-        }
-
         // TODO: determine based on function
         int32_t numpyOutType = NPY_FLOAT64;
         int32_t numpyInType2 = ObjectToDtype(iKey);
-- 
2.43.0


From 38ca55dc7680d6b67f3dfa86923143a69c5adc7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 136/160] fix: EmaAll32 read and wrote past columns of another
 length than its key

---
 src/Ema.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index ea90276..0deaa6d 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2348,11 +2348,29 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the columns have one length (checked above): that of the key
+    if (tupleSize > 0 && aInfo[0].ArrayLength != totalArrayLength)
+    {
+        PyErr_Format(PyExc_ValueError, "EmaAll32 key length %lld does not match value length %lld", totalArrayLength,
+                     aInfo[0].ArrayLength);
+        FreeArrayInfo(aInfo);
+        freeCopies();
+        return NULL;
+    }
+
+    if (unique_rows < 0)
+    {
+        PyErr_Format(PyExc_ValueError, "EmaAll32 the number of unique rows must not be negative");
+        FreeArrayInfo(aInfo);
+        freeCopies();
+        return NULL;
+    }
+
     LOGGING("Ema started %llu  param:%lf\n", tupleSize, doubleParam);
 
     // Allocate the struct + ROOM at the end of struct for all the tuple objects
     // being produced
-    stEma32 * pstEma32 = (stEma32 *)WORKSPACE_ALLOC((sizeof(stEma32) + 8 + sizeof(stEmaReturn)) * tupleSize);
+    stEma32 * pstEma32 = (stEma32 *)WORKSPACE_ALLOC(sizeof(stEma32) + (8 + sizeof(stEmaReturn)) * tupleSize);
 
     pstEma32->aInfo = aInfo;
     pstEma32->funcNum = (int32_t)funcNum;
-- 
2.43.0


From c486d658b9b576f47a647e5996da9f66cd7729d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 137/160] fix: functions of several keys read a missing first
 array when passed an empty list or None

---
 src/MultiKey.cpp | 15 ++++++++++++++-
 src/Sort.h       |  7 +++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 80687cf..b32220b 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -195,7 +195,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
             inObject = listObject;
         }
 
-        if (inObject == Py_None)
+        if (inObject == Py_None && ! checkrows)
         {
             // NEW Code to handle none
             aInfo[i].pObject = NULL;
@@ -418,6 +418,13 @@ public:
 
         aInfo = BuildArrayInfo(args, &listSize, &totalItemSize);
 
+        if (aInfo && listSize == 0)
+        {
+            PyErr_Format(PyExc_ValueError, "MultiKeyHash must be passed at least one array");
+            FreeArrayInfo(aInfo);
+            aInfo = NULL;
+        }
+
         if (aInfo)
         {
             totalRows = aInfo[0].ArrayLength;
@@ -1770,6 +1777,12 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
     CMultiKeyPrepare mkp1(tupleObject1);
     CMultiKeyPrepare mkp2(tupleObject2);
 
+    if (! mkp1.pSuperArray || ! mkp2.pSuperArray)
+    {
+        // error already set
+        return NULL;
+    }
+
     if (mkp1.totalItemSize != mkp2.totalItemSize)
     {
         PyErr_Format(PyExc_ValueError, "MultiKeyAlign32 keys are not the same itemsize");
diff --git a/src/Sort.h b/src/Sort.h
index e7805f5..a34a82a 100644
--- a/src/Sort.h
+++ b/src/Sort.h
@@ -71,6 +71,13 @@ public:
         int64_t listSize = 0;
         aInfo = BuildArrayInfo(args, &listSize, &totalItemSize);
 
+        if (aInfo && listSize == 0)
+        {
+            PyErr_Format(PyExc_ValueError, "MultiListPrepare must be passed at least one array");
+            FreeArrayInfo(aInfo);
+            aInfo = NULL;
+        }
+
         if (aInfo)
         {
             totalRows = aInfo[0].ArrayLength;
-- 
2.43.0


From 1ae19d2324a1844ac4f7125bb5bcf47c9c31d628 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 138/160] fix: Where copied items of any size passed with an
 output type of another size

---
 src/BasicMath.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 17c66d5..5c2f1a1 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3952,6 +3952,18 @@ PyObject * Where(PyObject * self, PyObject * args)
         return nullptr;
     }
 
+    // the items are copied by the size passed: it must be the one of the output type
+    PyArray_Descr * outputDescr =
+        numpyOutputType >= 0 && numpyOutputType < NPY_NTYPES ? PyArray_DescrFromType((int)numpyOutputType) : nullptr;
+    bool const sizeFits =
+        outputDescr && (PyDataType_ISFLEXIBLE(outputDescr) ? numpyItemSize >= 0 : numpyItemSize == outputDescr->elsize);
+    Py_XDECREF(outputDescr);
+    if (! sizeFits)
+    {
+        PyErr_Format(PyExc_ValueError, "Where: items of %lld bytes are not of dtype %lld", numpyItemSize, numpyOutputType);
+        return nullptr;
+    }
+
     // Examine data
     CTwoInputs twoInputs((int)numpyOutputType, 0);
 
-- 
2.43.0


From afbb289bbd0f41189ad7744e3f627cbbb77520a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 139/160] fix: BinCount and GroupFromBinCount called a missing
 routine for keys of other dtypes, or wrote past the end for counts of another
 key

---
 src/MultiKey.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index b32220b..ff886b0 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -2147,6 +2147,32 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    switch (iKeyType)
+    {
+    case NPY_INT8:
+    case NPY_INT16:
+    CASE_NPY_INT32:
+    CASE_NPY_INT64:
+        break;
+    default:
+        PyErr_Format(PyExc_ValueError, "GroupFromBinCount: key param must be int8, int16, int32, int64 not type %d", iKeyType);
+        return NULL;
+    }
+
+    // the counts cannot be those of this key when there are more of them than rows
+    int64_t rowsLeft = totalRows;
+    for (int64_t i = 0; i < totalUnique; i++)
+    {
+        int64_t const count = outdtype == NPY_INT32 ? (int64_t)((int32_t *)PyArray_BYTES(nCountGroup))[i] :
+                                                      ((int64_t *)PyArray_BYTES(nCountGroup))[i];
+        if (count < 0 || count > rowsLeft)
+        {
+            PyErr_Format(PyExc_ValueError, "GroupFromBinCount: nCountGroup does not count the %lld rows of the key", totalRows);
+            return NULL;
+        }
+        rowsLeft -= count;
+    }
+
     outiGroup = AllocateNumpyArray(1, (npy_intp *)&totalRows, outdtype);
     outiFirstGroup = AllocateNumpyArray(1, (npy_intp *)&totalUnique, outdtype);
 
@@ -2504,6 +2530,18 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         outdtype = NPY_INT64;
     }
 
+    switch (iKeyType)
+    {
+    case NPY_INT8:
+    case NPY_INT16:
+    CASE_NPY_INT32:
+    CASE_NPY_INT64:
+        break;
+    default:
+        PyErr_Format(PyExc_ValueError, "BinCount: key param must be int8, int16, int32, int64 not type %d", iKeyType);
+        return NULL;
+    }
+
     // Allocate nCountGroup
     outArray = AllocateNumpyArray(1, (npy_intp *)&unique_rows, outdtype);
 
-- 
2.43.0


From ddc5415c65a09b103796f70c6997da7c0aec2bfa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 140/160] fix: a hint of more (or fewer than no) unique rows
 than there are sized hash tables out of proportion

---
 src/HashFunctions.cpp |  7 +++++++
 src/HashLinear.cpp    |  7 +++++++
 src/MultiKey.cpp      | 24 ++++++++++++++++++++++--
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 76da1b6..a5e36bf 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -62,6 +62,13 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
         if (! PyArg_ParseTuple(args, "O!O!iL", &PyArray_Type, &inArr1, &PyArray_Type, &inArr2, &hashMode, &hintSize))
             return NULL;
     }
+
+    // there cannot be more unique values than values
+    if (hintSize < 0 || hintSize > ArrayLength(inArr2))
+    {
+        hintSize = 0;
+    }
+
     int32_t arrayType1 = PyArray_TYPE(inArr1);
     int32_t arrayType2 = PyArray_TYPE(inArr2);
 
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index a02f256..3ee1947 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5713,6 +5713,13 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
         if (! PyArg_ParseTuple(args, "O!O!iL", &PyArray_Type, &inArr1, &PyArray_Type, &inArr2, &hashMode, &hintSize))
             return NULL;
     }
+
+    // there cannot be more unique values than values
+    if (hintSize < 0 || hintSize > ArrayLength(inArr2))
+    {
+        hintSize = 0;
+    }
+
     NPY_TYPES arrayType1 = static_cast<NPY_TYPES>(PyArray_TYPE(inArr1));
     NPY_TYPES arrayType2 = static_cast<NPY_TYPES>(PyArray_TYPE(inArr2));
 
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index ff886b0..78702ae 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -367,7 +367,11 @@ public:
                 PyObject * longObject = PyTuple_GetItem(args, 1);
                 if (PyLong_Check(longObject))
                 {
-                    hintSize = PyLong_AsSize_t(longObject);
+                    hintSize = PyLong_AsLongLong(longObject);
+                    if (hintSize == -1 && PyErr_Occurred())
+                    {
+                        PyErr_Clear();
+                    }
                     LOGGING("Hint size is %llu\n", hintSize);
                 }
             }
@@ -430,6 +434,12 @@ public:
             totalRows = aInfo[0].ArrayLength;
             bool ok{ true };
 
+            // there cannot be more unique rows than rows
+            if (hintSize < 0 || hintSize > totalRows)
+            {
+                hintSize = 0;
+            }
+
             for (int64_t i = 0; i < listSize; i++)
             {
                 if (aInfo[i].ArrayLength != totalRows)
@@ -1656,7 +1666,11 @@ PyObject * MultiKeyIsMember32(PyObject * self, PyObject * args)
         PyObject * longObject = PyTuple_GetItem(args, 2);
         if (PyLong_Check(longObject))
         {
-            hintSize = PyLong_AsSize_t(longObject);
+            hintSize = PyLong_AsLongLong(longObject);
+            if (hintSize == -1 && PyErr_Occurred())
+            {
+                PyErr_Clear();
+            }
             LOGGING("Hint size is %llu\n", hintSize);
         }
     }
@@ -1685,6 +1699,12 @@ PyObject * MultiKeyIsMember32(PyObject * self, PyObject * args)
             return NULL;
         }
 
+        // there cannot be more unique rows than rows
+        if (hintSize < 0 || hintSize > mkp2.totalRows)
+        {
+            hintSize = 0;
+        }
+
         if (mkp1.pSuperArray && mkp2.pSuperArray)
         {
             PyArrayObject * boolArray = AllocateLikeNumpyArray(mkp1.aInfo[0].pObject, NPY_BOOL);
-- 
2.43.0


From 0011f94d18df2942545c8a707716ff6a9e14c985 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 141/160] fix: MultiKeyRolling took any first argument for a
 tuple

---
 src/MultiKey.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 78702ae..a92c92b 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1503,6 +1503,12 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         }
     }
 
+    if (! PyTuple_Check(firstArg) || hintSize < 0)
+    {
+        PyErr_Format(PyExc_ValueError, "MultiKeyRolling needs a tuple of arrays and a hint which is not negative.");
+        return NULL;
+    }
+
     CMultiKeyPrepare mkp(firstArg);
 
     if (mkp.pSuperArray)
-- 
2.43.0


From 1a85a9c86e76461814f0ed2445feb13c6d70b0a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 142/160] fix: AsAnyArray and AsFastArray released objects they
 did not own, lost time units, turned large integers into -1, and took None
 for float64

---
 src/Array.cpp | 53 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/Array.cpp b/src/Array.cpp
index 3cbee39..425ee18 100644
--- a/src/Array.cpp
+++ b/src/Array.cpp
@@ -12,7 +12,8 @@
 static int64_t FindMaxSize(PyObject * object)
 {
     int64_t size = Py_SIZE(object);
-    int64_t maxsize = 0;
+    // as in numpy, the items of an array of empty strings have room for one character
+    int64_t maxsize = 1;
     for (int64_t i = 0; i < size; i++)
     {
         int64_t itemsize = Py_SIZE(PyList_GET_ITEM(object, i));
@@ -83,6 +84,7 @@ static PyObject * ConvertInt32(PyObject * object)
 
 //---------------------------------------------------------
 // arg1: the list or item to be converted to an array
+// NOTE: may return NULL on failure to convert (with no error set)
 static PyObject * ConvertInt64(PyObject * object)
 {
     npy_intp size = Py_SIZE(object);
@@ -92,8 +94,13 @@ static PyObject * ConvertInt64(PyObject * object)
     for (int64_t i = 0; i < size; i++)
     {
         int overflow = 0;
-        // if overflow consider uint64?
         pInt64[i] = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(object, i), &overflow);
+        if (overflow)
+        {
+            // Failure due to out of range
+            Py_DecRef((PyObject *)pArray);
+            return NULL;
+        }
     }
     return (PyObject *)pArray;
 }
@@ -165,8 +172,8 @@ static PyObject * ConvertUnicode(PyObject * object)
         PyUnicode_AsUCS4(item, pDest, maxsize, 0);
 
         // zero out rest
-        if (strSize < maxsize)
-            pDest[strSize] = 0;
+        while (strSize < maxsize)
+            pDest[strSize++] = 0;
     }
     return (PyObject *)pArray;
 }
@@ -175,7 +182,7 @@ static PyObject * ConvertUnicode(PyObject * object)
 // arg1: kwarg
 // searches for 'copy' and 'order'
 //
-// Returns 0 on error
+// Returns -1 on error
 // else returns flags with some combination of:
 // NPY_ARRAY_ENSURECOPY | NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS
 int ProcessAsArrayKwargs(PyObject * kwargs)
@@ -197,11 +204,12 @@ int ProcessAsArrayKwargs(PyObject * kwargs)
             else
             {
                 PyErr_Format(PyExc_ValueError, "The 'copy' argument must be either True or False.");
+                return -1;
             }
         }
 
         PyObject * orderkwarg = PyDict_GetItemString(kwargs, "order");
-        if (orderkwarg)
+        if (orderkwarg && orderkwarg != Py_None)
         {
             if (PyUnicode_Check(orderkwarg))
             {
@@ -217,6 +225,7 @@ int ProcessAsArrayKwargs(PyObject * kwargs)
             else
             {
                 PyErr_Format(PyExc_ValueError, "The 'order' argument must be either 'F' or 'C'.");
+                return -1;
             }
         }
     }
@@ -248,7 +257,7 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
             PyErr_Format(PyExc_TypeError, "AsArray takes 1 or 2 positional arguments but %lld were given", Py_SIZE(args));
             return NULL;
         }
-        else
+        else if (PyTuple_GET_ITEM(args, 1) != Py_None)
         {
             // convert 2nd arg to dtype descriptor
             descr = DTypeToDescr(PyTuple_GET_ITEM(args, 1));
@@ -267,10 +276,11 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
     if (kwargs)
     {
         PyObject * dtypekwarg = PyDict_GetItemString(kwargs, "dtype");
-        if (dtypekwarg)
+        if (dtypekwarg && dtypekwarg != Py_None)
         {
             if (descr)
             {
+                Py_DECREF(descr);
                 PyErr_Format(PyExc_TypeError, "AsArray got multiple values for 'dtype'");
                 return NULL;
             }
@@ -284,6 +294,11 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
             }
         }
         flags = ProcessAsArrayKwargs(kwargs);
+        if (flags < 0)
+        {
+            Py_XDECREF(descr);
+            return NULL;
+        }
     }
 
     // TODO: handle when user passes a dtype
@@ -348,7 +363,12 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
                             if (result)
                                 return result;
                         }
-                        return ConvertInt64(object);
+                        PyObject * result = ConvertInt64(object);
+                        if (result)
+                            return result;
+
+                        // numpy picks the dtype for longs that int64 cannot hold
+                        return PyArray_FromAny(object, NULL, 0, 0, flags, NULL);
                     }
                 }
                 if (PyFloat_Check(firstObject))
@@ -392,10 +412,17 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
 
     // Convert rank 0 to dim 1, length 1 array
     npy_intp size = 1;
-    PyArrayObject * pNewArray = AllocateNumpyArray(1, &size, PyArray_TYPE(pArray), PyArray_ITEMSIZE(pArray));
+    PyArray_Descr * pNewDescr = PyArray_DESCR(pArray);
+    Py_INCREF(pNewDescr);
+    PyArrayObject * pNewArray = (PyArrayObject *)PyArray_NewFromDescr(g_FastArrayType ? g_FastArrayType : &PyArray_Type, pNewDescr,
+                                                                      1, &size, NULL, NULL, 0, NULL);
 
-    // copy over the data
-    memcpy(PyArray_DATA(pNewArray), PyArray_DATA(pArray), PyArray_ITEMSIZE(pArray));
+    // copy over the data (an object array owns a reference to its item)
+    if (pNewArray && PyArray_CopyInto(pNewArray, pArray) != 0)
+    {
+        Py_DecRef((PyObject *)pNewArray);
+        pNewArray = NULL;
+    }
 
     // no longer need the numpy array
     Py_DecRef((PyObject *)pArray);
@@ -409,6 +436,8 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
 PyObject * AsFastArray(PyObject * self, PyObject * args, PyObject * kwargs)
 {
     PyArrayObject * pArray = (PyArrayObject *)AsAnyArray(self, args, kwargs);
+    if (pArray == NULL)
+        return NULL;
 
     // Convert to FastArray
     return SetFastArrayView(pArray);
-- 
2.43.0


From d1156d2afdb05c07cf98aab9cfc7e4f8386d8f71 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 143/160] fix: SDS names and time formats passed as buffers
 without a final zero were read past their end, SetLustreGateway dereferenced
 items that are not bytes

---
 src/DateTime.cpp      |  4 ++++
 src/SDSFilePython.cpp | 27 ++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index cca70ac..a032005 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -825,6 +825,10 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // A buffer other than bytes need not end with a zero
+    const std::string timeFormat(strTimeFormat, strTimeFormatSize);
+    strTimeFormat = timeFormat.c_str();
+
     int32_t dType = PyArray_TYPE(inArr);
 
     PyArrayObject * outArray = NULL;
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 43fab09..2412fad 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1333,6 +1333,14 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
+    // Buffers other than bytes need not end with a zero
+    const std::string fileNameCopy(fileName, fileNameSize);
+    const std::string shareNameCopy(shareName ? shareName : "", shareNameSize);
+
+    fileName = fileNameCopy.c_str();
+    if (shareName)
+        shareName = shareNameCopy.c_str();
+
     LOGGING("In CompressFile %s\n", fileName);
 
     // Check for kwargs: folders, bandsize, section
@@ -1686,6 +1694,14 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
+    // Buffers other than bytes need not end with a zero
+    const std::string fileNameCopy(fileName, fileNameSize);
+    const std::string shareNameCopy(shareName ? shareName : "", shareNameSize);
+
+    fileName = fileNameCopy.c_str();
+    if (shareName)
+        shareName = shareNameCopy.c_str();
+
     if (kwargs && PyDict_Check(kwargs))
     {
         // Borrowed reference
@@ -1976,8 +1992,17 @@ PyObject * SetLustreGateway(PyObject * self, PyObject * args)
 
     // printf("hint: %s\n", fileName);
 
-    g_gatewaylist.clear();
     int64_t tupleLength = PyTuple_GET_SIZE(tuple);
+    for (int64_t i = 0; i < tupleLength; i++)
+    {
+        if (! PyBytes_Check(PyTuple_GET_ITEM(tuple, i)))
+        {
+            PyErr_Format(PyExc_TypeError, "SetLustreGateway: the replacements must be byte strings");
+            return NULL;
+        }
+    }
+
+    g_gatewaylist.clear();
     g_gatewaylist.reserve(tupleLength);
 
     for (int64_t i = 0; i < tupleLength; i++)
-- 
2.43.0


From 2cbe95313b56df150a9b40ea6bfd0401f35ad3fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 144/160] fix: GroupByPack32 wrote past the end of its results
 when there are no rows

---
 src/MultiKey.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index a92c92b..5893a58 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -714,10 +714,16 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
 
         int32_t i = (int32_t)totalRows;
 
-        // TODO -- how to handle empty?
-        pSortArray[0] = GB_INVALID_INDEX;
-        pFirstArray[0] = GB_INVALID_INDEX;
-        pCountArray[0] = 0;
+        // without rows there is nothing to sort and every group is empty
+        if (totalRows > 0)
+        {
+            pSortArray[0] = GB_INVALID_INDEX;
+        }
+        for (int64_t group = 0; group < numUnique; group++)
+        {
+            pFirstArray[group] = GB_INVALID_INDEX;
+            pCountArray[group] = 0;
+        }
 
         // fills up sort array
         int32_t runningCount = 0;
@@ -753,7 +759,7 @@ bool GroupByPackFinal32(int64_t numUnique, int64_t totalRows, void * pIndexArray
             }
             LOGGING("running count at end %d\n", runningCount);
         }
-        else
+        else if (totalRows > 0)
         {
             // Check if first item is filtered out
             // If so, go ahead and chain this now
-- 
2.43.0


From bd15cc2a3216728203c5b886e799edd713e47f84 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 145/160] fix: IsMemberCategoricalFixup read past the
 membership map for bins it has no entry for

---
 src/HashFunctions.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index a5e36bf..087ea39 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -344,7 +344,7 @@ template <typename T>
 // TODO: this routine needs to output INT8/16/32/64 instead of just INT32
 template <typename T>
 void FinalMatch(T const * pArray1, int32_t * pOutput, int8_t * pBoolOutput, int32_t const * pReIndex, int64_t array1Length,
-                int32_t baseoffset)
+                int32_t baseoffset, int64_t unique1Length)
 {
     const int32_t invalid = *(int32_t *)GetDefaultForType(NPY_INT32);
 
@@ -357,7 +357,7 @@ void FinalMatch(T const * pArray1, int32_t * pOutput, int8_t * pBoolOutput, int3
         T val = pArray1[i];
 
         // Find first occurence
-        if (val >= baseoffset)
+        if (val >= baseoffset && (int64_t)val - baseoffset < unique1Length)
         {
             val -= baseoffset;
             const int32_t firstoccurence = pReIndex[val];
@@ -499,16 +499,16 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
         switch (array1Type)
         {
         case NPY_INT8:
-            FinalMatch<int8_t>((int8_t *)pArray1, pIndexOut, pBoolOut, reIndexArray, arraySize1, baseoffset1);
+            FinalMatch<int8_t>((int8_t *)pArray1, pIndexOut, pBoolOut, reIndexArray, arraySize1, baseoffset1, arraySizeUnique64);
             break;
         case NPY_INT16:
-            FinalMatch<int16_t>((int16_t *)pArray1, pIndexOut, pBoolOut, reIndexArray, arraySize1, baseoffset1);
+            FinalMatch<int16_t>((int16_t *)pArray1, pIndexOut, pBoolOut, reIndexArray, arraySize1, baseoffset1, arraySizeUnique64);
             break;
         CASE_NPY_INT32:
-            FinalMatch<int32_t>((int32_t *)pArray1, pIndexOut, pBoolOut, reIndexArray, arraySize1, baseoffset1);
+            FinalMatch<int32_t>((int32_t *)pArray1, pIndexOut, pBoolOut, reIndexArray, arraySize1, baseoffset1, arraySizeUnique64);
             break;
         CASE_NPY_INT64:
-            FinalMatch<int64_t>((int64_t *)pArray1, pIndexOut, pBoolOut, reIndexArray, arraySize1, baseoffset1);
+            FinalMatch<int64_t>((int64_t *)pArray1, pIndexOut, pBoolOut, reIndexArray, arraySize1, baseoffset1, arraySizeUnique64);
             break;
         default:
             WORKSPACE_FREE(reverseMapArray);
-- 
2.43.0


From 25f757053fa90935645d28a40f2b763f4fe4f4cc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 146/160] fix: every read of an SDS file leaked the items of
 its header dictionary

---
 src/SDSFilePython.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 2412fad..9aee474 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -644,9 +644,19 @@ PyObject * GetMetaData(const char * const metaData, const int64_t metaSize)
     return PyBytes_FromStringAndSize(temp, 2);
 }
 
+// The dictionary holds its own reference to an item, 'item' is released
+static int SetItemSteal(PyObject * pDict, const char * strkey, PyObject * item)
+{
+    if (! item)
+        return -1;
+    const int result = PyDict_SetItemString(pDict, strkey, item);
+    Py_DECREF(item);
+    return result;
+}
+
 int SetStringLong(PyObject * pDict, const char * strkey, long long value)
 {
-    return PyDict_SetItemString(pDict, strkey, (PyObject *)PyLong_FromLongLong(value));
+    return SetItemSteal(pDict, strkey, PyLong_FromLongLong(value));
 }
 
 //----------------------------------------------------
@@ -691,7 +701,7 @@ PyObject * GetFileHeaderDict(const SDS_FILE_HEADER * const pFileHeader, SDS_FINA
         SetStringLong(pDict, "TimeStampUTCNanos", (long long)(pFileHeader->TimeStampUTCNanos));
         if (pSDSFinalCallback && pSDSFinalCallback->strFileName)
         {
-            PyDict_SetItemString(pDict, "Filename", PyUnicode_FromString(pSDSFinalCallback->strFileName));
+            SetItemSteal(pDict, "Filename", PyUnicode_FromString(pSDSFinalCallback->strFileName));
             SDSSectionName * pSection = pSDSFinalCallback->pSectionName;
 
             // The sectionoffset is used to reorder
@@ -704,14 +714,14 @@ PyObject * GetFileHeaderDict(const SDS_FILE_HEADER * const pFileHeader, SDS_FINA
                 // Create a new list of strings containing section names
                 PyObject * pSectionList = PyList_New(pSection->SectionCount);
                 PyObject * pSectionListOffset = PyList_New(pSection->SectionCount);
-                PyDict_SetItemString(pDict, "Sections", pSectionList);
-                PyDict_SetItemString(pDict, "SectionOffsets", pSectionListOffset);
 
                 for (int64_t n = 0; n < pSection->SectionCount; n++)
                 {
                     PyList_SetItem(pSectionList, n, PyUnicode_FromString(pSection->pSectionNames[n]));
                     PyList_SetItem(pSectionListOffset, n, (PyObject *)PyLong_FromLongLong(pSection->pSectionOffsets[n]));
                 }
+                SetItemSteal(pDict, "Sections", pSectionList);
+                SetItemSteal(pDict, "SectionOffsets", pSectionListOffset);
             }
         }
     }
-- 
2.43.0


From f442583729dd7d547473ca5e31c38ae7bd026398 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 147/160] fix: TryRecycleNumpy read list items that are not
 arrays as arrays

---
 src/Recycler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index 20bfb80..ca387df 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -903,6 +903,11 @@ PyObject * TryRecycleNumpy(PyObject * self, PyObject * args)
             PyObject * item = PyList_GetItem(tuple, i);
             // Py_DecRef(item);
 
+            if (! PyArray_Check(item))
+            {
+                PyErr_Format(PyExc_TypeError, "TryRecycleNumpy: item %lld of the list is not an array", (long long)i);
+                return NULL;
+            }
             PyArrayObject * inArr = (PyArrayObject *)item;
 
             int ndim = PyArray_NDIM(inArr);
-- 
2.43.0


From ed31d2b1375d36d667bd794ac83ab6d7a38d0687 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 148/160] fix: ReIndexGroups overwrote the items of an array of
 objects with integers

---
 src/Merge.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 2c9558f..668ed57 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1935,6 +1935,11 @@ PyObject * ReIndexGroups(PyObject * self, PyObject * args)
         PyErr_Format(PyExc_ValueError, "ikey must be contiguous");
         return NULL;
     }
+    if (! PyArray_ISINTEGER(ikey))
+    {
+        PyErr_Format(PyExc_ValueError, "ikey must be an integer array");
+        return NULL;
+    }
 
     ContiguousArray const contiguousUKey(uikey);
     ContiguousArray const contiguousUCutOffs(u_cutoffs);
-- 
2.43.0


From 285969ba5aa54d1c6303cd1b9a2a21a27684921a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 149/160] fix: BasicMathUnaryOp leaked the dtype it was passed

---
 src/UnaryOps.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 7bd5d63..4f9eeba 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2889,6 +2889,7 @@ PyObject * BasicMathUnaryOp(PyObject * self, PyObject * args, PyObject * kwargs)
             // check for error in dtype passed, if NULL error message already set
             if (! pDescr)
                 return NULL;
+            Py_DECREF(pDescr);
         }
         dtypekwarg = PyDict_GetItemString(kwargs, "out");
 
-- 
2.43.0


From 721e276490438bce4b90999fe84bca806cd6a1a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 150/160] fix: GroupByAllPack32 takes iFirstGroup and
 nCountGroup that cover just the bins asked for

---
 src/GroupBy.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index d09991f..b554420 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -5015,7 +5015,14 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (ArrayLength(iGroup) < arraySizeKey || ArrayLength(iFirst) < unique_rows || ArrayLength(nCount) < unique_rows)
+    // Only the bins which are asked for (and the zero bin) are looked up
+    int64_t binsUsed = GB_BASE_INDEX;
+    for (int64_t i = 0; i < tupleSize; i++)
+    {
+        binsUsed = std::max<int64_t>(binsUsed, PyLong_AsLongLong(PyList_GET_ITEM(listBinHigh, i)));
+    }
+
+    if (ArrayLength(iGroup) < arraySizeKey || ArrayLength(iFirst) < binsUsed || ArrayLength(nCount) < binsUsed)
     {
         PyErr_Format(PyExc_ValueError,
                      "GroupByAllPack32 iGroup must have as many rows as iKey, and iFirstGroup and nCountGroup as there are bins: "
-- 
2.43.0


From 7309fb37057401f7f8108ab05f30bc2e0617f112 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 151/160] fix: ReIndex leaked its result for an index that is
 not of integers

---
 src/Bins.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 141cfba..804c912 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -218,6 +218,7 @@ PyObject * ReIndex(PyObject * self, PyObject * args)
 
                 return SetFastArrayView(result);
             }
+            Py_DECREF((PyObject *)result);
         }
     }
     else
-- 
2.43.0


From cac85f3b948c58dead2e63e693a60f1fadb59bc0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 152/160] fix: NanInfCountFromSort read past the values for an
 index that is not of theirs

---
 src/Bins.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 804c912..c2776de 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -358,6 +358,9 @@ PyObject * NanInfCount(void * pDataIn1, void * pIndex1, int64_t arraySize1, int
     T * pData = (T *)pDataIn1;
     U * pIndex = (U *)pIndex1;
 
+    // an index past the end of the values ends the scan
+    const auto inRange = [&](U const index) { return index >= 0 && index < arraySize1; };
+
     int64_t nancount = 0;
     int64_t posInfCount = 0;
     int64_t negInfCount = 0;
@@ -367,13 +370,13 @@ PyObject * NanInfCount(void * pDataIn1, void * pIndex1, int64_t arraySize1, int
         int64_t i = arraySize1 - 1;
 
         // Scan from back
-        while ((i >= 0) && pData[pIndex[i]] != pData[pIndex[i]])
+        while ((i >= 0) && inRange(pIndex[i]) && pData[pIndex[i]] != pData[pIndex[i]])
         {
             i--;
             nancount++;
         }
 
-        while ((i >= 0) && pData[pIndex[i]] == INFINITY)
+        while ((i >= 0) && inRange(pIndex[i]) && pData[pIndex[i]] == INFINITY)
         {
             i--;
             posInfCount++;
@@ -381,7 +384,7 @@ PyObject * NanInfCount(void * pDataIn1, void * pIndex1, int64_t arraySize1, int
 
         int j = 0;
 
-        while ((j <= i) && pData[pIndex[j]] == -INFINITY)
+        while ((j <= i) && inRange(pIndex[j]) && pData[pIndex[j]] == -INFINITY)
         {
             j++;
             negInfCount++;
@@ -399,7 +402,7 @@ PyObject * NanInfCount(void * pDataIn1, void * pIndex1, int64_t arraySize1, int
             int64_t i = arraySize1 - 1;
             int j = 0;
 
-            while ((j <= i) && pData[pIndex[j]] == defaultNan)
+            while ((j <= i) && inRange(pIndex[j]) && pData[pIndex[j]] == defaultNan)
             {
                 j++;
                 negInfCount++;
@@ -411,7 +414,7 @@ PyObject * NanInfCount(void * pDataIn1, void * pIndex1, int64_t arraySize1, int
             int64_t i = arraySize1 - 1;
 
             // check for default value?
-            while ((i >= 0) && pData[pIndex[i]] == defaultNan)
+            while ((i >= 0) && inRange(pIndex[i]) && pData[pIndex[i]] == defaultNan)
             {
                 i--;
                 posInfCount++;
-- 
2.43.0


From 05d8ac9fc8cadbd20012058850f1afa07b534e5e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 153/160] fix: the text of a string passed as scalar next to
 numbers was read as numbers, or left uninitialised memory as the default of
 MBGet

---
 src/RipTide.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 259f315..8f3fa65 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1349,6 +1349,8 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
         else if (PyBytes_Check(inObject1))
         {
             // happens when pass in b'test'
+            if (! PyTypeNum_ISSTRING(numpyOutType))
+                return false;
             *pItemSize = PyBytes_GET_SIZE(inObject1);
             *ppDataIn = PyBytes_AS_STRING(inObject1);
             return true;
@@ -1356,6 +1358,8 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
         else if (PyUnicode_Check(inObject1))
         {
             // happens when pass in 'test'
+            if (! PyTypeNum_ISSTRING(numpyOutType))
+                return false;
             if (PyUnicode_READY(inObject1) < 0)
             {
                 printf("!!unable to make UNICODE object ready");
-- 
2.43.0


From af05b728f5d57da2b3d803d723bacfe4dc09b7b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 154/160] fix: GroupByPack32 leaked a buffer as it refused a
 key that is not of signed integers

---
 src/MultiKey.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 5893a58..ca22cd6 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -932,6 +932,7 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
                 pNextArray = GroupByPackFixup32<int64_t>(numUnique, totalRows, pIndexArray, pGroupArray);
                 break;
             default:
+                WORKSPACE_FREE(pGroupArray);
                 PyErr_Format(PyExc_ValueError, "GroupByPack32 index must be int8 int16, int32, int64");
                 return NULL;
             }
-- 
2.43.0


From bbffeea5aa672ae41ca6e4ee6095bcfd833c9323 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 155/160] fix: CompressFile wrote past its buffer for long
 column names and read names that are no tuple of bytes and integer

---
 src/SDSFilePython.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 9aee474..2a3bc6f 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1365,6 +1365,10 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     if (sectionSize >= SDS_MAX_SECTIONNAME)
     {
+        if (folderName)
+        {
+            DestroyStringList(folderName);
+        }
         PyErr_Format(PyExc_ValueError, "section name too large: %lld", sectionSize);
         return NULL;
     }
@@ -1378,8 +1382,25 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     LOGGING("Name count is %d\n", (int)listNameCount);
 
-    // alloc worst case scenario
-    char * pListNames = (char *)WORKSPACE_ALLOC((SDS_MAX_FILENAME * listNameCount) + 8);
+    // every name is followed by a zero and its enum
+    int64_t listNameBytes = 8;
+    for (int64_t i = 0; i < listNameCount; i++)
+    {
+        PyObject * pTuple = PyList_GET_ITEM(inListNames, i);
+        if (! PyTuple_Check(pTuple) || PyTuple_GET_SIZE(pTuple) < 2 || ! PyBytes_Check(PyTuple_GET_ITEM(pTuple, 0)) ||
+            ! PyLong_Check(PyTuple_GET_ITEM(pTuple, 1)))
+        {
+            if (folderName)
+            {
+                DestroyStringList(folderName);
+            }
+            PyErr_Format(PyExc_TypeError, "CompressFile: the names must be a list of tuples of a byte string and an integer");
+            return NULL;
+        }
+        listNameBytes += PyBytes_GET_SIZE(PyTuple_GET_ITEM(pTuple, 0)) + 2;
+    }
+
+    char * pListNames = (char *)WORKSPACE_ALLOC(listNameBytes);
     if (! pListNames)
     {
         return NULL;
-- 
2.43.0


From b4e5343046a75a62d0ba87fb9bcd4a25821622a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 156/160] fix: GroupByAllPack32 read past iGroup for bins that
 do not lie within it

---
 src/GroupBy.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index b554420..08dc77c 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -5031,6 +5031,22 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    const bool packIs64 = PyArray_ITEMSIZE(iGroup) == 8;
+    for (int64_t i = 0; i < binsUsed; i++)
+    {
+        const void * pFirst = PyArray_BYTES(iFirst);
+        const void * pCount = PyArray_BYTES(nCount);
+        const int64_t first = packIs64 ? ((const int64_t *)pFirst)[i] : ((const int32_t *)pFirst)[i];
+        const int64_t count = packIs64 ? ((const int64_t *)pCount)[i] : ((const int32_t *)pCount)[i];
+
+        if (count > 0 && (first < 0 || first > arraySizeKey || count > arraySizeKey - first))
+        {
+            PyErr_Format(PyExc_ValueError, "GroupByAllPack32 the %lld rows from %lld of bin %lld do not lie within iGroup", count,
+                         first, i);
+            return NULL;
+        }
+    }
+
     if (tupleSize == 1 && arraySizeKey > 65536)
     {
         int overflow = 0;
-- 
2.43.0


From 0ccd3120925b8a7e26cfe85b10a0d654ec70d3bd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 157/160] fix: a hash mode that does not exist left the hash
 table without its memory

---
 src/HashLinear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 3ee1947..583e570 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -1977,7 +1977,8 @@ CHashLinear<T, U>::CHashLinear(HASH_MODE hashMode, bool deallocate)
     NumCollisions = 0;
     HashSize = 0;
     // 1 and 2 byte items are hashed perfectly, which needs a table of 65536 slots (see AllocMemory)
-    HashMode = sizeof(T) <= 2 ? HASH_MODE_MASK : hashMode;
+    // (there is no mode other than the two)
+    HashMode = sizeof(T) <= 2 || hashMode != HASH_MODE_PRIME ? HASH_MODE_MASK : hashMode;
     Deallocate = deallocate;
 
     // Can set bad index to 0?
-- 
2.43.0


From a0709ba7dfa524a718b0fb994efcc419ec490330 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 158/160] fix: RecordArrayToColMajor never returned when asked
 for no columns

---
 src/TileRepeat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/TileRepeat.cpp b/src/TileRepeat.cpp
index 9e31f74..2ff44fe 100644
--- a/src/TileRepeat.cpp
+++ b/src/TileRepeat.cpp
@@ -153,6 +153,8 @@ void ConvertRecArray(char * pStartOffset, int64_t startRow, int64_t totalRows, s
                 break;
             }
         }
+
+        startRow = endRow;
     }
 }
 
-- 
2.43.0


From 3ca393cd65925b280eb8fe2eeb1735add1f66a88 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 159/160] fix: with an output array, a scalar the array's dtype
 does not hold was cut and the result was that of another scalar

---
 src/BasicMath.cpp | 76 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 74 insertions(+), 2 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 5c2f1a1..c44ecc8 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2311,6 +2311,64 @@ public:
         return dtype;
     }
 
+    //-------------------------------------------------------------------
+    // With an output array the array is not upcast to hold the scalar, the scalar is converted to the dtype of the array
+    //
+    // returns false if the result would then be that of another scalar
+    bool IsScalarKept(PyObject * scalarObject, PyArrayObject * array)
+    {
+        int dtype = PyArray_TYPE(array);
+        int newType = PossiblyUpcast(scalarObject, dtype);
+        if (newType == dtype || newType > NPY_LONGDOUBLE)
+        {
+            return true;
+        }
+
+        bool isInplace = PyArray_Check(outputObject) && PyArray_TYPE((PyArrayObject *)outputObject) == dtype;
+        switch (funcNumber)
+        {
+        case MATH_OPERATION::ADD:
+        case MATH_OPERATION::SUB:
+        case MATH_OPERATION::MUL:
+        case MATH_OPERATION::BITWISE_AND:
+        case MATH_OPERATION::BITWISE_XOR:
+        case MATH_OPERATION::BITWISE_OR:
+        case MATH_OPERATION::BITWISE_ANDNOT:
+        case MATH_OPERATION::BITWISE_NOTAND:
+            // integers wrap around in any case
+            return isInplace;
+        default:
+            // only functions that return bools do not give the result the dtype of the operands
+            if (! isInplace && (funcNumber < MATH_OPERATION::CMP_EQ || funcNumber > MATH_OPERATION::LOGICAL_OR))
+            {
+                return false;
+            }
+            break;
+        }
+
+        _m256all value;
+        void * pValue = nullptr;
+        int64_t valueItemSize = 0;
+        bool result = false;
+        if (ConvertScalarObject(scalarObject, &value, dtype, &pValue, &valueItemSize))
+        {
+            PyObject * converted = PyArray_Scalar(pValue, PyArray_DESCR(array), nullptr);
+            if (converted)
+            {
+                result = PyObject_RichCompareBool(converted, scalarObject, Py_EQ) == 1;
+                Py_DECREF(converted);
+            }
+            // an integer has no negative zero
+            if (result && dtype <= NPY_ULONGLONG)
+            {
+                double zero = PyFloat_AsDouble(scalarObject);
+                result = ! (zero == 0 && std::signbit(zero));
+            }
+            PyErr_Clear();
+        }
+        return result;
+    }
+
     //-------------------------------------------------------------------
     //
     // returns nullptr on failure
@@ -2543,7 +2601,14 @@ public:
                 isArray1 = true;
                 isScalar1 = false;
             }
-            else if (isArray2 && ! outputObject)
+            else if (isArray2 && outputObject)
+            {
+                if (! IsScalarKept(inObject1, (PyArrayObject *)inObject2))
+                {
+                    return false;
+                }
+            }
+            else if (isArray2)
             {
                 //
                 int oldType = PyArray_TYPE((PyArrayObject *)inObject2);
@@ -2593,7 +2658,14 @@ public:
                 isArray2 = true;
                 isScalar2 = false;
             }
-            else if (isArray1 && ! outputObject)
+            else if (isArray1 && outputObject)
+            {
+                if (! IsScalarKept(inObject2, (PyArrayObject *)inObject1))
+                {
+                    return false;
+                }
+            }
+            else if (isArray1)
             {
                 //
                 int oldType = PyArray_TYPE((PyArrayObject *)inObject1);
-- 
2.43.0


From 99e7717d79c075b1e82f000eb9d94d4f86477ced Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 160/160] fix: the third and fourth power of a hooked array
 returned a freed array where the second product declined the output

---
 src/Hook.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Hook.cpp b/src/Hook.cpp
index 1893924..96da8a6 100644
--- a/src/Hook.cpp
+++ b/src/Hook.cpp
@@ -62,22 +62,25 @@ static PyObject * RiptideTernaryMathFunction(PyObject * self, PyObject * arg1, P
             if (power == 2 || power == 3 || power == 4)
             {
                 PyObject * square = BasicMathTwoInputsFromNumber(self, self, NULL, MATH_OPERATION::MUL);
+                if (square == NULL)
+                {
+                    return NULL;
+                }
                 if (square != Py_None)
                 {
-                    if (power == 3)
+                    if (power == 2)
                     {
-                        // inplace multiply
-                        BasicMathTwoInputsFromNumber(square, self, square, MATH_OPERATION::MUL);
-                        Py_DECREF(square);
+                        return square;
                     }
-                    else if (power == 4)
+                    // inplace multiply, which may decline or return another array
+                    PyObject * result = BasicMathTwoInputsFromNumber(square, power == 3 ? self : square, square, MATH_OPERATION::MUL);
+                    Py_DECREF(square);
+                    if (result != Py_None)
                     {
-                        // inplace multiply
-                        BasicMathTwoInputsFromNumber(square, square, square, MATH_OPERATION::MUL);
-                        Py_DECREF(square);
+                        return result;
                     }
-                    return square;
                 }
+                Py_DECREF(Py_None);
             }
         }
 
-- 
2.43.0

