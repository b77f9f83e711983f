From 0bb43728d420a42e98689a9181848a2ea42cb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 01/40] fix: count_blocks and count_nnz_rows return 0 for a
 matrix without entries

---
 include/utils.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index ea1ea56..323b2e5 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -334,6 +334,8 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
 template <class T, class IT>
 IT count_blocks(Element<T, IT> * array, IT size)
 {
+  if (size == 0) return 0;
+
   IT current = array[0].block;
   IT count = 1;
 
@@ -351,12 +353,13 @@ IT count_blocks(Element<T, IT> * array, IT size)
 
 /*
  * Operates on a SORTED array of type NONZERO and returns the number of
- * non-zero rows. nnz has to be at greater or equal to 1. NNZERO type must have
- * a 'row' field
+ * non-zero rows. NONZERO type must have a 'row' field
  */
 template <class NONZERO, class IT>
 IT count_nnz_rows(NONZERO * source, IT nnz)
 {
+  if (nnz == 0) return 0;
+
   IT count=1;
   IT cur_row = source[0].row;
 
-- 
2.43.0


From e1c0d39e7bbd9b0deeeda7a7febd495d0badc03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 02/40] fix: pick_block_size returns a usable block size for
 small matrices

---
 include/utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index 323b2e5..84caacc 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -30,7 +30,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     if (!sizereq) {
-    	return 0;
+    	// Too small to be worth cutting, use a single block
+    	return std::min(roundrowup, roundcolup);
     }
 
     IT rowlowbits = rowbits-1;	
-- 
2.43.0


From 145643ad560fb3eff6ed4f2e56ba1e1ef0d391b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 03/40] fix: compressed-row CSR initialises its row pointers
 and counts rows after sorting

---
 include/matrix/crcsr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 6ef1753..a1c99cc 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -38,10 +38,12 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 
     A->nnz_rows_num = nnzrows;
     A->nnz_rows = new IT[nnzrows];
-    A->row_ptr = new IT[nnzrows + 1];
+    A->row_ptr = new IT[nnzrows + 1](); // Initialize to zero!
     A->col_ind = new IT[nnz];
     A->val = new T[nnz];
 
+    if (nnz == 0) return;
+
     sort_triplets(nonzeros, nnz);
 
     A->nnz_rows[0] = nonzeros[0].row;
@@ -81,6 +83,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 template <class T, class IT, class NONZERO>
 void Coo_to_CrCsr (CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz)
 {
+    sort_triplets(nonzeros, nnz); // Non-empty rows can only be counted when sorted
     IT nnzrows = count_nnz_rows(nonzeros, nnz);
     Coo_to_CrCsr(A, nonzeros, nnz, nnzrows);
 }
-- 
2.43.0


From 152153fb26de9662540174021b969c514975a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 04/40] fix: sort_triplets_blocks stays inside the array and
 sorts inside each block

---
 include/utils.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 84caacc..b823f3b 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -225,12 +225,14 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   IT * brow_ptr;
   IT i;
 
-  // Define function to compare block columns
+  // Define function to compare block columns, then rows, then columns
   auto block_compare = [bcol_offset, blockcols]
                         (Triplet<T, IT> first, Triplet<T, IT> last){
     IT first_bcol = index_to_blockindex(bcol_offset, blockcols, first.col);
     IT last_bcol = index_to_blockindex(bcol_offset, blockcols, last.col);
-    return first_bcol < last_bcol ;
+    if (first_bcol != last_bcol) return first_bcol < last_bcol;
+    if (first.row != last.row) return first.row < last.row;
+    return first.col < last.col;
   };
 
   // Define function to compare rows (NOT block-rows)
@@ -246,7 +248,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   brow_ptr[0] = 0;
   i = 0;
   for (IT br=0; br<blockrows; br++) {
-    while(array[i].row < brow_offset[br+1]) i++;
+    while(i < size && array[i].row < brow_offset[br+1]) i++;
     brow_ptr[br+1] = i;
   }
   brow_ptr[blockrows] = size;
@@ -255,7 +257,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   for (IT b=0; b<blockrows; b++) {
     IT start = brow_ptr[b];
     IT end = brow_ptr[b+1];
-    std::sort(array + start, array + end, block_compare);
+    std::stable_sort(array + start, array + end, block_compare);
   }
 
   // Clean up
-- 
2.43.0


From 005b523a969c15b001b45be409e4a9a469905f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 05/40] fix: CGBR(2) initialises its balanced flag

---
 include/matrix/cgbr.2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 6dca397..c3b74fb 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -25,7 +25,7 @@ struct Cgbr2 : public BlockBase<T,IT>
 
     // Partitioning information
     BlockRowPartition<IT> * partition;
-    bool balanced;
+    bool balanced {false}; // TODO: Add heuristic
 
     // Block size information
     IT * blockrow_offset;
-- 
2.43.0


From 9cc2e2c97e43cf2587cca0294253ff3f7ca252fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 06/40] fix: CSWR limits its width to what the short row index
 can hold

---
 include/matrix/cswr.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index 8c43ab3..e29bde2 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -3,6 +3,7 @@
 
 #include <cassert>
 #include <cstdio>
+#include <limits>
 
 #include <omp.h>
 
@@ -50,6 +51,11 @@ void Coo_to_Cswr (
         IT rows, IT columns, IT nnz,
         IT width)
 {
+    // Row indices inside a wide row have to fit in SIT
+    if (width - 1 > std::numeric_limits<SIT>::max()) {
+        width = IT(std::numeric_limits<SIT>::max()) + 1;
+    }
+
     A->rows = rows;
     A->columns = columns;
     A->nnz = nnz;
-- 
2.43.0


From 1a69eeabc51edb874a903214a78a469fb1e55d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 07/40] fix: dense storage adds up entries with the same
 coordinates

---
 include/matrix/dense.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 76c052b..017c03f 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -28,7 +28,7 @@ struct DenseSerial : public BlockBase<T,IT>
         for (IT i=0; i<nnz; i++)
         {
             pos = array[i].row * columns + array[i].col;
-            val[pos] = array[i].val;
+            val[pos] += array[i].val;
         }
     }
 
@@ -108,7 +108,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
     for (IT i=0; i<nnz; i++)
     {
         pos = nonzeros[i].row * columns + nonzeros[i].col;
-        A->val[pos] = nonzeros[i].val;
+        A->val[pos] += nonzeros[i].val;
     }
 }
 
-- 
2.43.0


From 107906f3000b8fd1577fe17ec93e4f1f48382b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 08/40] fix: blocked driver uses the block sizes given on the
 command line

---
 src/drivers/blocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/blocked.cpp b/src/drivers/blocked.cpp
index de3c5ed..2203293 100644
--- a/src/drivers/blocked.cpp
+++ b/src/drivers/blocked.cpp
@@ -41,7 +41,7 @@ int main(int argc, char * argv[])
     }
     printf(" done in %.4f sec\n", t);
 
-    if (argc == 5) {
+    if (argc == 4) {
 
         // Reading block sizes for rows
         printf("Reading block-row sizes from disk..."); fflush(stdout);
-- 
2.43.0


From 52169a06cfc8f2c87d85832b688102bde454c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 09/40] fix: partition dump does not touch the missing
 partition of a balanced matrix

---
 src/drivers/blocked.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drivers/blocked.cpp b/src/drivers/blocked.cpp
index 2203293..aac1ce8 100644
--- a/src/drivers/blocked.cpp
+++ b/src/drivers/blocked.cpp
@@ -105,7 +105,11 @@ int main(int argc, char * argv[])
 
     #ifdef PARTITION_DEBUG
     printf("\n\n");
-    partition_dump(A.partition, A.blockrows);
+    if (A.balanced) {
+        printf("Balanced block-rows are not partitioned.\n");
+    } else {
+        partition_dump(A.partition, A.blockrows);
+    }
 
     #else
     // Benchmarking happens here
-- 
2.43.0


From de79a320558950443303815b42075dfb48f113f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 10/40] fix: reading a blocked file into CGBR keeps every
 record and sets the balanced flag

---
 include/io/blocked.h | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 98f371f..b065183 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -375,6 +375,9 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   IT cur_row, cur_col;
   T cur_val;
   size_t fr;
+  bool last;
+  const long header_size = 6 * sizeof(IT);
+  const long record_size = 3 * sizeof(IT) + sizeof(T);
 
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Cgbr<T, IT, SIT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
@@ -400,14 +403,22 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   fread(&cur_val, sizeof(T), 1, f);
 
   // Read data section
+  // Read one record ahead. Record i is the last one of the current block if
+  // the next record belongs to a different block or does not exist.
   for(IT i=0; i<A->nnz; i++){
     fr =  fread(&b, sizeof(IT), 1, f);
     fr += fread(&cur_row, sizeof(IT), 1, f);
     fr += fread(&cur_col, sizeof(IT), 1, f);
     fr += fread(&cur_val, sizeof(T), 1, f);
 
-    // Check if this is the begining of a new block
-    if( b != prev_b || fr == 0){
+    // The last record has no successor
+    last = (i == A->nnz - 1);
+    if (!last && fr != 4) {
+      fprintf(stderr, "Error while reading data section.\n");
+      return -4;
+    }
+
+    if (last || b != prev_b) {
       br = prev_b / blockcols;
       bc = prev_b % blockcols;
       br_offset = blockrow_offset[br];
@@ -420,18 +431,19 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
       A->blockcol_ind[block_index] = bc;
 
       // Read new block in memory
-      block_nnz = i - block_start;
+      block_nnz = i + 1 - block_start;
       temp_array = new Element<T,IT>[block_nnz];
-      if(fr == 4)
-        fseek(f, - ((long) ((block_nnz + 1) * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
-      else
-        fseek(f, - ((long) (block_nnz * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
+      fseek(f, header_size + (long) block_start * record_size, SEEK_SET);
 
       for(IT j=0; j<block_nnz; j++){
-        fread(&(temp_array[j].block), sizeof(IT), 1, f);
-        fread(&(temp_array[j].row), sizeof(IT), 1, f);
-        fread(&(temp_array[j].col), sizeof(IT), 1, f);
-        fread(&(temp_array[j].val), sizeof(T), 1, f);
+        fr  = fread(&(temp_array[j].block), sizeof(IT), 1, f);
+        fr += fread(&(temp_array[j].row), sizeof(IT), 1, f);
+        fr += fread(&(temp_array[j].col), sizeof(IT), 1, f);
+        fr += fread(&(temp_array[j].val), sizeof(T), 1, f);
+        if (fr != 4) {
+          fprintf(stderr, "Error while reading data section.\n");
+          return -4;
+        }
 
         assert(temp_array[j].block == prev_b);
         assert(temp_array[j].row   >= br_offset);
@@ -450,9 +462,9 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
 
       // Prepare for next block
       delete [] temp_array;
-      fseek(f, (long)  (3*sizeof(IT) + sizeof(T)), SEEK_CUR);
+      fseek(f, record_size, SEEK_CUR);
       block_index++;
-      block_start = i;
+      block_start = i + 1;
       prev_b = b;
     }
   }
@@ -467,7 +479,10 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   }
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
 
-  partition_init(A);
+  A->balanced = A->is_balanced();
+  if (!A->balanced) {
+      partition_init(A);
+  }
 
   return 0;
 }
-- 
2.43.0


From 7df6deb8eb505c24db9e09fbfadb972d9e158598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 11/40] fix: blocked file readers work for index types other
 than unsigned int

---
 include/io/blocked.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index b065183..0759fb4 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -2,7 +2,7 @@
 #define _IO_BLOCKED_H_
 #include <cassert>
 #include <cstdio>
-#include <climits>
+#include <limits>
 
 #include "common.h"
 #include "matrix/csr.1.h"
@@ -89,8 +89,8 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = std::numeric_limits<IT>::max();  // Adding 1 gives 0
+  prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -107,7 +107,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
 
       block_index++;
       prev_b = b;
@@ -191,8 +191,8 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = std::numeric_limits<IT>::max();  // Adding 1 gives 0
+  prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -209,7 +209,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
 
       block_index++;
       prev_b = b;
@@ -305,7 +305,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
     A->blocks[i].rows = 0;
   }
 
-  prev_b = UINT_MAX;
+  prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -320,7 +320,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
     // Check if this is the begining of a new block
     if( b != prev_b){
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
-- 
2.43.0


From 426f2a4a0fef7f456916024c9450e5c79b62402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 12/40] fix: blocked file readers refuse blocks and columns
 outside the matrix

---
 include/io/blocked.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 0759fb4..220c661 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -66,7 +66,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 {
   IT block_index;
   IT br, br_offset, br_size;
-  IT bc, bc_offset;
+  IT bc, bc_offset, bc_size;
   IT b, prev_b;
   IT cur_row, cur_col;
   T cur_val;
@@ -103,6 +103,13 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       return -4;
     }
 
+    // Block has to exist and there has to be space for one more new block
+    if (b / blockcols >= blockrows ||
+        (b != prev_b && IT(block_index + 1) >= A->nnzblocks)) {
+      fprintf(stderr, "Invalid block in data section.\n");
+      return -4;
+    }
+
     // Check if this is the begining of a new block
     if( b != prev_b){
 
@@ -116,6 +123,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
       br_size = blockrow_offset[br + 1] - br_offset;
+      bc_size = blockcol_offset[bc + 1] - bc_offset;
 
       // Block meta data
       A->blockrow_ptr[br+1]++;
@@ -135,6 +143,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     assert(cur_row >= br_offset);
     assert(cur_row  < br_size + br_offset);
     assert(cur_col >= bc_offset);
+    assert(cur_col  < bc_size + bc_offset);
 
     A->blocks[block_index].row_ptr[cur_row - br_offset + 1]++;  // Count non-zeros per row
     A->col_ind[i] = cur_col - bc_offset;
@@ -169,7 +178,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 {
   IT block_index;
   IT br, br_offset, br_size;
-  IT bc, bc_offset;
+  IT bc, bc_offset, bc_size;
   IT b, prev_b;
   IT cur_row, cur_col;
   T cur_val;
@@ -205,6 +214,13 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
       return -4;
     }
 
+    // Block has to exist and there has to be space for one more new block
+    if (b / blockcols >= blockrows ||
+        (b != prev_b && IT(block_index + 1) >= A->nnzblocks)) {
+      fprintf(stderr, "Invalid block in data section.\n");
+      return -4;
+    }
+
     // Check if this is the begining of a new block
     if( b != prev_b){
 
@@ -218,6 +234,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
       br_size = blockrow_offset[br + 1] - br_offset;
+      bc_size = blockcol_offset[bc + 1] - bc_offset;
 
       // Block meta data
       A->blockrow_ptr[br+1]++;
@@ -233,6 +250,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     assert(cur_row >= br_offset);
     assert(cur_row  < br_size + br_offset);
     assert(cur_col >= bc_offset);
+    assert(cur_col  < bc_size + bc_offset);
 
     A->row_ptr[block_index][cur_row - br_offset + 1]++;  // Count non-zeros per row
     A->col_ind[i] = cur_col;
@@ -419,6 +437,13 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
     }
 
     if (last || b != prev_b) {
+      // Make sure blocks are valid and sorted correctly
+      if (prev_b / blockcols >= blockrows || block_index >= A->nnzblocks ||
+          (!last && b < prev_b)) {
+        fprintf(stderr, "Invalid block in data section.\n");
+        return -4;
+      }
+
       br = prev_b / blockcols;
       bc = prev_b % blockcols;
       br_offset = blockrow_offset[br];
-- 
2.43.0


From 5afded7d0972f73f901ea5e6f19812edfa89aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 13/40] fix: Matrix Market reader refuses missing, malformed
 and out of range entries

---
 include/io/input.h | 79 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 23 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 57d400d..cee093e 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -3,6 +3,7 @@
 
 #include <cassert>
 #include <cstdio>
+#include <cstring>
 
 #include "mm_io/mm_io.h"
 #include "common.h"
@@ -33,6 +34,29 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
   return 0;
 }
 
+/*
+ * Read the next entry of a Matrix Market file. Returns 0 on success or a
+ * negative number if there is no entry, if it is malformed or if it is outside
+ * the matrix.
+ */
+inline int read_mm_entry(FILE * f, unsigned long rows, unsigned long columns,
+                         unsigned long * r, unsigned long * c, double * val)
+{
+  char line[MM_MAX_LINE_LENGTH];
+  int end = 0;
+
+  // Skip empty lines
+  do {
+    if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) return -1;
+  } while (line[strspn(line, " \t\r\n")] == '\0');
+
+  if (sscanf(line, "%lu %lu %lg %n", r, c, val, &end) != 3) return -1;
+  if (line[end] != '\0') return -1;
+  if (*r < 1 || *r > rows || *c < 1 || *c > columns) return -1;
+
+  return 0;
+}
+
 /*
  * Function to read a COO matrix from a Matrix Market file. Makes use of the
  * library mm_io.c provided here :
@@ -47,7 +71,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Open file for reading
   MM_typecode matcode;
   FILE * f = fopen(filename, "r");
-  int symflag = 0, ret;
+  int symflag = 0;
   unsigned long r, c, counter, position;
   double val;
 
@@ -73,10 +97,19 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read size and allocate memory. Following function only works with ints
   int nr, nc, nnz;
   int ret_code = mm_read_mtx_crd_size(f, &nr, &nc, &nnz);
-  if (ret_code != 0) {
+  if (ret_code != 0 || nr < 0 || nc < 0 || nnz < 0) {
     fprintf(stderr, "Error while reading size information.\n");
+    fclose(f);
     return -4;
   }
+
+  // Even the shortest entry takes 4 bytes (including the end of line)
+  if (get_file_size(filename) / 4 < (size_t) nnz) {
+    fprintf(stderr, "There are less entries in the file than expected.\n");
+    fclose(f);
+    return -5;
+  }
+
   A->rows = (IT) nr;
   A->columns = (IT) nc;
   A->nnz = (IT) nnz;
@@ -85,16 +118,16 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
     fflush(f);
     position = ftell(f);
     counter = 0;
-    for (IT i=0; i<2*nnz; i++){
-        ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-        if(ret == EOF){
-          break;
+    for (int i=0; i<nnz; i++){
+        if (read_mm_entry(f, nr, nc, &r, &c, &val) != 0) {
+          fprintf(stderr, "Error while reading entries.\n");
+          fclose(f);
+          return -5;
+        }
+        if(r==c){
+          counter += 1;
         }else{
-          if(r==c){
-            counter += 1;
-          }else{
-            counter += 2;
-          }
+          counter += 2;
         }
     }
     nnz = counter;
@@ -107,18 +140,18 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 
   // Read everything as unsigned long and double. Convert to appropriate type later.
   for (IT i=0; i<nnz; i++){
-      ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-      if(ret == EOF){
-        A->nnz = i;
-        break;
-      }else{
-        set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
-
-        // If matrix is symmetric, add symmetric point
-        if(symflag && r!=c){
-          i++;
-          set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) val);
-        }
+      if (read_mm_entry(f, nr, nc, &r, &c, &val) != 0) {
+        fprintf(stderr, "Error while reading entries.\n");
+        release(*A);
+        fclose(f);
+        return -5;
+      }
+      set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
+
+      // If matrix is symmetric, add symmetric point
+      if(symflag && r!=c){
+        i++;
+        set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) val);
       }
   }
 
-- 
2.43.0


From c3104c27be389ec6d5429b806104ca108661ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 14/40] fix: mm_io bounds the banner tokens and refuses a
 malformed size line

---
 dep/mm_io/mm_io.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index cfefd2e..ca921de 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -3,6 +3,7 @@
 # include <stdlib.h>
 # include <ctype.h>
 # include <time.h>
+# include <limits.h>
 
 # include "mm_io.h"
 
@@ -85,7 +86,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     return MM_PREMATURE_EOF;
   }
 
-  if ( sscanf ( line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if ( sscanf ( line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
     storage_scheme ) != 5 )
   {
     return MM_PREMATURE_EOF;
@@ -431,7 +432,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  long rows, columns, entries;
 /*
   set return null parameter values, in case we exit with errors
 */
@@ -447,25 +448,24 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     {
       return MM_PREMATURE_EOF;
     }
-  } while (line[0] == '%');
+  } while (line[0] == '%' || line[strspn(line, " \t\r\n")] == '\0');
 /*
-  line[] is either blank or has M,N, nz
+  line[] has M,N, nz (comments and blank lines have been skipped)
 */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
+  if (sscanf(line, "%ld %ld %ld", &rows, &columns, &entries) != 3)
   {
-    return 0;
+    return MM_PREMATURE_EOF;
   }
-  else
+
+  if (rows < 0 || rows > INT_MAX || columns < 0 || columns > INT_MAX ||
+      entries < 0 || entries > INT_MAX)
   {
-    do
-    {
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-      if (num_items_read == EOF)
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
+    return MM_UNSUPPORTED_TYPE;
   }
+
+  *M = (int) rows;
+  *N = (int) columns;
+  *nz = (int) entries;
   return 0;
 }
 /******************************************************************************/
-- 
2.43.0


From 1739c12538512409495c0ae6bf476a5734a9c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 15/40] fix: Matrix Market reader handles pattern and
 skew-symmetric files

---
 include/io/input.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index cee093e..e46d164 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -40,6 +40,7 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
  * the matrix.
  */
 inline int read_mm_entry(FILE * f, unsigned long rows, unsigned long columns,
+                         bool pattern,
                          unsigned long * r, unsigned long * c, double * val)
 {
   char line[MM_MAX_LINE_LENGTH];
@@ -50,7 +51,14 @@ inline int read_mm_entry(FILE * f, unsigned long rows, unsigned long columns,
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) return -1;
   } while (line[strspn(line, " \t\r\n")] == '\0');
 
-  if (sscanf(line, "%lu %lu %lg %n", r, c, val, &end) != 3) return -1;
+  // Entries of a pattern file do not have a value
+  if (pattern) {
+    *val = 1.0;
+    if (sscanf(line, "%lu %lu %n", r, c, &end) != 2) return -1;
+  } else {
+    if (sscanf(line, "%lu %lu %lg %n", r, c, val, &end) != 3) return -1;
+  }
+
   if (line[end] != '\0') return -1;
   if (*r < 1 || *r > rows || *c < 1 || *c > columns) return -1;
 
@@ -83,21 +91,26 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read header and perform type checks
   if (mm_read_banner(f, &matcode) != 0){
       fprintf(stderr, "Could not process Matrix Market banner.\n");
+      fclose(f);
       return -2;
   }
 
-  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ){
+  if (mm_is_complex(matcode) || mm_is_hermitian(matcode) ||
+      !mm_is_coordinate(matcode) ){
       fprintf(stderr, "Sorry, this program does not support ");
       fprintf(stderr, "Market Market type: [%s]\n", mm_typecode_to_str(matcode));
+      fclose(f);
       return -3;
   }
 
-  if (mm_is_symmetric(matcode)) symflag = 1;
+  // Only half of a symmetric or skew-symmetric matrix is stored
+  if (mm_is_symmetric(matcode) || mm_is_skew(matcode)) symflag = 1;
+  bool pattern = mm_is_pattern(matcode);
 
   // Read size and allocate memory. Following function only works with ints
   int nr, nc, nnz;
   int ret_code = mm_read_mtx_crd_size(f, &nr, &nc, &nnz);
-  if (ret_code != 0 || nr < 0 || nc < 0 || nnz < 0) {
+  if (ret_code != 0 || nr < 0 || nc < 0 || nnz < 0 || (symflag && nr != nc)) {
     fprintf(stderr, "Error while reading size information.\n");
     fclose(f);
     return -4;
@@ -119,7 +132,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
     position = ftell(f);
     counter = 0;
     for (int i=0; i<nnz; i++){
-        if (read_mm_entry(f, nr, nc, &r, &c, &val) != 0) {
+        if (read_mm_entry(f, nr, nc, pattern, &r, &c, &val) != 0) {
           fprintf(stderr, "Error while reading entries.\n");
           fclose(f);
           return -5;
@@ -140,7 +153,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 
   // Read everything as unsigned long and double. Convert to appropriate type later.
   for (IT i=0; i<nnz; i++){
-      if (read_mm_entry(f, nr, nc, &r, &c, &val) != 0) {
+      if (read_mm_entry(f, nr, nc, pattern, &r, &c, &val) != 0) {
         fprintf(stderr, "Error while reading entries.\n");
         release(*A);
         fclose(f);
@@ -151,7 +164,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
       // If matrix is symmetric, add symmetric point
       if(symflag && r!=c){
         i++;
-        set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) val);
+        set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) (mm_is_skew(matcode) ? -val : val));
       }
   }
 
-- 
2.43.0


From bec342882a9342955657498600f0536f096d591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 16/40] fix: read_bin_array refuses files with an incomplete
 element

---
 include/io/input.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index e46d164..0c024ec 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -17,20 +17,31 @@
 template <class T>
 int read_bin_array(const char * filename, T ** data, size_t * num )
 {
-  size_t size = get_file_size(filename) / sizeof(T);
+  size_t bytes = get_file_size(filename);
+  size_t size = bytes / sizeof(T);
+
+  // An incomplete element means that the file is damaged
+  if (bytes % sizeof(T) != 0) return -3;
 
   // Allocate memory
   *num = size;
-  *data = (T *) malloc(size * sizeof(T));
+  *data = (T *) malloc((size + 1) * sizeof(T));
   if (*data==NULL) return -1;
 
   // Read data from file
   FILE * f = fopen(filename, "rb");
-  if (f==NULL) return -2;
+  if (f==NULL) {
+    free(*data);
+    return -2;
+  }
   size_t ret = fread( *data, sizeof(T), size, f);
-  if (ret < size) return -3;
-
   fclose(f);
+
+  if (ret < size) {
+    free(*data);
+    return -3;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 5f6d37a32e221ffd04a236d3abce3d30426e009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 17/40] fix: three-file reader checks file sizes and calculates
 the matrix dimensions

---
 include/io/input.h | 64 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 0c024ec..476caf3 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -183,6 +183,28 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   return 0;
 }
 
+/*
+ * Calculate the number of elements stored in three binary files (one for
+ * values, one for row indexes and one for column indexes). Returns 0 if all
+ * files have the same number of elements, a negative number otherwise.
+ */
+template <class T, class IT>
+int count_bin_COO(const char * file_row, const char * file_col, const char * file_val, IT * num)
+{
+  size_t size = get_file_size(file_val) / sizeof(T);
+
+  *num = (IT) size;
+  if ((size_t) *num != size ||
+      get_file_size(file_val) != size * sizeof(T) ||
+      get_file_size(file_row) != size * sizeof(IT) ||
+      get_file_size(file_col) != size * sizeof(IT)) {
+    fprintf(stderr, "Files do not have the same number of elements.\n");
+    return -1;
+  }
+
+  return 0;
+}
+
 /*
  * Read a Coo matrix from three binary files (one for values, one for row
  * indexes and one for column indexes). Files need to store their content as
@@ -192,13 +214,13 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
-  T val;
-  IT size, r, c;
+  IT size;
+  size_t counter;
   IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
-  // Read row file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  // Get size and make sure that files are complete
+  if (count_bin_COO<T,IT>(file_row, file_col, file_val, &size) < 0) return -1;
 
   // Allocate memory
   allocate(A, size);
@@ -210,7 +232,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->I, sizeof(IT), size, fr);
+  counter = fread(A->I, sizeof(IT), size, fr);
   for (IT i=0; i<size; i++){
     if(A->I[i] > max_row) max_row = A->I[i];
   }
@@ -224,7 +246,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->J, sizeof(IT), size, fc);
+  counter += fread(A->J, sizeof(IT), size, fc);
   for (IT i=0; i<size; i++){
     if(A->J[i] > max_col) max_col = A->J[i];
   }
@@ -233,13 +255,18 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Read value file
   fv = fopen(file_val, "rb");
-  if (fc == NULL) {
+  if (fv == NULL) {
     fprintf(stderr, "Cannot open values file.\n");
     return -1;
   }
 
-  fread(A->val, sizeof(T), size, fv);
-  fclose(fc);
+  counter += fread(A->val, sizeof(T), size, fv);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
@@ -260,12 +287,13 @@ template <typename T, typename IT,
 int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
   T vbuffer;
-  IT size, counter, buffer;
-  IT max_row, max_col;
+  IT size, buffer;
+  IT max_row = 0, max_col = 0;
+  size_t counter = 0;
   FILE *fr, *fc, *fv;
 
-  // Read values file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  // Get size and make sure that files are complete
+  if (count_bin_COO<T,IT>(file_row, file_col, file_val, &size) < 0) return -1;
 
   // Allocate memory
   allocate(A, size);
@@ -281,6 +309,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fr);
     A->set_row_index(i, buffer);
+    if (buffer > max_row) max_row = buffer;
   }
 
   fclose(fr);
@@ -297,6 +326,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fc);
     A->set_column_index(i, buffer);
+    if (buffer > max_col) max_col = buffer;
   }
 
   fclose(fc);
@@ -315,7 +345,13 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     A->set_value(i, vbuffer);
   }
 
-  fclose(fc);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
-- 
2.43.0


From fb42b33fc2829f011b6f62542e0508bdae9a0a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 18/40] fix: binary reader refuses short files and elements
 outside the matrix

---
 include/io/input.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 476caf3..91867da 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -367,9 +367,10 @@ template <typename T, typename IT,
           template <typename, typename> class COO>
 int read_bin_COO(COO<T,IT> * A, const char * filename)
 {
-    IT counter, buffer;
-    T vbuffer;
+    IT buffer = 0;
+    T vbuffer = 0;
     FILE * f;
+    size_t counter;
 
     f = fopen(filename, "rb");
     if (f == NULL) {
@@ -384,23 +385,33 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     counter += fread(&(A->nnz), sizeof(IT), 1, f);
     if (counter != 3) {
         fprintf(stderr, "Failed to read matrix header.\n");
+        fclose(f);
         return -2;
     }
 
+    // Make sure that the announced elements are there and nothing more
+    size_t data_size = get_file_size(filename) - 3 * sizeof(IT);
+    size_t element_size = 2 * sizeof(IT) + sizeof(T);
+    if (data_size / element_size != A->nnz || data_size % element_size != 0) {
+        fprintf(stderr, "File does not have the expected number of elements.\n");
+        fclose(f);
+        return -4;
+    }
+
     // Memory allocation
     allocate(A, A->nnz);
 
-    // Reading rest of the file
+    // Reading rest of the file. Elements outside the matrix are not counted.
     counter = 0;
     for (IT i=0; i<A->nnz; i++)
     {
-        counter += fread(&buffer, sizeof(IT), 1, f);
+        if (fread(&buffer, sizeof(IT), 1, f) == 1 && buffer < A->rows) counter++;
         A->set_row_index(i, buffer);
     }
 
     for (IT i=0; i<A->nnz; i++)
     {
-        counter += fread(&buffer, sizeof(IT), 1, f);
+        if (fread(&buffer, sizeof(IT), 1, f) == 1 && buffer < A->columns) counter++;
         A->set_column_index(i, buffer);
     }
 
@@ -410,9 +421,11 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
         A->set_value(i, vbuffer);
     }
 
-    if (counter != 3 * A->nnz)
+    if (counter != 3 * (size_t) A->nnz)
     {
         fprintf(stderr, "Failed to read matrix.\n");
+        release(*A);
+        fclose(f);
         return -4;
     }
 
-- 
2.43.0


From 25163c2854bd41aaa96ed64bad955d426328fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 19/40] fix: CSR readers compile for CSR(2), refuse damaged
 files and read values at their size

---
 include/io/input.h | 102 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 88 insertions(+), 14 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 91867da..a2a30c8 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cstdio>
 #include <cstring>
+#include <limits>
 
 #include "mm_io/mm_io.h"
 #include "common.h"
@@ -451,6 +452,35 @@ int read_COO(COO<T,IT> * A, const char * filename)
     return -1;
 }
 
+/*
+ * Read the header of a binary triples file that is going to be read to a CSR
+ * matrix. Returns 0 if the header was read successfully and the file has
+ * exactly the announced number of elements, a negative number otherwise.
+ */
+template <class T, class IT>
+int read_bin_CSR_header(FILE * f, const char * filename, IT * rows, IT * columns, IT * nnz)
+{
+  size_t n, data_size;
+  const size_t element_size = 2 * sizeof(IT) + sizeof(T);
+
+  n  = fread(rows, sizeof(IT), 1, f);
+  n += fread(columns, sizeof(IT), 1, f);
+  n += fread(nnz, sizeof(IT), 1, f);
+  if (n != 3) {
+    fprintf(stderr, "Failed to read matrix header.\n");
+    return -2;
+  }
+
+  data_size = get_file_size(filename) - 3 * sizeof(IT);
+  if (data_size / element_size != *nnz || data_size % element_size != 0 ||
+      *rows == std::numeric_limits<IT>::max()) {
+    fprintf(stderr, "File does not have the expected number of elements.\n");
+    return -4;
+  }
+
+  return 0;
+}
+
 /*
  * Read a sparse matrix from a binary triples file. The file is read to a CSR
  * matrix.
@@ -460,6 +490,7 @@ template <class T, class IT>
 int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
+  size_t n = 0;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -469,9 +500,11 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  int ret = read_bin_CSR_header<T, IT>(f, filename, &(A->rows), &(A->columns), &nnz);
+  if (ret < 0) {
+    fclose(f);
+    return ret;
+  }
 
   DEBUG(puts("Reading header done"));
 
@@ -483,14 +516,33 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   DEBUG(puts("Memory allocation done"));
 
   // Read data section
+  IT previous_row = 0;
   for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+    // Elements have to be sorted and inside the matrix
+    if (fread(&current_row, sizeof(IT), 1, f) != 1 ||
+        current_row >= A->rows || current_row < previous_row) {
+      fprintf(stderr, "Failed to read matrix.\n");
+      release(*A);
+      fclose(f);
+      return -4;
+    }
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
+    previous_row = current_row;
   }
-  fread(A->col_ind, sizeof(IT), nnz, f);
-  fread(A->val, sizeof(T), nnz, f);
+  n  = fread(A->col_ind, sizeof(IT), nnz, f);
+  n += fread(A->val, sizeof(T), nnz, f);
   fclose(f);
 
+  for(IT i=0; i<nnz; i++){
+    if (A->col_ind[i] >= A->columns) n = 0;
+  }
+
+  if (n != 2 * (size_t) nnz) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -4;
+  }
+
   DEBUG(puts("Reading data done"));
 
   // Get row pointers from row non-zero counters
@@ -511,6 +563,7 @@ template <class T, class IT>
 int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
+  size_t n = 0;
 
   // Open file for writing
   FILE * f = fopen(filename, "rb");
@@ -520,28 +573,49 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  int ret = read_bin_CSR_header<T, IT>(f, filename, &(A->rows), &(A->columns), &nnz);
+  if (ret < 0) {
+    fclose(f);
+    return ret;
+  }
 
   // Allocate memory
-  A->nonzeros = new NonZero<T,IT>[nnz];
-  A->row_ptr = new IT[A->rows]();
+  A->data = new NonZero<T,IT>[nnz];
+  A->row_ptr = new IT[A->rows + 1]();
 
   // Read data section
+  IT previous_row = 0;
   for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+    // Elements have to be sorted and inside the matrix
+    if (fread(&current_row, sizeof(IT), 1, f) != 1 ||
+        current_row >= A->rows || current_row < previous_row) {
+      fprintf(stderr, "Failed to read matrix.\n");
+      release(*A);
+      fclose(f);
+      return -4;
+    }
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
+    previous_row = current_row;
   }
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].index), sizeof(IT), 1, f);
+    n += fread(&(A->data[i].index), sizeof(IT), 1, f);
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].val), sizeof(IT), 1, f);
+    n += fread(&(A->data[i].val), sizeof(T), 1, f);
 
   fclose(f);
 
+  for(IT i=0; i<nnz; i++){
+    if (A->data[i].index >= A->columns) n = 0;
+  }
+
+  if (n != 2 * (size_t) nnz) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -4;
+  }
+
   // Get row pointers from row non-zero counters
   for(IT i=0; i<A->rows; i++){
     A->row_ptr[i+1] = A->row_ptr[i+1] + A->row_ptr[i];
-- 
2.43.0


From 88eaddbdabf7ad611463c262c4315f637baf1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 20/40] fix: blocked file readers refuse files with missing or
 additional records

---
 include/io/blocked.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 220c661..78466d3 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -24,9 +24,9 @@
  *   blockcol_offset
  */
 template <class BLOCKEDTYPE, class IT>
-FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols)
+FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols, size_t record_size)
 {
-  size_t n;
+  size_t n, data_size;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -53,6 +53,14 @@ FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * bloc
   assert(A->blockrow_offset[A->blockrows] == A->rows);
   assert(A->blockcol_offset[A->blockcols] == A->columns);
 
+  // The file has to have exactly the announced number of records
+  data_size = get_file_size(filename) - 6 * sizeof(IT);
+  if (data_size / record_size != A->nnz || data_size % record_size != 0 ||
+      A->nnzblocks > A->nnz) {
+    fprintf(stderr, "File does not have the expected number of records.\n");
+    exit(1);
+  }
+
   DEBUG(printf("\nReading header done\n"));
   return f;
 }
@@ -73,7 +81,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   size_t fr;
 
   // Open file, read header and validate
-  FILE * f = read_bin_blocked_common<Csbr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  FILE * f = read_bin_blocked_common<Csbr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols, 3 * sizeof(IT) + sizeof(T));
 
   // Allocate memory
   A->blocks = (Csr<T,IT> *) malloc( A->nnzblocks * sizeof(Csr<T,IT>));
@@ -185,7 +193,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
   size_t fr;
 
   // Open file, read header and validate
-  FILE * f = read_bin_blocked_common<Csbr2<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  FILE * f = read_bin_blocked_common<Csbr2<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols, 3 * sizeof(IT) + sizeof(T));
 
   // Allocate memory
   A->blockrow_ptr = (IT *) calloc( A->blockrows + 1 , sizeof(IT));
@@ -304,7 +312,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
   size_t fr;
 
   // Open file, read header and validate
-  FILE * f = read_bin_blocked_common<Bcsr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  FILE * f = read_bin_blocked_common<Bcsr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols, 3 * sizeof(IT) + sizeof(T));
 
   // Allocate memory
   A->blocks = (Csr<T, IT> *) malloc( A->blockrows * A->blockcols * sizeof(Csr<T, IT>));
@@ -398,7 +406,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   const long record_size = 3 * sizeof(IT) + sizeof(T);
 
   // Open file, read header and validate
-  FILE * f = read_bin_blocked_common<Cgbr<T, IT, SIT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  FILE * f = read_bin_blocked_common<Cgbr<T, IT, SIT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols, 3 * sizeof(IT) + sizeof(T));
 
   // Allocate memory
   A->blocks = new MatrixBlock<T, IT, SIT>[A->nnzblocks];
-- 
2.43.0


From b13b5236849cf7696aaa3db87191e473b4d7cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 21/40] fix: writers report data that could not be stored

---
 include/io/output.h | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/include/io/output.h b/include/io/output.h
index b728494..1299533 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -6,6 +6,17 @@
 #include "common.h"
 #include "matrix/coo.3.h"
 
+/*
+ * Close a file that has been written. It returns 0 if everything was stored
+ * successfully, a negative number otherwise.
+ */
+inline int close_output(FILE * f)
+{
+  int error = ferror(f);
+  if (fclose(f) != 0 || error) return -1;
+  return 0;
+}
+
 /*
  * Write binary data to a file.
  */
@@ -19,9 +30,8 @@ int write_bin_array(const char * filename, T * data, size_t num )
   f = fopen(filename, "wb");
   if (f==NULL) return -1;
   ret = fwrite(data, sizeof(T), num, f);
-  if (ret < num) return -2;
 
-  fclose(f);
+  if (close_output(f) < 0 || ret < num) return -2;
   return 0;
 }
 
@@ -70,7 +80,10 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   }
 
   // Close file
-  fclose(f);
+  if (close_output(f) < 0) {
+    fprintf(stderr, "Failed to write matrix.\n");
+    return -2;
+  }
   return 0;
 }
 
@@ -99,6 +112,9 @@ int write_bin_COO(COO<T,IT> * A,
 
   if (fv == NULL || fr == NULL || fc == NULL) {
     fprintf(stderr, "Cannot open one of the files.\n");
+    if (fv != NULL) fclose(fv);
+    if (fr != NULL) fclose(fr);
+    if (fc != NULL) fclose(fc);
     return -1;
   }
 
@@ -108,7 +124,7 @@ int write_bin_COO(COO<T,IT> * A,
     r = A->get_row_index(i);
     fwrite(&r, sizeof(IT), 1, fr);
   }
-  fclose(fr);
+  ret = close_output(fr);
 
   // Write column file
   for (i=0; i<size; i++)
@@ -116,7 +132,7 @@ int write_bin_COO(COO<T,IT> * A,
     c = A->get_column_index(i);
     fwrite(&c, sizeof(IT), 1, fc);
   }
-  fclose(fc);
+  ret += close_output(fc);
 
   // Write value file
   for (i=0; i<size; i++)
@@ -124,7 +140,12 @@ int write_bin_COO(COO<T,IT> * A,
     val = A->get_value(i);
     fwrite(&val, sizeof(T), 1, fv);
   }
-  fclose(fv);
+  ret += close_output(fv);
+
+  if (ret < 0) {
+    fprintf(stderr, "Failed to write matrix.\n");
+    return -2;
+  }
 
   return 0;
 }
@@ -169,7 +190,10 @@ int write_bin_COO(COO<T,IT> A, const char * filename)
         fwrite(&vbuffer, sizeof(T), 1, f);
     }
 
-    fclose(f);
+    if (close_output(f) < 0) {
+        fprintf(stderr, "Failed to write matrix.\n");
+        return -2;
+    }
     return 0;
 }
 
@@ -204,7 +228,10 @@ int write_bin_blocked(Coo3<T, IT> A, const char * filename)
     fwrite(&(A.elements[i].val) , sizeof(T), 1, f);
   }
 
-  fclose(f);
+  if (close_output(f) < 0) {
+    fprintf(stderr, "Failed to write matrix.\n");
+    return -2;
+  }
   return 0;
 }
 
-- 
2.43.0


From 45479da64cb9519aab36e361b16b3b97572463a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 22/40] fix: Matrix Market writer keeps the exact value

---
 include/io/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/io/output.h b/include/io/output.h
index 1299533..c2560c7 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -76,7 +76,7 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
     val = A->get_value(i);
 
     // MM uses 1-based indexing
-    fprintf(f, "%lu %lu %f\n", r+1, c+1, (double) val);
+    fprintf(f, "%lu %lu %.17g\n", r+1, c+1, (double) val);
   }
 
   // Close file
-- 
2.43.0


From db29c53161bff71cb5cc4be198b7581430d44abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 23/40] fix: tools do not truncate long file names

---
 src/tools/convert.cpp    |  8 +++-----
 src/tools/double2float.c |  5 ++---
 src/tools/expanded.cpp   |  8 +++-----
 src/tools/one2zero.c     |  5 ++---
 src/tools/permute.cpp    |  8 +++-----
 src/tools/prepare.cpp    | 17 ++++++-----------
 src/tools/sort.cpp       | 14 +++++---------
 7 files changed, 24 insertions(+), 41 deletions(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 31e89f7..a5fe3a9 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -11,7 +11,7 @@
 
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
-#define FNBUFL 128
+#define FNBUFL 5000 // Enough for the longest path and a suffix
 
 /*
  * This executable reads a matrix in COO format (as Coo3) and an array of block
@@ -63,8 +63,7 @@ int main(int argc, char * argv[])
 
   // Create a matrix market file
   if (mtx) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".mtx");
+    snprintf(buf, FNBUFL, "%s%s", argv[4], ".mtx");
     printf("Writing to file %s ...", buf); fflush(stdout);
     tick();
     ret = write_mm_COO(&A, buf);
@@ -78,8 +77,7 @@ int main(int argc, char * argv[])
 
   // Create a binary triplet file
   if (bin) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".bin");
+    snprintf(buf, FNBUFL, "%s%s", argv[4], ".bin");
     printf("Writing to file %s ...", buf); fflush(stdout);
     tick();
     ret = write_bin_COO(A, buf);
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 33ef055..82c055a 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -4,7 +4,7 @@
 #include <string.h>
 
 #define SUFFIX ".float"
-#define FNBUFL 128
+#define FNBUFL 5000 // Enough for the longest path and a suffix
 
 #define OLDTYPE double
 #define NEWTYPE float
@@ -25,8 +25,7 @@ int main(int argc, char * argv[])
   for(int i=1; i<argc; i++){
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
-    strcat(buf, SUFFIX);
+    snprintf(buf, FNBUFL, "%s%s", argv[i], SUFFIX);
     printf("Output file : %s\n", buf);
 
     size = 0;
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 688c3f2..6a54c3b 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -10,7 +10,7 @@
 #include "io/output.h"
 
 #define SUFFIX ".exp%lu"
-#define FNBUFL 256
+#define FNBUFL 5000 // Enough for the longest path and a suffix
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
 
@@ -20,7 +20,7 @@ int main(int argc, char * argv[]){
   INDEXTYPE *block_size, *block_offset;
   int i, ret;
   size_t blocks;
-  char buf[FNBUFL], buf2[FNBUFL];
+  char buf[FNBUFL];
   double t;
 
   if (argc < 6){
@@ -72,9 +72,7 @@ int main(int argc, char * argv[]){
   A.columns = new_block_size * A.blockcols;
 
   // Create new filename for output
-  strncpy(buf, argv[5], FNBUFL-10);
-  sprintf(buf2, SUFFIX, (unsigned long) new_block_size);
-  strcat(buf, buf2);
+  snprintf(buf, FNBUFL, "%s" SUFFIX, argv[5], (unsigned long) new_block_size);
   printf("Output file : %s\n", buf);
 
   // Write result to disk
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 9b8520d..bb7e46e 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -4,7 +4,7 @@
 #include <string.h>
 
 #define SUFFIX ".zero"
-#define FNBUFL 128
+#define FNBUFL 5000 // Enough for the longest path and a suffix
 #define INDEXTYPE uint32_t
 
 int main (int argc, char * argv[])
@@ -22,8 +22,7 @@ int main (int argc, char * argv[])
   for (int i=1; i<argc; i++) {
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
-    strcat(buf, SUFFIX);
+    snprintf(buf, FNBUFL, "%s%s", argv[i], SUFFIX);
     printf("Output file : %s\n", buf);
 
     // Read whole array into memory
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 8536b35..3181313 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -9,7 +9,7 @@
 #include "io/output.h"
 
 #define SUFFIX ".permuted"
-#define FNBUFL 128
+#define FNBUFL 5000 // Enough for the longest path and a suffix
 #define INDEXTYPE uint32_t
 
 int main(int argc, char * argv[])
@@ -53,8 +53,7 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[2], FNBUFL-10);
-  strcat(buf, SUFFIX);
+  snprintf(buf, FNBUFL, "%s%s", argv[2], SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
 
   // Write result to disk
@@ -78,8 +77,7 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[1], FNBUFL-10);
-  strcat(buf, SUFFIX);
+  snprintf(buf, FNBUFL, "%s%s", argv[1], SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
 
   // Write result to disk
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 3a4f9df..b5c528d 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -11,7 +11,7 @@
 #include "io/input.h"
 #include "io/output.h"
 
-#define FNBUFL 256
+#define FNBUFL 5000 // Enough for the longest path and a suffix
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
 #define TMPROWS "/tmp/csbr_prepare/rows"
@@ -20,7 +20,7 @@
 int main(int argc, char * argv[])
 {
   int i, ret;
-  char buf[FNBUFL], ext[FNBUFL];
+  char buf[FNBUFL];
   double t;
   size_t perm_size, index_size, blocks;
 
@@ -135,8 +135,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted rows
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".row");
+  snprintf(buf, FNBUFL, "%s%s", argv[6], ".row");
   printf("Writing to file %s ...", buf); fflush(stdout);
 
   tick();
@@ -162,8 +161,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write file in binary blocked format
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".block");
+  snprintf(buf, FNBUFL, "%s%s", argv[6], ".block");
 
   printf("Writing to file %s ...", buf); fflush(stdout);
   tick();
@@ -183,8 +181,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".col");
+  snprintf(buf, FNBUFL, "%s%s", argv[6], ".col");
 
   printf("Writing to file %s ...", buf); fflush(stdout);
   tick();
@@ -204,9 +201,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns and expanded indeces
-  strncpy(buf, argv[6], FNBUFL-20);
-  snprintf(ext, FNBUFL, ".col.exp%lu", (unsigned long) new_block_size);
-  strcat(buf, ext);
+  snprintf(buf, FNBUFL, "%s.col.exp%lu", argv[6], (unsigned long) new_block_size);
   A.rows = new_block_size * A.blockrows;
   A.columns = new_block_size * A.blockcols;
 
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index e9e545e..2099008 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -9,7 +9,7 @@
 #include "io/output.h"
 
 #define SUFFIX ".sorted"
-#define FNBUFL 128
+#define FNBUFL 5000 // Enough for the longest path and a suffix
 
 int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
@@ -65,16 +65,13 @@ int main(int argc, char * argv[]){
     case 5 :
     case 4 :
       // Create new filenames for output
-      strncpy(buf_row, argv[1], FNBUFL-10);
-      strcat(buf_row, SUFFIX);
+      snprintf(buf_row, FNBUFL, "%s%s", argv[1], SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_row);
 
-      strncpy(buf_col, argv[2], FNBUFL-10);
-      strcat(buf_col, SUFFIX);
+      snprintf(buf_col, FNBUFL, "%s%s", argv[2], SUFFIX);
       fprintf(stdout, "Output file for columns : %s\n", buf_col);
 
-      strncpy(buf_val, argv[3], FNBUFL-10);
-      strcat(buf_val, SUFFIX);
+      snprintf(buf_val, FNBUFL, "%s%s", argv[3], SUFFIX);
       fprintf(stdout, "Output file for values : %s\n", buf_val);
 
       // Write result to disk
@@ -83,8 +80,7 @@ int main(int argc, char * argv[]){
     case 3 :
     case 2 :
       // Create filename for output
-      strncpy(buf_mtx, argv[1], FNBUFL-10);
-      strcat(buf_mtx, SUFFIX);
+      snprintf(buf_mtx, FNBUFL, "%s%s", argv[1], SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_mtx);
 
       // Write result to disk
-- 
2.43.0


From 5d9100ca90eafcebdf89860f0cbbad5bf882ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 24/40] fix: tools report read and write errors in their exit
 status

---
 src/tools/convert.cpp         |  6 ++++--
 src/tools/convert_blocked.cpp |  5 +++--
 src/tools/double2float.c      | 10 ++++++++--
 src/tools/expanded.cpp        |  5 +++--
 src/tools/one2zero.c          | 16 +++++++++++++---
 src/tools/permute.cpp         |  6 ++++--
 src/tools/prepare.cpp         |  8 ++++++--
 src/tools/sort.cpp            |  5 +++--
 8 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index a5fe3a9..548840b 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -22,7 +22,7 @@ int main(int argc, char * argv[])
 {
   Coo2<VALUETYPE, INDEXTYPE> A;
   char buf[FNBUFL];
-  int ret;
+  int ret, status = 0;
   double t;
   bool bin = false, mtx = false;
 
@@ -70,6 +70,7 @@ int main(int argc, char * argv[])
     t = tock();
     if(ret<0){
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      status = 1;
     }else{
       printf(" done in %.3f sec\n", t);
     }
@@ -84,11 +85,12 @@ int main(int argc, char * argv[])
     t = tock();
     if (ret<0) {
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      status = 1;
     } else {
       printf(" done in %.3f sec\n", t);
     }
   }
 
   release(A);
-  return 0;
+  return status;
 }
diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 7eb6c51..04d179b 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -20,7 +20,7 @@ Matrix  must be zero-indexed
 */
 int main(int argc, char * argv[]){
   Coo3<VALUETYPE, INDEXTYPE> A;
-  int i, ret;
+  int i, ret, status = 0;
   double t;
   size_t size;
   INDEXTYPE *block_sizes, *block_offsets;
@@ -94,10 +94,11 @@ int main(int argc, char * argv[]){
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
 
   free(A.elements);
-  return 0;
+  return status;
 }
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 82c055a..072ed6a 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -12,6 +12,7 @@
 int main(int argc, char * argv[])
 {
   unsigned long size;
+  int error;
   char buf[FNBUFL];
   OLDTYPE v;
   NEWTYPE v_new;
@@ -30,7 +31,7 @@ int main(int argc, char * argv[])
 
     size = 0;
     f_in = fopen(argv[i], "rb");
-    f_out = fopen(buf, "wb");
+    f_out = (f_in == NULL) ? NULL : fopen(buf, "wb");
 
     if(f_in == NULL || f_out == NULL){
       fprintf(stderr, "Cannot open files. Aborting.\n");
@@ -43,8 +44,13 @@ int main(int argc, char * argv[])
       fwrite(&v_new, sizeof(NEWTYPE), 1, f_out);
     }
 
+    // Everything should have been read and stored
+    error = ferror(f_in) || (unsigned long) ftell(f_in) != size * sizeof(OLDTYPE) || ferror(f_out);
     fclose(f_in);
-    fclose(f_out);
+    if (fclose(f_out) != 0 || error) {
+      fprintf(stderr, "Conversion failed. Aborting.\n");
+      exit(1);
+    }
 
     printf("Conversion complete : %lu values\n", size);
   }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 6a54c3b..65bec2f 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -18,7 +18,7 @@ int main(int argc, char * argv[]){
   Coo3<VALUETYPE, INDEXTYPE> A;
   INDEXTYPE new_block_size;
   INDEXTYPE *block_size, *block_offset;
-  int i, ret;
+  int i, ret, status = 0;
   size_t blocks;
   char buf[FNBUFL];
   double t;
@@ -79,6 +79,7 @@ int main(int argc, char * argv[]){
   ret = write_bin_COO(A, buf);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    status = 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -87,5 +88,5 @@ int main(int argc, char * argv[]){
   free(block_size);
   free(block_offset);
   free(A.elements);
-  return 0;
+  return status;
 }
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index bb7e46e..06663a4 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -10,6 +10,7 @@
 int main (int argc, char * argv[])
 {
   unsigned long size;
+  size_t count;
   char buf[FNBUFL];
   INDEXTYPE *indeces, n;
   FILE *f_in, *f_out;
@@ -38,8 +39,13 @@ int main (int argc, char * argv[])
     indeces = (INDEXTYPE *) malloc(n * sizeof(INDEXTYPE));
 
     fseek(f_in, 0, SEEK_SET);
-    fread(indeces, sizeof(INDEXTYPE), n, f_in);
+    count = fread(indeces, sizeof(INDEXTYPE), n, f_in);
     fclose(f_in);
+    if (count * sizeof(INDEXTYPE) != size) {
+        fprintf(stderr, "Could not read file\n");
+        free(indeces);
+        return 1;
+    }
 
     // Convert and check
     for (INDEXTYPE j=0; j<n; j++) {
@@ -59,8 +65,12 @@ int main (int argc, char * argv[])
       return 1;
     }
 
-    fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
-    fclose(f_out);
+    count = fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
+    if (fclose(f_out) != 0 || count != n) {
+        fprintf(stderr, "Could not write output file. Aborting.\n");
+        free(indeces);
+        return 1;
+    }
 
     printf("Conversion complete : %lu values\n", (unsigned long ) n);
     free(indeces);
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 3181313..ef05e37 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -15,7 +15,7 @@
 int main(int argc, char * argv[])
 {
   INDEXTYPE *I, *permutation, *inv_permutation;
-  int i, ret;
+  int i, ret, status = 0;
   size_t perm_size, size;
   char buf[FNBUFL];
 
@@ -60,6 +60,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if (ret<0) {
     fprintf(stderr, "Error while writing result to disk.\n");
+    status = 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -84,6 +85,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    status = 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -92,5 +94,5 @@ int main(int argc, char * argv[])
 
   // Clean up
   free(permutation);
-  return 0;
+  return status;
 }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index b5c528d..8977bad 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -19,7 +19,7 @@
 
 int main(int argc, char * argv[])
 {
-  int i, ret;
+  int i, ret, status = 0;
   char buf[FNBUFL];
   double t;
   size_t perm_size, index_size, blocks;
@@ -143,6 +143,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -169,6 +170,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -189,6 +191,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -211,6 +214,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -223,5 +227,5 @@ int main(int argc, char * argv[])
   // Clean up temporary storage
   system("rm -rf /tmp/csbr_prepare");
 
-  return 0;
+  return status;
 }
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index 2099008..4e1fb31 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -13,7 +13,7 @@
 
 int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
-  int i, ret1=0, ret2=0;
+  int i, ret1=0, ret2=0, status=0;
   size_t size;
   uint32_t * block_sizes;
   char buf_row[FNBUFL], buf_col[FNBUFL], buf_val[FNBUFL], buf_mtx[FNBUFL];
@@ -91,8 +91,9 @@ int main(int argc, char * argv[]){
   // Check write
   if(ret1<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    status = 1;
   }
 
   release(A);
-  return 0;
+  return status;
 }
-- 
2.43.0


From 0a8287711792f1238cafc9a3a5e8529ad7eaaa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 25/40] fix: sort tool reads the block sizes it is given and
 uses them as sizes

---
 src/tools/sort.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index 4e1fb31..bf10d51 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -15,7 +15,7 @@ int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0, status=0;
   size_t size;
-  uint32_t * block_sizes;
+  uint32_t * block_sizes, * block_offsets;
   char buf_row[FNBUFL], buf_col[FNBUFL], buf_val[FNBUFL], buf_mtx[FNBUFL];
 
   // Read files
@@ -27,7 +27,7 @@ int main(int argc, char * argv[]){
                             (&A, argv[1], argv[2], argv[3]);
       break;
     case 3 :
-      ret2 = read_bin_array(argv[4], &block_sizes, &size );
+      ret2 = read_bin_array(argv[2], &block_sizes, &size );
     case 2 :
       ret1 = read_mm_COO(&A, argv[1]);
       break;
@@ -50,8 +50,15 @@ int main(int argc, char * argv[]){
     case 5 :
     case 3 :
       // Sort according to blocks
+      block_offsets = (uint32_t *) malloc((size + 1) * sizeof(uint32_t));
+      size_to_offset(block_offsets, block_sizes, (uint32_t) size);
+      if (A.rows > block_offsets[size] || A.columns > block_offsets[size]) {
+        fprintf(stderr, "Block sizes do not cover the matrix.\n");
+        exit(1);
+      }
       sort_triplets_blocks(A.triplets, A.nnz,
-            block_sizes, (uint32_t) size, block_sizes, (uint32_t) size);
+            block_offsets, (uint32_t) size, block_offsets, (uint32_t) size);
+      free(block_offsets);
       break;
     case 4 :
     case 2 :
-- 
2.43.0


From 4e887cf30e57495a9c8067478f911cc5586607a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 26/40] fix: blocked tools take the dimensions from the block
 sizes and refuse unusable input

---
 src/tools/convert_blocked.cpp |  9 +++++++--
 src/tools/expanded.cpp        | 16 ++++++++++++----
 src/tools/prepare.cpp         |  9 ++++++---
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 04d179b..7de4832 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -52,8 +52,6 @@ int main(int argc, char * argv[]){
   }
   size_to_offset(block_offsets, block_sizes, A.blockrows);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
   free(block_sizes);  // Block sizes not needed anymore
 
   printf("Reading matrix from disk..."); fflush(stdout);
@@ -66,6 +64,13 @@ int main(int argc, char * argv[]){
   }
   printf(" done in %.3f sec\n", t);
 
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Block sizes do not cover the matrix.\n");
+    exit(1);
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
+
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
   printf("Calculating block ids..."); fflush(stdout);
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 65bec2f..476667a 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -37,19 +37,27 @@ int main(int argc, char * argv[]){
 
   block_offset = (INDEXTYPE *) malloc((blocks+1) * sizeof(INDEXTYPE));
   size_to_offset(block_offset, block_size, (INDEXTYPE) blocks);
-  A.rows = block_offset[blocks];
-  A.columns = block_offset[blocks];
   A.blockrows = (INDEXTYPE) blocks;
   A.blockcols = (INDEXTYPE) blocks;
 
   printf("Matrix info :\n\t%lu rows x %lu columns\n\t%lu blocks\n",
-          (unsigned long) A.rows, (unsigned long) A.columns,
+          (unsigned long) block_offset[blocks],
+          (unsigned long) block_offset[blocks],
           (unsigned long) A.blockrows);
 
   printf("Reading matrix from disk..."); fflush(stdout);
-  read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  if(ret<0){
+    fprintf(stderr, "Error while reading matrix.\n");
+    return 1;
+  }
   printf(" done\n");
 
+  if(A.rows > block_offset[blocks] || A.columns > block_offset[blocks]){
+    fprintf(stderr, "Block sizes do not cover the matrix.\n");
+    return 1;
+  }
+
   printf("Calculating block ids... "); fflush(stdout);
   tick();
   calculate_block_id(A.elements, A.nnz, block_offset, A.blockrows, block_offset, A.blockcols);
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 8977bad..bd1cf0d 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -109,14 +109,17 @@ int main(int argc, char * argv[])
   }
   size_to_offset(block_offsets, block_sizes, (INDEXTYPE) blocks);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
-
   ret = read_bin_COO(&A, TMPROWS, TMPCOLS, argv[3]);
   if(ret<0){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
   }
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Block sizes do not cover the matrix.\n");
+    exit(1);
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
   printf("Matrix loaded to memory.\n");
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
-- 
2.43.0


From deeb036b0292c9daeddab5db8f20e5aa0b99b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 27/40] fix: permuting tools refuse indices outside the
 permutation vector

---
 include/permute.h     | 30 ++++++++++++++++++++++++++++++
 src/tools/permute.cpp | 13 +++++++++++++
 src/tools/prepare.cpp | 12 ++++++++++++
 3 files changed, 55 insertions(+)

diff --git a/include/permute.h b/include/permute.h
index decf97f..b4caede 100644
--- a/include/permute.h
+++ b/include/permute.h
@@ -1,6 +1,8 @@
 #ifndef _PERMUTE_H_
 #define _PERMUTE_H_
 
+#include <cstddef>
+#include <vector>
 #include <omp.h>
 
 // This function is copied and slightly modified from SuiteSParse library
@@ -18,6 +20,34 @@ IT * invert_permutation (IT const * p, IT size)
     return pinv;
 }
 
+/*
+ * Check that all indeces are smaller than size (eg. the size of the permutation
+ * vector that is going to be applied to them).
+ */
+template <typename IT>
+bool valid_indeces (IT const * indeces, size_t n, size_t size)
+{
+    for (size_t i=0; i<n; i++) {
+        if (indeces[i] >= size) return false;
+    }
+    return true;
+}
+
+/*
+ * Check that a vector is a permutation, so that it can be inverted.
+ */
+template <typename IT>
+bool valid_permutation (IT const * p, size_t size)
+{
+    std::vector<bool> found(size, false);
+
+    for (size_t i=0; i<size; i++) {
+        if (p[i] >= size || found[p[i]]) return false;
+        found[p[i]] = true;
+    }
+    return true;
+}
+
 /*
  * Applies row/column permutation to a matrix if indeces holds the row/column
  * indeces of the matrix non-zeros (COO format)
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index ef05e37..c530fef 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -31,6 +31,11 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : permutation vector of size %lu\n", perm_size);
 
+  if (!valid_permutation(permutation, perm_size)) {
+    fprintf(stderr, "File does not hold a permutation vector.\n");
+    return 1;
+  }
+
   #ifdef INVPERM
   inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
   if (inv_permutation == NULL) {
@@ -50,6 +55,10 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu column indeces\n", size);
 
+  if (!valid_indeces(I, size, perm_size)) {
+    fprintf(stderr, "Indeces are outside the permutation vector.\n");
+    return 1;
+  }
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
@@ -75,6 +84,10 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu row indeces\n", size);
 
+  if (!valid_indeces(I, size, perm_size)) {
+    fprintf(stderr, "Indeces are outside the permutation vector.\n");
+    return 1;
+  }
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index bd1cf0d..251105d 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -43,6 +43,10 @@ int main(int argc, char * argv[])
     fprintf(stderr, "Error while reading permutation vector. Error : %d\n", ret);
     exit(1);
   }
+  if (!valid_permutation(permutation_vec, perm_size)) {
+    fprintf(stderr, "File does not hold a permutation vector.\n");
+    return 1;
+  }
   printf("Loaded permutation vector of size %lu\n", perm_size);
 
   // Permute rows
@@ -53,6 +57,10 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  if (!valid_indeces(indeces, index_size, perm_size)) {
+    fprintf(stderr, "Indeces are outside the permutation vector.\n");
+    return 1;
+  }
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted row indeces to disk
@@ -74,6 +82,10 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  if (!valid_indeces(indeces, index_size, perm_size)) {
+    fprintf(stderr, "Indeces are outside the permutation vector.\n");
+    return 1;
+  }
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted column indeces to disk
-- 
2.43.0


From f369f3802b727c2a790855087324650300fcbcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 28/40] fix: prepare uses temporary storage of its own and
 always removes it

---
 src/tools/prepare.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 251105d..f978569 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <assert.h>
+#include <unistd.h>
 
 #include "utils.h"
 #include "permute.h"
@@ -14,8 +15,20 @@
 #define FNBUFL 5000 // Enough for the longest path and a suffix
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
-#define TMPROWS "/tmp/csbr_prepare/rows"
-#define TMPCOLS "/tmp/csbr_prepare/cols"
+#define TMPDIR "/tmp/csbr_prepare.XXXXXX"
+
+// Temporary storage, different for every process
+static char tmp_dir[] = TMPDIR;
+static char tmp_rows[sizeof(TMPDIR) + 5];
+static char tmp_cols[sizeof(TMPDIR) + 5];
+
+// Remove temporary storage. Called on exit.
+static void remove_temporary_storage()
+{
+  remove(tmp_rows);
+  remove(tmp_cols);
+  rmdir(tmp_dir);
+}
 
 int main(int argc, char * argv[])
 {
@@ -35,7 +48,13 @@ int main(int argc, char * argv[])
   }
 
   // Set up temporary storage
-  system("mkdir -p /tmp/csbr_prepare");
+  if (mkdtemp(tmp_dir) == NULL) {
+    fprintf(stderr, "Could not create temporary storage.\n");
+    return 1;
+  }
+  snprintf(tmp_rows, sizeof(tmp_rows), "%s/rows", tmp_dir);
+  snprintf(tmp_cols, sizeof(tmp_cols), "%s/cols", tmp_dir);
+  atexit(remove_temporary_storage);
 
   // Read permutation vector
   ret = read_bin_array(argv[4], &permutation_vec, &perm_size );
@@ -64,7 +83,7 @@ int main(int argc, char * argv[])
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted row indeces to disk
-  ret = write_bin_array(TMPROWS, indeces, index_size);
+  ret = write_bin_array(tmp_rows, indeces, index_size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk. Error : %d\n", ret);
     free(indeces);
@@ -89,7 +108,7 @@ int main(int argc, char * argv[])
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted column indeces to disk
-  ret = write_bin_array(TMPCOLS, indeces, index_size);
+  ret = write_bin_array(tmp_cols, indeces, index_size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk. Error : %d\n", ret);
     free(indeces);
@@ -121,7 +140,7 @@ int main(int argc, char * argv[])
   }
   size_to_offset(block_offsets, block_sizes, (INDEXTYPE) blocks);
 
-  ret = read_bin_COO(&A, TMPROWS, TMPCOLS, argv[3]);
+  ret = read_bin_COO(&A, tmp_rows, tmp_cols, argv[3]);
   if(ret<0){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
@@ -239,8 +258,5 @@ int main(int argc, char * argv[])
   free(block_offsets);
   free(A.elements);
 
-  // Clean up temporary storage
-  system("rm -rf /tmp/csbr_prepare");
-
   return status;
 }
-- 
2.43.0


From 433ecdeaa0ad39f17159fe0a45fffc2af91d218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 29/40] fix: pprint stops at missing or incomplete files

---
 src/tools/pprint.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index ac73ef6..daf7dcb 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -6,6 +6,17 @@
 #define INDEXTYPE uint32_t
 #define VALUETYPE float
 
+/*
+ * Same as fread, but exits if not everything could be read
+ */
+static void read_or_exit (void * ptr, size_t size, size_t n, FILE * f)
+{
+    if (fread(ptr, size, n, f) != n) {
+        fprintf(stderr, "File is not complete.\n");
+        exit(1);
+    }
+}
+
 /*
  * Tool to read binary files in some of the formats used in this project
  * WARNING : Always pipe results somewhere (eg. to 'less')
@@ -38,50 +49,51 @@ int main (int argc, char * argv[])
     f = fopen(argv[1], "rb");
     if(f==NULL){
         fprintf(stderr, "Could not open file.\n");
+        return 1;
     }
 
     switch(mode) {
         case 0:  // Binary triples file
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
+        read_or_exit(&r, sizeof(INDEXTYPE), 1, f);
+        read_or_exit(&c, sizeof(INDEXTYPE), 1, f);
+        read_or_exit(&nnz, sizeof(INDEXTYPE), 1, f);
         printf("%lu rows x %lu columns, %lu non-zeros\n",
                 (unsigned long) r, (unsigned long) c, (unsigned long) nnz);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_exit(&n, sizeof(INDEXTYPE), 1, f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_exit(&n, sizeof(INDEXTYPE), 1, f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_or_exit(&v, sizeof(VALUETYPE), 1, f);
             printf("%12f\n", (double) v);
         }
         break;
 
         case 1: // Binary file with block info (.csbr)
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
+        read_or_exit(&r, sizeof(INDEXTYPE), 1, f);
+        read_or_exit(&c, sizeof(INDEXTYPE), 1, f);
+        read_or_exit(&nnz, sizeof(INDEXTYPE), 1, f);
+        read_or_exit(&n, sizeof(INDEXTYPE), 1, f);
+        read_or_exit(&n, sizeof(INDEXTYPE), 1, f);
+        read_or_exit(&n, sizeof(INDEXTYPE), 1, f);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_exit(&n, sizeof(INDEXTYPE), 1, f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_exit(&n, sizeof(INDEXTYPE), 1, f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_exit(&n, sizeof(INDEXTYPE), 1, f);
             printf("%12u\t", n);
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_or_exit(&v, sizeof(VALUETYPE), 1, f);
             printf("%12e\n", v);
         }
         break;
-- 
2.43.0


From d8b138d2374c279112e0451331169678b7ab7ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 30/40] fix: COO matrix can be released before it is destroyed

---
 include/matrix/coo.1.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index f649622..93e01cf 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -30,7 +30,7 @@ struct Coo : public BlockBase<T,IT>
         }
     }
 
-    Coo() {}    // We need this
+    Coo() : I(nullptr), J(nullptr), val(nullptr) {}    // We need this
 
     ~Coo()
     {
@@ -77,6 +77,9 @@ void release(Coo<T,IT,SIT>& A)
     delete [] A.I;
     delete [] A.J;
     delete [] A.val;
+    A.I = nullptr;
+    A.J = nullptr;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From 86a0aefb8a24f4862a883432766b18d954012783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 31/40] fix: blocks refuse indices that do not fit in the short
 index type

---
 include/matrix/blocks.h | 1 +
 include/matrix/coo.1.h  | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/matrix/blocks.h b/include/matrix/blocks.h
index 050d317..538529b 100644
--- a/include/matrix/blocks.h
+++ b/include/matrix/blocks.h
@@ -31,6 +31,7 @@ struct BlockCsrSerial : public BlockBase<T,IT>
         val = new T[nnz];
 
         for (IT i=0; i<nnz; i++) {
+            assert(array[i].col <= std::numeric_limits<SIT>::max());
             col_ind[i] = array[i].col;
             val[i]  = array[i].val;
             row_ptr[array[i].row + 1]++;
diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index 93e01cf..4d809b1 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -1,6 +1,9 @@
 #ifndef _COO_1_H_
 #define _COO_1_H_
 
+#include <cassert>
+#include <limits>
+
 #include "typedefs.h"
 #include "generic/coo.h"
 #include "generic/base.h"
@@ -24,6 +27,10 @@ struct Coo : public BlockBase<T,IT>
 
         for (IT i=0; i<nnz; i++)
         {
+            // Indeces have to fit in the short index type
+            assert(array[i].row <= std::numeric_limits<SIT>::max());
+            assert(array[i].col <= std::numeric_limits<SIT>::max());
+
             I[i] = array[i].row;
             J[i] = array[i].col;
             val[i] = array[i].val;
-- 
2.43.0


From b0f3b9251b4ddec1f17976a07472135257008ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 32/40] fix: blocked files with missing blocks are refused
 before use

---
 include/io/blocked.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 78466d3..21a1031 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -162,6 +162,12 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Reading data section done"));
 
+  // All announced blocks have to be there
+  if (IT(block_index + 1) != A->nnzblocks) {
+    fprintf(stderr, "File does not have the expected number of blocks.\n");
+    return -4;
+  }
+
   // Get row pointers from row non-zero counters
   for (IT bi=0; bi<A->nnzblocks; bi++) {
     for (IT i=0; i<A->blocks[bi].rows; i++) {
-- 
2.43.0


From f9e2bd7179441d86c919b0c2fdb8aefcc6fefeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 33/40] fix: malformed or unseparated numbers in Matrix Market
 files are refused

---
 dep/mm_io/mm_io.c  |  4 +++-
 include/io/input.h | 13 ++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index ca921de..278a405 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -433,6 +433,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 {
   char line[MM_MAX_LINE_LENGTH];
   long rows, columns, entries;
+  int end = 0;
 /*
   set return null parameter values, in case we exit with errors
 */
@@ -452,7 +453,8 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 /*
   line[] has M,N, nz (comments and blank lines have been skipped)
 */
-  if (sscanf(line, "%ld %ld %ld", &rows, &columns, &entries) != 3)
+  if (sscanf(line, "%ld%*[ \t]%ld%*[ \t]%ld%n", &rows, &columns, &entries, &end) != 3 ||
+      strchr(" \t\r\n", line[end]) == NULL)
   {
     return MM_PREMATURE_EOF;
   }
diff --git a/include/io/input.h b/include/io/input.h
index a2a30c8..1f9101c 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -3,6 +3,7 @@
 
 #include <cassert>
 #include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <limits>
 
@@ -63,15 +64,21 @@ inline int read_mm_entry(FILE * f, unsigned long rows, unsigned long columns,
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) return -1;
   } while (line[strspn(line, " \t\r\n")] == '\0');
 
+  // Numbers have to be separated
+  if (sscanf(line, "%lu%*[ \t]%lu%n", r, c, &end) != 2) return -1;
+
   // Entries of a pattern file do not have a value
   if (pattern) {
     *val = 1.0;
-    if (sscanf(line, "%lu %lu %n", r, c, &end) != 2) return -1;
   } else {
-    if (sscanf(line, "%lu %lu %lg %n", r, c, val, &end) != 3) return -1;
+    char * start = line + end + strspn(line + end, " \t");
+    char * stop = start;
+    if (start > line + end) *val = strtod(start, &stop);
+    if (stop == start) return -1;
+    end = stop - line;
   }
 
-  if (line[end] != '\0') return -1;
+  if (line[end + strspn(line + end, " \t\r\n")] != '\0') return -1;
   if (*r < 1 || *r > rows || *c < 1 || *c > columns) return -1;
 
   return 0;
-- 
2.43.0


From 5c619e892b50f9d0632472544b3c9105ccd58061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 34/40] fix: pick_block_size does not overflow for large
 matrices

---
 include/utils.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index b823f3b..8bad6c8 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -14,8 +14,9 @@ template <class IT>
 IT pick_block_size(IT m, IT n, size_t val_size, int workers)
 {
     bool ispar = (workers > 1);
-    IT roundrowup = next_power_of_two(m);
-    IT roundcolup = next_power_of_two(n);
+    const uint64_t one = 1;  // Sizes may not fit in IT
+    uint64_t roundrowup = next_power_of_two(m);
+    uint64_t roundcolup = next_power_of_two(n);
 
     // if indices are negative, highestbitset returns -1,
     // but that will be caught by the sizereq below
@@ -23,8 +24,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT colbits = highest_bit_set(roundcolup);
     bool sizereq;
     if (ispar) {
-    	sizereq = ( (1 << rowbits) > SLACKNESS * workers) &&
-    		      ( (1 << colbits) > SLACKNESS * workers);
+    	sizereq = ( (one << rowbits) > SLACKNESS * workers) &&
+    		      ( (one << colbits) > SLACKNESS * workers);
     } else {
     	sizereq = ((rowbits > 1) && (colbits > 1));
     }
@@ -42,14 +43,14 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT rowhighbits = rowbits-rowlowbits;	// # higher order bits for rows (has at least one bit)
     IT colhighbits = colbits-collowbits;	// # higher order bits for cols (has at least one bit)
     if(ispar) {
-    	while( (1 << rowhighbits) < SLACKNESS * workers) {
+    	while( (one << rowhighbits) < SLACKNESS * workers) {
     		rowhighbits++;
     		rowlowbits--;
     	}
     }
 
     // calculate the space that suby occupies in L2 cache
-    IT yL2 = (1 << rowlowbits) * val_size;
+    uint64_t yL2 = (one << rowlowbits) * val_size;
     while(yL2 > L2SIZE)
     {
     	yL2 /= 2;
@@ -58,7 +59,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that subx occupies in L2 cache
-    IT xL2 = (1 << collowbits) * val_size;
+    uint64_t xL2 = (one << collowbits) * val_size;
     while(xL2 > L2SIZE)
     {
     	xL2 /= 2;
-- 
2.43.0


From 809fc33536713d0e0edca3f2c4837445efb5b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 35/40] fix: pbench refuses a permutation that does not fit the
 matrix

---
 src/drivers/pbench.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drivers/pbench.cpp b/src/drivers/pbench.cpp
index dfed47b..e99d0d4 100644
--- a/src/drivers/pbench.cpp
+++ b/src/drivers/pbench.cpp
@@ -55,6 +55,10 @@ int main(int argc, char * argv[])
         return 1;
     }
     printf("Read permutation vector. Size : %lu\n", perm_size);
+    if (perm_size != coo.rows || perm_size != coo.columns) {
+        fprintf(stderr, "Size of permutation vector does not match the matrix\n");
+        return 1;
+    }
 
     #ifdef INVPERM
     inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
-- 
2.43.0


From b668600c8d66f92e20e135a23747396b0ec54f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 36/40] fix: pick_block_size does not overflow for matrices of
 more than 2^61 rows or columns

---
 include/utils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 8bad6c8..73ed9a1 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -50,8 +50,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that suby occupies in L2 cache
-    uint64_t yL2 = (one << rowlowbits) * val_size;
-    while(yL2 > L2SIZE)
+    uint64_t yL2 = one << rowlowbits;
+    while(yL2 > L2SIZE / val_size)
     {
     	yL2 /= 2;
     	rowhighbits++;
@@ -59,8 +59,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that subx occupies in L2 cache
-    uint64_t xL2 = (one << collowbits) * val_size;
-    while(xL2 > L2SIZE)
+    uint64_t xL2 = one << collowbits;
+    while(xL2 > L2SIZE / val_size)
     {
     	xL2 /= 2;
     	colhighbits++;
-- 
2.43.0


From b76cf30e976d45794bdf7d0c9c12d64f8eaa2bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:00 +0000
Subject: [PATCH 37/40] fix: pbench refuses a vector that is not a permutation

---
 src/drivers/pbench.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drivers/pbench.cpp b/src/drivers/pbench.cpp
index e99d0d4..817ecf2 100644
--- a/src/drivers/pbench.cpp
+++ b/src/drivers/pbench.cpp
@@ -59,6 +59,10 @@ int main(int argc, char * argv[])
         fprintf(stderr, "Size of permutation vector does not match the matrix\n");
         return 1;
     }
+    if (!valid_permutation(permutation, perm_size)) {
+        fprintf(stderr, "File does not hold a permutation vector\n");
+        return 1;
+    }
 
     #ifdef INVPERM
     inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
-- 
2.43.0


From 079f03511896bf63e509e6e1bcfb588ece4b5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 38/40] fix: compute the index bound of COO blocks in the index
 type (shift overflow for 32-bit short indices)

---
 include/matrix/block_coo.1.h | 2 +-
 include/matrix/block_coo.2.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index c41d9c0..98b28d9 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -48,7 +48,7 @@ int Coo_to_Coo(BlockCoo<T,IT,SIT> * A, NONZERO * array, IT nnz)
 
   if (sizeof(IT) > sizeof(SIT))
   {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = IT(1) << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++)
     {
         assert(array[i].row < max_index && array[i].col < max_index);
diff --git a/include/matrix/block_coo.2.h b/include/matrix/block_coo.2.h
index b6eea53..4d96c29 100644
--- a/include/matrix/block_coo.2.h
+++ b/include/matrix/block_coo.2.h
@@ -36,7 +36,7 @@ int Coo_to_Coo(BlockCoo2<T,IT,SIT> * A, NONZERO * array, IT nnz)
   allocate(A, nnz);
 
   if (sizeof(IT) > sizeof(SIT)) {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = IT(1) << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++) {
         assert(array[i].row < max_index && array[i].col < max_index);
     }
-- 
2.43.0


From da6f28f1d122d891cca772d0245d52c815837b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:41 +0000
Subject: [PATCH 39/40] fix: refuse block sizes that overflow the index type

convert_blocked, expanded and prepare numbered more than 65536 block-rows and
block-columns with ids that wrapped around, and wrote the wrong matrix. The same
happened to expanded indeces that do not fit, and to the offsets of blocks with
a total size that does not fit.
---
 include/expand.h              | 15 +++++++++++++++
 include/utils.h               | 26 ++++++++++++++++++++++++++
 src/tools/convert_blocked.cpp |  5 +++++
 src/tools/expanded.cpp        |  6 ++++++
 src/tools/prepare.cpp         |  6 ++++++
 src/tools/sort.cpp            |  4 ++++
 6 files changed, 62 insertions(+)

diff --git a/include/expand.h b/include/expand.h
index 60782c7..243f153 100644
--- a/include/expand.h
+++ b/include/expand.h
@@ -25,6 +25,21 @@ IT expand_block_size(IT * block_size, IT size)
   return (IT) next_power_of_two(max_block);
 }
 
+/*
+ * Check that expanding all blocks to a constant size does not overflow the
+ * index type.
+ */
+template <class IT>
+bool valid_expansion(IT const * block_size, size_t size)
+{
+  if (size == 0) return true;
+
+  IT max_block = *std::max_element(block_size, block_size + size);
+  uint64_t new_block_size = next_power_of_two(max_block);
+  return new_block_size >= max_block &&
+         new_block_size <= std::numeric_limits<IT>::max() / size;
+}
+
 /*
  * Calculate the new index of a non-zero if all blocks expand to size
  * block_size
diff --git a/include/utils.h b/include/utils.h
index 73ed9a1..fe60c2d 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -130,6 +130,32 @@ void size_to_offset(IT * offsets, const IT * sizes, IT size)
     std::partial_sum(sizes, sizes + size, offsets + 1);
 }
 
+/*
+ * Check that the total of an array of block sizes, ie. the last block offset,
+ * does not overflow the index type.
+ */
+template <class IT>
+bool valid_block_sizes(const IT * sizes, size_t size)
+{
+    IT total = 0;
+
+    for (size_t i=0; i<size; i++) {
+        if (sizes[i] > std::numeric_limits<IT>::max() - total) return false;
+        total += sizes[i];
+    }
+    return true;
+}
+
+/*
+ * Check that the ids of a square grid of blocks do not overflow the index type.
+ */
+template <class IT>
+bool valid_block_ids(size_t blocks)
+{
+    // The last id is (blocks * blocks - 1)
+    return blocks == 0 || blocks - 1 <= std::numeric_limits<IT>::max() / (blocks + 1);
+}
+
 /*
  * Sort an element array in either row-major or column-major order
  */
diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 7de4832..dfcc5f9 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -41,6 +41,11 @@ int main(int argc, char * argv[]){
     printf(" done in %.3f sec\nBlock size info : %lu block-rows and %lu block-columns\n", t, size, size);
   }
 
+  if(!valid_block_ids<INDEXTYPE>(size) || !valid_block_sizes(block_sizes, size)){
+    fprintf(stderr, "Blocks are too many or too large.\n");
+    exit(1);
+  }
+
   A.blockrows = (INDEXTYPE) size;
   A.blockcols = (INDEXTYPE) size;
 
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 476667a..5ca7429 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -35,6 +35,12 @@ int main(int argc, char * argv[]){
   }
   printf("Reading complete : block sizes for %lu blocks\n", blocks);
 
+  if(!valid_block_ids<INDEXTYPE>(blocks) || !valid_block_sizes(block_size, blocks) ||
+     !valid_expansion(block_size, blocks)){
+    fprintf(stderr, "Blocks are too many or too large.\n");
+    return 1;
+  }
+
   block_offset = (INDEXTYPE *) malloc((blocks+1) * sizeof(INDEXTYPE));
   size_to_offset(block_offset, block_size, (INDEXTYPE) blocks);
   A.blockrows = (INDEXTYPE) blocks;
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index f978569..fa36386 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -128,6 +128,12 @@ int main(int argc, char * argv[])
   }
 
   printf("%lu block sizes loaded.\n", blocks);
+
+  if (!valid_block_ids<INDEXTYPE>(blocks) || !valid_block_sizes(block_sizes, blocks) ||
+      !valid_expansion(block_sizes, blocks)) {
+    fprintf(stderr, "Blocks are too many or too large.\n");
+    return 1;
+  }
   printf("Block size info : %lu block-rows and %lu block-columns\n", blocks, blocks);
   A.blockrows = (INDEXTYPE) blocks;
   A.blockcols = (INDEXTYPE) blocks;
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index bf10d51..987289f 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -50,6 +50,10 @@ int main(int argc, char * argv[]){
     case 5 :
     case 3 :
       // Sort according to blocks
+      if (!valid_block_sizes(block_sizes, size)) {
+        fprintf(stderr, "Block sizes are too large.\n");
+        exit(1);
+      }
       block_offsets = (uint32_t *) malloc((size + 1) * sizeof(uint32_t));
       size_to_offset(block_offsets, block_sizes, (uint32_t) size);
       if (A.rows > block_offsets[size] || A.columns > block_offsets[size]) {
-- 
2.43.0


From 650db46b212d011e1349fba5866ac13834f7b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:21 +0000
Subject: [PATCH 40/40] fix: count wide rows without overflowing the index type

With less than one wide row left to the largest index, the number of wide rows
wrapped around and CSWR matrices were written outside of their storage.
---
 include/matrix/cswr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index e29bde2..e55f4f1 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -60,7 +60,7 @@ void Coo_to_Cswr (
     A->columns = columns;
     A->nnz = nnz;
     A->width = width;
-    A->nwrows = (rows + width - 1) / width;
+    A->nwrows = rows / width + (rows % width != 0);
     A->val = new T[nnz];
     A->row = new SIT[nnz];
     A->col = new IT[nnz];
-- 
2.43.0

