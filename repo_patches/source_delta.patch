From 1be6a878578019208048a760e72ca2f6008d2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:25 +0000
Subject: [PATCH 01/52] fix: bit_vector_t assignment never grew its word array

---
 spffl/bits/bit_vector_t.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 42d568d..24ae964 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -98,14 +98,15 @@ bit_vector_t::~bit_vector_t(void) {
 
 // ----------------------------------------------------------------
 bit_vector_t &bit_vector_t::operator=(const bit_vector_t &that) {
-  this->num_bits  = that.num_bits;
-  this->num_words = that.num_words;
-  if (this->words == 0) {
-    this->words = new uint64_t[that.num_words];
-  } else if (this->num_words < that.num_words) {
+  if (this == &that) {
+    return *this;
+  }
+  if (this->num_words != that.num_words || this->words == 0) {
     delete[] this->words;
     this->words = new uint64_t[that.num_words];
   }
+  this->num_bits  = that.num_bits;
+  this->num_words = that.num_words;
   memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
   return *this;
 }
-- 
2.43.0


From 40a54ea920dc8df0fe963dbba2461ab22c247283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 02/52] fix: bit_vector_t::trim used an int shift and the wrong
 shift count

---
 spffl/bits/bit_vector_t.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 24ae964..7d041ad 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -413,9 +413,7 @@ void bit_vector_t::trim(void) {
   if (num_dribble_bits == 0) {
     return;
   }
-  this->words[this->num_words - 1] &=
-      ((1 << (BITS_PER_WORD - num_dribble_bits)) - 1)
-      << (BITS_PER_WORD - this->num_bits);
+  this->words[this->num_words - 1] &= ~(uint64_t)0 << num_dribble_bits;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 71a79bb3fa33e71d815430427ccdc81bd692c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 03/52] fix: bit_vector_t compound operators, dot and row
 accumulation did not check lengths

---
 spffl/bits/bit_vector_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 7d041ad..7547dee 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -306,12 +306,14 @@ bit_t bit_vector_t::dot(const bit_vector_t &that) {
 
 // ----------------------------------------------------------------
 bit_vector_t bit_vector_t::operator+=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
   return *this;
 }
 bit_vector_t bit_vector_t::operator-=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
-- 
2.43.0


From ec1f0681dba78a195e340a753963960ffab68ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 04/52] fix: bit_vector_t comparisons skipped the last word

---
 spffl/bits/bit_vector_t.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 7547dee..10c080c 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -340,7 +340,7 @@ bool bit_vector_t::operator==(const bit_vector_t &that) const {
   if (this->num_bits != that.num_bits) {
     return false;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
     if (this->words[i] != that.words[i]) {
       return false;
     }
@@ -359,7 +359,11 @@ bool bit_vector_t::operator==(const bit_t &scalar) const {
   if (scalar == bit_t(1)) {
     fill = ~fill;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
+    if (i == this->num_words - 1) {
+      // The unused bits at the end of the vector are always zero.
+      fill <<= (this->num_words << BITS_SHIFT) - this->num_bits;
+    }
     if (this->words[i] != fill) {
       return false;
     }
-- 
2.43.0


From 2064c6b13fb4ebc401ed4d21033b07037ccbee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:43 +0000
Subject: [PATCH 05/52] fix: bit_vector_t fill from an int did not reduce it
 mod 2

---
 spffl/bits/bit_vector_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 10c080c..dc0d255 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -69,7 +69,7 @@ bit_vector_t::bit_vector_t(int scalar, int init_num_elements) {
   this->num_words = NWORDS_FROM_NBITS(this->num_bits);
   this->words     = new uint64_t[this->num_words];
   uint64_t fill   = 0;
-  if (scalar == 1) {
+  if (scalar & 1) {
     fill = ~fill;
   }
   for (int i = 0; i < this->num_words; i++) {
-- 
2.43.0


From 8ee907d992506ecbf7730fa4407249651568a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:24 +0000
Subject: [PATCH 06/52] fix: bit_t assignment from int left the residue
 unreduced

---
 spffl/bits/bit_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_t.h b/spffl/bits/bit_t.h
index f13f82e..f8efa0a 100644
--- a/spffl/bits/bit_t.h
+++ b/spffl/bits/bit_t.h
@@ -38,7 +38,7 @@ public:
   }
 
   bit_t &operator=(int e) {
-    this->residue = e;
+    this->residue = e & 1;
     return *this;
   }
 
-- 
2.43.0


From 37191b0f422458f8bf471827392278dd45dadabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:19 +0000
Subject: [PATCH 07/52] fix: bit_matrix_t::outer always threw on its zero-sized
 result

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 74e9d4a..c7d1216 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -499,7 +499,7 @@ bit_matrix_t &bit_matrix_t::operator*=(const bit_matrix_t &that) {
 bit_matrix_t bit_matrix_t::outer(const bit_vector_t &u, const bit_vector_t &v) {
   int m = u.get_num_elements();
   int n = v.get_num_elements();
-  bit_matrix_t rv;
+  bit_matrix_t rv(m, n);
   for (int i = 0; i < m; i++) {
     for (int j = 0; j < n; j++) {
       rv[i].set(j, u.get(i) * v.get(j));
-- 
2.43.0


From e51a4f745c445e88c65e00ac28397cbe422f3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:35 +0000
Subject: [PATCH 08/52] fix: bit_matrix_t::paste narrowed its result rows and
 used the wrong column offset

---
 spffl/bits/bit_matrix_t.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index c7d1216..58e7cb9 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -868,11 +868,13 @@ bit_matrix_t bit_matrix_t::paste(bit_matrix_t &that) const {
   int i, j;
 
   for (i = 0; i < this->num_rows; i++) {
-    rv.rows[i] = this->rows[i];
+    for (j = 0; j < this->num_cols; j++) {
+      rv.rows[i].set(j, this->rows[i].get(j));
+    }
   }
   for (i = 0; i < this->num_rows; i++) {
     for (j = 0; j < that.num_cols; j++) {
-      rv.rows[i].set(this->num_rows + j, that.rows[i].get(j));
+      rv.rows[i].set(this->num_cols + j, that.rows[i].get(j));
     }
   }
 
-- 
2.43.0


From 59d197b3e7ee69055cbc678ada8f70294ccf90e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 09/52] fix: bit_matrix_t row reduction leaked its row-pointer
 array

---
 spffl/bits/bit_matrix_t.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 58e7cb9..d183796 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -695,6 +695,7 @@ void bit_matrix_t::row_reduce_below_with_scalar(bit_t &s) {
     left_column++;
     top_row++;
   }
+  delete[] ptrs;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 8db8df420952207cab1c7c404f89a8c3b2bb9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 10/52] fix: bit_matrix_t input leaked the old rows and kept
 the old row count

---
 spffl/bits/bit_matrix_t.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index d183796..0f133ab 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -199,7 +199,8 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
   const int init_num_rows = 40;
   const int more_num_rows = 40;
   int alloc_num_rows      = init_num_rows;
-  m.rows                  = new bit_vector_t[init_num_rows];
+  m.mfree();
+  m.rows = new bit_vector_t[init_num_rows];
 
   while (1) {
     if (is.eof()) {
-- 
2.43.0


From 1a8c413085cd5668e4195108f4a51c5389e3daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 11/52] fix: bit_matrix_t::swap did not check its row indices

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 0f133ab..9e886a6 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -601,7 +601,7 @@ uint64_t **bit_matrix_t::expose(void) const {
 
 // ----------------------------------------------------------------
 void bit_matrix_t::swap(int arow, int brow) {
-  this->rows[arow].ptrswap(this->rows[brow]);
+  (*this)[arow].ptrswap((*this)[brow]);
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From d42448dfdf4309881ecf69f23d923e35455bedef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:54 +0000
Subject: [PATCH 12/52] fix: tvector assignment never grew its storage

---
 spffl/containers/tvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 7e309e3..b458bce 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -95,13 +95,13 @@ public:
 
   // ----------------------------------------------------------------
   tvector<element_type> &operator=(const tvector<element_type> &that) {
-    this->num_elements = that.num_elements;
     if (this->elements == 0) {
       this->elements = new element_type[that.num_elements];
     } else if (this->num_elements < that.num_elements) {
       delete[] this->elements;
       this->elements = new element_type[that.num_elements];
     }
+    this->num_elements = that.num_elements;
     for (int i = 0; i < that.num_elements; i++) {
       this->elements[i] = that.elements[i];
     }
-- 
2.43.0


From 681c0e4938d4569a8c3b2a627f90d562f411d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:29 +0000
Subject: [PATCH 13/52] fix: tvector scalar compound operators misbehaved when
 given an own element

---
 spffl/containers/tvector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index b458bce..0283d79 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -372,13 +372,15 @@ public:
     *this = *this - that;
     return *this;
   }
-  tvector<element_type> operator*=(const element_type &e) {
+  tvector<element_type> operator*=(const element_type &that) {
+    const element_type e = that; // It may be one of our own elements.
     for (int i = 0; i < this->num_elements; i++) {
       this->elements[i] *= e;
     }
     return *this;
   }
-  void mult_by(const element_type &e) {
+  void mult_by(const element_type &that) {
+    const element_type e = that; // It may be one of our own elements.
     for (int i = 0; i < this->num_elements; i++) {
       this->elements[i] *= e;
     }
@@ -390,7 +392,8 @@ public:
     }
     return *this;
   }
-  tvector<element_type> operator/=(const element_type &e) {
+  tvector<element_type> operator/=(const element_type &that) {
+    const element_type e = that; // It may be one of our own elements.
     for (int i = 0; i < this->num_elements; i++) {
       this->elements[i] /= e;
     }
-- 
2.43.0


From 47978d922f8d9dd6f748b19093a379b300a51d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 14/52] fix: tvector dot, vgcd and vector-matrix product read
 element 0 of an empty vector

---
 spffl/containers/tvector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 0283d79..8206d9d 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -313,7 +313,7 @@ public:
     }
 
     tvector<element_type> rv(Anc);
-    element_type t0   = this->elements[0];
+    element_type t0   = (*this)[0];
     element_type zero = t0 - t0;
     for (j = 0; j < Anc; j++) {
       rv.elements[j] = zero;
@@ -335,7 +335,7 @@ public:
   // ----------------------------------------------------------------
   element_type dot(const tvector<element_type> &that) {
     this->check_equal_lengths(that);
-    element_type rv = this->elements[0] - this->elements[0];
+    element_type rv = (*this)[0] - (*this)[0];
     for (int i = 0; i < this->num_elements; i++) {
       rv += this->elements[i] * that.elements[i];
     }
@@ -404,7 +404,7 @@ public:
   // Instantiate this template only for data types for which a gcd() function
   // has been implemented.
   element_type vgcd(void) {
-    element_type rv = this->elements[0];
+    element_type rv = (*this)[0];
     for (int i = 1; i < this->num_elements; i++) {
       rv = gcd(rv, this->elements[i]);
     }
-- 
2.43.0


From 8e53edb37d82bccc27affb98ed2df8cdde84af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 15/52] fix: tstack assignment did not return and freed its
 source on self-assignment

---
 spffl/containers/tstack.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tstack.h b/spffl/containers/tstack.h
index f0a0804..350974a 100644
--- a/spffl/containers/tstack.h
+++ b/spffl/containers/tstack.h
@@ -46,6 +46,9 @@ public:
 
   // ----------------------------------------------------------------
   tstack<element_type> &operator=(const tstack<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->elements != 0) {
       delete[] this->elements;
     }
@@ -55,6 +58,7 @@ public:
     for (int i = 0; i < that.freeidx; i++) {
       this->elements[i] = that.elements[i];
     }
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From a16dd57137bc8cc93e97dd557a2dd464bd8fb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 16/52] fix: tfacinfo assignment did not return and freed its
 source on self-assignment

---
 spffl/containers/tfacinfo.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index a766a45..43aa532 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -64,6 +64,9 @@ public:
 
   // ----------------------------------------------------------------
   tfacinfo<element_type> &operator=(const tfacinfo<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->pfactors_and_counts) {
       delete[] this->pfactors_and_counts;
     }
@@ -76,6 +79,7 @@ public:
     }
     this->have_unit = that.have_unit;
     this->unit      = that.unit;
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From e9db27ac607f8e381a4825ecfd3783a0bb48518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 17/52] fix: tfacinfo copied an indeterminate unit for built-in
 element types

---
 spffl/containers/tfacinfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index 43aa532..80133d8 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -47,7 +47,7 @@ public:
     this->num_allocated       = TFACINFO_INIT_LENGTH;
     this->pfactors_and_counts = new factor_and_count_t[this->num_allocated];
     this->have_unit           = 0;
-    // Let this->unit take its default constructor.
+    this->unit                = element_type();
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From 86c8d01c7dee483c4d73c02611f9ad8d826f7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 18/52] fix: tfacinfo leaked its old array when growing

---
 spffl/containers/tfacinfo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index 80133d8..2914d23 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -236,6 +236,7 @@ public:
       for (int i = 0; i < this->num_distinct; i++) {
         this->pfactors_and_counts[i] = temp[i];
       }
+      delete[] temp;
     }
 
     // Insert a new factor.  The find() method has returned the correct
-- 
2.43.0


From 05627db8ac95c86d7a80b59859f0c1d4a3cbe79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 19/52] fix: tmatrix operations read element 0,0 of an empty
 matrix

---
 spffl/containers/tmatrix.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index c30ea2f..8b618f0 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -189,7 +189,7 @@ public:
       ss << "tmatrix::bracket_in:  must already have one element.\n";
       return false;
     }
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
     this->mfree();
 
     char *copy       = strdup(string);
@@ -520,7 +520,7 @@ public:
     }
 
     tvector<element_type> rv(this->num_rows);
-    element_type t00  = this->rows[0][0];
+    element_type t00  = (*this)[0][0];
     element_type zero = t00 - t00;
     for (i = 0; i < this->num_rows; i++) {
       rv[i] = zero;
@@ -567,7 +567,7 @@ public:
       throw spffl::exception_t(ss.str());
     }
 
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
     element_type one;
 
     // Zero matrix
@@ -619,7 +619,7 @@ public:
     }
 
     tmatrix<element_type> rv(this->num_rows, that.num_cols);
-    element_type t00  = this->rows[0][0];
+    element_type t00  = (*this)[0][0];
     element_type zero = t00 - t00;
     for (i = 0; i < this->num_rows; i++) {
       for (j = 0; j < that.num_cols; j++) {
@@ -772,7 +772,7 @@ public:
   // 1 is that element divided by itself.
 
   bool find_one(element_type &rone) const {
-    element_type a    = this->rows[0][0];
+    element_type a    = (*this)[0][0];
     element_type zero = a - a;
     for (int i = 0; i < this->num_rows; i++) {
       for (int j = 0; j < this->num_cols; j++) {
@@ -836,7 +836,7 @@ public:
       return false;
     }
 
-    element_type a    = this->rows[0][0];
+    element_type a    = (*this)[0][0];
     element_type zero = a - a;
     element_type one;
     if (!this->find_one(one)) {
@@ -904,7 +904,7 @@ public:
 
   void row_reduce_below_with_scalar(element_type &s) {
     int top_row, left_column, cur_row;
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
     element_type one;
     element_type minus_one;
 
@@ -988,7 +988,7 @@ public:
   void row_echelon_form(void) {
     this->row_reduce_below();
 
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
     int row, row2, row2_leader_pos;
     element_type row_clear_val, row2_leader_val, mul;
 
@@ -1050,7 +1050,7 @@ public:
   // use get_rank() instead.
   int get_rank_rr(void) const {
     int rank          = 0;
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
 
     for (int i = 0; i < this->num_rows; i++) {
       bool row_is_zero = true;
@@ -1171,7 +1171,7 @@ public:
 
   // ----------------------------------------------------------------
   void check_kernel_basis(const tmatrix<element_type> &kerbas) const {
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
     int i;
     int dimker = kerbas.num_rows;
 
@@ -1378,7 +1378,7 @@ public:
 
   // ----------------------------------------------------------------
   bool inverse(tmatrix<element_type> &rinv) const {
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
     element_type one;
 
     if (!this->is_square()) {
@@ -1430,7 +1430,7 @@ public:
   void ed_row_reduce_below_with_scalar(
       element_type &snumer, element_type &sdenom) {
     int top_row, left_column, cur_row;
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
     element_type one;
 
     if (!this->find_one(one)) {
@@ -1554,7 +1554,7 @@ public:
   void ed_row_echelon_form(void) {
     this->ed_row_reduce_below();
 
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
     int row, row2, row2_leader_pos;
     element_type row_clear_val, row2_leader_val;
 
@@ -1582,7 +1582,7 @@ public:
 
   // ----------------------------------------------------------------
   bool ed_inverse(tmatrix<element_type> &rinv) const {
-    element_type zero = this->rows[0][0] - this->rows[0][0];
+    element_type zero = (*this)[0][0] - (*this)[0][0];
     element_type one;
 
     if (!this->is_square()) {
-- 
2.43.0


From 31d45bce5741d1fa02184a77b083e5d5a67ff69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 20/52] fix: tmatrix::paste used the row count as the column
 offset

---
 spffl/containers/tmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 8b618f0..3685a1c 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1316,7 +1316,7 @@ public:
     }
     for (i = 0; i < this->num_rows; i++) {
       for (j = 0; j < that.num_cols; j++) {
-        rv.rows[i][this->num_rows + j] = that.rows[i][j];
+        rv.rows[i][this->num_cols + j] = that.rows[i][j];
       }
     }
 
-- 
2.43.0


From e60da06dbd8f0bf99d3c4c8f3952944a9943db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 21/52] fix: tmatrix input overran its line buffer after lines
 with leading blanks

---
 spffl/containers/tmatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 3685a1c..96f6f82 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1725,6 +1725,7 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     }
 
     // Read a line of text.
+    pline = line;
     is.getline(pline, tmx_buf_size);
     if (is.eof()) {
       is.clear();
-- 
2.43.0


From 35ac2153a260d79b5aa53b155043df5210aa4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 22/52] fix: tmatrix::ed_det of a zero matrix divided by an
 unset denominator

---
 spffl/containers/tmatrix.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 96f6f82..f21b031 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1435,6 +1435,7 @@ public:
 
     if (!this->find_one(one)) {
       snumer = zero;
+      sdenom = zero;
       return; // Zero matrix; already done.
     }
     snumer = one;
@@ -1523,6 +1524,10 @@ public:
       ss << "tmatrix::ed_det():  non-square input.\n";
       throw spffl::exception_t(ss.str());
     }
+    element_type one;
+    if (!this->find_one(one)) {
+      return (*this)[0][0]; // Zero matrix.
+    }
     tmatrix<element_type> rr(*this);
     element_type dn, dd;
     rr.ed_row_reduce_below_with_scalar(dn, dd);
-- 
2.43.0


From fa5ab1cfb56ff5ab30c40abb76d1cf4c506eefba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 23/52] fix: tmatrix::swap did not check its row indices

---
 spffl/containers/tmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index f21b031..d3baebf 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -860,7 +860,7 @@ public:
   }
 
   // ----------------------------------------------------------------
-  void swap(int arow, int brow) { this->rows[arow].ptrswap(this->rows[brow]); }
+  void swap(int arow, int brow) { (*this)[arow].ptrswap((*this)[brow]); }
 
   // ----------------------------------------------------------------
   // This is a general row-reduction method.  It operates on the matrix
-- 
2.43.0


From 07d3d427f499e34ae43350da0f884edccfe04103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 24/52] fix: polynomial unary minus sized its result from the
 wrong degree

---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 spffl/polynomials/fp_poly_t.cpp  | 1 +
 spffl/polynomials/fpn_poly_t.cpp | 1 +
 spffl/polynomials/q_poly_t.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index f4bf107..a5fc15a 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -222,6 +222,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 // ----------------------------------------------------------------
 f2n_poly_t f2n_poly_t::operator-(void) const {
   f2n_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 2225c4e..3fe3bef 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -196,6 +196,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 // ----------------------------------------------------------------
 fp_poly_t fp_poly_t::operator-(void) const {
   fp_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 968c3db..a290d0f 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -166,6 +166,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 // ----------------------------------------------------------------
 fpn_poly_t fpn_poly_t::operator-(void) const {
   fpn_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index c39c7b8..9b2cd5f 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -165,6 +165,7 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 // ----------------------------------------------------------------
 q_poly_t q_poly_t::operator-(void) const {
   q_poly_t rv;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
-- 
2.43.0


From 420439cf1aa54e840d6d4ab01de5566fbcb9f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 25/52] fix: polynomial operators leaked the placeholder
 coefficient of their result

---
 spffl/polynomials/f2n_poly_t.cpp | 7 +++++++
 spffl/polynomials/fp_poly_t.cpp  | 8 ++++++++
 spffl/polynomials/fpn_poly_t.cpp | 7 +++++++
 spffl/polynomials/q_poly_t.cpp   | 7 +++++++
 4 files changed, 29 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index a5fc15a..324b3aa 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -154,6 +154,7 @@ f2n_poly_t f2n_poly_t::operator+(const f2n_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -163,6 +164,7 @@ f2n_poly_t f2n_poly_t::operator+(const f2n_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -190,6 +192,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2n_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -199,6 +202,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2n_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -223,6 +227,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 f2n_poly_t f2n_poly_t::operator-(void) const {
   f2n_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -234,6 +239,7 @@ f2n_poly_t f2n_poly_t::operator-(void) const {
 f2n_poly_t f2n_poly_t::operator*(const f2n_poly_t &that) const {
   f2n_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
 
   f2_polymod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -364,6 +370,7 @@ void f2n_poly_t::quot_and_rem(
 
   f2n_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new f2_polymod_t[quot.degree + 1];
 
   f2n_poly_t rem = *this;
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 3fe3bef..802c07c 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -89,6 +89,7 @@ fp_poly_t fp_poly_t::from_base_rep(int b, int m) {
     }
   }
 
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= rv.degree; i++) {
     rv.coeffs[i] = spffl::intmath::intmod_t(b % m, m);
@@ -144,6 +145,7 @@ fp_poly_t fp_poly_t::operator+(const fp_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -153,6 +155,7 @@ fp_poly_t fp_poly_t::operator+(const fp_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -172,6 +175,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -181,6 +185,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -197,6 +202,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 fp_poly_t fp_poly_t::operator-(void) const {
   fp_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -208,6 +214,7 @@ fp_poly_t fp_poly_t::operator-(void) const {
 fp_poly_t fp_poly_t::operator*(const fp_poly_t &that) const {
   fp_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
 
   spffl::intmath::intmod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -354,6 +361,7 @@ void fp_poly_t::quot_and_rem(
 
   fp_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new spffl::intmath::intmod_t[quot.degree + 1];
 
   fp_poly_t rem = *this;
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index a290d0f..6ff4ecd 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -114,6 +114,7 @@ fpn_poly_t fpn_poly_t::operator+(const fpn_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -123,6 +124,7 @@ fpn_poly_t fpn_poly_t::operator+(const fpn_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -142,6 +144,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -151,6 +154,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -167,6 +171,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 fpn_poly_t fpn_poly_t::operator-(void) const {
   fpn_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -178,6 +183,7 @@ fpn_poly_t fpn_poly_t::operator-(void) const {
 fpn_poly_t fpn_poly_t::operator*(const fpn_poly_t &that) const {
   fpn_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
 
   fp_polymod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -334,6 +340,7 @@ void fpn_poly_t::quot_and_rem(
 
   fpn_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new fp_polymod_t[quot.degree + 1];
 
   fpn_poly_t rem = *this;
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 9b2cd5f..7d9b7cb 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -97,6 +97,7 @@ q_poly_t q_poly_t::operator+(const q_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -106,6 +107,7 @@ q_poly_t q_poly_t::operator+(const q_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -133,6 +135,7 @@ q_poly_t q_poly_t::operator-(const q_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -142,6 +145,7 @@ q_poly_t q_poly_t::operator-(const q_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -166,6 +170,7 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 q_poly_t q_poly_t::operator-(void) const {
   q_poly_t rv;
   rv.degree = this->degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
@@ -177,6 +182,7 @@ q_poly_t q_poly_t::operator-(void) const {
 q_poly_t q_poly_t::operator*(const q_poly_t &that) const {
   q_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
 
   spffl::intmath::intrat_t zero = this->coeffs[0] - this->coeffs[0];
@@ -307,6 +313,7 @@ void q_poly_t::quot_and_rem(
 
   q_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new spffl::intmath::intrat_t[quot.degree + 1];
 
   q_poly_t rem = *this;
-- 
2.43.0


From 096210ce11e634f83d781551c225a87e4d21b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 26/52] fix: polynomial self-assignment read freed coefficients

---
 spffl/polynomials/f2n_poly_t.cpp | 3 +++
 spffl/polynomials/fp_poly_t.cpp  | 3 +++
 spffl/polynomials/fpn_poly_t.cpp | 3 +++
 spffl/polynomials/q_poly_t.cpp   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 324b3aa..c7b8873 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -136,6 +136,9 @@ int f2n_poly_t::get_characteristic(void) const { return 2; }
 
 // ----------------------------------------------------------------
 f2n_poly_t &f2n_poly_t::operator=(const f2n_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 802c07c..8ee0359 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -127,6 +127,9 @@ int fp_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fp_poly_t &fp_poly_t::operator=(const fp_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 6ff4ecd..b3e03bd 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -96,6 +96,9 @@ int fpn_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fpn_poly_t &fpn_poly_t::operator=(const fpn_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 7d9b7cb..99ddb60 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -79,6 +79,9 @@ q_poly_t::~q_poly_t(void) {
 
 // ----------------------------------------------------------------
 q_poly_t &q_poly_t::operator=(const q_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
-- 
2.43.0


From d6df997a0bfee1c6d985a16e2c5a2e4252134144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 27/52] fix: polynomial root extraction collapsed its result to
 degree 0 or always threw

---
 spffl/polynomials/f2n_poly_t.cpp | 5 ++---
 spffl/polynomials/fp_poly_t.cpp  | 5 ++---
 spffl/polynomials/fpn_poly_t.cpp | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index c7b8873..d9fb465 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -569,12 +569,11 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   f2_poly_t m = this->coeffs[0].get_modulus();
   f2_polymod_t zero(0, m);
   int si, di;
-  f2n_poly_t out;
+  f2n_poly_t out(*this);
   int n   = m.find_degree();
   int pow = 1 << (n - 1);
 
-  out.set_coeff(this->degree, zero);
-  for (di = this->degree - 1; di >= 0; di--) {
+  for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
   }
 
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 8ee0359..3cfe220 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -552,10 +552,9 @@ bool fp_poly_t::pth_root(fp_poly_t &rroot) const {
   spffl::intmath::intmod_t zero(0, p);
   int si, di;
   int j;
-  fp_poly_t out;
+  fp_poly_t out(*this);
 
-  out.set_coeff(this->degree, zero);
-  for (di = this->degree - 1; di >= 0; di--) {
+  for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
   }
 
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index b3e03bd..b2d583a 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -530,11 +530,10 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   fp_poly_t m       = this->coeffs[0].get_modulus();
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   int si, di, j;
-  fpn_poly_t out;
+  fpn_poly_t out(*this);
   int p = this->get_characteristic();
 
-  out.set_coeff(this->degree, zero);
-  for (di = this->degree - 1; di >= 0; di--) {
+  for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
   }
 
-- 
2.43.0


From 60de1585264a04f3a74e17f6049423c3b7868444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 28/52] fix: f2n_poly_t::square_root shifted past the width of
 int for large fields

---
 spffl/polynomials/f2n_poly_t.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index d9fb465..b185cfe 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -570,15 +570,17 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   f2_polymod_t zero(0, m);
   int si, di;
   f2n_poly_t out(*this);
-  int n   = m.find_degree();
-  int pow = 1 << (n - 1);
+  int n = m.find_degree();
 
   for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
   }
 
   for (si = 0, di = 0; si <= this->degree; si += 2, di++) {
-    out.coeffs[di] = this->coeffs[si].exp(pow);
+    out.coeffs[di] = this->coeffs[si];
+    for (int k = 1; k < n; k++) {
+      out.coeffs[di] *= out.coeffs[di];
+    }
     if (si + 1 > this->degree) {
       break;
     }
-- 
2.43.0


From 783b3fff7a459f87ade04d813e2815e82e713edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 29/52] fix: fpn_poly_t::pth_root did not take roots of the
 coefficients

---
 spffl/polynomials/fpn_poly_t.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index b2d583a..f8cf476 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -532,6 +532,7 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   int si, di, j;
   fpn_poly_t out(*this);
   int p = this->get_characteristic();
+  int n = m.find_degree();
 
   for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
@@ -539,6 +540,9 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
 
   for (si = 0, di = 0; si <= this->degree; si += p, di++) {
     out.coeffs[di] = this->coeffs[si];
+    for (j = 1; j < n; j++) {
+      out.coeffs[di] = out.coeffs[di].exp(p);
+    }
     for (j = 1; j < p; j++) {
       if (si + j > this->degree) {
         break;
-- 
2.43.0


From 0b182c34f92c2e290543315c486c6f35eee7acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 30/52] fix: polynomial parsing left freed coefficients and
 leaked scratch on bad input

---
 spffl/polynomials/f2n_poly_t.cpp | 20 ++++++++++++++------
 spffl/polynomials/fp_poly_t.cpp  | 32 ++++++++++++++++++++++----------
 spffl/polynomials/fpn_poly_t.cpp | 20 ++++++++++++++------
 spffl/polynomials/q_poly_t.cpp   | 32 ++++++++++++++++++++++----------
 4 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index b185cfe..316ece9 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -894,8 +894,8 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
+  if (string.empty()) {
+    return false;
   }
 
   int num_colons = 0;
@@ -912,13 +912,15 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
   if (argc < 1) {
     // Needs an error message, but this coding error is
     // unlikely since we already counted colons.
+    delete[] argv;
+    free(dup);
     return false;
   }
 
-  this->degree = argc - 1;
-  this->coeffs = new f2_polymod_t[this->degree + 1];
+  int new_degree = argc - 1;
+  f2_polymod_t *new_coeffs = new f2_polymod_t[new_degree + 1];
   int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  for (argi = 0, ci = new_degree; argi < argc; argi++, ci--) {
     // Scan each coefficient, then reduce mod m
     f2_poly_t r;
 
@@ -928,11 +930,17 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
       std::stringstream ss;
       ss << "f2n_poly_t::from_string: "
          << "scan failure at \"" << string << "\"\n";
+      delete[] new_coeffs;
+      delete[] argv;
+      free(dup);
       return false;
     } else {
-      this->coeffs[ci] = f2_polymod_t(r, m);
+      new_coeffs[ci] = f2_polymod_t(r, m);
     }
   }
+  delete[] this->coeffs;
+  this->coeffs = new_coeffs;
+  this->degree = new_degree;
   delete[] argv;
   free(dup);
 
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 3cfe220..07509d8 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -832,8 +832,8 @@ std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fp_poly_t::from_string(const std::string &string, int p) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
+  if (string.empty()) {
+    return false;
   }
 
   int num_commas = 0;
@@ -847,20 +847,24 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
     // Allow comma-free input as long as all residues are
     // single-digit.
     int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
+    int new_degree = len - 1;
+    spffl::intmath::intmod_t *new_coeffs = new spffl::intmath::intmod_t[new_degree + 1];
     int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
+    for (si = 0, ci = new_degree; si < len; si++, ci--) {
       char ascii_digit = string[si];
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
         std::stringstream ss;
         ss << "fp_poly_t::from_string: "
            << "non-numerical input \"" << string << "\"\n";
         ss << "Didn't like '" << ascii_digit << "'\n";
+        delete[] new_coeffs;
         return false;
       }
-      this->coeffs[ci] = spffl::intmath::intmod_t(ascii_digit - '0', p);
+      new_coeffs[ci] = spffl::intmath::intmod_t(ascii_digit - '0', p);
     }
+    delete[] this->coeffs;
+    this->coeffs = new_coeffs;
+    this->degree = new_degree;
   } else {
     char *dup   = strdup(string.c_str());
     char **argv = new char *[num_commas + 1];
@@ -868,13 +872,15 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
     if (argc < 1) {
       // Needs an error message, but this coding error is
       // unlikely since we already counted commas.
+      delete[] argv;
+      free(dup);
       return false;
     }
 
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
+    int new_degree = argc - 1;
+    spffl::intmath::intmod_t *new_coeffs = new spffl::intmath::intmod_t[new_degree + 1];
     int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    for (argi = 0, ci = new_degree; argi < argc; argi++, ci--) {
       // Scan each coefficient, then reduce mod p
       int r;
 
@@ -884,11 +890,17 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
         std::stringstream ss;
         ss << "fp_poly_t::from_string: "
            << "scan failure at \"" << string << "\"\n";
+        delete[] new_coeffs;
+        delete[] argv;
+        free(dup);
         return false;
       } else {
-        this->coeffs[ci] = spffl::intmath::intmod_t(r, p);
+        new_coeffs[ci] = spffl::intmath::intmod_t(r, p);
       }
     }
+    delete[] this->coeffs;
+    this->coeffs = new_coeffs;
+    this->degree = new_degree;
     delete[] argv;
     free(dup);
   }
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index f8cf476..d253be9 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -809,8 +809,8 @@ std::istream &operator>>(std::istream &is, fpn_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
+  if (string.empty()) {
+    return false;
   }
 
   int num_colons = 0;
@@ -827,13 +827,15 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
   if (argc < 1) {
     // Needs an error message, but this coding error is
     // unlikely since we already counted colons.
+    delete[] argv;
+    free(dup);
     return false;
   }
 
-  this->degree = argc - 1;
-  this->coeffs = new fp_polymod_t[this->degree + 1];
+  int new_degree = argc - 1;
+  fp_polymod_t *new_coeffs = new fp_polymod_t[new_degree + 1];
   int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  for (argi = 0, ci = new_degree; argi < argc; argi++, ci--) {
     // Scan each coefficient, then reduce mod m
     fp_poly_t r = m; // Set modulus
 
@@ -843,11 +845,17 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
       std::stringstream ss;
       ss << "fpn_poly_t::from_string: "
          << "scan failure at \"" << string << "\"\n";
+      delete[] new_coeffs;
+      delete[] argv;
+      free(dup);
       return false;
     } else {
-      this->coeffs[ci] = fp_polymod_t(r, m);
+      new_coeffs[ci] = fp_polymod_t(r, m);
     }
   }
+  delete[] this->coeffs;
+  this->coeffs = new_coeffs;
+  this->degree = new_degree;
   delete[] argv;
   free(dup);
 
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 99ddb60..97ec154 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -723,8 +723,8 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool q_poly_t::from_string(const std::string &string) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
+  if (string.empty()) {
+    return false;
   }
 
   int num_commas = 0;
@@ -738,20 +738,24 @@ bool q_poly_t::from_string(const std::string &string) {
     // Allow comma-free input as long as all residues are
     // single-digit.
     int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
+    int new_degree = len - 1;
+    spffl::intmath::intrat_t *new_coeffs = new spffl::intmath::intrat_t[new_degree + 1];
     int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
+    for (si = 0, ci = new_degree; si < len; si++, ci--) {
       char ascii_digit = string[si];
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
         std::stringstream ss;
         ss << "q_poly_t::from_string: "
            << "non-numerical input \"" << string << "\"\n";
         ss << "Didn't like '" << ascii_digit << "'\n";
+        delete[] new_coeffs;
         return false;
       }
-      this->coeffs[ci] = spffl::intmath::intrat_t(ascii_digit - '0');
+      new_coeffs[ci] = spffl::intmath::intrat_t(ascii_digit - '0');
     }
+    delete[] this->coeffs;
+    this->coeffs = new_coeffs;
+    this->degree = new_degree;
   } else {
     char *dup   = strdup(string.c_str());
     char **argv = new char *[num_commas + 1];
@@ -759,13 +763,15 @@ bool q_poly_t::from_string(const std::string &string) {
     if (argc < 1) {
       // Needs an error message, but this coding error is
       // unlikely since we already counted commas.
+      delete[] argv;
+      free(dup);
       return false;
     }
 
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
+    int new_degree = argc - 1;
+    spffl::intmath::intrat_t *new_coeffs = new spffl::intmath::intrat_t[new_degree + 1];
     int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    for (argi = 0, ci = new_degree; argi < argc; argi++, ci--) {
       // Scan each coefficient.
       int r;
 
@@ -775,11 +781,17 @@ bool q_poly_t::from_string(const std::string &string) {
         std::stringstream ss;
         ss << "q_poly_t::from_string: "
            << "scan failure at \"" << string << "\"\n";
+        delete[] new_coeffs;
+        delete[] argv;
+        free(dup);
         return false;
       } else {
-        this->coeffs[ci] = spffl::intmath::intrat_t(r);
+        new_coeffs[ci] = spffl::intmath::intrat_t(r);
       }
     }
+    delete[] this->coeffs;
+    this->coeffs = new_coeffs;
+    this->degree = new_degree;
     delete[] argv;
     free(dup);
   }
-- 
2.43.0


From e3ab35a6563c819c540a1fb254cb12e7a7c07c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 31/52] fix: the most negative int was not recognised before
 negation

---
 spffl/bits/bit_matrix_t.cpp         | 3 ++-
 spffl/cli_parser/cmd_line_ops.h     | 3 ++-
 spffl/containers/tfacinfo.h         | 3 ++-
 spffl/containers/tmatrix.h          | 3 ++-
 spffl/intmath/intmod_t.cpp          | 3 ++-
 spffl/intmath/intrat_t.cpp          | 3 ++-
 spffl/intmath/is_prime.cpp          | 5 +++--
 spffl/polynomials/f2_polymod_t.cpp  | 3 ++-
 spffl/polynomials/f2n_polymod_t.cpp | 3 ++-
 spffl/polynomials/fp_polymod_t.cpp  | 3 ++-
 spffl/polynomials/fpn_polymod_t.cpp | 3 ++-
 spffl/rationals/f2_polyrat_t.cpp    | 3 ++-
 spffl/rationals/f2n_polyrat_t.cpp   | 3 ++-
 spffl/rationals/fp_polyrat_t.cpp    | 3 ++-
 14 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 9e886a6..6a69577 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/bits/bit_matrix_t.h"
 #include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -429,7 +430,7 @@ int bit_matrix_t::exp(int power, bit_matrix_t &rout) const {
     } else if (power == 0) {
       rout = I;
       return 1;
-    } else if (power == -power) {
+    } else if (power == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "bit_matrix_t::exp:  can't handle "
          << "MIN_INT.\n";
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 0ba4e79..06e7071 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -20,6 +20,7 @@
 
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tstack.h"
+#include <limits>
 #include <iostream>
 #include <sstream>
 #include <string.h>
@@ -267,7 +268,7 @@ element_type clo_exp(
   }
 
   if (e < 0) {
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "Can't handle MIN_INT.\n";
       throw spffl::exception_t(ss.str());
diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index 2914d23..8c8f59e 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -9,6 +9,7 @@
 
 #include "spffl/base/spffl_exception.h"
 #include "spffl/containers/tvector.h"
+#include <limits>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -287,7 +288,7 @@ public:
     }
 
     if (e < 0) {
-      if (e == -e) {
+      if (e == std::numeric_limits<int>::min()) {
         std::stringstream ss;
         ss << "Can't handle MIN_INT.\n";
         throw spffl::exception_t(ss.str());
diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index d3baebf..ad4380b 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -12,6 +12,7 @@
 #include "spffl/base/tokenize.h"
 #include "spffl/containers/tvector.h"
 #include "spffl/intmath/int_gcd.h"
+#include <limits>
 #include <iostream>
 #include <stdlib.h>
 #include <string.h>
@@ -595,7 +596,7 @@ public:
       } else if (power == 0) {
         rout = I;
         return 1;
-      } else if (power == -power) {
+      } else if (power == std::numeric_limits<int>::min()) {
         std::stringstream ss;
         ss << "tmatrix::exp:  can't handle MIN_INT.\n";
         throw spffl::exception_t(ss.str());
diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 4ca4b6c..9034b8d 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/intmath/intmod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -39,7 +40,7 @@ intmod_t intmod_t::exp(int e) const {
       ss << "intmod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "intmod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 14bd838..7455398 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -9,6 +9,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/intmath/int_gcd.h"
 #include "spffl/intmath/int_totient.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 #include <stdlib.h>
@@ -141,7 +142,7 @@ intrat_t intrat_t::exp(int e) {
       ss << "intrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "intrat_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/intmath/is_prime.cpp b/spffl/intmath/is_prime.cpp
index 9799fe9..9789377 100644
--- a/spffl/intmath/is_prime.cpp
+++ b/spffl/intmath/is_prime.cpp
@@ -7,6 +7,7 @@
 #include "spffl/intmath/is_prime.h"
 #include "spffl/base/spffl_exception.h"
 #include "spffl/intmath/primes_16.h"
+#include <limits>
 #include <iostream>
 #include <stdio.h>
 #include <stdlib.h>
@@ -17,7 +18,7 @@ namespace spffl::intmath {
 bool isprime_trial(int n) {
   int d, q;
 
-  if (n == -n) {
+  if (n == std::numeric_limits<int>::min()) {
     return false;
   } else if (n < 0) {
     n = -n;
@@ -46,7 +47,7 @@ bool isprime_table(int n) {
   int i;
   unsigned un;
 
-  if (n == -n) {
+  if (n == std::numeric_limits<int>::min()) {
     return false;
   } else if (n < 0) {
     n = -n;
diff --git a/spffl/polynomials/f2_polymod_t.cpp b/spffl/polynomials/f2_polymod_t.cpp
index befefb0..1db5f3e 100644
--- a/spffl/polynomials/f2_polymod_t.cpp
+++ b/spffl/polynomials/f2_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/f2_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -151,7 +152,7 @@ f2_polymod_t f2_polymod_t::exp(int e) const {
       ss << "f2_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "f2_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/polynomials/f2n_polymod_t.cpp b/spffl/polynomials/f2n_polymod_t.cpp
index 9ae3b5f..c5c8d5e 100644
--- a/spffl/polynomials/f2n_polymod_t.cpp
+++ b/spffl/polynomials/f2n_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/f2n_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -177,7 +178,7 @@ f2n_polymod_t f2n_polymod_t::exp(int e) const {
       ss << "f2n_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "f2n_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index eb90b3f..366cf59 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/fp_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -187,7 +188,7 @@ fp_polymod_t fp_polymod_t::exp(int e) const {
       ss << "fp_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "fp_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index cac4515..a91acec 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/polynomials/fpn_polymod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -177,7 +178,7 @@ fpn_polymod_t fpn_polymod_t::exp(int e) const {
       ss << "fpn_polymod_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "fpn_polymod_t::exp:  can't handle "
             "MIN_INT.\n";
diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index e3c2da0..940ab13 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/rationals/f2_polyrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -156,7 +157,7 @@ f2_polyrat_t f2_polyrat_t::exp(int e) const {
       ss << "f2_polyrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "f2_polyrat_t::exp:  can't handle "
             "MIN_F2POLY.\n";
diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index c81e816..c8ad16f 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/rationals/f2n_polyrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -152,7 +153,7 @@ f2n_polyrat_t f2n_polyrat_t::exp(int e) const {
       ss << "f2n_polyrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "f2n_polyrat_t::exp:  can't handle "
             "MIN_F2NPOLY.\n";
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 7878e52..e76ef14 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/rationals/fp_polyrat_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <iomanip>
 #include <iostream>
 
@@ -152,7 +153,7 @@ fp_polyrat_t fp_polyrat_t::exp(int e) const {
       ss << "fp_polyrat_t::exp:  division by zero.\n";
       throw spffl::exception_t(ss.str());
     }
-    if (e == -e) {
+    if (e == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "fp_polyrat_t::exp:  can't handle "
             "MIN_FPPOLY.\n";
-- 
2.43.0


From 21dbd3518d3b4c8a36d78ca64595c1d7e8e89a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 32/52] fix: intmod_t arithmetic overflowed int for large
 moduli

---
 spffl/intmath/intmod_t.cpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 9034b8d..fe556ee 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -12,6 +12,11 @@
 
 namespace spffl::intmath {
 
+// Sums and products of residues do not fit in an int for large moduli.
+static int reduce(long long value, int modulus) {
+  return (int)(value % modulus);
+}
+
 // ----------------------------------------------------------------
 intmod_t intmod_t::prime_subfield_element(int v) const {
   int p = this->get_modulus();
@@ -22,7 +27,7 @@ intmod_t intmod_t::prime_subfield_element(int v) const {
 intmod_t intmod_t::exp(int e) const {
   this->check_modulus();
 
-  int xp = this->residue;
+  long long xp = this->residue;
   intmod_t zero(0, this->modulus);
   intmod_t one(1, this->modulus);
   intmod_t rv = one;
@@ -53,7 +58,7 @@ intmod_t intmod_t::exp(int e) const {
 
   while (e != 0) {
     if (e & 1) {
-      rv.residue = (rv.residue * xp) % this->modulus;
+      rv.residue = (int)((rv.residue * xp) % this->modulus);
     }
     e  = (unsigned)e >> 1;
     xp = (xp * xp) % this->modulus;
@@ -261,14 +266,18 @@ intmod_t &intmod_t::operator=(const intmod_t &that) {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue + that.residue, this->modulus);
+  intmod_t rv(
+      reduce((long long)this->residue + that.residue, this->modulus),
+      this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->modulus + this->residue - that.residue, this->modulus);
+  intmod_t rv(
+      reduce((long long)this->residue - that.residue, this->modulus),
+      this->modulus);
   return rv;
 }
 
@@ -282,25 +291,33 @@ intmod_t intmod_t::operator-(void) const {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue * that.residue, this->modulus);
+  intmod_t rv(
+      reduce((long long)this->residue * that.residue, this->modulus),
+      this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(int a) const {
-  intmod_t rv(this->residue + a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(
+      reduce((long long)this->residue + a, this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(int a) const {
-  intmod_t rv(this->modulus + this->residue - a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(
+      reduce((long long)this->residue - a, this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(int a) const {
-  intmod_t rv(this->residue * a, this->modulus);
+  this->check_modulus();
+  intmod_t rv(
+      reduce((long long)this->residue * a, this->modulus), this->modulus);
   return rv;
 }
 
@@ -355,7 +372,7 @@ bool intmod_t::recip(intmod_t &rinv) const {
   }
 
   intmod_t rv = this->exp(phi - 1);
-  int check   = (this->residue * rv.residue) % this->modulus;
+  int check   = reduce((long long)this->residue * rv.residue, this->modulus);
   if (check != 1) {
     return false;
   } else {
-- 
2.43.0


From ae2fde9b301c184b17723b7d50880a157da8452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 33/52] fix: intmod_t input stored negative residues unreduced

---
 spffl/intmath/intmod_t.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index fe556ee..07e0e7b 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -92,8 +92,11 @@ std::istream &operator>>(std::istream &is, intmod_t &a) {
   }
 
   a.check_modulus();
-  is >> a.residue;
-  a.residue %= a.modulus;
+  int residue = 0;
+  is >> residue;
+  if (!is.fail()) {
+    a = intmod_t(residue, a.modulus);
+  }
   return is;
 }
 
-- 
2.43.0


From dfaaeeaa3cdc6df7452e4466131f8de5409cdd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 34/52] fix: int_gcd of zero and a negative number was negative

---
 spffl/intmath/int_gcd.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 56017f8..a4fabe3 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -12,13 +12,6 @@ namespace spffl::intmath {
 int int_gcd(int a, int b) {
   int r;
 
-  if (a == 0) {
-    return b;
-  }
-  if (b == 0) {
-    return a;
-  }
-
   if (a < 0) { // Breaks for most negative int (-2^63); I don't care.
     a = -a;
   }
@@ -26,6 +19,13 @@ int int_gcd(int a, int b) {
     b = -b;
   }
 
+  if (a == 0) {
+    return b;
+  }
+  if (b == 0) {
+    return a;
+  }
+
   while (1) {
     r = a % b;
     if (r == 0) {
-- 
2.43.0


From 013f9738c2f3b9cd412cd7aa466b9ad619d9c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 35/52] fix: int_lcm divided by zero for two zero arguments

---
 spffl/intmath/int_gcd.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index a4fabe3..4b9b9c3 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -81,7 +81,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
 }
 
 // ----------------------------------------------------------------
-int int_lcm(int a, int b) { return (a * b) / int_gcd(a, b); }
+int int_lcm(int a, int b) {
+  if (a == 0 || b == 0) {
+    return 0;
+  }
+  return (int)(((long long)a * b) / int_gcd(a, b));
+}
 
 // ----------------------------------------------------------------
 int gcd(const int a, const int b) { return int_gcd(a, b); }
-- 
2.43.0


From d5f8cf2d59d452d7777a05ad3bdf06206f73b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 36/52] fix: int_ext_gcd divided by a zero second argument

---
 spffl/intmath/int_gcd.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 4b9b9c3..1c8cd54 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -43,6 +43,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
   int mprime, nprime, c, q, r, t, qm, qn;
   int d; // Return value.
 
+  if (b == 0) {
+    m = 1;
+    n = 0;
+    return a;
+  }
+
   // Initialize
   mprime = 1;
   n      = 1;
-- 
2.43.0


From 651cc2ab82e32d1d8e98c557b94f8e50cc36be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 37/52] fix: intrat_t input hid a failed scan and could leave
 an unreduced fraction

---
 spffl/intmath/intrat_t.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 7455398..0c7da1c 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -189,19 +189,23 @@ std::istream &operator>>(std::istream &is, intrat_t &a) {
     is.ignore(1, '\n');
   }
 
-  is >> a.numer;
-  if (is.eof()) {
-    a.denom = 1;
+  int numer = 0;
+  int denom = 1;
+  is >> numer;
+  if (is.fail()) {
+    return is;
   }
   if (is.peek() == '/') {
     (void)is.get();
-    is >> a.denom;
+    is >> denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     is.clear();
-    a.denom = 1;
   }
-  a.simplify();
+  a = intrat_t(numer, denom);
   return is;
 }
 
@@ -222,18 +226,25 @@ std::istringstream &operator>>(std::istringstream &iss, intrat_t &a) {
     iss.ignore(1, '\n');
   }
 
-  iss >> a.numer;
+  int numer = 0;
+  int denom = 1;
+  iss >> numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
-    a.denom = 1;
+    denom = 1;
   } else if (iss.peek() == '/') {
     (void)iss.get();
-    iss >> a.denom;
+    iss >> denom;
+    if (iss.fail()) {
+      return iss;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     iss.clear();
-    a.denom = 1;
   }
-  a.simplify();
+  a = intrat_t(numer, denom);
   return iss;
 }
 
-- 
2.43.0


From 2f80c87b4267ef9818d6317bb5c21ac526ddc532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 38/52] fix: polynomial-fraction input hid a failed scan of the
 numerator

---
 spffl/rationals/f2_polyrat_t.cpp  | 17 +++++++++++------
 spffl/rationals/f2n_polyrat_t.cpp | 17 +++++++++++------
 spffl/rationals/fp_polyrat_t.cpp  | 17 +++++++++++------
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index 940ab13..1b4bf00 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -204,19 +204,24 @@ std::istream &operator>>(std::istream &is, f2_polyrat_t &a) {
     is.ignore(1, '\n');
   }
 
-  is >> a.numer;
-  if (is.eof()) {
-    a.denom = 1;
+  spffl::polynomials::f2_poly_t numer(a.numer);
+  spffl::polynomials::f2_poly_t denom(a.denom);
+  is >> numer;
+  if (is.fail()) {
+    return is;
   }
   if (is.peek() == '/') {
     (void)is.get();
-    is >> a.denom;
+    is >> denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     is.clear();
-    a.denom = 1;
+    denom = 1;
   }
-  a.simplify();
+  a = f2_polyrat_t(numer, denom);
   return is;
 }
 
diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index c8ad16f..107ebb9 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -200,19 +200,24 @@ std::istream &operator>>(std::istream &is, f2n_polyrat_t &a) {
     is.ignore(1, '\n');
   }
 
-  is >> a.numer;
-  if (is.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
+  spffl::polynomials::f2n_poly_t numer(a.numer);
+  spffl::polynomials::f2n_poly_t denom(a.denom);
+  is >> numer;
+  if (is.fail()) {
+    return is;
   }
   if (is.peek() == '/') {
     (void)is.get();
-    is >> a.denom;
+    is >> denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     is.clear();
-    a.denom = a.numer.prime_subfield_element(1);
+    denom = numer.prime_subfield_element(1);
   }
-  a.simplify();
+  a = f2n_polyrat_t(numer, denom);
   return is;
 }
 
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index e76ef14..f2f9cff 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -200,19 +200,24 @@ std::istream &operator>>(std::istream &is, fp_polyrat_t &a) {
     is.ignore(1, '\n');
   }
 
-  is >> a.numer;
-  if (is.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
+  spffl::polynomials::fp_poly_t numer(a.numer);
+  spffl::polynomials::fp_poly_t denom(a.denom);
+  is >> numer;
+  if (is.fail()) {
+    return is;
   }
   if (is.peek() == '/') {
     (void)is.get();
-    is >> a.denom;
+    is >> denom;
+    if (is.fail()) {
+      return is;
+    }
   } else {
     // Clear failure code from not having found the '/'.
     is.clear();
-    a.denom = a.numer.prime_subfield_element(1);
+    denom = numer.prime_subfield_element(1);
   }
-  a.simplify();
+  a = fp_polyrat_t(numer, denom);
   return is;
 }
 
-- 
2.43.0


From 3a4cc7cc924d4de4459143bf0e992e0255889c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 39/52] fix: fp_polyrat_t unary minus did not return a
 canonical fraction

---
 spffl/rationals/fp_polyrat_t.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index f2f9cff..53e5457 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -100,6 +100,7 @@ fp_polyrat_t fp_polyrat_t::operator-(void) const {
   fp_polyrat_t rv;
   rv.numer = -this->numer;
   rv.denom = this->denom;
+  rv.simplify();
   return rv;
 }
 
-- 
2.43.0


From 298e5a33cfd98ce64362a146ff904774e745599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 40/52] fix: fp_polymod_t scalar product scaled the modulus
 instead of the residue

---
 spffl/polynomials/fp_polymod_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index 366cf59..4a45519 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -110,7 +110,7 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
 // ----------------------------------------------------------------
 fp_polymod_t fp_polymod_t::operator*(spffl::intmath::intmod_t a) const {
   fp_polymod_t rv(*this);
-  rv.modulus *= a;
+  rv.residue *= a;
   return rv;
 }
 
-- 
2.43.0


From a32f0aa30eb33cb13763a43bf44a886df3a7af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 41/52] fix: polynomial-residue times negative int returned the
 residue itself

---
 spffl/polynomials/fp_polymod_t.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index 4a45519..ba1d6d4 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -97,6 +97,9 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
   fp_polymod_t rv(*this);
   int p = this->get_characteristic();
   a %= p;
+  if (a < 0) {
+    a += p;
+  }
   if (a == 0) {
     rv = rv - rv;
   } else {
-- 
2.43.0


From 1fcc8bf714b29c449c4fb8f0c7c5474e55c97044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 42/52] fix: f2_poly_t::set_coeff shifted an int past its width

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index f428664..22f282a 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -778,9 +778,9 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
   }
   this->check_neg_pos(pos);
   if (b.get_residue()) {
-    this->parts[which_part] |= (1 << which_bit);
+    this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-    this->parts[which_part] &= ~(1 << which_bit);
+    this->parts[which_part] &= ~(F2_POLY_LSB << which_bit);
     this->trim_parts();
   }
 }
-- 
2.43.0


From 827f26bead60f2aa2a29677f28eb080b390cf704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 43/52] fix: f2_poly_t emptied its storage before rejecting a
 negative position

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 22f282a..c0712c0 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -758,15 +758,16 @@ void f2_poly_t::dprint(std::ostream &os, int reqdeg) const {
 
 // ----------------------------------------------------------------
 void f2_poly_t::set_bit(int pos) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
     this->extend_parts(which_part + 1);
   }
-  this->check_neg_pos(pos);
   this->parts[which_part] |= (F2_POLY_LSB << which_bit);
 }
 void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
@@ -776,7 +777,6 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
       return;
     }
   }
-  this->check_neg_pos(pos);
   if (b.get_residue()) {
     this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-- 
2.43.0


From 73fd5fdf18e877dbb3a4d4526786ff7a10698155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 44/52] fix: fpn_polymod_t times a negative int returned zero

---
 spffl/polynomials/fpn_polymod_t.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index a91acec..ab351ab 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -96,7 +96,11 @@ fpn_polymod_t fpn_polymod_t::operator*(const fpn_polymod_t &that) const {
 
 // ----------------------------------------------------------------
 fpn_polymod_t fpn_polymod_t::operator*(int a) const {
-  // xxx get the characteristic and reduce a mod that.
+  int p = this->get_characteristic();
+  a %= p;
+  if (a < 0) {
+    a += p;
+  }
   fpn_polymod_t rv = *this - *this;
   for (int i = 0; i < a; i++) {
     rv += *this;
-- 
2.43.0


From e9be2e854af2ef286e389f6688d8b990c4df1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 45/52] fix: spiff exited with status 0 after reporting an
 error

---
 cli/spiff/spiff_main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index ff535cd..90b9938 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -310,9 +310,9 @@ static int try_main(int argc, char **argv) {
 
 int main(int argc, char **argv) {
   try {
-    try_main(argc, argv);
+    return try_main(argc, argv);
   } catch (spffl::exception_t e) {
     std::cerr << e.what() << "\n";
+    return 1;
   }
-  return 0;
 }
-- 
2.43.0


From 1a8c95daac4024ea73cd08c17971198ce3e2c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 46/52] fix: spiff listed nth_prime under a namespace-qualified
 name

---
 cli/spiff/spiff_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index 90b9938..876c21f 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -42,7 +42,7 @@ std::vector<lookup_t> z_lookups {
   {"z_lcm",                     z_lcm_main,        z_lcm_usage},
   {"z_totient",                 z_totient_main,    z_totient_usage},
   {"z_test_prime",              z_test_prime_main, z_test_prime_usage},
-  {"spffl::intmath::nth_prime", nth_prime_main,    nth_prime_usage},
+  {"nth_prime",                 nth_prime_main,    nth_prime_usage},
   {"z_list",                    z_list_main,       z_list_usage},
   {"z_factor",                  z_factor_main,     z_factor_usage},
   {"z_divisors",                z_divisors_main,   z_divisors_usage},
-- 
2.43.0


From 19629faa75bcc3bfe5b02a99e480ffa090c7d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 47/52] fix: command interpolation read before its line buffer
 on a NUL byte

---
 spffl/cli_parser/cmd_interp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index 942882b..929ab77 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -100,7 +100,7 @@ static void replace(
   char *buf  = 0;
   while (fgets(line, sizeof(line), pipe)) {
     int curlen = strlen(line);
-    if (line[curlen - 1] == '\n') {
+    if (curlen > 0 && line[curlen - 1] == '\n') {
       line[curlen - 1] = 0;
       curlen--;
     }
-- 
2.43.0


From 1ffa46b6f13ba718b992e95404a9d0fd33c43841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 48/52] fix: bit_vector_t tail masks overflowed int for the
 longest vectors

---
 spffl/bits/bit_vector_t.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index dc0d255..75d3c98 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -360,9 +360,9 @@ bool bit_vector_t::operator==(const bit_t &scalar) const {
     fill = ~fill;
   }
   for (int i = 0; i < this->num_words; i++) {
-    if (i == this->num_words - 1) {
+    if (i == this->num_words - 1 && (this->num_bits & WORD_MASK) != 0) {
       // The unused bits at the end of the vector are always zero.
-      fill <<= (this->num_words << BITS_SHIFT) - this->num_bits;
+      fill <<= 64 - (this->num_bits & WORD_MASK);
     }
     if (this->words[i] != fill) {
       return false;
@@ -415,11 +415,11 @@ void bit_vector_t::check_equal_lengths(const bit_vector_t &that) const {
 // num_bits isn't an exact multiple of the word size.  This will
 // facilitate comparisons later.
 void bit_vector_t::trim(void) {
-  int num_dribble_bits = (this->num_words << BITS_SHIFT) - this->num_bits;
-  if (num_dribble_bits == 0) {
+  int num_used_bits = this->num_bits & WORD_MASK;
+  if (num_used_bits == 0) {
     return;
   }
-  this->words[this->num_words - 1] &= ~(uint64_t)0 << num_dribble_bits;
+  this->words[this->num_words - 1] &= ~(uint64_t)0 << (64 - num_used_bits);
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From a2db7857d8cc04ca5d9648f7eb969be766b1c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:30 +0000
Subject: [PATCH 49/52] fix: intmod_t::recip's totient cache was shared between
 threads

---
 spffl/intmath/intmod_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 07e0e7b..647e227 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -367,8 +367,8 @@ bool intmod_t::recip(intmod_t &rinv) const {
     }
   }
 
-  static int mlast = 2;
-  static int phi   = 1;
+  static thread_local int mlast = 2;
+  static thread_local int phi   = 1;
   if (this->modulus != mlast) { // Cache
     mlast = this->modulus;
     phi   = int_totient(this->modulus);
-- 
2.43.0


From e0a37aeff1ab3eddfeb2658b6f9700982929a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:38 +0000
Subject: [PATCH 50/52] fix: f2n_polymod_log wrote debugging text to standard
 output

---
 spffl/units/f2n_polymod_units.cpp | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index a48abaf..1dd5cc9 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -118,16 +118,10 @@ static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
 int f2n_polymod_log( // Log base g of a.
     const spffl::polynomials::f2n_polymod_t &g,
     const spffl::polynomials::f2n_polymod_t &a) {
-  std::cout << "\n";
-  std::cout << "g = " << g << "\n";
-  std::cout << "a = " << a << "\n";
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
-  std::cout << "m = " << m << "\n";
   int n = 1 << m.find_degree();
-  std::cout << "n = " << n << "\n";
   unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
-  std::cout << "k = " << k << "\n";
 
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
@@ -142,9 +136,7 @@ int f2n_polymod_log( // Log base g of a.
        << " is a zero divisor.\n";
     throw spffl::exception_t(ss.str());
   }
-  std::cout << "gi = " << ginv << "\n";
   spffl::polynomials::f2n_polymod_t gk = g.exp(k);
-  std::cout << "gk = " << gk << "\n";
   unsigned i, j;
 
   agni[0].elt = a;
@@ -152,32 +144,21 @@ int f2n_polymod_log( // Log base g of a.
   gkj[0].elt  = g / g;
   gkj[0].idx  = 0;
 
-  std::cout << "agni[" << 0 << "] = " << agni[0].elt << "\n";
   for (i = 1; i < k; i++) {
     agni[i].elt = agni[i - 1].elt * ginv;
     agni[i].idx = i;
-    std::cout << "agni[" << i << "] = " << agni[i].elt << "\n";
   }
-  std::cout << "gk[" << 0 << "]  = " << gkj[0].elt << "\n";
   for (j = 1; j < k; j++) {
     gkj[j].elt = gkj[j - 1].elt * gk;
     gkj[j].idx = j;
-    std::cout << "gk[" << j << "]  = " << gkj[j].elt << "\n";
   }
 
   qsort(agni, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
   qsort(gkj, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
-  for (j = 0; j < k; j++) {
-    std::cout << "-- agni[" << j << "] = " << agni[j].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
-  }
 
   for (i = 0, j = 0; i < k && j < k;) {
-    std::cout << "agni[" << i << "] = " << agni[i].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
     if (agni[i].elt == gkj[j].elt) {
       // xxx could overflow 32-bit int; fix me.
-      std::cout << "found at i=" << i << " j=" << j << "\n";
       rv = agni[i].idx + gkj[j].idx * k;
       break;
     } else if (agni[i].elt < gkj[j].elt) {
-- 
2.43.0


From f30a6da28dfd07b20e7d0c3bbe0eac1d01b50ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:29 +0000
Subject: [PATCH 51/52] fix: f2n_polymod_log ignored the size of the
 coefficient field

---
 spffl/units/f2n_polymod_units.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 1dd5cc9..dc8bad9 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -120,7 +120,9 @@ int f2n_polymod_log( // Log base g of a.
     const spffl::polynomials::f2n_polymod_t &a) {
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
-  int n = 1 << m.find_degree();
+  // The coefficient field has 2^d elements; the group, fewer than 2^(d deg m).
+  int d      = m.get_coeff(0).get_modulus().find_degree();
+  int n      = 1 << (d * m.find_degree());
   unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
 
   // xxx check gcd(g, m)
-- 
2.43.0


From 004a911d8bb281c73e374c83dd909a909e3b07c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 52/52] fix: fp_pm_mat_op and fp_pm_vecop had no usage function
 and crashed on misuse

---
 cli/spiff/fp_polymod_handlers.cpp | 10 ++++++++++
 cli/spiff/fp_polymod_handlers.h   |  2 ++
 cli/spiff/spiff_main.cpp          |  4 ++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index 3e775ba..c12fccf 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -201,6 +201,11 @@ int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_mat_op_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {expression}\n";
+  exit(1);
+}
+
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
@@ -221,6 +226,11 @@ int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_vecop_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {expression}\n";
+  exit(1);
+}
+
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
diff --git a/cli/spiff/fp_polymod_handlers.h b/cli/spiff/fp_polymod_handlers.h
index 4e3133e..06898f8 100644
--- a/cli/spiff/fp_polymod_handlers.h
+++ b/cli/spiff/fp_polymod_handlers.h
@@ -12,8 +12,10 @@ int fp_pm_op_main(int argc, char **argv, usage_t *pusage);
 void fp_pm_tbl_usage(char *argv0);
 int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_mat_op_usage(char *argv0);
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_vecop_usage(char *argv0);
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage);
 
 void fp_pm_mat_ord_usage(char *argv0);
diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index 876c21f..41f0984 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -194,8 +194,8 @@ std::vector<lookup_t> fp_pm_lookups {
   {"fp_pm_ch_pol",     fp_pm_ch_pol_main,     fp_pm_ch_pol_usage},
   {"fp_pm_min_pol",    fp_pm_min_pol_main,    fp_pm_min_pol_usage},
   {"fp_pm_random",     fp_pm_random_main,     fp_pm_random_usage},
-  {"fp_pm_mat_op",     fp_pm_mat_op_main,     nullptr/*fppmmatop_usage*/},
-  {"fp_pm_vecop",      fp_pm_vecop_main,      nullptr/*fppmvecop_usage*/},
+  {"fp_pm_mat_op",     fp_pm_mat_op_main,     fp_pm_mat_op_usage},
+  {"fp_pm_vecop",      fp_pm_vecop_main,      fp_pm_vecop_usage},
   {"fp_pm_mat_ord",    fp_pm_mat_ord_main,    fp_pm_mat_ord_usage},
   {"fp_pm_mat_random", fp_pm_mat_random_main, fp_pm_mat_random_usage},
 };
-- 
2.43.0

