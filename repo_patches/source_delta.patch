From 26cec7656ba250d2068de1a699f5475606faca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 01/28] fix: CSC subtraction passed its index arrays in the
 wrong order

---
 src/csc/std_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index a95e0fc..bb0f733 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -62,7 +62,7 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), colptr, rowidx, values).unwrap()
+    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
 #[opimps::impl_ops(Mul)]
-- 
2.43.0


From afe648164ec81ead940901a8c81850143ec63792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 02/28] fix: CSC times scalar passed its index arrays in the
 wrong order

---
 src/csc/std_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index bb0f733..4ebb217 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -80,8 +80,8 @@ fn mul<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: T) -> CSC<I, T> {
     CSC::new(
         self.rows(),
         self.cols(),
-        self.colptr().to_vec(),
         self.rowidx().to_vec(),
+        self.colptr().to_vec(),
         self.values().iter().map(|&v| v * rhs).collect::<Vec<T>>(),
     )
     .unwrap()
-- 
2.43.0


From 2e61020422734206e78adff40f0b83cd4dddc96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 03/28] fix: Complex64 times CSC passed its index arrays in the
 wrong order

---
 src/csc/std_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index 4ebb217..fae82bc 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -91,8 +91,8 @@ fn mul<I: Integer>(self: Complex64, rhs: CSC<I, Complex64>) -> CSC<I, Complex64>
     CSC::new(
         rhs.rows(),
         rhs.cols(),
-        rhs.colptr().to_vec(),
         rhs.rowidx().to_vec(),
+        rhs.colptr().to_vec(),
         rhs.values()
             .iter()
             .map(|&v| self * v)
-- 
2.43.0


From 07289520cc48dcc3431add54d829c80cf5152734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 04/28] fix: sortedness test underflowed on a leading empty row
 with unsigned indices

---
 src/row.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 878fb27..dcdd00f 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -163,9 +163,9 @@ pub fn csr_todense<I: Integer, T: Scalar>(
 pub fn csr_has_sorted_indices<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> bool {
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
-        let end = (a_p[i + 1] - I::one()).to_usize().unwrap();
-        for jj in start..end {
-            if a_j[jj] > a_j[jj + 1] {
+        let end = a_p[i + 1].to_usize().unwrap();
+        for jj in start + 1..end {
+            if a_j[jj - 1] > a_j[jj] {
                 return false;
             }
         }
-- 
2.43.0


From a1db0f5b67c57cf18177c9c6630f342c9e513a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 05/28] fix: canonical format test overflowed when nnz is the
 largest index value

---
 src/row.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index dcdd00f..e6824db 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -192,9 +192,7 @@ pub fn csr_has_canonical_format<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I])
             return false;
         }
 
-        let start = (a_p[i] + I::one()).to_usize().unwrap();
-        let end = a_p[i + 1].to_usize().unwrap();
-        for jj in start..end {
+        for jj in start + 1..end {
             if !(a_j[jj - 1] < a_j[jj]) {
                 return false;
             }
-- 
2.43.0


From bdfdc9196611e6e24365279ce9cbf6ed11b1c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 06/28] fix: counting diagonals underflowed on entries below
 the main diagonal

---
 src/row.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row.rs b/src/row.rs
index e6824db..8beec2d 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1582,7 +1582,7 @@ pub fn csr_count_diagonals<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> us
         let end = a_p[i + 1].to_usize().unwrap();
 
         for jj in start..end {
-            diagonals.insert(a_j[jj].to_usize().unwrap() - i);
+            diagonals.insert(a_j[jj].to_usize().unwrap() + n_row - i);
         }
     }
     diagonals.len()
-- 
2.43.0


From 437f7b4e953b3524d5de2cfb0321501a3667fdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 07/28] fix: adding or subtracting compressed matrices of
 different shapes gave garbage

---
 src/csc/std_ops.rs | 6 ++++++
 src/csr/std_ops.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index fae82bc..543d110 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -19,6 +19,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
@@ -43,6 +46,9 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index f64f10a..040d24a 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -18,6 +18,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
@@ -42,6 +45,9 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
-- 
2.43.0


From f04c34367ca9f6b2f66c8afa844c525093d6fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 08/28] fix: CSR and CSC kept entries beyond nnz, which to_coo
 and values() then exposed

---
 src/csc/csc.rs | 6 ++++--
 src/csr/csr.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 5aec3af..4e4f33a 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -25,9 +25,9 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
     pub fn new(
         rows: usize,
         cols: usize,
-        rowidx: Vec<I>,
+        mut rowidx: Vec<I>,
         colptr: Vec<I>,
-        values: Vec<T>,
+        mut values: Vec<T>,
     ) -> Result<Self> {
         if colptr.len() != cols + 1 {
             return Err(format_err!("colptr has invalid length"));
@@ -39,6 +39,8 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
         if values.len() < nnz {
             return Err(format_err!("values array has fewer than nnz elements"));
         }
+        rowidx.truncate(nnz);
+        values.truncate(nnz);
         Ok(Self {
             rows,
             cols,
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 65b97af..596a5d0 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -28,8 +28,8 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         rows: usize,
         cols: usize,
         rowptr: Vec<I>,
-        colidx: Vec<I>,
-        values: Vec<T>,
+        mut colidx: Vec<I>,
+        mut values: Vec<T>,
     ) -> Result<Self> {
         if rowptr.len() != rows + 1 {
             return Err(format_err!("rowptr has invalid length"));
@@ -41,6 +41,8 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         if values.len() < nnz {
             return Err(format_err!("values array has fewer than nnz elements"));
         }
+        colidx.truncate(nnz);
+        values.truncate(nnz);
         Ok(CSR {
             rows,
             cols,
-- 
2.43.0


From 3ab424a3a116999a869e7f748b57655ca678b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 09/28] fix: CSR::get returned the first of several entries at
 a coordinate, not their sum

---
 src/csr/csr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 596a5d0..19fa880 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -498,12 +498,12 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         let end = self.rowptr[i + 1].to_usize().unwrap();
 
         // Iterate over the column indices of row k.
+        let mut v = T::zero(); // If not found, the element is zero.
         for k in start..end {
             if self.colidx[k].to_usize().unwrap() == j {
-                return self.values[k]; // Found the element at (i, j).
+                v = v + self.values[k]; // Duplicate entries are summed.
             }
         }
-
-        T::zero() // If not found, the element is zero.
+        v
     }
 }
-- 
2.43.0


From 7c635fcaa4666a96fb54300bbfa411958b64635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 10/28] fix: strongly connected components of an empty graph
 underflowed

---
 src/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 12fb4ca..4e3394a 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -154,6 +154,9 @@ fn connected_components_directed<I: Integer>(
     indices: &[I],
     indptr: &[I],
 ) -> (usize, Vec<usize>) {
+    if n == 0 {
+        return (0, vec![]);
+    }
     let mut labels = vec![Node::Void; n];
 
     // The stack of nodes which have been backtracked and are in the current SCC
-- 
2.43.0


From 5c24947f28dd5a2f4a7edd43aada4ef35efb3e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 11/28] fix: a graph without edges was reported as corrupted

---
 src/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 4e3394a..f77d565 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -359,6 +359,9 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
             flag[ir] = F::from(-2).unwrap();
         }
     }
+    if n_stop == 0 {
+        return Ok(n_comp); // no edges, all nodes are isolated
+    }
 
     let mut n_tot = 0;
     for icomp in 0..n_nod {
-- 
2.43.0


From 8a87e7605bcb86c8fb7e2a65da52435525f85b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 12/28] fix: from_dense of a matrix without rows panicked

---
 src/csc/csc.rs | 2 +-
 src/csr/csr.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 4e4f33a..8e3809f 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -52,7 +52,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = if rows > 0 { a[0].len() } else { 0 };
 
         let mut colptr = Vec::<I>::new();
         let mut rowidx = Vec::<I>::new();
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 19fa880..5a71426 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -64,7 +64,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = if rows > 0 { a[0].len() } else { 0 };
 
         let mut rowptr = Vec::<I>::new();
         let mut colidx = Vec::<I>::new();
-- 
2.43.0


From abe7754218434ef12ed4704dea44537c1b7b0150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 13/28] fix: Coo::upper overflowed when row + k does not fit
 the index type

---
 src/coo/coo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index feff9bb..d7cbc7d 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -341,7 +341,8 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
         let mut values = Vec::with_capacity(c);
 
         for i in 0..self.nnz() {
-            if self.rowidx[i] + k <= self.colidx[i] {
+            // A sum too large for the index type lies right of every column.
+            if matches!(self.rowidx[i].checked_add(&k), Some(d) if d <= self.colidx[i]) {
                 rowidx.push(self.rowidx[i]);
                 colidx.push(self.colidx[i]);
                 values.push(self.values[i]);
-- 
2.43.0


From f2b00126eb18fa9a2f3d279eb3ca19dcbd26386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 14/28] fix: negative imaginary parts were printed with two
 signs

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 8b4d5ab..8bd2b15 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -108,7 +108,7 @@ impl Scalar for num_complex::Complex<f64> {
             "{}{}j{}",
             dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
@@ -119,7 +119,7 @@ impl Scalar for num_complex::Complex<f32> {
             "{}{}j{}",
             dtoa(self.re as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs() as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
-- 
2.43.0


From eaea626ab854935d658576aec1981a3d424d2fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 15/28] fix: Coo::extend with arrays of different lengths
 corrupted the matrix

---
 src/coo/coo.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index d7cbc7d..fbac4c5 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -221,6 +221,8 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
     }
 
     pub fn extend(&mut self, row: &[I], col: &[I], v: &[T]) {
+        assert_eq!(row.len(), v.len());
+        assert_eq!(col.len(), v.len());
         self.rowidx.extend(row);
         self.colidx.extend(col);
         self.values.extend(v);
-- 
2.43.0


From faa3dbccff00f1702a41f0fd36b5c1f5bc936e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 16/28] fix: eigs broke off on the solver's first request for a
 product and panicked on others

---
 src/eigen/real.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index db66f1c..bfd43b8 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -27,6 +27,10 @@ const IDO_FIRST: i32 = 0;
 // need to be recomputed in forming OP * X.
 const IDO_COMPUTE1: i32 = 1;
 
+// Compute  Y = OP * X  for the initialization phase, to force
+// the starting vector into the range of OP.
+const IDO_COMPUTE_FIRST: i32 = -1;
+
 // Compute NEV Ritz vectors.
 const HOW_MNY_RITZ: &str = "A";
 
@@ -96,9 +100,9 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         drop(lock);
     }
 
-    while ido == IDO_COMPUTE1 {
+    while ido == IDO_COMPUTE1 || ido == IDO_COMPUTE_FIRST {
         let y = a_mat.mat_vec(&workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n])?;
-        workd[ipntr[1] as usize - 1..].copy_from_slice(&y);
+        workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
             let lock = MUTEX.lock().unwrap();
-- 
2.43.0


From 44bc14db00e4d9507348abcb489bd86d6c3f5e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 17/28] fix: eigs passed a wrong leading dimension and a too
 short work array to the solver

---
 src/eigen/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index bfd43b8..039f3ee 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -138,8 +138,8 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut dr = vec![0.0; nev + 1];
     let mut di = vec![0.0; nev + 1];
     let mut z = vec![0.0; n * (nev + 1)];
-    let ldz = n + 1;
-    let mut workev = vec![0.0; 2 * ncv];
+    let ldz = n;
+    let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
         let lock = MUTEX.lock().unwrap();
-- 
2.43.0


From e41356587c04c7b912de138246cab05c6aa4a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 18/28] fix: eigs returned wrong imaginary parts, real
 eigenvectors and numbers of eigenvalues

---
 src/eigen/real.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 039f3ee..298b347 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -183,18 +183,18 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     // for i in 0..d.len() {
     //     d[i] = Complex64::new(dr[i], di[i]);
     // }
-    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], dr[i])).collect();
+    let mut d: Vec<Complex64> = (0..nconv).map(|i| Complex64::new(dr[i], di[i])).collect();
 
     let mut zz = Mat::<Complex64>::zeros(nev + 1, n, true);
 
     let mut i = 0;
-    while i < nev + 1 {
+    while i < d.len() {
         if di[i].abs() == 0.0 {
             // zz[i] = make([]complex128, n)
             let j = i * n;
             let zr = &z[j..j + n];
             for j in 0..zz.cols() {
-                zz[(i, j)] = Complex64::new(zr[i], 0.0);
+                zz[(i, j)] = Complex64::new(zr[j], 0.0);
             }
         } else {
             // The complex Ritz vector associated with the Ritz value
@@ -204,7 +204,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             // Ritz vector associated with the Ritz value with negative
             // imaginary part is simply the complex conjugate of the Ritz
             // vector associated with the positive imaginary part.
-            if i < nev {
+            if i + 1 < d.len() {
                 let j = i * n;
                 let zr = &z[j..j + n];
                 let j = (i + 1) * n;
-- 
2.43.0


From 89066ec7efba6275fe0a34bc0e0f92a0ea3715e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 19/28] fix: eigs let concurrent computations overwrite the
 solver's saved state

---
 src/eigen/real.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 298b347..90263dd 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -77,8 +77,12 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
 
     let mut ipntr = vec![0i32; 14];
 
+    // The solver keeps its state between calls in static variables, so the
+    // lock is held until the computation is over. Each computation starts
+    // afresh: it does not matter if an earlier one panicked.
+    let _lock = MUTEX.lock().unwrap_or_else(|e| e.into_inner());
+
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dnaupd_c(
             &mut ido,
             bmat.as_ptr() as *const i8,
@@ -97,7 +101,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
 
     while ido == IDO_COMPUTE1 || ido == IDO_COMPUTE_FIRST {
@@ -105,7 +108,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
-            let lock = MUTEX.lock().unwrap();
             dnaupd_c(
                 &mut ido,
                 bmat.as_ptr() as *const i8,
@@ -124,7 +126,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
                 lworkl as i32,
                 &mut info,
             );
-            drop(lock);
         }
     }
     if info < 0 {
@@ -142,7 +143,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dneupd_c(
             rvec as i32,
             howmny.as_ptr() as *const i8,
@@ -170,7 +170,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
     if info != 0 {
         // return ArpackError(info);
-- 
2.43.0


From 3f7e33b6a1cdd94b22527c003faffea984434ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 20/28] fix: eigs took an unfinished computation for a result

---
 src/eigen/real.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 90263dd..7c5be85 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -128,7 +128,8 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             );
         }
     }
-    if info < 0 {
+    // Positive values report that not all eigenvalues converged.
+    if info != 0 {
         // return ArpackError(info);
         return Err(format_err!("info = {}", info));
     }
-- 
2.43.0


From 3677b0cf33e7c932f7ebb2837a6895aea80f5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 21/28] fix: eigs underflowed on matrices without rows and
 accepted nev = 0

---
 src/eigen/real.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 7c5be85..343cc4d 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -44,8 +44,12 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     }
     let n = a_mat.rows();
 
-    if nev >= n - 1 {
-        return Err(format_err!("invalid nev: {} (0 < nev < {})", nev, n - 1));
+    if nev == 0 || nev + 1 >= n {
+        return Err(format_err!(
+            "invalid nev: {} (0 < nev < {})",
+            nev,
+            n as isize - 1
+        ));
     }
     let bmat = BMAT_STANDARD;
     let ncv = usize::min(n, 2 * nev + 1);
-- 
2.43.0


From 9f291e2d2daabe0be967e030f12c6273d2372b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 22/28] fix: strongly connected components went astray on
 repeated entries

---
 src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index f77d565..2ddf8b0 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -187,7 +187,8 @@ fn connected_components_directed<I: Integer>(
                     // Add successor nodes
                     for j in indptr[v].to_usize().unwrap()..indptr[v + 1].to_usize().unwrap() {
                         let w = indices[j].to_usize().unwrap();
-                        if lowlinks![labels][w] == Node::Void {
+                        // A repeated entry finds w on top of the stack already.
+                        if lowlinks![labels][w] == Node::Void && stack_head != Node::Label(w) {
                             // TODO: get_unchecked
                             // DFS-stack push
                             if stack_f![ss][w] != Node::Void {
-- 
2.43.0


From eff3d66da4e6ed9b3a37ad1745a6056d97a76218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 23/28] fix: eigs missed dominant eigenvalues or gave up as it
 searched too small a subspace

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 343cc4d..830870f 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -52,7 +52,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         ));
     }
     let bmat = BMAT_STANDARD;
-    let ncv = usize::min(n, 2 * nev + 1);
+    let ncv = usize::min(n, usize::max(2 * nev + 1, 20));
     let maxiter = n * 10;
 
     let tol = 0.0;
-- 
2.43.0


From e27826c2d00c059705d10c8d60afb8effa3d4577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 24/28] fix: bound the reservation in Coo::upper by the number
 of entries

---
 src/coo/coo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index fbac4c5..53fd7e7 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -337,7 +337,7 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
     /// Provides the upper triangular portion of the matrix in
     /// coordinate format.
     pub fn upper(&self, k: I) -> Coo<I, T> {
-        let c = (self.nnz() / 2) + self.cols;
+        let c = usize::min(self.nnz() / 2 + self.cols, self.nnz());
         let mut rowidx = Vec::with_capacity(c);
         let mut colidx = Vec::with_capacity(c);
         let mut values = Vec::with_capacity(c);
-- 
2.43.0


From 88f74405559582599a55b54064a19db2d1c21712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 25/28] fix: graph traversals took time quadratic in the degree
 or the number of components

---
 src/graph.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 2ddf8b0..c7a385c 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -365,9 +365,9 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
     }
 
     let mut n_tot = 0;
+    let mut ii = 0;
     for icomp in 0..n_nod {
-        // Find seed.
-        let mut ii = 0;
+        // Find seed. Nodes that have been passed stay flagged.
         while (flag[ii] >= F::zero()) || (flag[ii] == F::from(-2).unwrap()) {
             ii += 1;
             if ii >= n_nod {
@@ -504,6 +504,8 @@ fn depth_first_directed<I: Integer>(
 
     let mut root_list = vec![0; n];
     let mut flag = vec![false; n];
+    // Edges of each node that have been followed; their ends stay flagged.
+    let mut done = vec![0; n];
 
     node_list[0] = head_node;
     root_list[0] = head_node;
@@ -514,8 +516,10 @@ fn depth_first_directed<I: Integer>(
     while i_root >= 0 {
         let pnode = root_list[i_root as usize];
         let mut no_children = true;
-        for i in indptr[pnode].to_usize().unwrap()..indptr[pnode + 1].to_usize().unwrap() {
+        let start = indptr[pnode].to_usize().unwrap();
+        for i in start + done[pnode]..indptr[pnode + 1].to_usize().unwrap() {
             let cnode = indices[i].to_usize().unwrap();
+            done[pnode] += 1;
             if flag[cnode] {
                 continue;
             } else {
@@ -556,6 +560,9 @@ fn depth_first_undirected<I: Integer>(
 
     let mut root_list = vec![0; n];
     let mut flag = vec![false; n];
+    // Edges of each node that have been followed; their ends stay flagged.
+    let mut done1 = vec![0; n];
+    let mut done2 = vec![0; n];
 
     node_list[0] = head_node;
     root_list[0] = head_node;
@@ -567,8 +574,10 @@ fn depth_first_undirected<I: Integer>(
         let pnode = root_list[i_root as usize];
         let mut no_children = true;
 
-        for i in indptr1[pnode].to_usize().unwrap()..indptr1[pnode + 1].to_usize().unwrap() {
+        let start = indptr1[pnode].to_usize().unwrap();
+        for i in start + done1[pnode]..indptr1[pnode + 1].to_usize().unwrap() {
             let cnode = indices1[i].to_usize().unwrap();
+            done1[pnode] += 1;
             if flag[cnode] {
                 continue;
             } else {
@@ -584,8 +593,10 @@ fn depth_first_undirected<I: Integer>(
         }
 
         if no_children {
-            for i in indptr2[pnode].to_usize().unwrap()..indptr2[pnode + 1].to_usize().unwrap() {
+            let start = indptr2[pnode].to_usize().unwrap();
+            for i in start + done2[pnode]..indptr2[pnode + 1].to_usize().unwrap() {
                 let cnode = indices2[i].to_usize().unwrap();
+                done2[pnode] += 1;
                 if flag[cnode] {
                     continue;
                 } else {
-- 
2.43.0


From 341e4e87895254d9d7b007c05e70f96d25de8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 26/28] fix: from_dense accepted rows of unequal length

---
 src/coo/coo.rs | 1 +
 src/csc/csc.rs | 3 +++
 src/csr/csr.rs | 1 +
 src/dok/dok.rs | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index 53fd7e7..a22ef41 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -73,6 +73,7 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
         let mut values = Vec::<T>::with_capacity(m * n);
 
         for (i, r) in a.iter().enumerate() {
+            assert_eq!(r.len(), n, "rows must have equal length");
             for (j, &v) in r.iter().enumerate() {
                 if v != T::zero() {
                     rowidx.push(I::from(i).unwrap());
diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 8e3809f..3267aab 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -53,6 +53,9 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
         let cols = if rows > 0 { a[0].len() } else { 0 };
+        for row in a {
+            assert_eq!(row.len(), cols, "rows must have equal length");
+        }
 
         let mut colptr = Vec::<I>::new();
         let mut rowidx = Vec::<I>::new();
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 5a71426..8cf1844 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -72,6 +72,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
 
         let mut idxptr: usize = 0;
         for i in 0..rows {
+            assert_eq!(a[i].len(), cols, "rows must have equal length");
             rowptr.push(I::from(idxptr).unwrap());
             for j in 0..cols {
                 if a[i][j] != T::zero() {
diff --git a/src/dok/dok.rs b/src/dok/dok.rs
index 601130e..2bcf89f 100644
--- a/src/dok/dok.rs
+++ b/src/dok/dok.rs
@@ -38,6 +38,7 @@ impl<I: Integer + Hash, T: Scalar> DoK<I, T> {
         let mut mat = Self::with_capacity(m, n, m * n);
 
         for (i, &row) in d.iter().enumerate() {
+            assert_eq!(row.len(), n, "rows must have equal length");
             for (j, &v) in row.iter().enumerate() {
                 if v != T::zero() {
                     mat.set(I::from(i).unwrap(), I::from(j).unwrap(), v)
-- 
2.43.0


From 70de0af0972cd8456024eff63aa6e189a715b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 27/28] fix: csr_row_slice never ended on a step of zero

---
 src/row.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 8beec2d..7db8ff2 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1452,21 +1452,10 @@ pub fn csr_row_slice<I: Integer, T: Scalar>(
             // Bx = copy(Ax + row_start, Ax + row_end, Bx);
             b_x.extend_from_slice(&a_x[row_start..row_end]);
 
-            row += step;
+            row = row.saturating_add(step);
         }
     } else {
-        let mut row = start;
-        while row > stop {
-            let row_start = a_p[row].to_usize().unwrap();
-            let row_end = a_p[row + 1].to_usize().unwrap();
-
-            // Bj = copy(Aj + row_start, Aj + row_end, Bj);
-            b_j.extend_from_slice(&a_j[row_start..row_end]);
-            // Bx = copy(Ax + row_start, Ax + row_end, Bx);
-            b_x.extend_from_slice(&a_x[row_start..row_end]);
-
-            row += step;
-        }
+        panic!("slice step cannot be zero");
     }
 }
 
-- 
2.43.0


From df7d586cbbdc69d7d3a6a24586c79b0b2f7bf0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 28/28] fix: csr_diagonal failed for an offset outside the
 matrix

---
 src/row.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/row.rs b/src/row.rs
index 7db8ff2..9d6aef3 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -38,7 +38,10 @@ pub fn csr_diagonal<I: Integer, T: Scalar>(
 ) {
     let first_row: usize = if k >= 0 { 0 } else { (-1 * k) as usize };
     let first_col: usize = if k >= 0 { k as usize } else { 0 };
-    let n: usize = min(n_row - first_row, n_col - first_col);
+    let n: usize = min(
+        n_row.saturating_sub(first_row),
+        n_col.saturating_sub(first_col),
+    );
 
     for i in 0..n {
         let row: usize = first_row + i;
-- 
2.43.0

