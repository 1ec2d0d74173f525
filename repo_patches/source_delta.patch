From 3699dc11d5453628f941e158bb310df1ee9bef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 01/17] fix: csr_has_sorted_indices underflows on leading empty
 rows

---
 src/row.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 878fb27..dcdd00f 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -163,9 +163,9 @@ pub fn csr_todense<I: Integer, T: Scalar>(
 pub fn csr_has_sorted_indices<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> bool {
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
-        let end = (a_p[i + 1] - I::one()).to_usize().unwrap();
-        for jj in start..end {
-            if a_j[jj] > a_j[jj + 1] {
+        let end = a_p[i + 1].to_usize().unwrap();
+        for jj in start + 1..end {
+            if a_j[jj - 1] > a_j[jj] {
                 return false;
             }
         }
-- 
2.43.0


From 589c2d9c2ec2cf3bbc748d31c9cbedc29e7477b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 02/17] fix: csr_has_canonical_format overflows when a row
 pointer is the largest index value

---
 src/row.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index dcdd00f..e6824db 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -192,9 +192,7 @@ pub fn csr_has_canonical_format<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I])
             return false;
         }
 
-        let start = (a_p[i] + I::one()).to_usize().unwrap();
-        let end = a_p[i + 1].to_usize().unwrap();
-        for jj in start..end {
+        for jj in start + 1..end {
             if !(a_j[jj - 1] < a_j[jj]) {
                 return false;
             }
-- 
2.43.0


From 5c7ff0d74b372c67086f2da1b3181e2dc8c34482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 03/17] fix: CSC subtraction and scaling operators pass rowidx
 and colptr in the wrong order

---
 src/csc/std_ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index a95e0fc..fae82bc 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -62,7 +62,7 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), colptr, rowidx, values).unwrap()
+    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
 #[opimps::impl_ops(Mul)]
@@ -80,8 +80,8 @@ fn mul<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: T) -> CSC<I, T> {
     CSC::new(
         self.rows(),
         self.cols(),
-        self.colptr().to_vec(),
         self.rowidx().to_vec(),
+        self.colptr().to_vec(),
         self.values().iter().map(|&v| v * rhs).collect::<Vec<T>>(),
     )
     .unwrap()
@@ -91,8 +91,8 @@ fn mul<I: Integer>(self: Complex64, rhs: CSC<I, Complex64>) -> CSC<I, Complex64>
     CSC::new(
         rhs.rows(),
         rhs.cols(),
-        rhs.colptr().to_vec(),
         rhs.rowidx().to_vec(),
+        rhs.colptr().to_vec(),
         rhs.values()
             .iter()
             .map(|&v| self * v)
-- 
2.43.0


From e4a4c28daaaf828c4c9793cac2e4d3e95d5663a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 04/17] fix: CSR and CSC addition and subtraction operators
 accept operands of different shapes

---
 src/csc/std_ops.rs | 6 ++++++
 src/csr/std_ops.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index fae82bc..543d110 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -19,6 +19,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
@@ -43,6 +46,9 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index f64f10a..040d24a 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -18,6 +18,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
@@ -42,6 +45,9 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
-- 
2.43.0


From 4b1ff869b8c62a6a06133f2a2caaea46b6bfe206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 05/17] fix: sums, differences and products keep unused entries
 after the last nonzero

---
 src/csc/csc.rs     | 4 ++++
 src/csc/std_ops.rs | 8 ++++++++
 src/csr/csr.rs     | 4 ++++
 src/csr/std_ops.rs | 8 ++++++++
 4 files changed, 24 insertions(+)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 5aec3af..2957842 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -296,6 +296,10 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
             &mut values,
         );
 
+        let nnz = colptr[cols].to_usize().unwrap();
+        rowidx.truncate(nnz);
+        values.truncate(nnz);
+
         CSC::new(rows, cols, rowidx, colptr, values)
     }
 
diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index 543d110..9aaad47 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -41,6 +41,10 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
+    let nnz = colptr[self.cols()].to_usize().unwrap();
+    rowidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
@@ -68,6 +72,10 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
+    let nnz = colptr[self.cols()].to_usize().unwrap();
+    rowidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 65b97af..4419378 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -291,6 +291,10 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
             &mut values,
         );
 
+        let nnz = rowptr[rows].to_usize().unwrap();
+        colidx.truncate(nnz);
+        values.truncate(nnz);
+
         CSR::new(rows, cols, rowptr, colidx, values)
     }
 
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index 040d24a..2d922cd 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -40,6 +40,10 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
         &mut values,
     );
 
+    let nnz = rowptr[self.rows()].to_usize().unwrap();
+    colidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap()
 }
 
@@ -67,6 +71,10 @@ fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
         &mut values,
     );
 
+    let nnz = rowptr[self.rows()].to_usize().unwrap();
+    colidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap()
 }
 
-- 
2.43.0


From 96f6bd07d2d6540096e2a575f1783da2a7b35525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 06/17] fix: CSR::to_coo turns unused array space into entries

---
 src/csr/csr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 4419378..2f8e1e5 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -368,13 +368,13 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
     pub fn to_coo(&self) -> Coo<I, T> {
         // let values = vec![T::zero(); self.values.len()];
         // copy(values, self.values);
-        let values = self.values.clone();
+        let values = self.values[..self.nnz()].to_vec();
 
         // let colidx = vec![I::zero(); self.colidx.len()];
         // copy(colidx, self.colidx);
-        let colidx = self.colidx.clone();
+        let colidx = self.colidx[..self.nnz()].to_vec();
 
-        let mut rowidx = vec![I::zero(); self.colidx.len()];
+        let mut rowidx = vec![I::zero(); self.nnz()];
 
         expandptr(self.rows, &self.rowptr, &mut rowidx);
 
-- 
2.43.0


From 14b1e787485de5e349bbf013c5a9692f2619f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 07/17] fix: csr_count_diagonals underflows on entries below
 the main diagonal

---
 src/row.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index e6824db..e2a97bb 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1575,14 +1575,14 @@ pub fn csr_column_index2<I: Integer, T: Scalar>(
 ///   I  Ai[nnz(A)]      - row indices
 ///   I  Aj[nnz(A)]      - column indices
 pub fn csr_count_diagonals<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> usize {
-    let mut diagonals = HashSet::<usize>::new();
+    let mut diagonals = HashSet::<isize>::new();
 
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
         let end = a_p[i + 1].to_usize().unwrap();
 
         for jj in start..end {
-            diagonals.insert(a_j[jj].to_usize().unwrap() - i);
+            diagonals.insert(a_j[jj].to_isize().unwrap() - i as isize);
         }
     }
     diagonals.len()
-- 
2.43.0


From fe0aabfc59edb069fa098ba71d4fb929db11f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 08/17] fix: Coo::upper overflows for a large diagonal offset

---
 src/coo/coo.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index feff9bb..533bf70 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -341,7 +341,11 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
         let mut values = Vec::with_capacity(c);
 
         for i in 0..self.nnz() {
-            if self.rowidx[i] + k <= self.colidx[i] {
+            let on_or_above = match self.rowidx[i].checked_add(&k) {
+                Some(j) => j <= self.colidx[i],
+                None => false, // beyond the last column
+            };
+            if on_or_above {
                 rowidx.push(self.rowidx[i]);
                 colidx.push(self.colidx[i]);
                 values.push(self.values[i]);
-- 
2.43.0


From 6c4c0075418bfc828ef0370388b15d1587f2c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 09/17] fix: cs_graph_components reports a graph without edges
 as corrupted

---
 src/graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 12fb4ca..bf45ce0 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -357,6 +357,10 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
         }
     }
 
+    if n_stop == 0 {
+        return Ok(n_comp); // no edges
+    }
+
     let mut n_tot = 0;
     for icomp in 0..n_nod {
         // Find seed.
-- 
2.43.0


From 827be0b05d832c84300f32d19b0272097f626739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 10/17] fix: strongly connected components of an empty graph
 underflow

---
 src/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index bf45ce0..84f55df 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -154,6 +154,9 @@ fn connected_components_directed<I: Integer>(
     indices: &[I],
     indptr: &[I],
 ) -> (usize, Vec<usize>) {
+    if n == 0 {
+        return (0, vec![]);
+    }
     let mut labels = vec![Node::Void; n];
 
     // The stack of nodes which have been backtracked and are in the current SCC
-- 
2.43.0


From 42892b80c707a60946ee4ee11591aa58579da935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 11/17] fix: strongly connected components fail on graphs with
 duplicate entries

---
 src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 84f55df..b9b410a 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -187,7 +187,8 @@ fn connected_components_directed<I: Integer>(
                     // Add successor nodes
                     for j in indptr[v].to_usize().unwrap()..indptr[v + 1].to_usize().unwrap() {
                         let w = indices[j].to_usize().unwrap();
-                        if lowlinks![labels][w] == Node::Void {
+                        // A duplicate entry may name the node on top of the stack again.
+                        if lowlinks![labels][w] == Node::Void && stack_head != Node::Label(w) {
                             // TODO: get_unchecked
                             // DFS-stack push
                             if stack_f![ss][w] != Node::Void {
-- 
2.43.0


From 54080fc62c11954f24e179a8678df399baf1876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 12/17] fix: complex pretty_string prints the sign of the
 imaginary part twice

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 8b4d5ab..8bd2b15 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -108,7 +108,7 @@ impl Scalar for num_complex::Complex<f64> {
             "{}{}j{}",
             dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
@@ -119,7 +119,7 @@ impl Scalar for num_complex::Complex<f32> {
             "{}{}j{}",
             dtoa(self.re as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs() as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
-- 
2.43.0


From 3a5e9210946bf6aac76c848bdee8b826e7be786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 13/17] fix: CSR and CSC from_dense panic on a matrix without
 rows

---
 src/csc/csc.rs | 2 +-
 src/csr/csr.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 2957842..6f3e869 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -50,7 +50,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = if rows > 0 { a[0].len() } else { 0 };
 
         let mut colptr = Vec::<I>::new();
         let mut rowidx = Vec::<I>::new();
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 2f8e1e5..717d5c3 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -62,7 +62,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = if rows > 0 { a[0].len() } else { 0 };
 
         let mut rowptr = Vec::<I>::new();
         let mut colidx = Vec::<I>::new();
-- 
2.43.0


From daa6cc9c8234c90e31efa869cfd491dd12b7859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 14/17] fix: csr_diagonal underflows for a diagonal outside the
 matrix

---
 src/row.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index e2a97bb..108fcfd 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -36,9 +36,12 @@ pub fn csr_diagonal<I: Integer, T: Scalar>(
     a_x: &[T],
     y_x: &mut [T],
 ) {
-    let first_row: usize = if k >= 0 { 0 } else { (-1 * k) as usize };
+    let first_row: usize = if k >= 0 { 0 } else { k.unsigned_abs() };
     let first_col: usize = if k >= 0 { k as usize } else { 0 };
-    let n: usize = min(n_row - first_row, n_col - first_col);
+    let n: usize = min(
+        n_row.saturating_sub(first_row),
+        n_col.saturating_sub(first_col),
+    );
 
     for i in 0..n {
         let row: usize = first_row + i;
-- 
2.43.0


From 8a5f32ac263af7487f4b4c05c6df507409c17492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 15/17] fix: CSR::get returns only the first of duplicate
 entries

---
 src/csr/csr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 717d5c3..cf78638 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -499,13 +499,15 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         let start = self.rowptr[i].to_usize().unwrap();
         let end = self.rowptr[i + 1].to_usize().unwrap();
 
+        let mut v = T::zero(); // If not found, the element is zero.
+
         // Iterate over the column indices of row k.
         for k in start..end {
             if self.colidx[k].to_usize().unwrap() == j {
-                return self.values[k]; // Found the element at (i, j).
+                v += self.values[k]; // Duplicate entries are summed.
             }
         }
 
-        T::zero() // If not found, the element is zero.
+        v
     }
 }
-- 
2.43.0


From e8d26b5579701ff41be1a95074ee8d9317236f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 16/17] fix: csc_diagonal overflows for the smallest diagonal
 offset

---
 src/col.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col.rs b/src/col.rs
index ba90853..933a608 100644
--- a/src/col.rs
+++ b/src/col.rs
@@ -101,7 +101,7 @@ pub fn csc_diagonal<I: Integer, T: Scalar>(
     a_x: &[T],
     y_x: &mut [T],
 ) {
-    csr_diagonal(-k, n_col, n_row, a_p, a_j, a_x, y_x);
+    csr_diagonal(k.saturating_neg(), n_col, n_row, a_p, a_j, a_x, y_x);
 }
 
 pub fn csc_tocsr<I: Integer, T: Scalar>(
-- 
2.43.0


From b9f4ceb3ff34c5dda4b7c2128ce778998c3a242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:16 +0000
Subject: [PATCH 17/17] fix: COO addition fails when both operands together
 outnumber the index type

---
 src/coo/std_ops.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/coo/std_ops.rs b/src/coo/std_ops.rs
index 38833e8..16b2213 100644
--- a/src/coo/std_ops.rs
+++ b/src/coo/std_ops.rs
@@ -15,16 +15,26 @@ fn add<I: Integer, T: Scalar>(self: Coo<I, T>, rhs: Coo<I, T>) -> CSR<I, T> {
     let mut colidx = Vec::with_capacity(nnz);
     let mut values = Vec::with_capacity(nnz);
 
-    rowidx.extend(self.rowidx());
-    colidx.extend(self.colidx());
+    rowidx.extend(self.rowidx().iter().map(|i| i.to_usize().unwrap()));
+    colidx.extend(self.colidx().iter().map(|j| j.to_usize().unwrap()));
     values.extend(self.values());
 
-    rowidx.extend(rhs.rowidx());
-    colidx.extend(rhs.colidx());
+    rowidx.extend(rhs.rowidx().iter().map(|i| i.to_usize().unwrap()));
+    colidx.extend(rhs.colidx().iter().map(|j| j.to_usize().unwrap()));
     values.extend(rhs.values());
 
+    // The entries of both operands together may be more than `I` can count.
     let a_mat = Coo::new(self.rows(), self.cols(), rowidx, colidx, values).unwrap();
-    a_mat.to_csr() // Duplicate entries are summed.
+    let c_mat = a_mat.to_csr(); // Duplicate entries are summed.
+
+    CSR::new(
+        c_mat.rows(),
+        c_mat.cols(),
+        c_mat.rowptr().iter().map(|&p| I::from(p).unwrap()).collect(),
+        c_mat.colidx().iter().map(|&j| I::from(j).unwrap()).collect(),
+        c_mat.values().to_vec(),
+    )
+    .unwrap()
 }
 
 #[opimps::impl_uni_op(Neg)]
-- 
2.43.0

