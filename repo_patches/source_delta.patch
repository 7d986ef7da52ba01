From 6a432c71e7c4b65c81193ecc18a927f4871867cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 01/37] fix: give rows without entries an empty range in
 Dictionary::row_bounds

---
 src/matrix/sparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 2c5cb61..1bf1ba3 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -474,6 +474,11 @@ impl Dictionary {
             bnd[r].1 = bnd[r].1.max(c + 1);
         }
 
+        // rows without entries get an empty range
+        for b in bnd.iter_mut() {
+            b.1 = b.1.max(b.0);
+        }
+
         bnd
     }
 
-- 
2.43.0


From f436185f087142f65f05e8bc6c87b5e5ffd9d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 02/37] fix: give CompressedRow::zeros a start for every row

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 1bf1ba3..148745a 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -696,7 +696,7 @@ impl MatrixLike for CompressedRow {
             nz_count: 0,
             data: vec![],
             col_indices: vec![],
-            row_starts: vec![],
+            row_starts: vec![0; shape.0],
         }
     }
 
-- 
2.43.0


From c1abe5a26a1b7de2fe018237ddb992991d99ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 03/37] fix: swap the shape in Dictionary::transposed

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 148745a..bfe6525 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -525,7 +525,7 @@ impl Dictionary {
 
     pub fn transposed(&self) -> Self {
         let mut res = Self {
-            shape: self.shape,
+            shape: (self.shape.1, self.shape.0),
             data: HashMap::new(),
         };
 
-- 
2.43.0


From 4765becf1b4b3bfe87eb3f9178c8a45b6e87a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 04/37] fix: check the shape in ConstMatrix::from_flat

---
 src/matrix/buffer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix/buffer.rs b/src/matrix/buffer.rs
index 947c61b..5b70169 100644
--- a/src/matrix/buffer.rs
+++ b/src/matrix/buffer.rs
@@ -659,16 +659,18 @@ impl<const SIZE: usize> MatrixLike for ConstMatrix<SIZE> {
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
 
+        assert_eq!(dims.0 * dims.1, SIZE, "matrix size does not match shape");
+
         let mut arr_data = [0.0; SIZE];
-        let mut last = 0;
+        let mut count = 0;
 
         for (i, x) in data.into_iter().enumerate() {
             assert!(i < SIZE, "provided iterator too long");
             arr_data[i] = x;
-            last = i;
+            count = i + 1;
         }
 
-        assert_eq!(last, SIZE - 1, "provided iterator too short");
+        assert_eq!(count, SIZE, "provided iterator too short");
 
         Self {
             dims,
-- 
2.43.0


From 332a11ffd8cbc60626fbd26be981c06e5402722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 05/37] fix: refuse surplus values in the sparse from_flat
 constructors

---
 src/matrix/sparse.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index bfe6525..a3b05af 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -725,6 +725,11 @@ impl MatrixLike for CompressedRow {
             }
         }
 
+        assert!(
+            vals.next().is_none(),
+            "supplied iterator does not match matrix shape"
+        );
+
         Self {
             shape,
             nz_count,
@@ -854,6 +859,11 @@ impl MatrixLike for LowerRowEnvelope {
             envelope.push(row_nnz);
         }
 
+        assert!(
+            vals.next().is_none(),
+            "supplied iterator contains too many elements"
+        );
+
         let mut res = LowerRowEnvelope::from_envelope(envelope);
 
         for (loc, val) in to_set {
@@ -951,6 +961,11 @@ impl MatrixLike for Dictionary {
             }
         }
 
+        assert!(
+            vals.next().is_none(),
+            "supplied iterator contains too many elements"
+        );
+
         res
     }
 
-- 
2.43.0


From e639de342921de7f2024bb31ba2fe520b67ccb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 06/37] fix: visit no positions of a matrix without columns

---
 src/matrix/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index 7b71742..7a29c58 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -487,7 +487,8 @@ impl MatrixIndices {
     fn new<T: MatrixLike>(source: &T) -> Self {
         let (rows, cols) = source.shape();
         MatrixIndices {
-            rows,
+            // without columns there are no positions to visit
+            rows: if cols == 0 { 0 } else { rows },
             cols,
             r: 0,
             c: 0,
-- 
2.43.0


From e3a8e7972645b8cb757355f672704256f9e99e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 07/37] fix: pivot by magnitude and report singular systems in
 solve_gausselim

---
 src/matrix/inverse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 22f42b2..8b4fddd 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -36,17 +36,17 @@ where
 
         // triangularize the matrix
         for col in 0..dim {
-            // find the row with the greatest value in the current column
+            // find the row with the greatest magnitude in the current column
             // (after finished rows)
             let max = self
                 .col(col)
                 .enumerate()
                 .skip(col)
-                .max_by(|(_, &x), (_, y)| x.partial_cmp(y).unwrap());
-            if max == None {
-                return Err(MatrixError::solve("no non-zero values remain in column"));
-            }
-            let (max_idx, _) = max.unwrap();
+                .max_by(|(_, x), (_, y)| x.abs().partial_cmp(&y.abs()).unwrap());
+            let max_idx = match max {
+                Some((idx, x)) if *x != 0.0 => idx,
+                _ => return Err(MatrixError::solve("no non-zero values remain in column")),
+            };
 
             self.swap_rows(col, max_idx);
             b.swap_rows(col, max_idx);
-- 
2.43.0


From 4e8b3e2281fb0ccbcd0e6b1c1b6a4e740f35b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 08/37] fix: keep trailing isolated vertices in
 Graph::from_edges

---
 src/matrix/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index ca69884..4526d91 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -76,6 +76,9 @@ impl Graph {
             res.adjacent.push(y);
         }
 
+        // vertices after the last one with an edge have no adjacencies
+        res.indices.resize(v_count, res.adjacent.len());
+
         res
     }
 
-- 
2.43.0


From 10f704833fbb564ed55dba9668aab0d8d6682683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 09/37] fix: order disconnected and empty graphs in
 reverse_cuthill_mckee

---
 src/matrix/graph.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index 4526d91..527320e 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -192,7 +192,12 @@ impl Graph {
         // identify a pseudoperipheral node of the graph by George and Liu's method
 
         // choose an arbitrary starting node
-        let mut x = 0;
+        self.pseudo_peripheral_from(0)
+    }
+
+    fn pseudo_peripheral_from(&mut self, start: usize) -> usize {
+        // identify a pseudoperipheral node of the starting node's component
+        let mut x = start;
         let mut longest = 0;
 
         loop {
@@ -210,13 +215,18 @@ impl Graph {
     pub fn reverse_cuthill_mckee(&mut self) -> Permutation {
         // find the reverse cuthill mckee labelling of the graph's nodes
 
-        let mut ordering = Vec::new();
-        ordering.push(self.pseudo_peripheral());
-
+        let mut ordering: Vec<usize> = Vec::new();
         let mut mask = vec![true; self.vertex_count()];
-        mask[ordering[0]] = false;
 
         for i in 0..self.vertex_count() {
+            if i == ordering.len() {
+                // every node reached so far is processed, move to the next component
+                let start = mask.iter().position(|&unvisited| unvisited).unwrap();
+                let root = self.pseudo_peripheral_from(start);
+                mask[root] = false;
+                ordering.push(root);
+            }
+
             let adj = self.adjacent_masked(ordering[i], &mask);
 
             for a in adj {
-- 
2.43.0


From d23d03199baaf4a7e884a6e3eb135405a777a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 10/37] fix: let gauss_seidel converge on a zero solution

---
 src/matrix/solve/iterative.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 30cb4ac..52da864 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -82,7 +82,7 @@ pub(super) fn gauss_seidel(
 
         u = new_u;
 
-        if diff_norm / u.frobenius() <= tol {
+        if diff_norm <= tol * u.frobenius() {
             // iterations have sufficiently converged
             eprintln!("converged in {} iterations", round);
             break;
-- 
2.43.0


From 8bd54718e64969152a03ce971631d92430add1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 11/37] fix: undo a reordering of the system in the dense and
 iterative solvers

---
 src/matrix/solve/direct.rs    | 13 ++++++++++---
 src/matrix/solve/iterative.rs | 13 +++++++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index b607e5b..5bb4634 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -9,12 +9,13 @@ use super::{Solver, System};
 pub struct DenseGaussSolver {
     k: LinearMatrix,
     r: LinearMatrix,
+    perm: Option<Permutation>,
 }
 
 impl Solver for DenseGaussSolver {
     fn new(sys: System) -> Self {
-        let (k, r, _) = sys.into_krp();
-        Self { k, r }
+        let (k, r, perm) = sys.into_krp();
+        Self { k, r, perm }
     }
 
     fn solve(mut self) -> Result<Vec<f64>, ()> {
@@ -22,7 +23,13 @@ impl Solver for DenseGaussSolver {
         let res = self.k.solve_gausselim(self.r).map_err(|_| ())?;
         eprintln!("dense gauss solution complete");
 
-        Ok(res.flat().cloned().collect())
+        let mut x: Vec<f64> = res.flat().cloned().collect();
+        if let Some(perm) = self.perm {
+            // invert the permutation
+            perm.permute_slice(x.as_mut_slice());
+        }
+
+        Ok(x)
     }
 }
 
diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 52da864..43c3d8f 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -1,4 +1,5 @@
 use super::{Solver, System};
+use crate::matrix::graph::Permutation;
 use crate::matrix::{CompressedRow, LinearMatrix, MatrixLike, Norm};
 
 #[derive(Clone, Debug)]
@@ -7,11 +8,12 @@ pub struct GaussSeidelSolver {
     max_iter: usize,
     k: CompressedRow,
     r: LinearMatrix,
+    perm: Option<Permutation>,
 }
 
 impl Solver for GaussSeidelSolver {
     fn new(sys: System) -> Self {
-        let (k, r, _) = sys.into_krp();
+        let (k, r, perm) = sys.into_krp();
 
         Self {
             // TODO add interface for tol, max_iter specification
@@ -20,6 +22,7 @@ impl Solver for GaussSeidelSolver {
 
             k,
             r,
+            perm,
         }
     }
 
@@ -29,7 +32,13 @@ impl Solver for GaussSeidelSolver {
 
         // TODO pass informative errors up, remove gauss_seidel panics
         eprintln!("iteration converged, gauss-seidel solution complete");
-        Ok(res.flat().cloned().collect())
+        let mut x: Vec<f64> = res.flat().cloned().collect();
+        if let Some(perm) = self.perm {
+            // invert the permutation
+            perm.permute_slice(x.as_mut_slice());
+        }
+
+        Ok(x)
     }
 }
 
-- 
2.43.0


From 950347f8baa388e7b43081d7be55d26ab92bfbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 12/37] fix: accumulate constraints in add_constraint

---
 src/element/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 2f8b276..fe38db3 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -192,6 +192,7 @@ impl ElementAssemblage {
             (Constraint::Free, c) => {
                 self.constraints[n.0] = c;
             }
+            (_, Constraint::Free) => {}
             (Constraint::AngleFixed(a), Constraint::AngleFixed(b)) => {
                 self.constraints[n.0] = Constraint::AngleFixed((a + b) / 2.0);
             }
@@ -204,6 +205,9 @@ impl ElementAssemblage {
             (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
                 self.constraints[n.0] = Constraint::XYFixed;
             }
+            (_, Constraint::XYFixed) => {
+                self.constraints[n.0] = Constraint::XYFixed;
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 5619b0649937d3ce2d5265e8e80711e8368e836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 13/37] fix: accumulate nodal and line forces in calc_load

---
 src/element/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index fe38db3..38b94a3 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -254,7 +254,7 @@ impl ElementAssemblage {
             // check if each node dof still exists and if so apply that part of force
             for d in 0..NODE_DIM {
                 let node_dof = NodeDof(n, d);
-                res[node_dof.to_dof().0] = f[d];
+                res[node_dof.to_dof().0] += f[d];
             }
         }
 
@@ -263,8 +263,10 @@ impl ElementAssemblage {
                 // TODO this is a bad way of locating affected elements - very slow, lots of loops
                 if el.nodes_connect(n, m) {
                     for (i, val) in el.int_f_l((n, m), f).unwrap() {
-                        res[i.to_dof().0] = val;
+                        res[i.to_dof().0] += val;
                     }
+                    // an edge shared by two elements carries its force only once
+                    break;
                 }
             }
         }
-- 
2.43.0


From 566efdd5928b3d3760b6657f814d7e5b81a68729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 14/37] fix: include the geometry factor in Element::calc_m

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 06ab84c..31cc1e2 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -231,11 +231,11 @@ impl Element {
         let integrand = |nat_coor| {
             let mats = self.get_isopar_mats(NaturalCoor(nat_coor));
 
-            // integrand is rho * scaling * H_t * H
+            // integrand is rho * thickness * (det J) * H_t * H
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness;
+            ht *= self.material().density * mats.thickness * mats.det_j.abs();
 
             ht.mul(&h)
         };
-- 
2.43.0


From da5bad13cf9da7c68e49108caf3b60e8fd820dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 15/37] fix: use the magnitude of det J in Element::calc_k

---
 src/element/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 31cc1e2..6bfb1dc 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -214,7 +214,7 @@ impl Element {
             // the integrand for K is thickness * (det J) * B_t * C * B
             mats.b.transpose(); // transpose in place is cheap
             let mut inter: LinearMatrix = mats.b.mul(&c);
-            inter *= mats.det_j;
+            inter *= mats.det_j.abs(); // clockwise elements have a negative det J
             inter *= mats.thickness;
             mats.b.transpose();
 
-- 
2.43.0


From 32623b9e630591d4fbdbbf20ebad78a28ceacb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 16/37] fix: compute the von Mises stress of plane and
 compressed bar states

---
 src/element/stress.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index e6d0492..f7cd63d 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -102,9 +102,12 @@ impl StressState {
     pub fn von_mises(&self) -> f64 {
         // compute the von mises yield criterion
         match self.state_type {
-            StressType::Bar => self.data[0],
+            StressType::Bar => self.data[0].abs(),
             StressType::Plane => {
-                ((self.data[0] - self.data[1]).powi(2) + 3.0 * self.data[2].powi(2)).sqrt()
+                (self.data[0].powi(2) - self.data[0] * self.data[1]
+                    + self.data[1].powi(2)
+                    + 3.0 * self.data[2].powi(2))
+                .sqrt()
             }
             StressType::ThreeD => {
                 let normals = (self.data[0] - self.data[1]).powi(2)
-- 
2.43.0


From 9a17fb38c86fc49ae28ab21b811ff11c9c09c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 17/37] fix: fill both halves of the Cauchy stress tensor

---
 src/element/stress.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index f7cd63d..b900a09 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -93,6 +93,7 @@ impl StressState {
         for r in 0..dim {
             for c in r..dim {
                 res[(r, c)] = self.data[self.loc(r, c)];
+                res[(c, r)] = self.data[self.loc(r, c)];
             }
         }
 
-- 
2.43.0


From de7c7fd8788b432735eaefc5a0a70e7b4bb00807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 18/37] fix: use the third coordinate in in_sphere

---
 src/spatial/predicates.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index dbe6a19..c63c856 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -111,27 +111,27 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
             a[0],
             a[1],
             a[2],
-            a[0].powi(2) + a[1].powi(2) + a[1].powi(2),
+            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
             1.0,
             b[0],
             b[1],
             b[2],
-            b[0].powi(2) + b[1].powi(2) + b[1].powi(2),
+            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
             1.0,
             c[0],
             c[1],
             c[2],
-            c[0].powi(2) + c[1].powi(2) + c[1].powi(2),
+            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
             1.0,
             d[0],
             d[1],
             d[2],
-            d[0].powi(2) + d[1].powi(2) + d[1].powi(2),
+            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
             1.0,
             p[0],
             p[1],
             p[2],
-            p[0].powi(2) + p[1].powi(2) + p[1].powi(2),
+            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
             1.0,
         ],
     );
-- 
2.43.0


From 94cd845fa95d735b002f1c020c715212543b4015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 19/37] fix: keep the first row and column in line_unsigned

---
 src/visual/bresenham.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visual/bresenham.rs b/src/visual/bresenham.rs
index 626cc60..e64e481 100644
--- a/src/visual/bresenham.rs
+++ b/src/visual/bresenham.rs
@@ -4,7 +4,7 @@ pub fn line_unsigned(orig: &(u32, u32), end: &(u32, u32)) -> Vec<(u32, u32)> {
 
     line(orig, end)
         .into_iter()
-        .filter(|(x, y)| x > &0 && y > &0)
+        .filter(|(x, y)| x >= &0 && y >= &0)
         .map(|(x, y)| (x as u32, y as u32))
         .collect()
 }
-- 
2.43.0


From ee5e8633207f3bf1e9c5ba69bd16fbc59ccbf257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 20/37] fix: clip dots at the upper left image edges

---
 src/visual/fill.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/visual/fill.rs b/src/visual/fill.rs
index d85ba53..e461e55 100644
--- a/src/visual/fill.rs
+++ b/src/visual/fill.rs
@@ -6,8 +6,8 @@ pub fn dot_points(center_x: u32, center_y: u32) -> Vec<(u32, u32)> {
     // just a boring ol' square, might change to a more circular thing
     // TODO maybe handle *edge* cases better haha get it
     let mut res = Vec::new();
-    for x in (center_x - DOT_SIZE)..=(center_x + DOT_SIZE) {
-        for y in (center_y - DOT_SIZE)..=(center_y + DOT_SIZE) {
+    for x in center_x.saturating_sub(DOT_SIZE)..=(center_x + DOT_SIZE) {
+        for y in center_y.saturating_sub(DOT_SIZE)..=(center_y + DOT_SIZE) {
             res.push((x, y));
         }
     }
-- 
2.43.0


From 407b44b1bf76c815d0016757929a03cda91f4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 21/37] fix: place coincident points in the middle of the image

---
 src/visual/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 7e498bd..e8ba1d7 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -145,7 +145,11 @@ impl Visualizer {
 
         // want to bring the range down to 80% of the image width
         let target_range = 0.8 * (self.im_size as f64);
-        let scaling = target_range / max_range;
+        let scaling = if max_range > 0.0 {
+            target_range / max_range
+        } else {
+            1.0 // all points coincide, draw them in the center
+        };
 
         let middle_x = (x_max + x_min) / 2.0;
         let middle_y = (y_max + y_min) / 2.0;
-- 
2.43.0


From d318ff3162493fe862f808b92d6aafaa846f30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 22/37] fix: never draw outside small images

---
 src/visual/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index e8ba1d7..fb62a91 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -189,9 +189,9 @@ impl Visualizer {
 
                 for (loc, v) in to_draw.into_iter() {
                     if let Some(cm) = options.color_map.as_ref() {
-                        img.put_pixel(loc.0, loc.1, cm(v));
+                        plot(&mut img, loc, cm(v));
                     } else {
-                        img.put_pixel(loc.0, loc.1, color::hot_map(v));
+                        plot(&mut img, loc, color::hot_map(v));
                     }
                 }
             }
@@ -206,7 +206,7 @@ impl Visualizer {
                     if let (Some(o), Some(e)) = (orig, end) {
                         let to_draw = bresenham::line_unsigned(o, e);
                         for d in to_draw {
-                            img.put_pixel(d.0, d.1, Rgb([0, 255, 0]))
+                            plot(&mut img, d, Rgb([0, 255, 0]))
                         }
                     }
                 }
@@ -215,8 +215,8 @@ impl Visualizer {
             // draw points
             for ((x, y), c) in pix_points.into_iter().zip(self.colors.iter()) {
                 let to_draw = fill::dot_points(x, y);
-                for (i, j) in to_draw.into_iter() {
-                    img.put_pixel(i, j, color::STDCOL[*c]);
+                for loc in to_draw.into_iter() {
+                    plot(&mut img, loc, color::STDCOL[*c]);
                 }
             }
         }
@@ -225,6 +225,13 @@ impl Visualizer {
     }
 }
 
+fn plot(img: &mut RgbImage, loc: (u32, u32), color: Rgb<u8>) {
+    // set a pixel, leaving out locations past the image edges
+    if loc.0 < img.width() && loc.1 < img.height() {
+        img.put_pixel(loc.0, loc.1, color);
+    }
+}
+
 impl From<Vec<Point>> for Visualizer {
     fn from(points: Vec<Point>) -> Self {
         let dim = points[0].dim();
-- 
2.43.0


From d9568bd712b1fb332789868f8875b6b397e80f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 23/37] fix: normalise equal node values in set_vals

---
 src/visual/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index fb62a91..57d61d2 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -94,7 +94,7 @@ impl Visualizer {
         let range = max - min;
 
         vals.iter_mut()
-            .for_each(|x| *x = ((*x - min) / range).clamp(0.0, 1.0));
+            .for_each(|x| *x = if range > 0.0 { ((*x - min) / range).clamp(0.0, 1.0) } else { 0.0 });
         self.node_vals = Some(vals);
     }
 
-- 
2.43.0


From bd671818b7152f04f51313e20bfea2565ec8fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 24/37] fix: envelope substitution ignores what the output held
 before

---
 src/matrix/sparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index a3b05af..12a8f41 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -243,7 +243,7 @@ impl LowerRowEnvelope {
 
             let dot: f64 = row_stored
                 .iter()
-                .zip(start_col..)
+                .zip(start_col..i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
@@ -275,7 +275,7 @@ impl LowerRowEnvelope {
             let sub_start_col = start_col - range.0;
             let dot: f64 = row_stored
                 .iter()
-                .zip(sub_start_col..)
+                .zip(sub_start_col..sub_i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-- 
2.43.0


From e7b5b59392f50b6fd392bc4c1e0674e678fa5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 25/37] fix: midpoint of points of different dimension keeps no
 hidden component

---
 src/spatial/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/spatial/mod.rs b/src/spatial/mod.rs
index 61ea0a0..0a28375 100644
--- a/src/spatial/mod.rs
+++ b/src/spatial/mod.rs
@@ -52,12 +52,11 @@ impl Point {
 
     pub fn mid(&self, other: Point) -> Point {
         // find the midpoint between two points
-        let data = [
-            (self.data[0] + other.data[0]) / 2.0,
-            (self.data[1] + other.data[1]) / 2.0,
-            (self.data[2] + other.data[2]) / 2.0,
-        ];
         let n = min(self.n, other.n);
+        let mut data = [0.0; 3];
+        for i in 0..n {
+            data[i] = (self.data[i] + other.data[i]) / 2.0;
+        }
         Point { n, data }
     }
 
-- 
2.43.0


From 45ed7334d6be2624fc9664a14691af8b77227040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 26/37] fix: points stay inside tiny images

---
 src/visual/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 57d61d2..eb01d9e 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -154,11 +154,18 @@ impl Visualizer {
         let middle_x = (x_max + x_min) / 2.0;
         let middle_y = (y_max + y_min) / 2.0;
 
+        // rounding would carry the margin of a tiny image past its last pixel
+        let last = self.im_size as f64 - 1.0;
+
         let mut pix_points = Vec::new();
         for (x, y) in xs.iter().zip(ys.iter()) {
-            let x_new = ((x - middle_x) * scaling + (self.im_size as f64) / 2.0).round();
+            let x_new = ((x - middle_x) * scaling + (self.im_size as f64) / 2.0)
+                .round()
+                .min(last);
             // flip y so the image appears in the familiar x/y orientation
-            let y_new = (-1.0 * (y - middle_y) * scaling + (self.im_size as f64) / 2.0).round();
+            let y_new = (-1.0 * (y - middle_y) * scaling + (self.im_size as f64) / 2.0)
+                .round()
+                .min(last);
             pix_points.push((x_new as u32, y_new as u32));
         }
 
-- 
2.43.0


From 00ed6bfbb312887e43c7afb383525ca82c6b61bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 27/37] fix: the last piece of a divided boundary segment keeps
 its constraint

---
 src/mesher/bounds.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 96abe86..f528aee 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -423,6 +423,10 @@ impl PlaneBoundary {
         if let Some(f) = dist_f {
             self.distributed_forces.insert((cur, end).into(), f);
         }
+
+        if let Some(c) = dist_c {
+            self.distributed_constraints.insert((cur, end).into(), c);
+        }
     }
 
     pub fn split_segment(&mut self, s: Segment) -> (Segment, Segment, Vertex) {
-- 
2.43.0


From 0774b99d3765b1f27f5c3228ed53d5af85b8b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 28/37] fix: constraints meeting in a boundary vertex all apply

---
 src/mesher/bounds.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index f528aee..dfc193f 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -150,7 +150,7 @@ pub struct PlaneBoundary {
     // also store some BC / material information
     condition: Option<Condition>,
     material: Option<Material>,
-    constraints: HashMap<Vertex, Constraint>,
+    constraints: Vec<(Vertex, Constraint)>,
     distributed_forces: HashMap<Segment, Point>,
     distributed_constraints: HashMap<Segment, Constraint>,
 }
@@ -169,7 +169,7 @@ impl PlaneBoundary {
 
             condition: None,
             material: None,
-            constraints: HashMap::new(),
+            constraints: Vec::new(),
             distributed_forces: HashMap::new(),
             distributed_constraints: HashMap::new(),
         }
@@ -228,7 +228,7 @@ impl PlaneBoundary {
     }
 
     pub fn store_constraint(&mut self, v: Vertex, c: Constraint) {
-        self.constraints.insert(v, c);
+        self.constraints.push((v, c));
     }
 
     pub fn store_distributed_force(&mut self, v: Vertex, w: Vertex, f: Point) {
@@ -406,7 +406,7 @@ impl PlaneBoundary {
 
                 // distributed constraints are just bookkeeping
                 // they mark segments where new points should have cosntraints
-                self.constraints.insert(new_point_id, c);
+                self.constraints.push((new_point_id, c));
             }
 
             cur = new_point_id;
@@ -414,8 +414,8 @@ impl PlaneBoundary {
         }
 
         if let Some(c) = dist_c {
-            self.constraints.insert(start, c);
-            self.constraints.insert(end, c);
+            self.constraints.push((start, c));
+            self.constraints.push((end, c));
         }
 
         self.store_segment_unchecked((cur, end));
@@ -493,19 +493,26 @@ impl PlaneBoundary {
 
     pub fn all_constraints(&self) -> Vec<(Vertex, Constraint)> {
         // include the vertices of distributed constraints
+        // a vertex where different constraints meet is listed with each of them, once
 
-        let mut res: HashMap<Vertex, Constraint> = HashMap::new();
+        let mut res: HashMap<Vertex, Vec<Constraint>> = HashMap::new();
 
-        for (v, c) in self.constraints.iter() {
-            res.insert(*v, *c);
-        }
+        let points = self.constraints.iter().copied();
+        let ends = self
+            .distributed_constraints
+            .iter()
+            .flat_map(|(s, &c)| vec![(s.0, c), (s.1, c)]);
 
-        for (s, c) in self.distributed_constraints.iter() {
-            res.insert(s.0, *c);
-            res.insert(s.1, *c); // will just overwrite any duplicates
+        for (v, c) in points.chain(ends) {
+            let at_vertex = res.entry(v).or_insert_with(Vec::new);
+            if !at_vertex.contains(&c) {
+                at_vertex.push(c);
+            }
         }
 
-        res.into_iter().collect()
+        res.into_iter()
+            .flat_map(|(v, cs)| cs.into_iter().map(move |c| (v, c)))
+            .collect()
     }
 
     pub fn visualize(&self) -> Visualizer {
-- 
2.43.0


From 17db1fc8aa7cc5592b2047051874ec213a4cdbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 29/37] fix: gift wrapping starts from an empty list of
 triangles

---
 src/mesher/plane.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 9dc98a5..c8f9c4c 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -340,6 +340,7 @@ impl PlaneTriangulation {
     pub fn gift_wrap(&mut self) {
         // gift-wrap the triangulation from scratch
         self.tris.clear();
+        self.full_tris.clear();
         self.recents.clear();
 
         let mut to_finish: HashSet<Edge> = self.bound.all_walls().map(Into::into).collect();
-- 
2.43.0


From 942c4cf5b994143fa679c076f4dbce76dc235079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 30/37] fix: malformed mesh and boundary files are errors, not
 panics

---
 src/file/bbnd.rs | 12 +++++------
 src/file/bmsh.rs | 55 +++++++++++++++++++++++++++---------------------
 2 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/src/file/bbnd.rs b/src/file/bbnd.rs
index b3b58eb..d3bfbcc 100644
--- a/src/file/bbnd.rs
+++ b/src/file/bbnd.rs
@@ -13,7 +13,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{self, alphanumeric1, not_line_ending},
-    combinator::map,
+    combinator::{map, map_res},
     multi::{separated_list0, separated_list1},
     number::complete::double,
     sequence::{delimited, preceded, separated_pair, tuple},
@@ -127,9 +127,8 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
             ParseItem::Condition(Condition::Axisymmetric)
         }),
     ));
-    // TODO fix material error handling
-    let material = map(preceded(tag("material "), alphanumeric1), |m: &str| {
-        ParseItem::Material(m.parse::<Material>().unwrap())
+    let material = map_res(preceded(tag("material "), alphanumeric1), |m: &str| {
+        m.parse::<Material>().map(ParseItem::Material)
     });
 
     let dist_force = map(
@@ -145,7 +144,7 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
         |f: (&str, &str, f64, f64)| ParseItem::DistForce(f.0, f.1, f.2, f.3),
     );
 
-    let dist_constraint = map(
+    let dist_constraint = map_res(
         preceded(
             tag("distributed_constraint "),
             tuple((
@@ -155,7 +154,8 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
             )),
         ),
         |f: (&str, &str, &str)| {
-            ParseItem::DistConstraint(f.0, f.1, f.2.parse::<Constraint>().unwrap())
+            f.2.parse::<Constraint>()
+                .map(|c| ParseItem::DistConstraint(f.0, f.1, c))
         },
     );
 
diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index efd3d85..eb0ea81 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -13,10 +13,19 @@ use super::FileError;
 
 type NomStrErr<'a> = nom::error::Error<&'a str>;
 
-fn code_to_desc(code: Vec<NodeId>) -> ElementDescriptor {
-    assert!(code.len() == 3);
+fn code_to_desc(code: Vec<NodeId>) -> Result<ElementDescriptor, FileError> {
+    let nodes: [NodeId; 3] = code
+        .try_into()
+        .map_err(|_| FileError::parse("elements must have three nodes"))?;
 
-    ElementDescriptor::new([code[0], code[1], code[2]])
+    Ok(ElementDescriptor::new(nodes))
+}
+
+fn existing_node(node_ids: &[NodeId], i: usize) -> Result<NodeId, FileError> {
+    node_ids
+        .get(i)
+        .copied()
+        .ok_or_else(|| FileError::parse(format!("node {} does not exist", i)))
 }
 
 fn desc_to_code(desc: ElementDescriptor) -> [NodeId; 3] {
@@ -160,7 +169,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         branch::alt,
         bytes::complete::tag,
         character::complete::{self, alphanumeric1, not_line_ending},
-        combinator::map,
+        combinator::{map, map_res},
         multi::separated_list0,
         number::complete::double,
         sequence::{preceded, separated_pair, terminated, tuple},
@@ -196,12 +205,12 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
 
     let (input, header) = section_parse(
         "Header",
-        map(tuple((version, material, condition)), |(v, m, c)| {
-            ParseHeader {
+        map_res(tuple((version, material, condition)), |(v, m, c)| {
+            m.parse().map(|material| ParseHeader {
                 version: v,
-                material: m.parse().expect("bad material"),
+                material,
                 condition: c,
-            }
+            })
         }),
     )(input)?;
 
@@ -215,9 +224,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
     // parse the remaining segments
     let (input, nodes): (_, Vec<Point>) = section_parse(
         "Nodes",
-        monotonic_list(map(separated_list0(tag("/"), double), |x| {
-            x.try_into().expect("bad node position string")
-        })),
+        monotonic_list(map_res(separated_list0(tag("/"), double), |x| x.try_into())),
     )(input)?;
 
     let (input, elements): (_, Vec<Vec<usize>>) = section_parse(
@@ -233,10 +240,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map(
+            map_res(
                 not_line_ending,
                 // TODO: remove redundant info from make_constraint
-                |con: &str| con.parse::<Constraint>().expect("bad constraint"),
+                |con: &str| con.parse::<Constraint>(),
             ),
         )),
     )(input)?;
@@ -246,9 +253,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map_res(separated_list0(tag("/"), double), |x| x.try_into()),
         )),
     )(input)?;
 
@@ -257,9 +262,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map_res(separated_list0(tag("/"), double), |x| x.try_into()),
         ))),
     )(input)?;
 
@@ -270,21 +273,25 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
 
     // TODO write an elas API to generate an element with the suggested type
     for ns in elements.into_iter() {
-        let nids = ns.into_iter().map(|i| node_ids[i]).collect();
-        let desc = code_to_desc(nids);
+        let nids: Result<_, _> = ns.into_iter().map(|i| existing_node(&node_ids, i)).collect();
+        let desc = code_to_desc(nids?)?;
         elas.add_element(desc);
     }
 
     for (n, con) in constraints.into_iter() {
-        elas.add_constraint(node_ids[n], con);
+        elas.add_constraint(existing_node(&node_ids, n)?, con);
     }
 
     for (n, frc) in forces.into_iter() {
-        elas.add_conc_force(node_ids[n], frc);
+        elas.add_conc_force(existing_node(&node_ids, n)?, frc);
     }
 
     for (na, nb, frc) in dist_forces.into_iter() {
-        elas.add_dist_line_force(node_ids[na], node_ids[nb], frc);
+        elas.add_dist_line_force(
+            existing_node(&node_ids, na)?,
+            existing_node(&node_ids, nb)?,
+            frc,
+        );
     }
 
     Ok(elas)
-- 
2.43.0


From 5465e62536cecd15960f3514a59a5e175306f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 31/37] fix: unknown records at the end of a mesh file are
 errors

---
 src/file/bmsh.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index eb0ea81..6477664 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -257,7 +257,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         )),
     )(input)?;
 
-    let (_input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
+    let (input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
         "DistForces",
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
@@ -266,6 +266,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         ))),
     )(input)?;
 
+    if !input.is_empty() {
+        return Err(FileError::parse("unexpected text after the last section"));
+    }
+
     // done with parsing, time to assemble the output
     let mut elas = header.into_elas();
 
-- 
2.43.0


From 3fe7de38ba6da7bd69bfa45b2fea4bad13b62901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 32/37] fix: mesh files keep every digit of coordinates and
 forces

---
 src/file/bmsh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index 6477664..4e0d4b6 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -313,7 +313,7 @@ pub fn elas_to_bmsh(elas: ElementAssemblage) -> String {
     let nodes = elas.nodes();
     res += &format!("\ncount {}", nodes.len());
     for (i, n) in nodes.into_iter().enumerate() {
-        res += &format!("\n{} {:.6}/{:.6}", i, n[0], n[1]);
+        res += &format!("\n{} {}/{}", i, n[0], n[1]);
     }
     res += "\n$EndNodes\n\n$Elements";
 
@@ -350,7 +350,7 @@ pub fn elas_to_bmsh(elas: ElementAssemblage) -> String {
     let forces = elas.conc_forces();
     res += &format!("\ncount {}", forces.len());
     for (n, frc) in forces {
-        res += &format!("\n{} {:.3}/{:.3}", n.into_idx(), frc[0], frc[1]);
+        res += &format!("\n{} {}/{}", n.into_idx(), frc[0], frc[1]);
     }
     res.push_str("\n$EndForces\n\n$DistForces");
 
@@ -358,7 +358,7 @@ pub fn elas_to_bmsh(elas: ElementAssemblage) -> String {
     res += &format!("\ncount {}", dist_forces.len());
     for ((na, nb), frc) in dist_forces {
         res += &format!(
-            "\n{} {} {:.3}/{:.3}",
+            "\n{} {} {}/{}",
             na.into_idx(),
             nb.into_idx(),
             frc[0],
-- 
2.43.0


From fc4b4c54ed832e5d6241bd650d5e6484c896f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 33/37] fix: a boundary without a condition is an error, not a
 panic

---
 src/mesher/plane.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index c8f9c4c..793fa06 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -568,8 +568,12 @@ impl PlaneTriangulation {
 
     pub fn assemble(self) -> Result<ElementAssemblage, &'static str> {
         let mat = self.bound.material().ok_or("missing material definition")?;
+        let condition = self
+            .bound
+            .condition()
+            .ok_or("missing condition definition")?;
 
-        let mut res = ElementAssemblage::new(mat, self.bound.condition().unwrap());
+        let mut res = ElementAssemblage::new(mat, condition);
 
         // build vertex list and translation to elas node ids
         let vertex_list: Vec<(f64, f64)>;
-- 
2.43.0


From baf2f7a6191ca644f0bf64a8eabf541fba4903e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 34/37] fix: mesh files keep every digit of the thickness

---
 src/element/strain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/strain.rs b/src/element/strain.rs
index 5820f4b..cd9011f 100644
--- a/src/element/strain.rs
+++ b/src/element/strain.rs
@@ -124,8 +124,8 @@ impl Condition {
 impl ToString for Condition {
     fn to_string(&self) -> String {
         match self {
-            Condition::PlaneStress(t) => format!("planestress {:3.5}", t),
-            Condition::PlaneStrain(t) => format!("planestrain {:3.5}", t),
+            Condition::PlaneStress(t) => format!("planestress {}", t),
+            Condition::PlaneStrain(t) => format!("planestrain {}", t),
             Condition::Axisymmetric => format!("axisymmetric"),
         }
     }
-- 
2.43.0


From 99a7a74455c72abd9363a9a8ba52594a0075ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 35/37] fix: mesh files whose points lack two coordinates are
 errors, not panics

---
 src/file/bmsh.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index 4e0d4b6..9618930 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -21,6 +21,13 @@ fn code_to_desc(code: Vec<NodeId>) -> Result<ElementDescriptor, FileError> {
     Ok(ElementDescriptor::new(nodes))
 }
 
+fn plane_point(vals: Vec<f64>) -> Result<Point, FileError> {
+    match *vals {
+        [x, y] => Ok((x, y).into()),
+        _ => Err(FileError::parse("points must have two coordinates")),
+    }
+}
+
 fn existing_node(node_ids: &[NodeId], i: usize) -> Result<NodeId, FileError> {
     node_ids
         .get(i)
@@ -224,7 +231,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
     // parse the remaining segments
     let (input, nodes): (_, Vec<Point>) = section_parse(
         "Nodes",
-        monotonic_list(map_res(separated_list0(tag("/"), double), |x| x.try_into())),
+        monotonic_list(map_res(separated_list0(tag("/"), double), plane_point)),
     )(input)?;
 
     let (input, elements): (_, Vec<Vec<usize>>) = section_parse(
@@ -253,7 +260,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map_res(separated_list0(tag("/"), double), |x| x.try_into()),
+            map_res(separated_list0(tag("/"), double), plane_point),
         )),
     )(input)?;
 
@@ -262,7 +269,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
-            map_res(separated_list0(tag("/"), double), |x| x.try_into()),
+            map_res(separated_list0(tag("/"), double), plane_point),
         ))),
     )(input)?;
 
-- 
2.43.0


From 0e4e620cac6e9241dc74dc217cdd6418b8dfc293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 36/37] fix: points on a triangle's edge are inside it in spite
 of rounding

---
 src/spatial/predicates.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index c63c856..7d15f41 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -51,10 +51,11 @@ pub fn bary_coor(p: Point, tri: (Point, Point, Point)) -> (f64, f64, f64) {
     let (x, y) = p.try_into().unwrap();
 
     let denom = (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3);
-    let a = ((y2 - y3) * (x - x3) + (x3 - x2) * (y - y3)) / denom;
-    let b = ((y3 - y1) * (x - x3) + (x1 - x3) * (y - y3)) / denom;
-    let c = 1.0 - a - b;
-    (a, b, c)
+    let a = (y2 - y3) * (x - x3) + (x3 - x2) * (y - y3);
+    let b = (y3 - y1) * (x - x3) + (x1 - x3) * (y - y3);
+    // subtracting before the division keeps points on an edge from rounding to its outside
+    let c = denom - a - b;
+    (a / denom, b / denom, c / denom)
 }
 
 pub fn in_triangle(p: Point, tri: (Point, Point, Point)) -> bool {
-- 
2.43.0


From 62b7a00289d39d164042bdfabebe5bb505fce4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:06 +0000
Subject: [PATCH 37/37] fix: predicates are exact for degenerate points with
 whole coordinates

---
 src/spatial/predicates.rs | 134 +++++++++++++-------------------------
 1 file changed, 44 insertions(+), 90 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index 7d15f41..db889c0 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -1,7 +1,5 @@
 use std::convert::TryInto;
 
-use crate::matrix::{ConstMatrix, Inverse};
-
 use super::Point;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -16,32 +14,30 @@ pub fn tetrahedron_dir(tet: (Point, Point, Point, Point)) -> Orient {
     // return the orientation of a tetrahedron
     let (a, b, c, d) = tet;
 
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
-        [
-            a[0], a[1], a[2], 1.0, b[0], b[1], b[2], 1.0, c[0], c[1], c[2], 1.0, d[0], d[1], d[2],
-            1.0,
-        ],
-    );
-
-    match mat.determinant() {
-        Ok(val) => {
-            if val == 0.0 {
-                Orient::Zero
-            } else if val > 0.0 {
-                Orient::Positive
-            } else {
-                Orient::Negative
-            }
-        }
-        Err(_) => {
-            // error in determinant() implies det = 0
-            // TODO handle various error types
-            Orient::Zero
-        }
+    // expanding along the last point keeps whole coordinates exact
+    let det = det_3([rel(a, d), rel(b, d), rel(c, d)]);
+
+    if det == 0.0 {
+        Orient::Zero
+    } else if det > 0.0 {
+        Orient::Positive
+    } else {
+        Orient::Negative
     }
 }
 
+fn rel(p: Point, orig: Point) -> [f64; 3] {
+    [p[0] - orig[0], p[1] - orig[1], p[2] - orig[2]]
+}
+
+fn det_3(m: [[f64; 3]; 3]) -> f64 {
+    // no divisions, so a determinant of (not too large) integers is exact,
+    // as is that of a matrix with two equal rows
+    m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
+        - m[1][2] * (m[0][0] * m[2][1] - m[0][1] * m[2][0])
+        + m[2][2] * (m[0][0] * m[1][1] - m[0][1] * m[1][0])
+}
+
 pub fn bary_coor(p: Point, tri: (Point, Point, Point)) -> (f64, f64, f64) {
     // returns the barymetric coordinates of a point in a triangle
     let (p1, p2, p3) = tri;
@@ -70,34 +66,13 @@ pub fn in_circle(p: Point, tri: (Point, Point, Point)) -> bool {
     // tri's points should be in counterclockwise order
     let (a, b, c) = tri;
 
-    // TODO replace with faster / more accurate 3x3 determinant
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
-        [
-            a[0],
-            a[1],
-            a[0].powi(2) + a[1].powi(2),
-            1.0,
-            b[0],
-            b[1],
-            b[0].powi(2) + b[1].powi(2),
-            1.0,
-            c[0],
-            c[1],
-            c[0].powi(2) + c[1].powi(2),
-            1.0,
-            p[0],
-            p[1],
-            p[0].powi(2) + p[1].powi(2),
-            1.0,
-        ],
-    );
-
-    if let Ok(val) = mat.determinant() {
-        val > 0.0
-    } else {
-        false
-    }
+    // expand the determinant along p, which keeps whole coordinates exact
+    let row = |q: Point| {
+        let (x, y) = (q[0] - p[0], q[1] - p[1]);
+        [x, y, x.powi(2) + y.powi(2)]
+    };
+
+    det_3([row(a), row(b), row(c)]) > 0.0
 }
 
 #[allow(dead_code)]
@@ -105,43 +80,22 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
     // determine whether p lies within tet's circumsphere
     let (a, b, c, d) = tet;
 
-    // TODO replace with faster / more accurate 4x4 determinant
-    let mat = ConstMatrix::<25>::from_flat_array(
-        5,
-        [
-            a[0],
-            a[1],
-            a[2],
-            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
-            1.0,
-            b[0],
-            b[1],
-            b[2],
-            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
-            1.0,
-            c[0],
-            c[1],
-            c[2],
-            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
-            1.0,
-            d[0],
-            d[1],
-            d[2],
-            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
-            1.0,
-            p[0],
-            p[1],
-            p[2],
-            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
-            1.0,
-        ],
-    );
-
-    if let Ok(val) = mat.determinant() {
-        val > 0.0
-    } else {
-        false
-    }
+    // expand the determinant along p, which keeps whole coordinates exact
+    let row = |q: Point| {
+        let [x, y, z] = rel(q, p);
+        [x, y, z, x.powi(2) + y.powi(2) + z.powi(2)]
+    };
+    let m = [row(a), row(b), row(c), row(d)];
+
+    // and that of the remaining rows along the squared distances
+    let minor = |i: usize, j: usize, k: usize| {
+        let part = |r: [f64; 4]| [r[0], r[1], r[2]];
+        det_3([part(m[i]), part(m[j]), part(m[k])])
+    };
+
+    let det = m[3][3] * minor(0, 1, 2) - m[2][3] * minor(0, 1, 3) + m[1][3] * minor(0, 2, 3)
+        - m[0][3] * minor(1, 2, 3);
+    det > 0.0
 }
 
 // a line, represented as ax + by = c
-- 
2.43.0

