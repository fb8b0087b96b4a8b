From 6a5775ccd79e7b726de960431ba659c071b11702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 01/31] fix: indexing sparse features yields the stored
 activation

---
 src/features.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index ebcd9db..470d783 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -719,11 +719,7 @@ impl Index<usize> for Features {
         apply_to_features!(self => da, {
             da.index(idx)
         }; sa, {
-            if sa.activations.contains_key(&idx) {
-                &1.0
-            } else {
-                &0.0
-            }
+            sa.activations.get(&idx).unwrap_or(&0.0)
         })
     }
 }
-- 
2.43.0


From aa0b5aa31d12b045e08f1b665cf32368ec179bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 02/31] fix: dot product of two sparse feature vectors uses the
 activations

---
 src/features.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 470d783..23969f5 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -689,13 +689,9 @@ impl ndarray::linalg::Dot<Features> for Features {
 
         match self {
             Sparse(sa1) => match rhs {
-                Sparse(sa2) => sa1.activations.keys().fold(0, |acc, k| {
-                    acc + if sa2.activations.contains_key(k) {
-                        1
-                    } else {
-                        0
-                    }
-                }) as f64,
+                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (k, a)| {
+                    acc + a * sa2.activations.get(k).copied().unwrap_or(0.0)
+                }),
                 Dense(da2) => Features::dot_sparse(sa1, da2),
             },
             Dense(da1) => match rhs {
-- 
2.43.0


From e71f0420c251ce48e55be94f02ec81cac000b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 03/31] fix: converting SparseActivations keeps the declared
 dimension

---
 src/features.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 23969f5..de31830 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -755,12 +755,7 @@ impl FromIterator<ActivationT> for Features {
 
 impl From<SparseActivations> for Features {
     fn from(sa: SparseActivations) -> Features {
-        let n = sa.activations.iter().map(|(i, _)| i).max().unwrap() + 1;
-
-        SparseFeatures(SparseActivations {
-            dim: n,
-            activations: sa.activations,
-        })
+        SparseFeatures(sa)
     }
 }
 
-- 
2.43.0


From 358ab600ea99ceb2359b434fea8760bbaa582ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 04/31] fix: an empty index list converts to empty features

---
 src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features.rs b/src/features.rs
index de31830..0f34fbb 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -761,7 +761,7 @@ impl From<SparseActivations> for Features {
 
 impl From<Vec<IndexT>> for Features {
     fn from(indices: Vec<IndexT>) -> Features {
-        let n = indices.iter().max().unwrap() + 1;
+        let n = indices.iter().max().map_or(0, |i| i + 1);
 
         SparseFeatures(SparseActivations {
             dim: n,
-- 
2.43.0


From 2c3a99f4cfca3ffc369630e4fac456d3b86c1412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 05/31] fix: n_active does not count stored zeros

---
 src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features.rs b/src/features.rs
index 0f34fbb..233684b 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -184,7 +184,7 @@ impl Features {
         apply_to_features!(self => da, {
             da.iter().filter(|v| v.abs() > 1e-7).count()
         }; sa, {
-            sa.activations.len()
+            sa.activations.values().filter(|v| v.abs() > 1e-7).count()
         })
     }
 
-- 
2.43.0


From bb2b60b7c6ecdf38367d120ce0bc8360b315d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 06/31] fix: in-place map and merge use a valid placeholder
 value

---
 src/features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 233684b..8351aab 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -376,7 +376,7 @@ impl Features {
 
     /// Mutate all feature activations inplace using an operation, `f`.
     pub fn map_inplace(&mut self, f: impl Fn(ActivationT) -> ActivationT) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
+        let tmp = Features::Dense(Array1::default(0));
         let old = mem::replace(self, tmp);
 
         mem::drop(mem::replace(self, old.map_into(f)));
@@ -541,7 +541,7 @@ impl Features {
         other: &Features,
         f: impl Fn(ActivationT, ActivationT) -> ActivationT,
     ) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
+        let tmp = Features::Dense(Array1::default(0));
         let old = mem::replace(self, tmp);
 
         mem::drop(mem::replace(self, old.merge_into(other, f)));
-- 
2.43.0


From 5647075a84b36c853f0b3ebb65010258a313d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 07/31] fix: merging sparse with shorter dense features does
 not index out of bounds

---
 src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features.rs b/src/features.rs
index 8351aab..fac4ba4 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -453,7 +453,7 @@ impl Features {
                     for i in 0..n {
                         phi[i] = MaybeUninit::new(f(
                             sa1.activations.get(&i).cloned().unwrap_or(0.0),
-                            da2[i],
+                            da2.get(i).cloned().unwrap_or(0.0),
                         ));
                     }
 
-- 
2.43.0


From a89a837e0f71521a00b205a3f511b91487ba0e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 08/31] fix: merging dense with sparse features applies the
 operation at every index

---
 src/features.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index fac4ba4..69acc0c 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -428,20 +428,23 @@ impl Features {
 
         match self {
             Dense(da1) => {
-                let mut a_out = da1.clone();
-
                 match other {
                     Dense(da2) => {
+                        let mut a_out = da1.clone();
+
                         a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));
 
                         Dense(a_out)
                     }
                     Sparse(sa2) => {
-                        for (&i, a) in sa2.iter() {
-                            a_out[i] = f(a_out[i], *a);
-                        }
-
-                        Dense(a_out)
+                        let n = da1.len().max(sa2.dim);
+
+                        Features::dense((0..n).map(|i| {
+                            f(
+                                da1.get(i).cloned().unwrap_or(0.0),
+                                sa2.activations.get(&i).cloned().unwrap_or(0.0),
+                            )
+                        }))
                     }
                 }
             }
@@ -495,11 +498,14 @@ impl Features {
                     Dense(da1)
                 }
                 Sparse(sa2) => {
-                    for (&i, a) in sa2.iter() {
-                        da1[i] = f(da1[i], *a);
-                    }
-
-                    Dense(da1)
+                    let n = da1.len().max(sa2.dim);
+
+                    Features::dense((0..n).map(|i| {
+                        f(
+                            da1.get(i).copied().unwrap_or(0.0),
+                            sa2.activations.get(&i).copied().unwrap_or(0.0),
+                        )
+                    }))
                 }
             },
             Sparse(mut sa1) => match other {
-- 
2.43.0


From 92e7b2b2d39952b3661936e87f8743f7fb92b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 09/31] fix: merging sparse features densifies when the
 operation maps zeros to non-zero

---
 src/features.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/features.rs b/src/features.rs
index 69acc0c..55d0948 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -462,6 +462,17 @@ impl Features {
 
                     unsafe { Dense(phi.assume_init()) }
                 }
+                // Is the function sparsity preserving?
+                Sparse(sa2) if f(0.0, 0.0).abs() >= 1e-5 => {
+                    let n = sa1.dim.max(sa2.dim);
+
+                    Features::dense((0..n).map(|i| {
+                        f(
+                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
+                            sa2.activations.get(&i).cloned().unwrap_or(0.0),
+                        )
+                    }))
+                }
                 Sparse(sa2) => {
                     let mut idx_out = sa1.activations.clone();
 
@@ -522,6 +533,17 @@ impl Features {
 
                     unsafe { Dense(phi.assume_init()) }
                 }
+                // Is the function sparsity preserving?
+                Sparse(sa2) if f(0.0, 0.0).abs() >= 1e-5 => {
+                    let n = sa1.dim.max(sa2.dim);
+
+                    Features::dense((0..n).map(|i| {
+                        f(
+                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
+                            sa2.activations.get(&i).cloned().unwrap_or(0.0),
+                        )
+                    }))
+                }
                 Sparse(sa2) => {
                     for (i, a) in sa1.activations.iter_mut() {
                         *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
-- 
2.43.0


From e4c38244f19ae1714e9909ecc1d27020a561207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 10/31] fix: dense and sparse features can be compared

---
 src/features.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 55d0948..432f156 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -755,10 +755,10 @@ impl PartialEq<Features> for Features {
                 sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)
             }
             (&DenseFeatures(ref da1), &DenseFeatures(ref da2)) => da1.eq(&da2),
-            _ => unimplemented!(
-                "Cannot check equality of dense/sparse with no knowledge of the \
-                 full dimensionality of sparse features."
-            ),
+            (&DenseFeatures(ref da), sf @ &SparseFeatures(_))
+            | (sf @ &SparseFeatures(_), &DenseFeatures(ref da)) => {
+                da.len() == sf.n_features() && da.eq(&sf.to_dense())
+            }
         }
     }
 }
-- 
2.43.0


From 2cebe8c74ffb3198b55d9d9892dc232d1aec0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 11/31] fix: stacking features does not depend on their memory
 layout

---
 src/features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 432f156..fde38b1 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -303,8 +303,8 @@ impl Features {
                 })
             }
             (f1, f2) => {
-                let mut all_activations = f1.into_dense().into_raw_vec();
-                all_activations.extend_from_slice(f2.into_dense().as_slice().unwrap());
+                let mut all_activations = f1.into_dense().to_vec();
+                all_activations.extend(f2.into_dense().iter());
 
                 Dense(all_activations.into())
             }
-- 
2.43.0


From db26e60f57e4f810f29b234c6a962ea57b0ff578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 12/31] fix: converting features to a Vec does not depend on
 their memory layout

---
 src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features.rs b/src/features.rs
index fde38b1..ffe38a5 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -806,7 +806,7 @@ impl From<Features> for DenseActivations {
 
 impl From<Features> for Vec<ActivationT> {
     fn from(phi: Features) -> Vec<ActivationT> {
-        phi.into_dense().into_raw_vec()
+        phi.into_dense().to_vec()
     }
 }
 
-- 
2.43.0


From 0c88cd754a7b1864a75926be37114653a32f5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 13/31] fix: VectorLFA::update_with does not depend on the
 memory layout of the errors

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e4da79..3884b4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,7 +307,7 @@ impl<B, O> VectorLFA<B, O> {
         self.basis.project(input).and_then(|ref b| {
             let opt = &mut self.optimiser;
             let values = b.matmul(&self.weights);
-            let errors = f(b, values).into_raw_vec();
+            let errors = f(b, values).to_vec();
 
             errors
                 .into_iter()
-- 
2.43.0


From 8432eca71d5431f040938b997a9f076ff23060d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 14/31] fix: L0Normaliser::ith handles inactive features
 without unchecked access

---
 src/basis/normalisation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 6fa0fc4..94024fe 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -48,7 +48,7 @@ where
                 .map(|f| {
                     let z = f.n_active() as f64;
 
-                    unsafe { f.uget(index).unwrap() / z }
+                    f[index] / z
                 })
         })
     }
-- 
2.43.0


From 7cf43a0a067359b4e2a2b72cc56a5887c7135b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 15/31] fix: normaliser ith returns zero for inactive sparse
 features

---
 src/basis/normalisation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 94024fe..3115723 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -117,7 +117,7 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
+                    sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
             })
         })
     }
@@ -186,7 +186,7 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
+                    sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
             })
         })
     }
@@ -256,7 +256,7 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) => sa.activations[&index] / sa.iter().fold(
+                Features::Sparse(sa) => sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(
                     f64::NEG_INFINITY,
                     |acc, (_, x)| acc.max(x.abs())
                 ),
-- 
2.43.0


From e515cd316c48f9c97068cd7389bd2fffebbaa040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 16/31] fix: Fixed dense ith accepts exactly the indices below
 its length

---
 src/basis/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/constant.rs b/src/basis/constant.rs
index e6e0994..2c08c56 100644
--- a/src/basis/constant.rs
+++ b/src/basis/constant.rs
@@ -65,7 +65,7 @@ impl<T> Basis<T> for Fixed<Vec<f64>> {
 
 impl<T> EnumerableBasis<T> for Fixed<Vec<f64>> {
     fn ith(&self, _: T, index: IndexT) -> Result<ActivationT> {
-        check_index!(index < 1 => {
+        check_index!(index < self.0.len() => {
             Ok(*self.0.get(index).unwrap())
         })
     }
-- 
2.43.0


From 1a946f46cb5e10c59c090387209df885faef0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 17/31] fix: Matern 5/2 kernel uses the square root of five

---
 src/basis/kernels/stationary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 4f0f5e9..08f650a 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -83,7 +83,7 @@ stationary_kernel!(
     self,
     r,
     {
-        let sqrt_5 = 3.0f64.sqrt();
+        let sqrt_5 = 5.0f64.sqrt();
 
         self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()
     }
-- 
2.43.0


From 747024e1724ee88a15b660d67a2c5587dabb1065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 18/31] fix: a single lengthscale applies to every dimension of
 stationary kernels

---
 src/basis/kernels/stationary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 08f650a..edc2f5c 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -42,7 +42,7 @@ macro_rules! stationary_kernel {
                     .into_iter()
                     .zip(y.into_iter())
                     .map(|(x, y)| x - y)
-                    .zip($self.lengthscales.iter())
+                    .zip($self.lengthscales.iter().cycle())
                     .map(|(d, l)| d / l)
                     .fold(0.0f64, |acc, z| acc + z * z)
                     .sqrt())
-- 
2.43.0


From a6d679eff59c52af1192050aef1b90d4588d83e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 19/31] fix: a single lengthscale applies to every dimension of
 the rational quadratic kernel

---
 src/basis/kernels/rational_quadratic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/kernels/rational_quadratic.rs b/src/basis/kernels/rational_quadratic.rs
index 21678c3..c216d11 100644
--- a/src/basis/kernels/rational_quadratic.rs
+++ b/src/basis/kernels/rational_quadratic.rs
@@ -47,7 +47,7 @@ impl super::Kernel<&[f64]> for RationalQuadratic {
             .iter()
             .zip(y.iter())
             .map(|(x, y)| x - y)
-            .zip(self.lengthscales.iter())
+            .zip(self.lengthscales.iter().cycle())
             .map(|(d, l)| d / l)
             .fold(0.0, |acc, z| acc + z * z)
             .sqrt();
-- 
2.43.0


From 01ba1038de973f137eb802213b38697a1a24c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 20/31] fix: tiles have the same width at negative coordinates

---
 src/basis/tile_coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 9145c98..202d660 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -28,7 +28,7 @@ fn hash_state<'a, H: Hasher + 'a>(
         for (i, s) in state.iter().enumerate() {
             let offset = t + i as isize * tx2;
 
-            hasher.write_isize((s + offset) / n_tilings as isize)
+            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
         }
 
         hasher.finish() as usize % memory_size
-- 
2.43.0


From 4cefcdab91087df34bb74bad064a6cc43c9fb6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 21/31] fix: Polynomial::with_zeroth is available for order
 zero

---
 src/basis/polynomial/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index 1600382..c5b5572 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -54,7 +54,9 @@ impl Polynomial {
     }
 
     pub fn with_zeroth(mut self) -> Self {
-        self.exponents.push(vec![0; self.exponents[0].len()]);
+        let dim = self.exponents.first().map_or(0, |exps| exps.len());
+
+        self.exponents.push(vec![0; dim]);
         self
     }
 
-- 
2.43.0


From 5ca473a07cb8483f248d3a8875bc8d50fe884a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 22/31] fix: Adam bias correction starts at the first power of
 the decay rates

---
 src/optim/adam.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 8ecf17e..3c92644 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -30,10 +30,10 @@ impl Adam {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         Adam {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
-            beta2_prod: beta2,
+            beta2_prod: 1.0,
 
             learning_rate,
 
-- 
2.43.0


From 709f80713f846a0cfd29cc6581bd7b03d303bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 23/31] fix: Adam reset restarts the bias correction

---
 src/optim/adam.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 3c92644..96a5284 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -100,6 +100,9 @@ impl Optimiser<Features> for Adam {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
+        self.beta2_prod = 1.0;
+
         self.exp_avg.fill(0.0);
         self.exp_avg_sq.fill(0.0);
     }
-- 
2.43.0


From ef52e0d659a3d24b0b9210327132b96e3179b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 24/31] fix: AdaMax bias correction starts at the first power
 of the decay rates

---
 src/optim/adamax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 9910479..832882d 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -29,7 +29,7 @@ impl AdaMax {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         AdaMax {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
 
-- 
2.43.0


From 141ac431c271c49ce1bbabbe2ba6d3a1ef7d92ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 25/31] fix: AdaMax reset restarts the bias correction

---
 src/optim/adamax.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 832882d..6d321c1 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -93,6 +93,8 @@ impl Optimiser<Features> for AdaMax {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = 1.0;
+
         self.exp_avg.fill(0.0);
         self.exp_inf.fill(0.0);
     }
-- 
2.43.0


From 9db610ae1a84bc6903e0f6ab5d20465ba07bf246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 26/31] fix: Adam updates every weight for sparse features as
 for dense ones

---
 src/optim/adam.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 96a5284..a6c87fa 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -1,6 +1,5 @@
 use super::*;
 use ndarray::Array1;
-use std::ops::MulAssign;
 
 const EPS: f64 = 1e-7;
 
@@ -74,17 +73,14 @@ impl Optimiser<Features> for Adam {
                 }
             },
             Features::Sparse(sa) => {
-                self.exp_avg.mul_assign(self.beta1);
-                self.exp_avg_sq.mul_assign(self.beta2);
-
                 let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                 let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();
 
-                for (&i, a) in sa.iter() {
-                    let g = a * scale_factor;
+                for i in 0..m1.len() {
+                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;
 
-                    let m1_new = m1[i] + (1.0 - self.beta1) * g;
-                    let m2_new = m2[i] + (1.0 - self.beta2) * g * g;
+                    let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;
+                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;
 
                     let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                     let m2_unbiased = m2_new / (1.0 - self.beta2_prod);
-- 
2.43.0


From 0943d0c6aac6ea684559ae733d17d363e3d44525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 27/31] fix: AdaMax updates every weight for sparse features as
 for dense ones

---
 src/optim/adamax.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 6d321c1..ded1481 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -1,6 +1,5 @@
 use super::*;
 use ndarray::Array1;
-use std::ops::MulAssign;
 
 const EPS: f64 = 1e-7;
 
@@ -69,17 +68,14 @@ impl Optimiser<Features> for AdaMax {
                 }
             },
             Features::Sparse(sa) => {
-                self.exp_avg.mul_assign(self.beta1);
-                self.exp_inf.mul_assign(self.beta2);
-
                 let m = self.exp_avg.as_slice_memory_order_mut().unwrap();
                 let u = self.exp_inf.as_slice_memory_order_mut().unwrap();
 
-                for (&i, a) in sa.iter() {
-                    let g = a * scale_factor;
+                for i in 0..m.len() {
+                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;
 
-                    let m_new = m[i] + (1.0 - self.beta1) * g;
-                    let u_new = u[i].max(g.abs());
+                    let m_new = self.beta1 * m[i] + (1.0 - self.beta1) * g;
+                    let u_new = (self.beta2 * u[i]).max(g.abs());
                     let m_unbiased = m_new / (1.0 - self.beta1_prod);
 
                     m[i] = m_new;
-- 
2.43.0


From 9adae892761e97156a557ce25a891fe5052a486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 28/31] fix: NAG scales the gradient term by the learning rate
 and the scale factor

---
 src/optim/nesterov.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optim/nesterov.rs b/src/optim/nesterov.rs
index 04e3080..13d2a0b 100644
--- a/src/optim/nesterov.rs
+++ b/src/optim/nesterov.rs
@@ -51,8 +51,8 @@ impl Optimiser<Features> for NAG {
             }
         }
         {
-            weights.scaled_add(lr, &self.velocity);
-            features.scaled_addto(m, weights);
+            weights.scaled_add(lr * m, &self.velocity);
+            features.scaled_addto(lr * scale_factor, weights);
         }
         Ok(())
     }
-- 
2.43.0


From b0d82cb25acddc03ab4da634ba930e10bf1635e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 29/31] fix: deserialising a Chebyshev basis of unsupported
 order is an error

---
 src/basis/polynomial/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index c5b5572..cc0aff2 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -267,6 +267,22 @@ impl<'de> Deserialize<'de> for Chebyshev {
 
         struct ChebyshevVisitor;
 
+        impl ChebyshevVisitor {
+            fn build<E>(order: u8, limits: Vec<(f64, f64)>) -> std::result::Result<Chebyshev, E>
+            where
+                E: de::Error,
+            {
+                if order > 11 {
+                    return Err(de::Error::invalid_value(
+                        de::Unexpected::Unsigned(order as u64),
+                        &"an order of at most 11",
+                    ));
+                }
+
+                Ok(Chebyshev::new(order, limits))
+            }
+        }
+
         impl<'de> Visitor<'de> for ChebyshevVisitor {
             type Value = Chebyshev;
 
@@ -285,7 +301,7 @@ impl<'de> Deserialize<'de> for Chebyshev {
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
 
-                Ok(Chebyshev::new(order, limits))
+                ChebyshevVisitor::build(order, limits)
             }
 
             fn visit_map<V>(self, mut map: V) -> std::result::Result<Chebyshev, V::Error>
@@ -314,7 +330,7 @@ impl<'de> Deserialize<'de> for Chebyshev {
                 let order = order.ok_or_else(|| de::Error::missing_field("order"))?;
                 let limits = limits.ok_or_else(|| de::Error::missing_field("limits"))?;
 
-                Ok(Chebyshev::new(order, limits))
+                ChebyshevVisitor::build(order, limits)
             }
         }
 
-- 
2.43.0


From 061475f7c2d8b13c0e1fb61b7aed91fe1a6f1a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 30/31] fix: normalising an all-zero projection yields zeros
 rather than NaN

---
 src/basis/normalisation.rs | 50 ++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 3115723..bcc9a75 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -3,6 +3,16 @@ use crate::{ActivationT, Features, IndexT, Result, SparseActivations};
 use spaces::{Card, Dim, Space};
 use std::f64;
 
+/// Divide an activation by the norm, `z`, of its feature vector. A feature
+/// vector with a norm of zero has only zero activations and remains as such.
+fn divide(x: ActivationT, z: f64) -> ActivationT {
+    if z == 0.0 {
+        0.0
+    } else {
+        x / z
+    }
+}
+
 /// Apply _L₀_ normalisation to the output of a `Basis` instance.
 #[derive(Clone, Copy, Debug, PartialEq)]
 #[cfg_attr(
@@ -31,7 +41,7 @@ where B: Basis<T, Value = Features>
         self.0.project(input).map(|f| {
             let z = f.n_active() as f64;
 
-            f.map_into(|x| x / z)
+            f.map_into(|x| divide(x, z))
         })
     }
 }
@@ -48,7 +58,7 @@ where
                 .map(|f| {
                     let z = f.n_active() as f64;
 
-                    f[index] / z
+                    divide(f[index], z)
                 })
         })
     }
@@ -85,7 +95,7 @@ where B: Basis<T, Value = Features>
             Features::Dense(da) => {
                 let z = da.fold(0.0, |acc, x| acc + x.abs());
 
-                Features::Dense(da.mapv(|x| x / z))
+                Features::Dense(da.mapv(|x| divide(x, z)))
             },
             Features::Sparse(sa) => {
                 let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());
@@ -95,7 +105,7 @@ where B: Basis<T, Value = Features>
                     activations: sa
                         .activations
                         .into_iter()
-                        .map(|(i, x)| (i, x / z))
+                        .map(|(i, x)| (i, divide(x, z)))
                         .collect(),
                 })
             },
@@ -114,10 +124,12 @@ where
                 Features::Dense(da) => {
                     let z = da.fold(0.0, |acc, x| acc + x.abs());
 
-                    da[index] / z
+                    divide(da[index], z)
                 },
-                Features::Sparse(sa) =>
-                    sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
+                Features::Sparse(sa) => divide(
+                    sa.activations.get(&index).copied().unwrap_or(0.0),
+                    sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
+                ),
             })
         })
     }
@@ -154,7 +166,7 @@ where B: Basis<T, Value = Features>
             Features::Dense(da) => {
                 let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();
 
-                Features::Dense(da.mapv(|x| x / z))
+                Features::Dense(da.mapv(|x| divide(x, z)))
             },
             Features::Sparse(sa) => {
                 let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt();
@@ -164,7 +176,7 @@ where B: Basis<T, Value = Features>
                     activations: sa
                         .activations
                         .into_iter()
-                        .map(|(i, x)| (i, x / z))
+                        .map(|(i, x)| (i, divide(x, z)))
                         .collect(),
                 })
             },
@@ -183,10 +195,12 @@ where
                 Features::Dense(da) => {
                     let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();
 
-                    da[index] / z
+                    divide(da[index], z)
                 },
-                Features::Sparse(sa) =>
-                    sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
+                Features::Sparse(sa) => divide(
+                    sa.activations.get(&index).copied().unwrap_or(0.0),
+                    sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
+                ),
             })
         })
     }
@@ -223,7 +237,7 @@ where B: Basis<T, Value = Features>
             Features::Dense(da) => {
                 let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));
 
-                Features::Dense(da.mapv(|x| x / z))
+                Features::Dense(da.mapv(|x| divide(x, z)))
             },
             Features::Sparse(sa) => {
                 let z = sa
@@ -235,7 +249,7 @@ where B: Basis<T, Value = Features>
                     activations: sa
                         .activations
                         .into_iter()
-                        .map(|(i, x)| (i, x / z))
+                        .map(|(i, x)| (i, divide(x, z)))
                         .collect(),
                 })
             },
@@ -254,11 +268,11 @@ where
                 Features::Dense(da) => {
                     let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));
 
-                    da[index] / z
+                    divide(da[index], z)
                 },
-                Features::Sparse(sa) => sa.activations.get(&index).copied().unwrap_or(0.0) / sa.iter().fold(
-                    f64::NEG_INFINITY,
-                    |acc, (_, x)| acc.max(x.abs())
+                Features::Sparse(sa) => divide(
+                    sa.activations.get(&index).copied().unwrap_or(0.0),
+                    sa.iter().fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(x.abs())),
                 ),
             })
         })
-- 
2.43.0


From d9c7f5b97c73a346a0e6b099b8688f94daf3a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 31/31] fix: tile coding hashes every tiling on its own

---
 src/basis/tile_coding.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 202d660..67326bf 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -12,8 +12,8 @@ where I: IntoIterator<Item = &'a f64> {
         .collect()
 }
 
-fn hash_state<'a, H: Hasher + 'a>(
-    mut hasher: H,
+fn hash_state<'a, H: BuildHasher>(
+    hasher_builder: &'a H,
     state: &'a [isize],
     n_tilings: usize,
     memory_size: usize,
@@ -23,6 +23,10 @@ fn hash_state<'a, H: Hasher + 'a>(
         let t = t as isize;
         let tx2 = t * 2;
 
+        // Each tiling is hashed on its own: whether two inputs share a tile must
+        // not depend on the tiles they occupy in any other tiling.
+        let mut hasher = hasher_builder.build_hasher();
+
         hasher.write_isize(t);
 
         for (i, s) in state.iter().enumerate() {
@@ -75,7 +79,7 @@ where
     fn project(&self, input: T) -> Result<Features> {
         let state = bin_state(input, self.n_tilings);
         let hash = hash_state(
-            self.hasher_builder.build_hasher(),
+            &self.hasher_builder,
             &state,
             self.n_tilings,
             self.memory_size,
@@ -97,7 +101,7 @@ where
         check_index!(index < self.memory_size => {
             let state = bin_state(input, self.n_tilings);
             let mut hash = hash_state(
-                self.hasher_builder.build_hasher(),
+                &self.hasher_builder,
                 &state,
                 self.n_tilings,
                 self.memory_size
-- 
2.43.0

