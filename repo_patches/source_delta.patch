From 740f7b38b4d518eeee769694912476c1095135d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:03 +0000
Subject: [PATCH 01/33] fix: sign of the Jacobian of scalar L1 and L2 norms

---
 include/tinyopt/losses/norms.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/losses/norms.h b/include/tinyopt/losses/norms.h
index 1b0db1e..59c3e40 100644
--- a/include/tinyopt/losses/norms.h
+++ b/include/tinyopt/losses/norms.h
@@ -75,7 +75,7 @@ auto L2(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (J.transpose() * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, 1);
+    return std::make_pair(l, x >= T(0) ? T(1) : T(-1));
   }
 }
 
@@ -108,7 +108,7 @@ auto L1(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (x.array().sign() * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, 1);
+    return std::make_pair(l, x >= T(0) ? T(1) : T(-1));
   }
 }
 
-- 
2.43.0


From 99d2353f5bbff013b1b26fedc95d92732eb7a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:31 +0000
Subject: [PATCH 02/33] fix: refuse to invert singular matrices in DenseInvCov

---
 include/tinyopt/math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index ce90186..83c2d97 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -50,7 +50,8 @@ DenseInvCov(const MatrixBase<Derived> &m) {
     return MatType(m.inverse());  // un-protected here...
   } else if (m.cols() > 0) {
     const auto &chol = m.template selfadjointView<Upper>().ldlt();
-    if (chol.info() == Eigen::Success && chol.isPositive())
+    // A semi-definite matrix passes isPositive() but has no inverse
+    if (chol.info() == Eigen::Success && (chol.vectorD().array() > typename Derived::Scalar(0)).all())
       return chol.solve(MatType::Identity(m.rows(), m.cols()));
   }
   return std::nullopt;
-- 
2.43.0


From b68916e675588108b25a90f2374ef288d12a1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:08 +0000
Subject: [PATCH 03/33] fix: inverse of a column of variances is a square
 matrix

---
 include/tinyopt/math.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index 83c2d97..5f046a5 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -39,11 +39,14 @@ namespace tinyopt {
  * @endcode
  */
 template <typename Derived>
-std::optional<
-    Matrix<typename Derived::Scalar, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime>>
+std::optional<Matrix<typename Derived::Scalar, Derived::RowsAtCompileTime,
+                     Derived::ColsAtCompileTime == 1 ? Derived::RowsAtCompileTime
+                                                     : Derived::ColsAtCompileTime>>
 DenseInvCov(const MatrixBase<Derived> &m) {
-  using MatType =
-      Matrix<typename Derived::Scalar, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime>;
+  // A column of variances gives a (square) diagonal matrix
+  using MatType = Matrix<typename Derived::Scalar, Derived::RowsAtCompileTime,
+                         Derived::ColsAtCompileTime == 1 ? Derived::RowsAtCompileTime
+                                                         : Derived::ColsAtCompileTime>;
   if constexpr (Derived::ColsAtCompileTime == 1) {
     return MatType(m.cwiseInverse().asDiagonal());
   } else if (m.cols() == 1) {
-- 
2.43.0


From f31660393b5c5ce24c13345fc4eb6148c59c9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:59 +0000
Subject: [PATCH 04/33] fix: Jacobian of MahaWhitenedInfoU uses the upper
 triangle only

---
 include/tinyopt/losses/mahalanobis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/mahalanobis.h b/include/tinyopt/losses/mahalanobis.h
index d3067b0..82d0699 100644
--- a/include/tinyopt/losses/mahalanobis.h
+++ b/include/tinyopt/losses/mahalanobis.h
@@ -166,7 +166,7 @@ auto MahaWhitenedInfoU(const MatrixBase<Derived> &res, const MatrixBase<DerivedC
   if constexpr (traits::is_nullptr_v<ExportJ>)
     return res2;
   else if constexpr (traits::is_bool_v<ExportJ>)
-    return std::make_pair(res2, U.eval());
+    return std::make_pair(res2, UU.toDenseMatrix());
   else
     return std::make_pair(res2, (UU * Jx_or_bool).eval());
 }
-- 
2.43.0


From c90f983f9d149ca4082409578b1da5aee891c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:28 +0000
Subject: [PATCH 05/33] fix: value and derivatives of the cosine distance

---
 include/tinyopt/distances.h | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/tinyopt/distances.h b/include/tinyopt/distances.h
index 0303056..13fb297 100644
--- a/include/tinyopt/distances.h
+++ b/include/tinyopt/distances.h
@@ -67,24 +67,29 @@ auto Linf(const TA &a, const TB &b, const ExportJ &export_jac = nullptr) {
 /// Compute the cosine distance between `a` and `b`: d(a,b) = a ∠ b
 template <typename TA, typename TB, typename ExportJ = std::nullptr_t>
 auto Cosine(const TA &a, const TB &b, const ExportJ & = nullptr) {
-  if constexpr (traits::is_nullptr_v<ExportJ>) {
-    return TA(0);
-  } else if constexpr (traits::is_scalar_v<TA>) {
-    return std::make_tuple(TA(0), TA(0), TA(0));
+  if constexpr (traits::is_scalar_v<TA>) {
+    if constexpr (traits::is_nullptr_v<ExportJ>)
+      return TA(0);
+    else
+      return std::make_tuple(TA(0), TA(0), TA(0));
   } else {  // Vectors
     using Scalar = std::decay_t<typename TA::Scalar>;
     constexpr double eps2 = FloatEpsilon2<Scalar>();
     constexpr Index Dims = traits::params_trait<TA>::Dims;
     using Vec = RowVector<Scalar, Dims>;
-    const auto a_norm = a.norm();
-    const auto b_norm = b.norm();
-    if (a_norm * b_norm < eps2) {
-      return std::make_tuple(Scalar(0), Vec::Zero(a.size()), Vec::Zero(a.size()));
+    const Scalar a_norm = a.norm();
+    const Scalar b_norm = b.norm();
+    const Scalar ab_norm = a_norm * b_norm;
+    if constexpr (traits::is_nullptr_v<ExportJ>) {
+      return ab_norm < eps2 ? Scalar(0) : Scalar(a.dot(b) / ab_norm);
     } else {
-      const auto ab = a.dot(b);
-      const auto d = (ab / (a_norm * b_norm));
-      Vec Ja = (b / (a_norm * b_norm)) - (ab * a / (a_norm * a_norm * a_norm * b_norm));
-      Vec Jb = (a / (a_norm * b_norm)) - (ab * b / (a_norm * b_norm * b_norm));
+      Scalar d(0);
+      Vec Ja = Vec::Zero(a.size()), Jb = Vec::Zero(b.size());
+      if (!(ab_norm < eps2)) {
+        d = a.dot(b) / ab_norm;
+        Ja = (b / ab_norm - d * a / (a_norm * a_norm)).transpose();
+        Jb = (a / ab_norm - d * b / (b_norm * b_norm)).transpose();
+      }
       return std::make_tuple(d, Ja, Jb);
     }
   }
-- 
2.43.0


From a6c48860264c24987a7ab26291eef24dfe22c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:25 +0000
Subject: [PATCH 06/33] fix: update both elements of std::pair parameters

---
 include/tinyopt/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index a1d4601..853f0e6 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -344,7 +344,7 @@ struct params_trait<std::pair<T1, T2>> {
     if constexpr (Scalar2ParamsTraits::Dims == Dynamic)
       Scalar2ParamsTraits::PlusEq(v.second, delta.tail(Scalar2ParamsTraits::dims(v.second)));
     else
-      Scalar2ParamsTraits::PlusEq(v.first, delta.template tail<Scalar2ParamsTraits::Dims>());
+      Scalar2ParamsTraits::PlusEq(v.second, delta.template tail<Scalar2ParamsTraits::Dims>());
   }
 };
 
-- 
2.43.0


From 6d26867db106b5516f9e8376d474dd5236b8013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:35 +0000
Subject: [PATCH 07/33] fix: offsets of the elements of dynamic sizes in
 parameter containers

---
 include/tinyopt/traits.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index 853f0e6..a02360b 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -246,6 +246,7 @@ struct params_trait<std::vector<_Scalar>> {
   }
   // Define update / manifold
   static void PlusEq(T& v, const auto& delta) {
+    [[maybe_unused]] Index offset = 0;
     for (std::size_t i = 0; i < v.size(); ++i) {
       if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
@@ -253,7 +254,9 @@ struct params_trait<std::vector<_Scalar>> {
         ScalarParamsTraits::PlusEq(
             v[i], delta.template segment<ScalarParamsTraits::Dims>(i * ScalarParamsTraits::Dims));
       } else {
-        ScalarParamsTraits::PlusEq(v[i], delta.segment(i, i * ScalarParamsTraits::dims(v[i])));
+        const Index dims_i = ScalarParamsTraits::dims(v[i]);
+        ScalarParamsTraits::PlusEq(v[i], delta.segment(offset, dims_i));
+        offset += dims_i;
       }
     }
   }
@@ -294,6 +297,7 @@ struct params_trait<std::array<_Scalar, N>> {
   }
   // Define update / manifold
   static void PlusEq(T& v, const auto& delta) {
+    [[maybe_unused]] Index offset = 0;
     for (std::size_t i = 0; i < N; ++i) {
       if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
@@ -301,7 +305,9 @@ struct params_trait<std::array<_Scalar, N>> {
         ScalarParamsTraits::PlusEq(
             v[i], delta.template segment<ScalarParamsTraits::Dims>(i * ScalarParamsTraits::Dims));
       } else {
-        ScalarParamsTraits::PlusEq(v[i], delta.segment(i, i * ScalarParamsTraits::dims(v[i])));
+        const Index dims_i = ScalarParamsTraits::dims(v[i]);
+        ScalarParamsTraits::PlusEq(v[i], delta.segment(offset, dims_i));
+        offset += dims_i;
       }
     }
   }
-- 
2.43.0


From 33cdce03e8e7f346495a36900900acb16a6fb073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:48 +0000
Subject: [PATCH 08/33] fix: keep sparse Hessians filled in their upper part
 only

Gauss-Newton with LDLT disabled copied the upper part of a sparse Hessian
onto itself, which wiped it out, and no step could be computed.
Sparse systems are always solved with LDLT, which only reads the upper part.
---
 include/tinyopt/solvers/gn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index e0e3015..91374f5 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -137,7 +137,7 @@ class SolverGN
     }
 
     // Fill the lower part if H if needed
-    {
+    if constexpr (!traits::is_sparse_matrix_v<H_t>) {
       if (!options_.hessian.H_is_full && !options_.hessian.use_ldlt) {
         //H_.template triangularView<Lower>() = H_.template triangularView<Upper>().transpose();
         H_ = H_.template selfadjointView<Eigen::Upper>();
-- 
2.43.0


From a23b5fdcf81720fcef21a37577db648fef249a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:48 +0000
Subject: [PATCH 09/33] fix: keep the damping disabled when its initial value
 is zero

The damping was raised to the minimum of its range after the first step,
although a zero initial damping is documented to disable it.
---
 include/tinyopt/solvers/lm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index 75da41d..882eaa6 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -132,7 +132,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
     if (bad_factor_ != options_.lm.bad_factor) s /= bad_factor_;
 
     prev_lambda_ = lambda_;
-    lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
+    if (options_.lm.damping_init != 0)
+      lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ = options_.lm.bad_factor;
   }
 
@@ -140,7 +141,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   void BadStep(Scalar /*quality*/ = 0.0f) override {
     Scalar s = bad_factor_;  // Scale to apply on damping lambda
     prev_lambda_ = lambda_;
-    lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
+    if (options_.lm.damping_init != 0)
+      lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ *= options_.lm.bad_factor;
   }
 
-- 
2.43.0


From 8def51ad93fe1521fcbf611e07d9ee9d34425ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:48 +0000
Subject: [PATCH 10/33] fix: remove the damping actually contained in the
 Hessian

The damping removed from the reported Hessian, and replaced when only the
cost is evaluated again, was the one in use before the last good or bad step.
That is not the one in the matrix before the first step and after failures.
---
 include/tinyopt/solvers/lm.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index 882eaa6..f708583 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -59,6 +59,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   template <typename X_t, typename AccFunc>
   inline bool Build(const X_t &x, const AccFunc &acc_func, bool resize_and_clear = true) {
     if (rebuild_linear_system_) {
+      prev_lambda_ = 0;  // the new system is not damped yet
       // Resize the system if needed and clear gradient
       if (resize_and_clear) {
         this->ResizeIfNeeded(x);
@@ -106,14 +107,14 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
 
     // Damping the diagonal: d' = d + lambda*d
     if (lambda_ > 0.0) {
-      const double s =
-          rebuild_linear_system_ ? 1.0 + lambda_ : (1.0 + lambda_) / (1.0 + prev_lambda_);
+      const double s = (1.0 + lambda_) / (1.0 + prev_lambda_);
       for (int i = 0; i < this->H_.rows(); ++i) {
         if constexpr (traits::is_matrix_or_array_v<H_t>)
           this->H_(i, i) *= s;
         else
           this->H_.coeffRef(i, i) *= s;
       }
+      prev_lambda_ = lambda_;
     }
 
     return true;
@@ -131,7 +132,6 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
     // Check whether the previous 'bad' step was actually good and revert the last scaling
     if (bad_factor_ != options_.lm.bad_factor) s /= bad_factor_;
 
-    prev_lambda_ = lambda_;
     if (options_.lm.damping_init != 0)
       lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ = options_.lm.bad_factor;
@@ -140,7 +140,6 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   /// Damping stategy for a bad step: decrease the damping factor \lambda
   void BadStep(Scalar /*quality*/ = 0.0f) override {
     Scalar s = bad_factor_;  // Scale to apply on damping lambda
-    prev_lambda_ = lambda_;
     if (options_.lm.damping_init != 0)
       lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ *= options_.lm.bad_factor;
@@ -191,7 +190,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
  protected:
   const Options options_;
   Scalar lambda_ = 1e-4f;              ///< Initial damping factor  (\lambda)
-  Scalar prev_lambda_ = 0.0f;          ///< Previous damping factor  (0 at start)
+  Scalar prev_lambda_ = 0.0f;          ///< Damping factor contained in H (0 if none)
   Scalar bad_factor_ = 2.0f;           ///< Current damping scaling factor for bad steps
   bool rebuild_linear_system_ = true;  ///< Whether the linear system (H and gradient) have to be
                                        ///< rebuilt or a simple evaluation can do it.
-- 
2.43.0


From d57d1d488154500e196f651b39f4028a9aab5a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:09 +0000
Subject: [PATCH 11/33] fix: treat empty derivatives as zeros in hypot, fma and
 lerp

Differentiation numbers of dynamic size stand for constants when their
derivative part is empty. These functions combined derivative parts of
different sizes and read past the end of the empty one.
---
 include/tinyopt/3rdparty/ceres/jet.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/tinyopt/3rdparty/ceres/jet.h b/include/tinyopt/3rdparty/ceres/jet.h
index e8b1030..4bd8039 100644
--- a/include/tinyopt/3rdparty/ceres/jet.h
+++ b/include/tinyopt/3rdparty/ceres/jet.h
@@ -761,7 +761,10 @@ inline Jet<T, N> hypot(const Jet<T, N>& x, const Jet<T, N>& y) {
   // d/dx sqrt(x^2 + y^2) = 0.5 / sqrt(x^2 + y^2) * 2x = x / sqrt(x^2 + y^2)
   // d/dy sqrt(x^2 + y^2) = y / sqrt(x^2 + y^2)
   const T tmp = hypot(x.a, y.a);
-  return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v);
+  else
+    return Jet<T, N>(tmp, (x.a / tmp * x + y.a / tmp * y).v);
 }
 
 // Like sqrt(x^2 + y^2 + z^2),
@@ -781,7 +784,10 @@ inline Jet<T, N> hypot(const Jet<T, N>& x,
   // d/dy sqrt(x^2 + y^2 + z^2) = y / sqrt(x^2 + y^2 + z^2)
   // d/dz sqrt(x^2 + y^2 + z^2) = z / sqrt(x^2 + y^2 + z^2)
   const T tmp = hypot(x.a, y.a, z.a);
-  return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v + z.a / tmp * z.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v + z.a / tmp * z.v);
+  else
+    return Jet<T, N>(tmp, (x.a / tmp * x + y.a / tmp * y + z.a / tmp * z).v);
 }
 
 // Like x * y + z but rounded only once.
@@ -792,7 +798,10 @@ inline Jet<T, N> fma(const Jet<T, N>& x,
   // d/dx fma(x, y, z) = y
   // d/dy fma(x, y, z) = x
   // d/dz fma(x, y, z) = 1
-  return Jet<T, N>(fma(x.a, y.a, z.a), y.a * x.v + x.a * y.v + z.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(fma(x.a, y.a, z.a), y.a * x.v + x.a * y.v + z.v);
+  else
+    return Jet<T, N>(fma(x.a, y.a, z.a), (y.a * x + x.a * y + z).v);
 }
 
 // Return value of fmax() and fmin() on equality
@@ -1188,8 +1197,12 @@ template <typename T, int N>
 inline Jet<T, N> lerp(const Jet<T, N>& a,
                       const Jet<T, N>& b,
                       const Jet<T, N>& t) {
-  return Jet<T, N>{lerp(a.a, b.a, t.a),
-                   (T(1) - t.a) * a.v + t.a * b.v + (b.a - a.a) * t.v};
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>{lerp(a.a, b.a, t.a),
+                     (T(1) - t.a) * a.v + t.a * b.v + (b.a - a.a) * t.v};
+  else
+    return Jet<T, N>{lerp(a.a, b.a, t.a),
+                     ((T(1) - t.a) * a + t.a * b + (b.a - a.a) * t).v};
 }
 
 // Computes the midpoint a + (b - a) / 2.
-- 
2.43.0


From 99f93a925594772fab56c8a21734b9b80e271b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:09 +0000
Subject: [PATCH 12/33] fix: size the derivatives of midpoint for dynamic
 numbers

The result was written to an empty vector, also by fmax and fmin when both
arguments have the same value.
---
 include/tinyopt/3rdparty/ceres/jet.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/3rdparty/ceres/jet.h b/include/tinyopt/3rdparty/ceres/jet.h
index 4bd8039..bd3ea10 100644
--- a/include/tinyopt/3rdparty/ceres/jet.h
+++ b/include/tinyopt/3rdparty/ceres/jet.h
@@ -1217,11 +1217,12 @@ inline Jet<T, N> lerp(const Jet<T, N>& a,
 //   midpoint(a + da, b + db) ~= midpoint(a, b) + (da + db) / 2 .
 template <typename T, int N>
 inline Jet<T, N> midpoint(const Jet<T, N>& a, const Jet<T, N>& b) {
+  if constexpr (N == Eigen::Dynamic)
+    return Jet<T, N>{midpoint(a.a, b.a), ((a + b) * T(0.5)).v};
   Jet<T, N> result{midpoint(a.a, b.a)};
   // To avoid overflow in the differential, compute
   // (da + db) / 2 using midpoint.
-  const int n = N != Eigen::Dynamic ? N : a.v.size();
-  for (int i = 0; i < n; ++i) {
+  for (int i = 0; i < N; ++i) {
     result.v[i] = midpoint(a.v[i], b.v[i]);
   }
   return result;
-- 
2.43.0


From 576b025a1919e67bbf21f2b7a5b9c06cc1829719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:09 +0000
Subject: [PATCH 13/33] fix: size the derivatives of the power of a negative
 constant

For exponents of dynamic size the result was written to an empty vector.
---
 include/tinyopt/3rdparty/ceres/jet.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyopt/3rdparty/ceres/jet.h b/include/tinyopt/3rdparty/ceres/jet.h
index bd3ea10..e6f4ec3 100644
--- a/include/tinyopt/3rdparty/ceres/jet.h
+++ b/include/tinyopt/3rdparty/ceres/jet.h
@@ -1296,6 +1296,7 @@ inline Jet<T, N> pow(T f, const Jet<T, N>& g) {
     if (f < 0 && g == floor(g.a)) {  // Handle case 3.
       result = Jet<T, N>(pow(f, g.a));
       const int n = N != Eigen::Dynamic ? N : g.v.size();
+      if constexpr (N == Eigen::Dynamic) result.v.setZero(n);
       for (int i = 0; i < n; i++) {
         if (fpclassify(g.v[i]) != FP_ZERO) {
           // Return a NaN when g.v != 0.
-- 
2.43.0


From 4293a018a1b227723b7d74bdb31a9be10e1b21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:52 +0000
Subject: [PATCH 14/33] fix: optimize residuals that do not depend on the
 parameters

With parameters of dynamic size, a constant residual has no derivatives.
They were copied into the Jacobian, the gradient and the Hessian without
looking at their size.
---
 include/tinyopt/diff/optimize_autodiff.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/tinyopt/diff/optimize_autodiff.h b/include/tinyopt/diff/optimize_autodiff.h
index 64881f3..b530eaa 100644
--- a/include/tinyopt/diff/optimize_autodiff.h
+++ b/include/tinyopt/diff/optimize_autodiff.h
@@ -109,7 +109,10 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
     if constexpr (traits::is_scalar_v<ResType>) {  // One residual
       if constexpr (HasGrad) {
         // Update H and gradient
-        const auto &J = res.v;
+        Vector<Scalar, Dims> J = res.v;
+        if constexpr (Dims == Dynamic) {
+          if (J.size() != dims) J.setZero(dims);  // not connected to the parameters
+        }
         if constexpr (std::is_floating_point_v<X_t>) {
           grad[0] = J[0] * res.a;
           if constexpr (HasH) H(0, 0) = J[0] * J[0];
@@ -125,24 +128,33 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
       using J_t = Matrix<Scalar, ResDims, Dims>;
 
       J_t J(res_size, dims); // TODO make J sparse if H is.
+      const auto set_row = [&](Index i, const auto &v) {
+        if constexpr (Dims == Dynamic) {
+          if (v.size() != dims) {  // not connected to the parameters
+            J.row(i).setZero();
+            return;
+          }
+        }
+        J.row(i) = v;
+      };
       Vector<Scalar, ResDims> res_f(res.size());
       if constexpr (traits::is_matrix_or_array_v<ResType>) {
         if constexpr (ResType::ColsAtCompileTime != 1) {  // Matrix or Vector with dynamic size
           for (int c = 0; c < res.cols(); ++c)
             for (int r = 0; r < res.rows(); ++r) {
               const Index i = r + c * res.rows();
-              if constexpr (HasGrad) J.row(i) = res(r, c).v;
+              if constexpr (HasGrad) set_row(i, res(r, c).v);
               res_f[i] = res(r, c).a;
             }
         } else {  // Vector
           for (Index i = 0; i < res_size; ++i) {
-            if constexpr (HasGrad) J.row(i) = res[i].v;
+            if constexpr (HasGrad) set_row(i, res[i].v);
             res_f[i] = res[i].a;
           }
         }
       } else {  // scalar
         for (Index i = 0; i < res_size; ++i) {
-          if constexpr (HasGrad) J.row(i) = res.v;
+          if constexpr (HasGrad) set_row(i, res.v);
           res_f[i] = res.a;
         }
       }
-- 
2.43.0


From ee95123b06ecfdb1c0787d42a6d398f670096801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:52 +0000
Subject: [PATCH 15/33] fix: size of the Jacobian of a constant scalar residual

With parameters of dynamic size it was empty instead of zero.
---
 include/tinyopt/diff/auto_diff.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/diff/auto_diff.h b/include/tinyopt/diff/auto_diff.h
index 8a88f51..4bd8f0b 100644
--- a/include/tinyopt/diff/auto_diff.h
+++ b/include/tinyopt/diff/auto_diff.h
@@ -77,7 +77,11 @@ auto Eval(const X_t &x, const CostOrResFunc &cost_or_res_func, bool check_residu
       (traits::is_matrix_or_array_v<ResType> && traits::is_jet_type_v<typename ResType::Scalar>));
 
   if constexpr (!traits::is_matrix_or_array_v<ResType>) {  // One residual
-    return std::make_pair(res.a, res.v.transpose().eval());
+    Vector<Scalar, Dims> J = res.v;
+    if constexpr (Dims == Dynamic) {
+      if (J.size() != dims) J.setZero(dims);  // not connected to the parameters
+    }
+    return std::make_pair(res.a, J.transpose().eval());
   } else {
     constexpr int ResDims = traits::params_trait<ResType>::Dims;
     const Index res_dims = traits::DynDims(res);
-- 
2.43.0


From 1718132409265e4cd9f1b0d5a4f2d1fe6590ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:30:47 +0000
Subject: [PATCH 16/33] fix: forward differences of matrix residuals

---
 include/tinyopt/diff/num_diff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/diff/num_diff.h b/include/tinyopt/diff/num_diff.h
index 25f1f9f..5290ca9 100644
--- a/include/tinyopt/diff/num_diff.h
+++ b/include/tinyopt/diff/num_diff.h
@@ -119,7 +119,7 @@ auto NumEval(const X_t &x, const Func &f, const diff::Method &method = diff::Met
       if constexpr (std::is_scalar_v<ResType2>)
         J[r] = (res_plus - res) / h;
       else
-        J.col(r) = (res_plus.reshaped() - res) / h;
+        J.col(r) = (res_plus.reshaped() - res.reshaped()) / h;
     }
   }
   return std::make_pair(res, J);
-- 
2.43.0


From 9f4fb512cb73977b9f7301556f0f137404646fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:18 +0000
Subject: [PATCH 17/33] fix: gradient check accepting NaN derivatives

---
 include/tinyopt/diff/gradient_check.h | 4 ++--
 include/tinyopt/math.h                | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/diff/gradient_check.h b/include/tinyopt/diff/gradient_check.h
index 8be968d..4f97014 100644
--- a/include/tinyopt/diff/gradient_check.h
+++ b/include/tinyopt/diff/gradient_check.h
@@ -94,7 +94,7 @@ inline bool CheckGradient(
   };
 
   const auto grad_num = EstimateNumJac(x, f, method, eps / 10.0f).transpose().eval();
-  const double max_dist = (grad_num - grad).cwiseAbs().maxCoeff();
+  const double max_dist = (grad_num - grad).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
   const bool is_within_tol = max_dist < eps;
   if (!is_within_tol && verbose)
     TINYOPT_LOG("Wrong gradient {:.3e}>eps. \nGradient:{}, Numerial Gradient:{}", max_dist, grad,
@@ -203,7 +203,7 @@ inline bool CheckResidualsGradient(
 
     double max_dist;
     if constexpr (DenseH)
-      max_dist = (H_num - H).cwiseAbs().maxCoeff();
+      max_dist = (H_num - H).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
     else {
       MaybeHessian_t H_num_sparse = H_num.sparseView();
       H_num_sparse.makeCompressed();
diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index 5f046a5..38e6b25 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -347,6 +347,7 @@ T MaxAbsDiff(const Eigen::SparseMatrix<T> &mat1, const Eigen::SparseMatrix<T> &m
         }
       }
       T diff = std::abs(val1 - val2);
+      if (diff != diff) return diff;  // NaN
       maxDiff = std::max(maxDiff, diff);
     }
   }
@@ -367,6 +368,7 @@ T MaxAbsDiff(const Eigen::SparseMatrix<T> &mat1, const Eigen::SparseMatrix<T> &m
       }
       if (!found) {  // if the element was not found in mat1
         T diff = std::abs(val1 - val2);
+        if (diff != diff) return diff;  // NaN
         maxDiff = std::max(maxDiff, diff);
       }
     }
-- 
2.43.0


From 49de4498bba52a0bbedd5c495410b056052df8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:18 +0000
Subject: [PATCH 18/33] fix: gradient check overwriting the Hessian being
 checked

---
 include/tinyopt/diff/gradient_check.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/diff/gradient_check.h b/include/tinyopt/diff/gradient_check.h
index 4f97014..0ebd458 100644
--- a/include/tinyopt/diff/gradient_check.h
+++ b/include/tinyopt/diff/gradient_check.h
@@ -195,7 +195,8 @@ inline bool CheckResidualsGradient(
     // Estimate numerical J and H = Jt*J
     auto f = [&](const X_t &x) {
       std::nullptr_t nul;
-      return acc_res_func(x, nul, H);
+      MaybeHessian_t H2 = H;  // keep the Hessian at 'x'
+      return acc_res_func(x, nul, H2);
     };
 
     const auto J_num = EstimateNumJac(x, f, method, eps / 10.0f);
-- 
2.43.0


From 844864504a4ce283336f5d3f929820debc15e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:18 +0000
Subject: [PATCH 19/33] fix: gradient check of residuals without Hessian

---
 include/tinyopt/diff/gradient_check.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/diff/gradient_check.h b/include/tinyopt/diff/gradient_check.h
index 0ebd458..f4ffb97 100644
--- a/include/tinyopt/diff/gradient_check.h
+++ b/include/tinyopt/diff/gradient_check.h
@@ -84,7 +84,10 @@ inline bool CheckGradient(
 
   // Estimate numerical jacobian
   auto f = [&](const X_t &x) {
-    if constexpr (HasH) {
+    if constexpr (HasH &&
+                  !std::is_invocable_v<AccFunc, const X_t &, Gradient_t &, MaybeHessian_t &>)
+      return acc(x, nul, nul);
+    else if constexpr (HasH) {
       MaybeHessian_t H;
       H.resize(dims, dims);
       H.setZero();
-- 
2.43.0


From 267469323201d3b74b9afdd82d81f08bf676b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:23 +0000
Subject: [PATCH 20/33] fix: endless retries of an unsolvable system without
 failure limit

---
 include/tinyopt/optimizers/optimizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 0a2f138..12cd488 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -355,7 +355,7 @@ class Optimizer_ {
     // Solver linear a few times until it's enough
     const uint8_t max_tries =
         options_.max_consec_failures > 0 ? std::max<uint8_t>(1, options_.max_consec_failures) : 255;
-    for (; out.num_consec_failures <= max_tries;) {
+    for (uint8_t tries = 0; tries < max_tries; ++tries) {
       // Accumulate residuals and jacobians
       if (solver_.Build(x, acc, resize_and_clear_solver)) {
         // Ok, let's try to solve for `dx` now
-- 
2.43.0


From a180f682f72e17d17d087a917d5c7074817051af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:23 +0000
Subject: [PATCH 21/33] fix: zero steps from Hessians with NaN or infinite
 entries

---
 include/tinyopt/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index 38e6b25..610cdb4 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -237,7 +237,7 @@ template <typename Derived, typename Derived2>
 std::optional<Vector<typename Derived::Scalar, Derived::RowsAtCompileTime>> SolveLDLT(
     const MatrixBase<Derived> &A, const MatrixBase<Derived2> &b) {
   const auto &chol = A.template selfadjointView<Upper>().ldlt();
-  if (chol.info() == Eigen::Success && chol.isPositive()) {
+  if (chol.info() == Eigen::Success && chol.isPositive() && chol.vectorD().allFinite()) {
     return chol.solve(b);
   }
   return std::nullopt;
@@ -272,7 +272,7 @@ std::optional<Vector<Scalar, RowsAtCompileTime>> SolveLDLT(
     const SparseMatrix<Scalar> &A, const Vector<Scalar, RowsAtCompileTime> &b) {
   Eigen::SimplicialLDLT<SparseMatrix<Scalar>, Eigen::Upper> solver;
   solver.compute(A);
-  if (solver.info() != Eigen::Success)  // Decomposition failed
+  if (solver.info() != Eigen::Success || !solver.vectorD().allFinite())  // Decomposition failed
     return std::nullopt;
   auto X = solver.solve(b);
   if (solver.info() != Eigen::Success)  // Solving failed
-- 
2.43.0


From 3f908eb0c7085b68ee959c825324db3bbd9269e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:23 +0000
Subject: [PATCH 22/33] fix: time-out hiding the failure a run stopped on

---
 include/tinyopt/optimizers/optimizer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 12cd488..29af42c 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -300,7 +300,8 @@ class Optimizer_ {
 
       // Check for a time out
       out.duration_ms += static_cast<float>(toc_ms(t));
-      if (options_.max_duration_ms > 0 && out.duration_ms > options_.max_duration_ms) {
+      if (out.stop_reason >= StopReason::kNone && options_.max_duration_ms > 0 &&
+          out.duration_ms > options_.max_duration_ms) {
         out.stop_reason = StopReason::kTimedOut;
       }
       // Iteration done
-- 
2.43.0


From 227b6d94eddb5a86cf76d15daa90e10866e2b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:59:28 +0000
Subject: [PATCH 23/33] fix: report the use of numerical differentiation

---
 include/tinyopt/optimizers/optimizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 29af42c..b2aceb2 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -170,7 +170,6 @@ class Optimizer_ {
         // TODO #pragma message("Your function cannot be auto-differentiated,
         // using numerical differentiation")
         Output out;
-        out.num_diff_used = true;
         if constexpr (SolverType::FirstOrder) {
           auto loss = diff::CreateNumDiffFunc1(x, cost_or_acc);
           out = OptimizeAcc(x, loss, max_iters);
@@ -178,6 +177,7 @@ class Optimizer_ {
           auto loss = diff::CreateNumDiffFunc2(x, cost_or_acc);
           out = OptimizeAcc(x, loss, max_iters);
         }
+        out.num_diff_used = true;
         return out;
       }
 #else
-- 
2.43.0


From 1b540f3a65f07e9ab7ecece9ef62d3cb9f9fb210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:59:28 +0000
Subject: [PATCH 24/33] fix: report the number of residuals

---
 include/tinyopt/optimizers/optimizer.h | 1 +
 include/tinyopt/output.h               | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index b2aceb2..040c003 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -444,6 +444,7 @@ class Optimizer_ {
       if (iter > 0) solver_.GoodStep(options_.use_step_quality_approx ? rel_derr : 0.0f);
       out.num_consec_failures = 0;
       out.final_cost = cost;
+      out.num_residuals = nerr;
       out.final_rerr_dec = rel_derr;
     } else { /* BAD Step */
       solver_.BadStep();
diff --git a/include/tinyopt/output.h b/include/tinyopt/output.h
index 30237e8..2fb1f87 100644
--- a/include/tinyopt/output.h
+++ b/include/tinyopt/output.h
@@ -113,8 +113,8 @@ struct Output {
    * @name Statistics
    * @{
    */
-  uint16_t num_residuals = 0;  ///< Final number of residuals
-  uint16_t num_iters = 0;      ///< Final number of iterations
+  int num_residuals = 0;   ///< Final number of residuals
+  uint16_t num_iters = 0;  ///< Final number of iterations
   uint8_t num_failures = 0;    ///< Final number of failures to decrease the error
   uint8_t num_consec_failures =
       0;  ///< Final number of the last consecutive failures to decrease the error
-- 
2.43.0


From 59fc08f717bda636a8b47909225bf31dcc56a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:59:28 +0000
Subject: [PATCH 25/33] fix: standard deviation of a singular Gauss-Newton
 system

---
 include/tinyopt/solvers/gn.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index 91374f5..e23f08f 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -176,10 +176,12 @@ class SolverGN
   /// H being the damped Hessian H_ if use_damped == true (faster) or un-damped Hessian() (accurate)
   Scalar MaxStdDev(bool use_damped = true) const {
     const auto &H = use_damped ? H_ : Hessian();
+    const auto I = InvCov(H);
+    if (!I) return 0;
     if constexpr (traits::is_sparse_matrix_v<H_t>)
-      return sqrt(InvCov(H).value().coeffs().maxCoeff());
+      return sqrt(I.value().coeffs().maxCoeff());
     else
-      return sqrt(InvCov(H).value().maxCoeff());
+      return sqrt(I.value().maxCoeff());
   }
 
   /// Latest Covariance estimate
-- 
2.43.0


From ccc58f431edf5b399e965c03400ef85a40ebfd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:08:42 +0000
Subject: [PATCH 26/33] fix: sparse solve of matrices that are not positive

---
 include/tinyopt/math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index 610cdb4..be6975b 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -272,7 +272,8 @@ std::optional<Vector<Scalar, RowsAtCompileTime>> SolveLDLT(
     const SparseMatrix<Scalar> &A, const Vector<Scalar, RowsAtCompileTime> &b) {
   Eigen::SimplicialLDLT<SparseMatrix<Scalar>, Eigen::Upper> solver;
   solver.compute(A);
-  if (solver.info() != Eigen::Success || !solver.vectorD().allFinite())  // Decomposition failed
+  if (solver.info() != Eigen::Success || !solver.vectorD().allFinite() ||
+      (solver.vectorD().array() < 0).any())  // Decomposition failed or not positive
     return std::nullopt;
   auto X = solver.solve(b);
   if (solver.info() != Eigen::Success)  // Solving failed
-- 
2.43.0


From fc8636215630d988f62541b891d000a624ac1a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:27:47 +0000
Subject: [PATCH 27/33] fix: iteration count of runs of 65536 iterations and
 more

The counter wrapped around, so that such a run ended without a stop reason,
reported no iterations and took a later iteration for the first one.
---
 include/tinyopt/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/output.h b/include/tinyopt/output.h
index 2fb1f87..4c23820 100644
--- a/include/tinyopt/output.h
+++ b/include/tinyopt/output.h
@@ -114,7 +114,7 @@ struct Output {
    * @{
    */
   int num_residuals = 0;   ///< Final number of residuals
-  uint16_t num_iters = 0;  ///< Final number of iterations
+  int num_iters = 0;       ///< Final number of iterations
   uint8_t num_failures = 0;    ///< Final number of failures to decrease the error
   uint8_t num_consec_failures =
       0;  ///< Final number of the last consecutive failures to decrease the error
-- 
2.43.0


From 5ce6f5f69a0a158f7aca1a5e67985216693f4850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:27:47 +0000
Subject: [PATCH 28/33] fix: count of more than 255 failures

The number of failures and of consecutive failures wrapped around at 256.
---
 include/tinyopt/output.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/output.h b/include/tinyopt/output.h
index 4c23820..304698f 100644
--- a/include/tinyopt/output.h
+++ b/include/tinyopt/output.h
@@ -115,8 +115,8 @@ struct Output {
    */
   int num_residuals = 0;   ///< Final number of residuals
   int num_iters = 0;       ///< Final number of iterations
-  uint8_t num_failures = 0;    ///< Final number of failures to decrease the error
-  uint8_t num_consec_failures =
+  int num_failures = 0;    ///< Final number of failures to decrease the error
+  int num_consec_failures =
       0;  ///< Final number of the last consecutive failures to decrease the error
 
   TimePoint start_time =
-- 
2.43.0


From 7a741fcfec7b157412fbfb1ecc2286742ec625de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:27:47 +0000
Subject: [PATCH 29/33] fix: L1 norm with the Jacobian of its argument

The product of an array and a matrix did not compile.
---
 include/tinyopt/losses/norms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/norms.h b/include/tinyopt/losses/norms.h
index 59c3e40..c719ebd 100644
--- a/include/tinyopt/losses/norms.h
+++ b/include/tinyopt/losses/norms.h
@@ -106,7 +106,7 @@ auto L1(const T &x, const ExportJ &Jx_or_bool) {
     if constexpr (traits::is_bool_v<ExportJ>)
       return std::make_pair(l, RowVector<Scalar, DimsJ>(x.array().sign()));
     else
-      return std::make_pair(l, (x.array().sign() * Jx_or_bool).eval());
+      return std::make_pair(l, (RowVector<Scalar, DimsJ>(x.array().sign()) * Jx_or_bool).eval());
   } else {  // scalar
     return std::make_pair(l, x >= T(0) ? T(1) : T(-1));
   }
-- 
2.43.0


From 1c4edeff348f7aa02badc078a2f9399ce6ae1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:27:47 +0000
Subject: [PATCH 30/33] fix: norms of scalars with the Jacobian of their
 argument

The Jacobian passed was ignored for scalar arguments.
---
 include/tinyopt/losses/norms.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/tinyopt/losses/norms.h b/include/tinyopt/losses/norms.h
index c719ebd..32c531c 100644
--- a/include/tinyopt/losses/norms.h
+++ b/include/tinyopt/losses/norms.h
@@ -14,6 +14,17 @@ namespace tinyopt::losses {
  * @{
  */
 
+/// Chain rule for scalars: return `J` or its product with the jacobian `Jx_or_bool`, if it is one
+template <typename T, typename ExportJ>
+auto ScalarJac(const T &J, const ExportJ &Jx_or_bool) {
+  if constexpr (traits::is_matrix_or_array_v<ExportJ>)
+    return (J * Jx_or_bool).eval();
+  else if constexpr (traits::is_matrix_or_scalar_v<ExportJ>)
+    return T(J * Jx_or_bool);
+  else
+    return J;
+}
+
 /// Return the squared L2 norm of a vector or scalar (a.k.a Sum of Squares)
 template <typename T>
 auto SquaredL2(const T &x) {
@@ -43,7 +54,7 @@ auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale = true) {
     else
       return std::make_pair(l, (J * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, add_scale ? T(2.0) * x : x);
+    return std::make_pair(l, ScalarJac<T>(add_scale ? T(2.0) * x : x, Jx_or_bool));
   }
 }
 
@@ -75,7 +86,7 @@ auto L2(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (J.transpose() * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, x >= T(0) ? T(1) : T(-1));
+    return std::make_pair(l, ScalarJac(x >= T(0) ? T(1) : T(-1), Jx_or_bool));
   }
 }
 
@@ -108,7 +119,7 @@ auto L1(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (RowVector<Scalar, DimsJ>(x.array().sign()) * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, x >= T(0) ? T(1) : T(-1));
+    return std::make_pair(l, ScalarJac(x >= T(0) ? T(1) : T(-1), Jx_or_bool));
   }
 }
 
@@ -146,9 +157,9 @@ auto Linf(const T &x, const ExportJ &Jx_or_bool) {
       return std::make_pair(l, (J * Jx_or_bool).eval());
   } else {  // scalar
     if (x >= 0)
-      return std::make_pair(x, T(1.0));
+      return std::make_pair(x, ScalarJac(T(1.0), Jx_or_bool));
     else
-      return std::make_pair(-x, T(-1.0));
+      return std::make_pair(-x, ScalarJac(T(-1.0), Jx_or_bool));
   }
 }
 
-- 
2.43.0


From c916aa30dc5836517d03281be565b838ba513c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:03:28 +0000
Subject: [PATCH 31/33] fix: inliers lost to rounding when costs are added

The number of inliers was recovered from the ratio kept in single precision
and cut to an integer, so that a product such as 22 * (13 / 22) just below 13
gave 12.  Adding residuals then lost inliers.  The number of outliers was cut
in the same way and did not complement the number of inliers.
---
 include/tinyopt/cost.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/cost.h b/include/tinyopt/cost.h
index 98d8d8e..a20ffb4 100644
--- a/include/tinyopt/cost.h
+++ b/include/tinyopt/cost.h
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <sstream>
 
 #include <tinyopt/log.h>
@@ -81,8 +82,8 @@ struct Cost {
   }
 
   bool isValid() const { return num_resisuals > 0 && cost != std::numeric_limits<Scalar>::max(); }
-  int NumInliers() const { return (int)(num_resisuals * inlier_ratio); }
-  int NumOutliers() const { return (int)(num_resisuals * (1.0f - inlier_ratio)); }
+  int NumInliers() const { return (int)std::lround(num_resisuals * inlier_ratio); }
+  int NumOutliers() const { return num_resisuals - NumInliers(); }
 
   void AddResiduals(int new_residuals, int new_inliers) {
     if (num_resisuals + new_residuals > 0)
-- 
2.43.0


From 3bb3167cdd71af923e0e6492e60a7456dbe9cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:17:29 +0000
Subject: [PATCH 32/33] fix: whitening Jacobian with a dynamically sized
 covariance

An identity matrix without sizes only exists for statically sized types, so
MahaWhitened did not compile for a dynamically sized covariance when its
Jacobian was asked for.
---
 include/tinyopt/losses/mahalanobis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/mahalanobis.h b/include/tinyopt/losses/mahalanobis.h
index 82d0699..0c6e8ca 100644
--- a/include/tinyopt/losses/mahalanobis.h
+++ b/include/tinyopt/losses/mahalanobis.h
@@ -147,7 +147,7 @@ auto MahaWhitened(const MatrixBase<Derived> &res, const Cov_t &cov_stevs,
       if constexpr (traits::is_nullptr_v<ExportJ>)
         return res2;
       else if constexpr (traits::is_bool_v<ExportJ>)
-        return std::make_pair(res2, (chol.matrixL().solve(Mat::Identity())).eval());
+        return std::make_pair(res2, (chol.matrixL().solve(Mat::Identity(res.rows(), res.rows()))).eval());
       else
         return std::make_pair(res2, (chol.matrixL().solve(Jx_or_bool)).eval());
 
-- 
2.43.0


From 58f11a559457a5ca7181a4981d5fa311033229a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:21:11 +0000
Subject: [PATCH 33/33] fix: update of containers of one-dimensional parameters

Elements with one dimension were updated with a number, which only scalars
(and types with such an operator) support.  A vector or array of Vec1, for
instance, did not compile.
---
 include/tinyopt/traits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index a02360b..54bb457 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -248,7 +248,8 @@ struct params_trait<std::vector<_Scalar>> {
   static void PlusEq(T& v, const auto& delta) {
     [[maybe_unused]] Index offset = 0;
     for (std::size_t i = 0; i < v.size(); ++i) {
-      if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
+      if constexpr (std::is_scalar_v<Scalar> ||
+                    (ScalarParamsTraits::Dims == 1 && requires { v[i] += delta[i]; }))
         v[i] += delta[i];
       else if constexpr (ScalarParamsTraits::Dims != Dynamic) {
         ScalarParamsTraits::PlusEq(
@@ -299,7 +300,8 @@ struct params_trait<std::array<_Scalar, N>> {
   static void PlusEq(T& v, const auto& delta) {
     [[maybe_unused]] Index offset = 0;
     for (std::size_t i = 0; i < N; ++i) {
-      if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
+      if constexpr (std::is_scalar_v<Scalar> ||
+                    (ScalarParamsTraits::Dims == 1 && requires { v[i] += delta[i]; }))
         v[i] += delta[i];
       else if constexpr (ScalarParamsTraits::Dims != Dynamic) {
         ScalarParamsTraits::PlusEq(
-- 
2.43.0

