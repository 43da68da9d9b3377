From db6259ed4e9fefa41d8f56627ba1a739ebe3894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 01/36] fix: make rotation() usable on temporary transform
 expressions

The rvalue overload named the class template RotationGetter instead of
RotationGetter<Derived>, so e.g. (T1 * T2).rotation() did not compile.
---
 include/wave/geometry/src/geometry/base/TransformBase.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/base/TransformBase.hpp b/include/wave/geometry/src/geometry/base/TransformBase.hpp
index 7424230..c025fe6 100644
--- a/include/wave/geometry/src/geometry/base/TransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/TransformBase.hpp
@@ -91,7 +91,8 @@ class TransformBase : public ExpressionBase<Derived> {
     }
 
     auto rotation() && {
-        return internal::memberAccess<RotationGetter>(std::move(*this).derived());
+        return internal::memberAccess<RotationGetter<Derived>>(
+          std::move(*this).derived());
     }
 
     /** Produce a random element */
-- 
2.43.0


From 30dc8419a5390b427b6cdc53787e089fa4fb3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 02/36] fix: allow assigning an expression to a compound rigid
 transform

CompoundLeafStorage::operator= had a non-deducible template parameter and
named a nonexistent member, so assigning e.g. an inverse, a composition or
a matrix transform to a RigidTransformQ did not compile.
---
 .../wave/geometry/src/core/storage/CompoundLeafStorage.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
index 06c51ee..7545778 100644
--- a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
+++ b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
@@ -58,9 +58,9 @@ struct CompoundLeafStorage {
         : CompoundLeafStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
     /** Assigns from another expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
+    template <typename OtherDerived>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        this->storage_ =
           wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
             .value();
         return *static_cast<Derived *>(this);
-- 
2.43.0


From 727a610a9144377d3101bff952cba303b67cea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:06 +0000
Subject: [PATCH 03/36] fix: make the rotation logarithm and its Jacobian
 accurate at all angles

The angle was recovered by acos of the trace, so rotations near pi gave a
wrong or NaN angle (and log could come out as zero, making isApprox true for
rotations half a turn apart). The Jacobian was NaN at identity and lost all
precision for small angles.
---
 .../src/geometry/leaf/MatrixRotation.hpp      | 16 ++++-----------
 .../wave/geometry/src/geometry/op/LogMap.hpp  | 20 +++++++++----------
 2 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
index 12b35c1..f9ef537 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
@@ -74,18 +74,10 @@ auto evalImpl(expr<LogMap>, const MatrixRotation<ImplType> &rhs) ->
   typename traits<MatrixRotation<ImplType>>::TangentType {
     using Scalar = scalar_t<MatrixRotation<ImplType>>;
 
-    // From http://ethaneade.com/lie.pdf
-    using std::acos;
-    using std::sin;
-    const auto &m = rhs.value();
-    const auto angle = acos((m.trace() - Scalar{1}) / Scalar{2});
-
-    if (angle * angle > Eigen::NumTraits<Scalar>::epsilon()) {
-        return uncrossMatrix(angle / (Scalar{2} * sin(angle)) * (m - m.transpose()));
-    } else {
-        // Very small angle
-        return uncrossMatrix(Scalar{0.5} * (m - m.transpose()));
-    }
+    // Go through Eigen's quaternion-based conversion, as recovering the angle from the
+    // trace is inaccurate for angles close to zero or pi (and can take acos(x), |x| > 1)
+    const auto a = Eigen::AngleAxis<Scalar>{Eigen::Matrix<Scalar, 3, 3>{rhs.value()}};
+    return typename traits<MatrixRotation<ImplType>>::TangentType{a.angle() * a.axis()};
 }
 
 /** Implements composition of rotation matrices */
diff --git a/include/wave/geometry/src/geometry/op/LogMap.hpp b/include/wave/geometry/src/geometry/op/LogMap.hpp
index a4540b2..83bc4a7 100644
--- a/include/wave/geometry/src/geometry/op/LogMap.hpp
+++ b/include/wave/geometry/src/geometry/op/LogMap.hpp
@@ -43,20 +43,18 @@ auto jacobianImpl(expr<LogMap>,
     using Jacobian = jacobian_t<RelativeRotation<Val>, Rhs>;
     const auto &phi = val.value();
     // From http://ethaneade.org/exp_diff.pdf
-    using std::cos;
-    using std::sin;
+    using std::sqrt;
+    using std::tan;
     const auto theta2 = phi.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto A = sin(theta) / theta;
-    const auto B = (Scalar{1} - cos(theta)) / theta2;
 
-    //        if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+    // The coefficient of the last term tends to 1/12 for small input
+    auto c = Scalar{1} / Scalar{12};
+    if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        const auto half_theta = sqrt(theta2) / Scalar{2};
+        c = (Scalar{1} - half_theta / tan(half_theta)) / theta2;
+    }
     return Jacobian::Identity() - Scalar{0.5} * crossMatrix(phi) +
-           ((B - Scalar{0.5} * A) / (Scalar{1} - cos(theta))) * crossMatrix(phi) *
-             crossMatrix(phi);
-    //        } else {
-    // @todo small input
-    //        }
+           c * crossMatrix(phi) * crossMatrix(phi);
 }
 
 }  // namespace internal
-- 
2.43.0


From 715300e809ff2e4c07e3a22fa928ecf091e7356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 04/36] fix: make SE(3) exponential and logarithm accurate for
 small rotations

The Jacobians of exp and log of rigid transforms were NaN for zero rotation,
and the log value and all of these Jacobians lost their precision to
cancellation for small rotation angles. The small-angle branch of exp also
used wrong limits for the translation coefficients.
---
 .../src/geometry/base/RigidTransformBase.hpp  | 63 ++++++++++++++-----
 .../wave/geometry/src/geometry/leaf/Twist.hpp | 23 ++-----
 2 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
index 395e37b..688cefc 100644
--- a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
@@ -136,7 +136,8 @@ auto evalImpl(expr<LogMap>, const RigidTransformBase<Rhs> &rhs) ->
     const auto theta = std::sqrt(theta2);
     if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
         const auto A = std::sin(theta) / theta;
-        const auto B = (1 - std::cos(theta)) / theta2;
+        const auto sin_half = std::sin(theta / 2);
+        const auto B = 2 * sin_half * sin_half / theta2;
         const Mat3 cross = crossMatrix(omega);
         const Mat3 cross2 = cross * cross;
 
@@ -157,6 +158,50 @@ auto evalImpl(expr<LogMap>, const RigidTransformBase<Rhs> &rhs) ->
     return typename traits<Rhs>::TangentType{omega, ln_t};
 }
 
+/** Helper for the Jacobians of ExpMap and LogMap of a rigid transform
+ *
+ * Calculates the derivative of the translation part of the exponential map with respect
+ * to the rotation part of the twist, i.e. the "B" term in
+ * http://ethaneade.org/exp_diff.pdf
+ *
+ * @param omega the rotation part of the twist
+ * @param u the translation part of the twist
+ */
+template <typename Scalar, typename Omega, typename U>
+auto expMapTranslationJacobian(const Eigen::MatrixBase<Omega> &omega,
+                               const Eigen::MatrixBase<U> &u)
+  -> Eigen::Matrix<Scalar, 3, 3> {
+    using Mat3 = Eigen::Matrix<Scalar, 3, 3>;
+    using std::sin;
+    using std::sqrt;
+
+    const Scalar theta2 = omega.squaredNorm();
+    // b, c and the coefficients of Eade's "W" term
+    Scalar b, c, w1, w2, w3;
+    if (theta2 > sqrt(Eigen::NumTraits<Scalar>::epsilon())) {
+        const Scalar theta = sqrt(theta2);
+        const Scalar sin_half = sin(theta / 2);
+        const Scalar a = sin(theta) / theta;
+        b = 2 * sin_half * sin_half / theta2;
+        c = (1 - a) / theta2;
+        w1 = c - b;
+        w2 = (a - 2 * b) / theta2;
+        w3 = (b - 3 * c) / theta2;
+    } else {
+        // Very small angle: use Taylor series
+        b = Scalar{1} / 2 - theta2 / 24;
+        c = Scalar{1} / 6 - theta2 / 120;
+        w1 = Scalar{-1} / 3 + theta2 / 30;
+        w2 = Scalar{-1} / 12 + theta2 / 180;
+        w3 = Scalar{-1} / 60 + theta2 / 1260;
+    }
+    const Mat3 W =
+      w1 * Mat3::Identity() + w2 * crossMatrix(omega) + w3 * omega * omega.transpose();
+
+    return b * crossMatrix(u) + c * (omega * u.transpose() + u * omega.transpose()) +
+           omega.dot(u) * W;
+}
+
 /** Jacobian of LogMap for any rigid transform */
 template <typename Val, typename Rhs>
 auto jacobianImpl(expr<LogMap>,
@@ -168,28 +213,14 @@ auto jacobianImpl(expr<LogMap>,
     // From http://ethaneade.org/exp_diff.pdf - note we swap order of rotation and
     // translation
 
-    using std::cos;
-    using std::sin;
     // First get Jacobian of logmap of rotation part only
     const auto &Drot =
       jacobianImpl(expr<LogMap>{}, val.derived().rotation(), rhs.derived().rotation());
 
     const auto &omega = val.derived().rotation().value();
     const auto &u = val.derived().translation().value();
-    const auto theta2 = omega.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
-    // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
-
     // Calculate Eade's "B" term
-    const Mat3 B = b * crossMatrix(u) +
-                   c * (omega * u.transpose() + u * omega.transpose()) + omega.dot(u) * W;
-
+    const Mat3 B = expMapTranslationJacobian<Scalar>(omega, u);
 
     Eigen::Matrix<Scalar, 6, 6> out{};
     out.template topLeftCorner<3, 3>() = Drot;                 // R wrt R
diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index d75999e..3e8f201 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -108,7 +108,8 @@ auto evalImpl(expr<ExpMap>, const Twist<ImplType> &rhs) ->
     const auto theta = std::sqrt(theta2);
     if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
         const auto A = std::sin(theta) / theta;
-        const auto B = (Scalar{1.0} - std::cos(theta)) / theta2;
+        const auto sin_half = std::sin(theta / 2);
+        const auto B = Scalar{2.0} * sin_half * sin_half / theta2;
         const auto C = (Scalar{1.0} - A) / theta2;
         const Mat3 cross = crossMatrix(omega);
         const Mat3 cross2 = cross * cross;
@@ -118,8 +119,8 @@ auto evalImpl(expr<ExpMap>, const Twist<ImplType> &rhs) ->
     } else {
         // small theta2; use Taylor expansions
         const auto A = Scalar{1.0};
-        const auto B = Scalar{0.0};
-        const auto C = Scalar{0.0};
+        const auto B = Scalar{1.0} / Scalar{2.0};
+        const auto C = Scalar{1.0} / Scalar{6.0};
         const Mat3 cross = crossMatrix(omega);
         const Mat3 cross2 = cross * cross;
         const Mat3 V = Mat3::Identity() + B * cross + C * cross2;
@@ -139,28 +140,14 @@ auto jacobianImpl(expr<ExpMap>, const TransformBase<Val> &val, const TwistBase<R
 
     // From http://ethaneade.org/exp_diff.pdf - note we swap order of rotation and
     // translation
-    using std::cos;
-    using std::sin;
     // First get Jacobian of expmap of rotation part only
     const auto &Drot = jacobianImpl(
       expr<ExpMap>{}, val.derived().rotationBlock(), rhs.derived().rotation());
 
     const auto &omega = rhs.derived().rotation().value();
     const auto &u = rhs.derived().translation().value();
-    const auto theta2 = omega.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
-    // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
-
     // Calculate Eade's "B" term
-    const Mat3 B = b * crossMatrix(u) +
-                   c * (omega * u.transpose() + u * omega.transpose()) + omega.dot(u) * W;
-
+    const Mat3 B = expMapTranslationJacobian<Scalar>(omega, u);
 
     BlockMatrix<Val, Rhs> out{};
     out.template blockWrt<Val::Rotation, Rhs::Rotation>() = Drot;
-- 
2.43.0


From 1533d65e5d28a0bf35b06441ce26fd7c945fc258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 05/36] fix: correct sign in small-angle series of the rotation
 exponential map

sin(x/2)/x = 1/2 - x^2/48 + ...; the series had the wrong sign.
---
 include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
index 6f271a4..3cb2edf 100644
--- a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
@@ -119,7 +119,7 @@ auto evalImpl(expr<ExpMap>, const RelativeRotation<ImplType> &rhs) {
         s = sa / angle;
         c = cos(angle / 2);
     } else {
-        s = Scalar{0.5} + angle2 / 48;
+        s = Scalar{0.5} - angle2 / 48;
         c = 1 - angle2 / 8;
     }
 
-- 
2.43.0


From 92e31520e0360c2bcf05855389e03b0fb5f3c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 06/36] fix: allow Jacobians of trees with unique types that
 refer to plain scalars

containsSame, called in an assertion by evaluateTypedJacobian, had no overload for
scalar operands, so jacobian() did not compile for e.g. v * b with b a double.
---
 include/wave/geometry/src/core/functions/IsSame.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/wave/geometry/src/core/functions/IsSame.hpp b/include/wave/geometry/src/core/functions/IsSame.hpp
index b2d20e2..d3b9130 100644
--- a/include/wave/geometry/src/core/functions/IsSame.hpp
+++ b/include/wave/geometry/src/core/functions/IsSame.hpp
@@ -89,6 +89,12 @@ inline constexpr bool containsSame(const ExpressionBase<A> &a,
     return &a.derived().value() == &b.derived().value();
 }
 
+// Version for scalar (a scalar operand is never the same as an expression)
+template <typename A, typename B, internal::enable_if_scalar_t<A, int> = 0>
+inline constexpr bool containsSame(const A &, const ExpressionBase<B> &) noexcept {
+    return false;
+}
+
 template <typename A, typename B, internal::enable_if_leaf_t<A, int> = 0>
 inline constexpr bool containsSame(const ExpressionBase<A> &,
                                    const ExpressionBase<B> &) noexcept {
-- 
2.43.0


From a2de25566402feb294a15c62a87fdacc417e3095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 07/36] fix: allow a matrix rigid transform over Eigen::Map

The constructor handed an Eigen::MatrixBase to the storage type, from which a Map cannot
be made, so the documented Map storage did not compile.
---
 .../wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
index eba4967..a9ef93f 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
@@ -71,7 +71,7 @@ class MatrixRigidTransform
     /** Construct from an Eigen 4x4 transformation matrix */
     template <typename MDerived, TICK_REQUIRES(internal::is_eigen_matrix<4, MDerived>{})>
     explicit MatrixRigidTransform(const Eigen::MatrixBase<MDerived> &m)
-        : Storage{typename Storage::init_storage{}, m} {
+        : Storage{typename Storage::init_storage{}, m.derived()} {
         EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE(MDerived, 4, 4);
     }
 
-- 
2.43.0


From df3e59e581bf471f806898cf633abb26e2f224c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 08/36] fix: differentiate rotations and transforms by Identity
 with respect to the vector

Identity(R) * p and Identity(T) * p could be evaluated, but their Jacobian with respect
to p did not compile: no overload of rightJacobianImpl applied.
---
 .../geometry/src/geometry/leaf/Identity.hpp    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/Identity.hpp b/include/wave/geometry/src/geometry/leaf/Identity.hpp
index a48bfe8..122cc70 100644
--- a/include/wave/geometry/src/geometry/leaf/Identity.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Identity.hpp
@@ -102,6 +102,24 @@ decltype(auto) evalImpl(expr<Transform>,
     return rhs.derived();
 };
 
+/** Jacobian of a rotation by identity wrt the rhs */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Rotate>,
+                       const TranslationBase<Val> &,
+                       const Identity<Lhs> &,
+                       const TranslationBase<Rhs> &) {
+    return identity_t<Rhs>{};
+}
+
+/** Jacobian of a transform by identity wrt the rhs */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Transform>,
+                       const TranslationBase<Val> &,
+                       const Identity<Lhs> &,
+                       const TranslationBase<Rhs> &) {
+    return identity_t<Rhs>{};
+}
+
 template <typename Rhs>
 auto evalImpl(expr<LogMap>, const Identity<Rhs> &) {
     return Zero<typename traits<Rhs>::TangentType>{};
-- 
2.43.0


From f40e8a97bb4ac4561ffe5a3492a0bbac9346726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:58 +0000
Subject: [PATCH 09/36] fix: scaled Zero placeholders referred to a dead
 temporary

Zero::value() returned a plain vector by value, so the lazily evaluated results of
k * zero, zero * k and zero / k kept a dangling reference to it.
---
 include/wave/geometry/src/geometry/leaf/Zero.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Zero.hpp b/include/wave/geometry/src/geometry/leaf/Zero.hpp
index ab1f46f..a911af2 100644
--- a/include/wave/geometry/src/geometry/leaf/Zero.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Zero.hpp
@@ -29,7 +29,9 @@ class Zero : public internal::base_tmpl_t<Leaf, Zero<Leaf>> {
     }
 
     // Satisfy the Leaf Expression concept
-    auto value() const -> ImplType {
+    // Returns an Eigen expression rather than a plain vector, since results of vector
+    // operations are evaluated lazily and refer to plain operands
+    auto value() const {
         return ImplType::Zero();
     }
 };
-- 
2.43.0


From dccadb8b1f043a99d685749c51ee4eb7dfeaf7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:00 +0000
Subject: [PATCH 10/36] fix: place Jacobians of compound elements in their own
 rows

---
 .../src/core/functions/JacobianEvaluator.hpp       | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
index 1ea656c..9c00b8c 100644
--- a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
@@ -288,14 +288,20 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
             std::get<Is>(evaluator.children), target}...};
     }
 
-    template <size_t... Is>
-    inline Jacobian combineChildJacobians(std::index_sequence<Is...>) const {
+    /** Place the Jacobian of each child we have an evaluator for in its block of rows.
+     *
+     * `Is` are indices into our tuple of children, and `Rows` are the matching indices
+     * into the elements of the expression (some of which are not among our children)
+     */
+    template <size_t... Is, size_t... Rows>
+    inline Jacobian combineChildJacobians(std::index_sequence<Is...>,
+                                          std::index_sequence<Rows...>) const {
         // Fill with zero first. @todo profile/optimize
         auto jac = Jacobian{};
         jac.setZero();
         int foreach[] = {
           (std::get<Is>(children).jacobian()
-             ? (jac.template rowsWrt<Is>() = *std::get<Is>(children).jacobian(), 0)
+             ? (jac.template rowsWrt<Rows>() = *std::get<Is>(children).jacobian(), 0)
              : 0)...};
         (void) foreach;
         return jac;
@@ -321,7 +327,7 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
         constexpr auto N = std::tuple_size<ChildJacEvalTuple>::value;
         if (N > 0) {
             using Indices = std::make_index_sequence<N>;
-            return this->combineChildJacobians(Indices{});
+            return this->combineChildJacobians(Indices{}, IndicesOfChildrenToCall{});
         } else {
             return boost::none;
         }
-- 
2.43.0


From 2a7c4db681d25f64e9c86dde42528eb0c10afa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:34 +0000
Subject: [PATCH 11/36] fix: do not move the evaluators of compound elements

---
 .../geometry/src/core/functions/Evaluator.hpp | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/Evaluator.hpp b/include/wave/geometry/src/core/functions/Evaluator.hpp
index 8fc582b..3cd38c6 100644
--- a/include/wave/geometry/src/core/functions/Evaluator.hpp
+++ b/include/wave/geometry/src/core/functions/Evaluator.hpp
@@ -113,24 +113,13 @@ struct Evaluator<Derived, enable_if_nary_t<Derived>> {
                                              typename traits<Derived>::ElementTuple>;
     using IndexSeq = std::make_index_sequence<traits<Derived>::CompoundSize>;
 
-    template <size_t... Is>
-    inline static ChildEvalTuple expandToChildEvalTuple(const Derived &nary,
-                                                        std::index_sequence<Is...>) {
-        // Evaluator<...> is needed here to make gcc 5 happy
-        return ChildEvalTuple{
-          Evaluator<typename traits<Derived>::template ElementType<Is>>{
-            nary.template get<Is>()}...};
-    }
-
     template <size_t... Is>
     inline EvalType expandToEvalImpl(std::index_sequence<Is...>) {
         return evalImpl(get_expr_tag_t<Derived>(), std::get<Is>(this->children)()...);
     }
 
     WAVE_STRONG_INLINE explicit Evaluator(const Derived &expr)
-        : expr{expr},
-          children{expandToChildEvalTuple(expr, IndexSeq{})},
-          result{this->expandToEvalImpl(IndexSeq{})} {}
+        : Evaluator{expr, IndexSeq{}} {}
 
     const EvalType &operator()() const {
         return this->result;
@@ -140,6 +129,15 @@ struct Evaluator<Derived, enable_if_nary_t<Derived>> {
     const eval_storage_t<Derived> expr;
     const ChildEvalTuple children;
     const EvalType result;
+
+ private:
+    // Construct each child evaluator in place. They must not be moved: results may be
+    // Eigen expressions referring to other results inside the same evaluator.
+    template <size_t... Is>
+    WAVE_STRONG_INLINE Evaluator(const Derived &expr, std::index_sequence<Is...>)
+        : expr{expr},
+          children{expr.template get<Is>()...},
+          result{this->expandToEvalImpl(IndexSeq{})} {}
 };
 
 }  // namespace internal
-- 
2.43.0


From 72351f694a459115a1b78c18bc659ac4d08fa8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:00 +0000
Subject: [PATCH 12/36] fix: fold lists of leaves of compounds that repeat a
 leaf type

---
 include/wave/geometry/src/util/meta/type_list.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/wave/geometry/src/util/meta/type_list.hpp b/include/wave/geometry/src/util/meta/type_list.hpp
index 335717f..e644326 100644
--- a/include/wave/geometry/src/util/meta/type_list.hpp
+++ b/include/wave/geometry/src/util/meta/type_list.hpp
@@ -236,15 +236,14 @@ struct concat_if_unique_many<U1, U2>
                          concat_if_unique<typename U1::type, typename U2::type>,
                          std::false_type> {};
 
-// More than two lists: fold over concat_if_unique or short-circuit if false
+// More than two lists: fold over concat_if_unique_many or short-circuit if false
 // (like std::conjunction)
 template <typename U1, typename U2, class... Tail>
 struct concat_if_unique_many<U1, U2, Tail...>
     : std::conditional_t<
-        bool(concat_if_unique<typename U1::type, typename U2::type>::value),
-        concat_if_unique_many<concat_if_unique<typename U1::type, typename U2::type>,
-                              Tail...>,
-        concat_if_unique<typename U1::type, typename U2::type>> {};
+        bool(concat_if_unique_many<U1, U2>::value),
+        concat_if_unique_many<concat_if_unique_many<U1, U2>, Tail...>,
+        std::false_type> {};
 
 
 /** Zip two parameter packs of equal length
-- 
2.43.0


From 456bfa5a2b81b809cae4298c2cac9e5e07f0d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 13/36] fix: differentiate compounds of unique types with the
 untyped evaluator

---
 .../core/functions/TypedJacobianEvaluator.hpp    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
index 391aaf7..5301a05 100644
--- a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
@@ -300,6 +300,14 @@ WAVE_STRONG_INLINE auto evaluateWithTypedJacobians(const ExpressionBase<Derived>
       internal::TypedJacobianEvaluator<ExprType, Targets>{v_eval, targets}.jacobian()...);
 }
 
+/** Whether TypedJacobianEvaluator is used by default for the expression.
+ *
+ * It needs a tree with unique types, and does not support n-ary expressions
+ */
+template <typename Derived>
+using use_typed_jacobians =
+  tmp::bool_constant<unique_leaves_t<Derived>{} && !is_nary_expression<Derived>{}>;
+
 /** Evaluate one Jacobian of an expression, using forward-mode AD.
  *
  * Either TypedJacobianEvaluator or untyped JacobianEvaluator is used, depending on
@@ -309,7 +317,7 @@ WAVE_STRONG_INLINE auto evaluateWithTypedJacobians(const ExpressionBase<Derived>
  */
 template <typename Derived,
           typename TargetDerived,
-          std::enable_if_t<unique_leaves_t<Derived>{}, int> = 0>
+          std::enable_if_t<use_typed_jacobians<Derived>{}, int> = 0>
 auto evaluateJacobianAuto(const ExpressionBase<Derived> &expr,
                           const TargetDerived &target)
   -> jacobian_t<Derived, TargetDerived> {
@@ -318,7 +326,7 @@ auto evaluateJacobianAuto(const ExpressionBase<Derived> &expr,
 
 template <typename Derived,
           typename TargetDerived,
-          std::enable_if_t<!unique_leaves_t<Derived>{}, int> = 0>
+          std::enable_if_t<!use_typed_jacobians<Derived>{}, int> = 0>
 auto evaluateJacobianAuto(const ExpressionBase<Derived> &expr,
                           const TargetDerived &target)
   -> jacobian_t<Derived, TargetDerived> {
@@ -332,7 +340,7 @@ auto evaluateJacobianAuto(const ExpressionBase<Derived> &expr,
  */
 template <typename Derived,
           typename... Targets,
-          std::enable_if_t<unique_leaves_t<Derived>{}, int> = 0>
+          std::enable_if_t<use_typed_jacobians<Derived>{}, int> = 0>
 auto evaluateWithJacobiansAuto(const ExpressionBase<Derived> &expr,
                                const Targets &... targets)
   -> std::tuple<plain_output_t<Derived>, jacobian_t<Derived, Targets>...> {
@@ -341,7 +349,7 @@ auto evaluateWithJacobiansAuto(const ExpressionBase<Derived> &expr,
 
 template <typename Derived,
           typename... Targets,
-          std::enable_if_t<!unique_leaves_t<Derived>{}, int> = 0>
+          std::enable_if_t<!use_typed_jacobians<Derived>{}, int> = 0>
 auto evaluateWithJacobiansAuto(const ExpressionBase<Derived> &expr,
                                const Targets &... targets)
   -> std::tuple<plain_output_t<Derived>, jacobian_t<Derived, Targets>...> {
-- 
2.43.0


From 3e2ea3dd509bafe0edc9d3aae40509cd9ddbd865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 14/36] fix: evaluate compound elements to plain objects

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 8932d8a..86b4114 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -118,7 +118,7 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
 
  public:
     using PreparedType = ConvertedType &&;
-    using EvalType = rebind<typename traits<Primitives>::EvalType...>;
+    using EvalType = rebind<plain_eval_t<Primitives>...>;
     using Tag = nary_eval<EvalType>;
     using OutputFunctor = IdentityFunctor;
     using PlainType = rebind<plain_output_t<Primitives>...>;
-- 
2.43.0


From 492c8d362ffe595772df06d3ac5b1258bf8f2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 15/36] fix: compound box-plus is in the space of its left
 operand

---
 include/wave/geometry/src/geometry/op/BoxPlus.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/op/BoxPlus.hpp b/include/wave/geometry/src/geometry/op/BoxPlus.hpp
index bf47e6c..10d1c5a 100644
--- a/include/wave/geometry/src/geometry/op/BoxPlus.hpp
+++ b/include/wave/geometry/src/geometry/op/BoxPlus.hpp
@@ -45,7 +45,7 @@ struct BoxPlus : internal::base_tmpl_t<Lhs, BoxPlus<Lhs, Rhs>>,
  * @f[ S \times R^n \to S @f]
  */
 template <typename Lhs, typename Rhs>
-struct CompoundBoxPlus : internal::base_tmpl_t<Lhs, Rhs, CompoundBoxPlus<Lhs, Rhs>>,
+struct CompoundBoxPlus : internal::base_tmpl_t<Lhs, CompoundBoxPlus<Lhs, Rhs>>,
                          internal::binary_storage_for<CompoundBoxPlus<Lhs, Rhs>> {
  private:
     using Storage = internal::binary_storage_for<CompoundBoxPlus<Lhs, Rhs>>;
-- 
2.43.0


From ff1b93e09783aff4a75875e4430cf75b6bcace14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 16/36] fix: allow assigning an expression to a compound

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 86b4114..6011c56 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -53,11 +53,11 @@ struct NaryStorage {
         : NaryStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
     /** Assign from another n-ary expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
+    template <typename OtherDerived>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        this->storage_ =
           wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
-            .value();
+            .storage_;
         return *static_cast<Derived *>(this);
     }
 
-- 
2.43.0


From dd75aa44a6b2b5ea862de4dade8766d37af88d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 17/36] fix: allow reading the matrices of a temporary noise
 object

---
 include/wave/geometry/src/estimation/Noise.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/estimation/Noise.hpp b/include/wave/geometry/src/estimation/Noise.hpp
index 3c55661..8f86cec 100644
--- a/include/wave/geometry/src/estimation/Noise.hpp
+++ b/include/wave/geometry/src/estimation/Noise.hpp
@@ -55,7 +55,7 @@ class FullNoise {
         return this->cov_;
     }
 
-    auto covariance() && -> MatrixType && {
+    auto covariance() && -> MatrixType {
         return std::move(*this).cov_;
     }
 
@@ -63,7 +63,7 @@ class FullNoise {
         return this->inv_sqrt_cov_;
     }
 
-    auto inverseSqrtCov() && -> MatrixType && {
+    auto inverseSqrtCov() && -> MatrixType {
         return std::move(*this).inv_sqrt_cov_;
     }
 
@@ -119,7 +119,7 @@ class DiagonalNoise {
         return this->cov_;
     }
 
-    auto covariance() && -> MatrixType && {
+    auto covariance() && -> MatrixType {
         return std::move(*this).cov_;
     }
 
@@ -127,7 +127,7 @@ class DiagonalNoise {
         return this->inv_sqrt_cov_;
     }
 
-    auto inverseSqrtCov() && -> MatrixType && {
+    auto inverseSqrtCov() && -> MatrixType {
         return std::move(*this).inv_sqrt_cov_;
     }
 
-- 
2.43.0


From e3586d4151302f1a23d7cb051901e9d9b13437ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 18/36] fix: multiply an inner product by an identity matrix
 (reverse mode with plain numbers)

---
 .../geometry/src/util/math/IdentityMatrix.hpp | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/wave/geometry/src/util/math/IdentityMatrix.hpp b/include/wave/geometry/src/util/math/IdentityMatrix.hpp
index a459594..6785723 100644
--- a/include/wave/geometry/src/util/math/IdentityMatrix.hpp
+++ b/include/wave/geometry/src/util/math/IdentityMatrix.hpp
@@ -83,6 +83,29 @@ EIGEN_DEVICE_FUNC inline const wave::IdentityMatrix<Scalar, N> &operator*(
     return i;
 }
 
+/**
+ * Multiply an Identity expression by a product expression
+ * (Provided because an inner product is also convertible to a scalar, which would make
+ * the above operators ambiguous with scalar multiplication)
+ */
+template <typename Scalar, int N, typename Lhs, typename Rhs, int Option>
+EIGEN_DEVICE_FUNC inline const Product<Lhs, Rhs, Option> &operator*(
+  const Product<Lhs, Rhs, Option> &product, const wave::IdentityMatrix<Scalar, N> &) {
+    static_assert(Product<Lhs, Rhs, Option>::ColsAtCompileTime == N ||
+                    Product<Lhs, Rhs, Option>::ColsAtCompileTime == Eigen::Dynamic,
+                  "Invalid matrix product");
+    return product;
+}
+
+template <typename Scalar, int N, typename Lhs, typename Rhs, int Option>
+EIGEN_DEVICE_FUNC inline const Product<Lhs, Rhs, Option> &operator*(
+  const wave::IdentityMatrix<Scalar, N> &, const Product<Lhs, Rhs, Option> &product) {
+    static_assert(Product<Lhs, Rhs, Option>::RowsAtCompileTime == N ||
+                    Product<Lhs, Rhs, Option>::RowsAtCompileTime == Eigen::Dynamic,
+                  "Invalid matrix product");
+    return product;
+}
+
 }  // namespace Eigen
 
 #endif  // WAVE_GEOMETRY_IDENTITYMATRIX_HPP
-- 
2.43.0


From 5cd2abf5c2f462a7aca03811d26f7a557f26a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 19/36] fix: reverse-mode derivatives of sums held by proxies

---
 include/wave/geometry/src/dynamic/DynamicBase.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/wave/geometry/src/dynamic/DynamicBase.hpp b/include/wave/geometry/src/dynamic/DynamicBase.hpp
index 37973e2..d46c6f4 100644
--- a/include/wave/geometry/src/dynamic/DynamicBase.hpp
+++ b/include/wave/geometry/src/dynamic/DynamicBase.hpp
@@ -88,6 +88,12 @@ class DynamicBase {
         return dynReverseDynamic(jac_map, internal::DynamicMatrix<Scalar>{init_adjoint});
     }
 
+    /** Overload for an adjoint which already is a dynamic matrix */
+    void dynReverse(MatrixMap<const void *, Scalar> &jac_map,
+                    const internal::DynamicMatrix<Scalar> &init_adjoint) const {
+        return dynReverseDynamic(jac_map, init_adjoint);
+    }
+
     /** Returns result of evaluation for numerical diff
      *
      * @see EvaluatorWithDelta
-- 
2.43.0


From f487fece3d0eebe0dbde1377ddf6640c22b87663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 20/36] fix: allow a proxy to hold a reference proxy

---
 include/wave/geometry/src/dynamic/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Dynamic.hpp b/include/wave/geometry/src/dynamic/Dynamic.hpp
index 2990d1c..e4fac0a 100644
--- a/include/wave/geometry/src/dynamic/Dynamic.hpp
+++ b/include/wave/geometry/src/dynamic/Dynamic.hpp
@@ -37,7 +37,7 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
 
  private:
     decltype(auto) constructEvaluator() const {
-        auto &&evaluable_expr = internal::prepareExpr(internal::adl{}, this->rhs());
+        auto &&evaluable_expr = prepareExpr(internal::adl{}, this->rhs());
         using ExprType = tmp::remove_cr_t<decltype(evaluable_expr)>;
         static_assert(std::is_same<ExprType, PreparedType>{}, "Internal sanity check");
         this->lazy_evaluator.emplace(std::move(evaluable_expr));
-- 
2.43.0


From 40016bfc0601c051414dd6fdd1a4c41a8d4aa792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 21/36] fix: allow a proxy to hold an expression evaluating to
 an Eigen expression

---
 include/wave/geometry/src/dynamic/Dynamic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Dynamic.hpp b/include/wave/geometry/src/dynamic/Dynamic.hpp
index e4fac0a..34d005e 100644
--- a/include/wave/geometry/src/dynamic/Dynamic.hpp
+++ b/include/wave/geometry/src/dynamic/Dynamic.hpp
@@ -58,7 +58,8 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
 
     auto dynEvaluate() const -> EvalType override {
         const auto &v_eval = this->constructEvaluator();
-        return v_eval();
+        // The evaluator may give a different type, such as a leaf holding an Eigen expression
+        return EvalType{v_eval()};
     }
 
     auto dynJacobian(const void *target_ptr) const -> MatrixType override {
-- 
2.43.0


From 852cfbed67843205a0ae86e465014e6ac03b5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 22/36] fix: allow differentiating expressions of proxies in
 forward mode

---
 include/wave/geometry/src/dynamic/Proxy.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 921fbaf..fe7b225 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -82,6 +82,10 @@ struct is_proxy<Proxy<Leaf>> : std::true_type {};
 template <typename Derived, typename T = void>
 using enable_if_proxy_t = typename std::enable_if<is_proxy<Derived>{}, T>::type;
 
+/** A proxy may hold an expression containing any type */
+template <typename Derived, typename B>
+struct contains_same_type<Derived, B, enable_if_proxy_t<Derived>> : std::true_type {};
+
 /* Proxy<L> is a special class that gets an instantiation of Evaluator, prepareExpr, etc.
  * despite not being a leaf, unary, or binary expression. We provide those partial
  * specializations here.
-- 
2.43.0


From f7b728c4f8a36cb25c67a5bf90f00c06e8ff30b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 23/36] fix: allow differentiating proxies by targets of other
 sizes

---
 include/wave/geometry/src/dynamic/Proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index fe7b225..8befda2 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -154,7 +154,8 @@ struct JacobianEvaluator<
     WAVE_STRONG_INLINE boost::optional<jacobian_t<Derived, Target>> jacobian() const {
         // Check if Jacobian is wrt this Proxy
         if (isSame(this->v_eval.expr, this->target_ptr)) {
-            return identity_t<Derived>{}.eval();
+            // (The types of the target are the same then, but this must compile for others)
+            return jacobian_t<Derived, Target>{jacobian_t<Derived, Target>::Identity()};
         }
         // Otherwise, dynamically get the Jacobian of the derived expression and convert
         // to the expected optional-fixed-size return type
-- 
2.43.0


From 54eac3684ced6579db68238335eba2f531a625d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:39 +0000
Subject: [PATCH 24/36] fix: compact transforms over mapped storage evaluate to
 owning ones

CompactRigidTransform had no PlainType of its own, so expressions on a transform over
Eigen::Map tried to return a Map and did not compile.
---
 .../wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
index 40f15b6..d6f3742 100644
--- a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
@@ -101,6 +101,9 @@ struct traits<CompactRigidTransform<Q, V>>
                                                  Translation<V>>;
 
  public:
+    using PlainType =
+      CompactRigidTransform<typename Eigen::internal::traits<Q>::PlainObject,
+                            typename V::PlainObject>;
     using TangentType = Twist<Eigen::Matrix<typename TraitsBase::Scalar, 6, 1>>;
 };
 
-- 
2.43.0


From f8ad6485b36764ee03aee8148d8173b1fca45357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:39 +0000
Subject: [PATCH 25/36] fix: assign a transform's part from the same part of
 another transform

a.rotation() = b.rotation() was ambiguous when a and b have the same type: the assignment
templates compete with the implicit (deleted) copy assignment.
---
 .../wave/geometry/src/core/op/MemberAccess.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/wave/geometry/src/core/op/MemberAccess.hpp b/include/wave/geometry/src/core/op/MemberAccess.hpp
index 8775d49..5e6989e 100644
--- a/include/wave/geometry/src/core/op/MemberAccess.hpp
+++ b/include/wave/geometry/src/core/op/MemberAccess.hpp
@@ -75,6 +75,24 @@ struct MemberAccess final : internal::aux_base_tmpl_t<Aux, Rhs, MemberAccess<Aux
         return *this;
     }
 
+    MemberAccess(const MemberAccess &) = default;
+    MemberAccess(MemberAccess &&) = default;
+
+    /** Assigns from the same member of another object of the same type.
+     *
+     * The templates do not declare copy assignment operators, so without these
+     * `a.translation() = b.translation()` would be ambiguous.
+     */
+    MemberAccess &operator=(const MemberAccess &other) && {
+        auto &leaf = evalImpl(internal::get_expr_tag_t<Rhs>{}, this->rhs());
+        Aux{}.get(leaf) = internal::prepareEvaluatorTo<PlainEvalType>(other)();
+        return *this;
+    }
+
+    MemberAccess &operator=(MemberAccess &&other) && {
+        return std::move(*this) = static_cast<const MemberAccess &>(other);
+    }
+
     // Overload for member with frames
     template <
       typename Other,
-- 
2.43.0


From 37a5ffd534880c4d95401d8842f8aeafdc3f6c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:32 +0000
Subject: [PATCH 26/36] fix: reject transforming a vector that is not relative
 to the transform's right frame

T_AB * B_v_CD was accepted and its result labelled as a position relative to A.
---
 include/wave/geometry/src/geometry/op/Transform.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/wave/geometry/src/geometry/op/Transform.hpp b/include/wave/geometry/src/geometry/op/Transform.hpp
index 46758f3..b7b235c 100644
--- a/include/wave/geometry/src/geometry/op/Transform.hpp
+++ b/include/wave/geometry/src/geometry/op/Transform.hpp
@@ -21,6 +21,10 @@ struct Transform : internal::base_tmpl_t<Rhs, Transform<Lhs, Rhs>>,
 
     static_assert(std::is_same<RightFrameOf<Lhs>, LeftFrameOf<Rhs>>(),
                   "Mismatching frames");
+
+    // The vector must be a position relative to the transform's right frame
+    static_assert(std::is_same<RightFrameOf<Lhs>, MiddleFrameOf<Rhs>>(),
+                  "Mismatching frames");
 };
 
 namespace internal {
-- 
2.43.0


From 37e115780b43729415625bf5b294b1b40375f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:32 +0000
Subject: [PATCH 27/36] fix: keep the frames of a normalized vector

normalized() of a framed vector evaluated to an unframed one.
---
 .../src/geometry/op/CommonExpressions.hpp     | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/op/CommonExpressions.hpp b/include/wave/geometry/src/geometry/op/CommonExpressions.hpp
index b4db04f..34ce8f3 100644
--- a/include/wave/geometry/src/geometry/op/CommonExpressions.hpp
+++ b/include/wave/geometry/src/geometry/op/CommonExpressions.hpp
@@ -36,8 +36,26 @@ WAVE_SIMPLE_UNARY_EXPRESSION(Norm, ScalarBase);
 
 /** Vector expression representing a vector divided by its L2 norm
  */
-WAVE_SPACE_PRESERVING_UNARY_EXPRESSION(Normalize);
+template <typename Rhs>
+struct Normalize : internal::base_tmpl_t<Rhs, Normalize<Rhs>>,
+                   internal::unary_storage_for<Normalize<Rhs>> {
+ private:
+    using Storage = internal::unary_storage_for<Normalize<Rhs>>;
 
+ public:
+    using Storage::Storage;
+};
+
+namespace internal {
+
+// The normalized vector has the same frames
+template <typename Rhs>
+struct traits<Normalize<Rhs>> : unary_traits_base<Normalize<Rhs>> {
+    using OutputFunctor =
+      WrapWithFrames<LeftFrameOf<Rhs>, MiddleFrameOf<Rhs>, RightFrameOf<Rhs>>;
+};
+
+}  // namespace internal
 
 /** Scalar expression representing the dot product of two vectors
  */
-- 
2.43.0


From 479e4b8819744599eac29e977cfaac17c2f4502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:32 +0000
Subject: [PATCH 28/36] fix: reject dot product of vectors expressed in
 different frames

---
 .../src/geometry/op/CommonExpressions.hpp     | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/op/CommonExpressions.hpp b/include/wave/geometry/src/geometry/op/CommonExpressions.hpp
index 34ce8f3..e1d97aa 100644
--- a/include/wave/geometry/src/geometry/op/CommonExpressions.hpp
+++ b/include/wave/geometry/src/geometry/op/CommonExpressions.hpp
@@ -59,7 +59,24 @@ struct traits<Normalize<Rhs>> : unary_traits_base<Normalize<Rhs>> {
 
 /** Scalar expression representing the dot product of two vectors
  */
-WAVE_SIMPLE_BINARY_EXPRESSION(Dot, ScalarBase);
+template <typename Lhs, typename Rhs>
+struct Dot : ScalarBase<Dot<Lhs, Rhs>>, internal::binary_storage_for<Dot<Lhs, Rhs>> {
+ private:
+    using Storage = internal::binary_storage_for<Dot<Lhs, Rhs>>;
+
+ public:
+    using Storage::Storage;
+
+    static_assert(std::is_same<LeftFrameOf<Lhs>, LeftFrameOf<Rhs>>(),
+                  "Operands are expressed in different frames");
+};
+
+namespace internal {
+
+template <typename Lhs, typename Rhs>
+struct traits<Dot<Lhs, Rhs>> : binary_traits_base<Dot<Lhs, Rhs>> {};
+
+}  // namespace internal
 
 /** Scalar expression representing arccos
  */
-- 
2.43.0


From 252a18abca56d631028ff67801b9b5c33403b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:30 +0000
Subject: [PATCH 29/36] fix: DiagonalBlockMatrix::segmentWrt gives a segment of
 the diagonal

DiagonalMatrix has no segment(), so using segmentWrt did not compile.
---
 include/wave/geometry/src/core/storage/BlockMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/storage/BlockMatrix.hpp b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
index 1ba0bd5..f27408a 100644
--- a/include/wave/geometry/src/core/storage/BlockMatrix.hpp
+++ b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
@@ -135,7 +135,7 @@ class DiagonalBlockMatrix
     template <int I>
     auto segmentWrt() noexcept {
         static_assert(I < LIndices::size(), "Index out of range");
-        return this->template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
+        return this->diagonal().template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
     }
 };
 
-- 
2.43.0


From fbf762b788cb3093a87e73fb600a017c79452965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:30 +0000
Subject: [PATCH 30/36] fix: MatrixMap: make operator[] const usable

It called the non-const (inserting) operator[] of the index map, so using it did
not compile.
---
 include/wave/geometry/src/util/math/MatrixMap.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/util/math/MatrixMap.hpp b/include/wave/geometry/src/util/math/MatrixMap.hpp
index 2f79ddf..4373290 100644
--- a/include/wave/geometry/src/util/math/MatrixMap.hpp
+++ b/include/wave/geometry/src/util/math/MatrixMap.hpp
@@ -63,9 +63,11 @@ class MatrixMap {
         return this->storage.block(0, v.col_index, storage.rows(), v.col_width);
     }
 
-    /** Returns a const block representing the matrix for the given key */
+    /** Returns a const block representing the matrix for the given key
+     * @throws out_of_range if key is not present
+     */
     auto operator[](const Key &key) const {
-        const auto &v = this->index_map[key];
+        const auto &v = this->index_map.at(key);
         return this->storage.block(0, v.col_index, storage.rows(), v.col_width);
     }
 
-- 
2.43.0


From 921e4ce73c82ce407a866d8e784f8c02bf3e0a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:30 +0000
Subject: [PATCH 31/36] fix: CrossMatrix: subtraction, and products after the
 vector changed

The unary operator- hid the subtraction inherited from the matrix. Products used a
reference to the vector given to crossMatrix(), and so disagreed with the matrix
itself when that vector had changed since (or was a temporary).
---
 .../geometry/src/util/math/CrossMatrix.hpp    | 34 +++++--------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/include/wave/geometry/src/util/math/CrossMatrix.hpp b/include/wave/geometry/src/util/math/CrossMatrix.hpp
index 563a1a8..374d669 100644
--- a/include/wave/geometry/src/util/math/CrossMatrix.hpp
+++ b/include/wave/geometry/src/util/math/CrossMatrix.hpp
@@ -30,10 +30,12 @@ class CrossMatrix : public Eigen::Matrix<typename VecType::Scalar, 3, 3> {
     EIGEN_STATIC_ASSERT_VECTOR_SPECIFIC_SIZE(VecType, 3);
     using MatrixType = Eigen::Matrix<typename VecType::Scalar, 3, 3>;
     using Nested = typename Eigen::internal::ref_selector<CrossMatrix>::type;
-    using VecTypeNested = typename Eigen::internal::ref_selector<VecType>::type;
-
     using Scalar = typename VecType::Scalar;
 
+    // Stored by value, like the matrix elements: products must agree with the matrix even
+    // if the vector given to the constructor has changed since
+    using VecTypeNested = Eigen::Matrix<Scalar, 3, 1>;
+
     EIGEN_STRONG_INLINE
     explicit CrossMatrix(const VecType &vec)
         : MatrixType{(MatrixType{} << Scalar{0},
@@ -48,7 +50,10 @@ class CrossMatrix : public Eigen::Matrix<typename VecType::Scalar, 3, 3> {
                        .finished()},
           vec{vec} {}
 
-    using NegativeReturnType = CrossMatrix<typename VecType::NegativeReturnType>;
+    using NegativeReturnType = CrossMatrix<VecTypeNested>;
+
+    // Keep the base's subtraction, which the unary operator would otherwise hide
+    using MatrixType::operator-;
 
     EIGEN_DEVICE_FUNC
     inline NegativeReturnType operator-() const {
@@ -127,29 +132,6 @@ EIGEN_DEVICE_FUNC inline auto operator*(const wave::CrossMatrix<VecType> &crossM
     return rhs.colwise().cross(-crossMat.vec);
 }
 
-/**
- * Left-multiply a 3*N matrix by a cross-matrix of a negative
- *
- * This operation is equivalent to taking the cross product of each row in the l.h.s.
- * matrix with the original vector
- *
- * This special case cuts down one instruction(?), but more importantly simplifies the
- * expression graph output.
- */
-template <
-  typename VecType,
-  typename OtherType,
-  std::enable_if_t<OtherType::RowsAtCompileTime == 3 && OtherType::ColsAtCompileTime != 1,
-                   int> = 0>
-EIGEN_DEVICE_FUNC inline auto operator*(
-  const wave::CrossMatrix<Eigen::CwiseUnaryOp<
-    Eigen::internal::scalar_opposite_op<typename internal::traits<VecType>::Scalar>,
-    VecType>> &crossMat,
-  const Eigen::MatrixBase<OtherType> &rhs) {
-    return rhs.derived().colwise().cross(crossMat.vec.nestedExpression());
-}
-
-
 /**
  * Right-multiply an N*3 matrix by a cross-matrix
  *
-- 
2.43.0


From 0211fa20f3a7827ab07a6306fb405e5645b1164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 32/36] fix: Random and other nullary expressions as operands

Their prepared type was a non-const reference, which cannot be bound to the const
operands of an expression, so e.g. Random<RotationMd>{} * p could not be evaluated.
---
 include/wave/geometry/src/core/traits/traits_bases.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/traits/traits_bases.hpp b/include/wave/geometry/src/core/traits/traits_bases.hpp
index b3a0518..b0b6a9c 100644
--- a/include/wave/geometry/src/core/traits/traits_bases.hpp
+++ b/include/wave/geometry/src/core/traits/traits_bases.hpp
@@ -42,7 +42,7 @@ struct nullary_traits_base<Tmpl<Wrapped>> : traits<Wrapped> {
  public:
     // A tag for calling evalImpl()
     using Tag = internal::expr<Tmpl, eval_t<Wrapped>>;
-    using PreparedType = Derived &;
+    using PreparedType = const Derived &;
     using EvalType = eval_t_unary<Tag, eval_t<Wrapped>>;
     using UniqueLeaves = has_unique_leaves_leaf<Derived>;
 };
-- 
2.43.0


From a53bfe833a3bd9f20e7e422137ed7484e68b8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 33/36] fix: FromAngleAndAxis with very short or very long axes

The squared norm under- or overflows, and the axis was then used unnormalized or
became zero.
---
 include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
index 3cb2edf..6275852 100644
--- a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
@@ -65,7 +65,7 @@ class RelativeRotation : public RelativeRotationBase<RelativeRotation<ImplType>>
     template <typename AxisDerived>
     RelativeRotation &setFromAngleAndAxis(Scalar angle,
                                           const Eigen::MatrixBase<AxisDerived> &axis) {
-        this->value() = angle * axis.normalized();
+        this->value() = angle * axis.stableNormalized();
         return *this;
     }
 
-- 
2.43.0


From aa68e0749c2f88e3870bdb16c12b8689e40363fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:12 +0000
Subject: [PATCH 34/36] fix: read the rotation and translation parts of
 expressions that evaluate to Identity

---
 include/wave/geometry/src/geometry/leaf/Identity.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/Identity.hpp b/include/wave/geometry/src/geometry/leaf/Identity.hpp
index 122cc70..bde1dea 100644
--- a/include/wave/geometry/src/geometry/leaf/Identity.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Identity.hpp
@@ -30,6 +30,15 @@ class Identity : public internal::base_tmpl_t<Leaf, Identity<Leaf>> {
         return Identity<QuaternionRotation<Eigen::Quaternion<Scalar>>>{};
     }
 
+    /** The same parts, as used when the transform in `.rotation()` evaluates to Identity */
+    auto rotationBlock() const {
+        return this->rotation();
+    }
+
+    auto translationBlock() const {
+        return this->translation();
+    }
+
     // Satisfy the Leaf Expression concept
     auto value() const {
         return eval(this->derived()).value();
-- 
2.43.0


From fa05a17c6c908d592e83686660c856ddd581557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:47 +0000
Subject: [PATCH 35/36] fix: construct a compact transform from an Eigen
 rotation given as its base class

The constructor delegated to itself.
---
 .../wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
index d6f3742..3d32ca9 100644
--- a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
@@ -58,7 +58,7 @@ class CompactRigidTransform
     template <typename RDerived, typename TDerived>
     CompactRigidTransform(const Eigen::RotationBase<RDerived, 3> &q,
                           const Eigen::MatrixBase<TDerived> &t)
-        : CompactRigidTransform{q, t} {
+        : Storage{QuatType{q.derived()}, t.derived()} {
         EIGEN_STATIC_ASSERT_VECTOR_SPECIFIC_SIZE(TDerived, 3);
     };
 
-- 
2.43.0


From 651ca15cdc2a5d221519b28efc19798983ffaa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:50 +0000
Subject: [PATCH 36/36] fix: sums, differences and quotients of scalars with
 plain numbers of another type

The sum and difference were given the type of the left operand, so that
1 - s was truncated to an integer; the derivatives of a quotient were
computed in integer arithmetic, so that that of s / 2 was zero and that of
7u / s had the wrong sign and size.
---
 .../geometry/src/geometry/base/ScalarBase.hpp | 26 ++++++++++++++++---
 .../geometry/src/geometry/base/VectorBase.hpp |  3 ++-
 .../geometry/src/geometry/op/Subtract.hpp     |  2 +-
 .../geometry/src/util/math/IdentityMatrix.hpp |  4 +--
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/wave/geometry/src/geometry/base/ScalarBase.hpp b/include/wave/geometry/src/geometry/base/ScalarBase.hpp
index b57736b..ab8bff9 100644
--- a/include/wave/geometry/src/geometry/base/ScalarBase.hpp
+++ b/include/wave/geometry/src/geometry/base/ScalarBase.hpp
@@ -73,6 +73,23 @@ auto makeScalarResult(Arg &&arg) -> Scalar<Arg> {
     return Scalar<Arg>{std::forward<Arg>(arg)};
 }
 
+/** Implements addition of scalars
+ *
+ * Unlike that of other vectors, the result has the type of the sum: the operands may be
+ * numbers of different types, such as an int and a double.
+ */
+template <typename Lhs, typename Rhs>
+auto evalImpl(expr<Sum>, const ScalarBase<Lhs> &lhs, const ScalarBase<Rhs> &rhs) {
+    return makeScalarResult(lhs.derived().value() + rhs.derived().value());
+}
+
+/** Implements subtraction of scalars
+ */
+template <typename Lhs, typename Rhs>
+auto evalImpl(expr<Subtract>, const ScalarBase<Lhs> &lhs, const ScalarBase<Rhs> &rhs) {
+    return makeScalarResult(lhs.derived().value() - rhs.derived().value());
+}
+
 /** Trivial implementation of scalar * scalar product
  * Defer to the implementation type's arithmetic operators.
  */
@@ -135,7 +152,8 @@ auto leftJacobianImpl(expr<Divide>,
                       const Res &,
                       const ScalarBase<Lhs> &,
                       const ScalarBase<Rhs> &rhs) -> jacobian_t<Res, Lhs> {
-    return jacobian_t<Res, Lhs>{1 / rhs.derived().value()};
+    // The result's scalar: rhs may be an integer, even when the result is not
+    return jacobian_t<Res, Lhs>{scalar_t<Res>{1} / rhs.derived().value()};
 }
 /** Right Jacobian implementation for scalar / scalar division
  * (return 1x1 matrix) */
@@ -144,8 +162,10 @@ auto rightJacobianImpl(expr<Divide>,
                        const Res &,
                        const ScalarBase<Lhs> &lhs,
                        const ScalarBase<Rhs> &rhs) -> jacobian_t<Res, Rhs> {
-    const auto rhs_squared = rhs.derived().value() * rhs.derived().value();
-    return jacobian_t<Res, Rhs>{-lhs.derived().value() / rhs_squared};
+    // The result's scalar: lhs and rhs may be integers, even unsigned ones
+    const auto rhs_value = static_cast<scalar_t<Res>>(rhs.derived().value());
+    const auto rhs_squared = rhs_value * rhs_value;
+    return jacobian_t<Res, Rhs>{-(lhs.derived().value() / rhs_squared)};
 }
 
 }  // namespace internal
diff --git a/include/wave/geometry/src/geometry/base/VectorBase.hpp b/include/wave/geometry/src/geometry/base/VectorBase.hpp
index a7099c3..6005e5e 100644
--- a/include/wave/geometry/src/geometry/base/VectorBase.hpp
+++ b/include/wave/geometry/src/geometry/base/VectorBase.hpp
@@ -252,7 +252,8 @@ auto rightJacobianImpl(expr<ScaleDiv>,
                        const Res &,
                        const VectorBase<Lhs> &lhs,
                        const ScalarBase<Rhs> &rhs) -> jacobian_t<Res, Rhs> {
-    const auto rhs_squared = rhs.derived().value() * rhs.derived().value();
+    const auto rhs_value = static_cast<scalar_t<Res>>(rhs.derived().value());
+    const auto rhs_squared = rhs_value * rhs_value;
     return jacobian_t<Res, Rhs>{-lhs.derived().value() / rhs_squared};
 }
 
diff --git a/include/wave/geometry/src/geometry/op/Subtract.hpp b/include/wave/geometry/src/geometry/op/Subtract.hpp
index e2afcf1..ae96432 100644
--- a/include/wave/geometry/src/geometry/op/Subtract.hpp
+++ b/include/wave/geometry/src/geometry/op/Subtract.hpp
@@ -105,7 +105,7 @@ struct traits<Subtract<Lhs, Rhs>,
 /** Jacobian implementation for all subtractions */
 template <typename Res, typename Lhs, typename Rhs>
 auto leftJacobianImpl(expr<Subtract>, const Res &, const Lhs &, const Rhs &) {
-    return identity_t<Lhs>{};
+    return identity_t<Res>{};
 };
 
 /** Jacobian implementation for all subtractions */
diff --git a/include/wave/geometry/src/util/math/IdentityMatrix.hpp b/include/wave/geometry/src/util/math/IdentityMatrix.hpp
index 6785723..59154b8 100644
--- a/include/wave/geometry/src/util/math/IdentityMatrix.hpp
+++ b/include/wave/geometry/src/util/math/IdentityMatrix.hpp
@@ -77,9 +77,9 @@ EIGEN_DEVICE_FUNC inline const OtherDerived &operator*(
  * Multiply an Identity expression by another Identity expression
  * (Provided to break tie between the other two specializations)
  */
-template <typename Scalar, int N>
+template <typename Scalar, typename RhsScalar, int N>
 EIGEN_DEVICE_FUNC inline const wave::IdentityMatrix<Scalar, N> &operator*(
-  const wave::IdentityMatrix<Scalar, N> &i, const wave::IdentityMatrix<Scalar, N> &) {
+  const wave::IdentityMatrix<Scalar, N> &i, const wave::IdentityMatrix<RhsScalar, N> &) {
     return i;
 }
 
-- 
2.43.0

