From 26f397a70b434a60c976e1b1a6cce39828508361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 01/32] fix: tokenize no longer reads past the end of an empty
 string

---
 scisim/StringUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/StringUtilities.cpp b/scisim/StringUtilities.cpp
index 437e79a..e759afd 100644
--- a/scisim/StringUtilities.cpp
+++ b/scisim/StringUtilities.cpp
@@ -136,7 +136,7 @@ void StringUtilities::tokenize( const std::string& str, const char chr, std::vec
     tokens.emplace_back( str.substr( substring_start ) );
   }
   // Case of final character the delimiter
-  if( str.back() == chr )
+  if( !str.empty() && str.back() == chr )
   {
     tokens.emplace_back( "" );
   }
-- 
2.43.0


From 376623e72937a0f564ca7ed1e2484fef08f53d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 02/32] fix: Rational parsing keeps the sign of values in
 (-1,0) and rejects repeated separators

---
 scisim/Math/Rational.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index dd4e4d2..13c317c 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -207,8 +207,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
   const unsigned period_count{ static_cast<unsigned>( std::count( in_string.cbegin(), in_string.cend(), '.' ) ) };
 
   // Valid input: 1 slash 0 periods, 0 slashes 1 period, 0 slashes 0 periods
-  if( slash_count > 2 ) { return false; }
-  if( period_count > 2 ) { return false; }
+  if( slash_count > 1 ) { return false; }
+  if( period_count > 1 ) { return false; }
   if( slash_count == 1 && period_count != 0 ) { return false; }
   if( period_count == 1 && slash_count != 0 ) { return false; }
 
@@ -235,8 +235,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     // The denominator will be the power of ten needed to shift the decimal place all the way to the right
     T denominator = 1;
     for( std::string::size_type i = 0; i < num_digits; ++i ) { denominator *= 10; }
-    // Compute the denominator
-    const T numerator{ left_int * denominator + ( left_int < 0 ? -1 : 1 ) * right_int };
+    // Compute the numerator. N.B. the sign must come from the string, as -0 and 0 are the same integer.
+    const T numerator{ left_int * denominator + ( left_substring.front() == '-' ? -1 : 1 ) * right_int };
     output.set( numerator, denominator );
   }
   else
-- 
2.43.0


From d7816398c56b7119cdcfc753ef170c8f6f67d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 03/32] fix: Rational parsing rejects a zero denominator

---
 scisim/Math/Rational.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index 13c317c..e18fb54 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -250,6 +250,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     if( !StringUtilities::extractFromString( left_substring, left_int ) ) { return false; }
     T right_int;
     if( !StringUtilities::extractFromString( right_substring, right_int ) ) { return false; }
+    // A zero denominator does not yield a rational number
+    if( right_int == 0 ) { return false; }
     // Left part is the numerator, right part is the denominator
     output.set( left_int, right_int );
   }
-- 
2.43.0


From aa23f859b05182a5584930c42081323bfc89e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 04/32] fix: ball2d snapshots that use the symplectic Euler
 integrator can be loaded

---
 ball2d/Ball2DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DUtilities.cpp b/ball2d/Ball2DUtilities.cpp
index 05b78c2..99de876 100644
--- a/ball2d/Ball2DUtilities.cpp
+++ b/ball2d/Ball2DUtilities.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include "scisim/StringUtilities.h"
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
+#include "ball2d/SymplecticEulerMap.h"
 #include "ball2d/VerletMap.h"
 
 #include <iostream>
@@ -38,6 +39,10 @@ std::unique_ptr<UnconstrainedMap> Ball2DUtilities::deserializeUnconstrainedMap(
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
+  else if( "symplectic_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new SymplecticEulerMap{ input_stream } );
+  }
   else
   {
     std::cerr << "Deserialization not supported for: " << integrator_name << std::endl;
-- 
2.43.0


From e0c2e95bf974d73621cabbcc5106f75bd8f62e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 05/32] fix: ball2d snapshots that contain a penalty force can
 be loaded

---
 ball2d/Ball2DState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DState.cpp b/ball2d/Ball2DState.cpp
index 5af2610..4b3641f 100644
--- a/ball2d/Ball2DState.cpp
+++ b/ball2d/Ball2DState.cpp
@@ -9,6 +9,7 @@
 #include "scisim/Utilities.h"
 #include "scisim/StringUtilities.h"
 #include "Forces/Ball2DGravityForce.h"
+#include "Forces/PenaltyForce.h"
 
 #include "StaticGeometry/StaticDrum.h"
 #include "StaticGeometry/StaticPlane.h"
@@ -303,6 +304,10 @@ void Ball2DState::deserialize( std::istream& input_stream )
       {
         m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new Ball2DGravityForce{ input_stream } };
       }
+      else if( "hertzian_penalty" == force_name )
+      {
+        m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new PenaltyForce{ input_stream } };
+      }
       else
       {
         std::cerr << "Unknown force in deserialize." << std::endl;
-- 
2.43.0


From e2c85853891505bc4e2fd7fa24ea5ce14af0159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:30 +0000
Subject: [PATCH 06/32] fix: rigidbody3d snapshots that use the exponential
 Euler integrator can be loaded

---
 rigidbody3d/RigidBody3DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigidbody3d/RigidBody3DUtilities.cpp b/rigidbody3d/RigidBody3DUtilities.cpp
index b384d0e..13fbe36 100644
--- a/rigidbody3d/RigidBody3DUtilities.cpp
+++ b/rigidbody3d/RigidBody3DUtilities.cpp
@@ -10,6 +10,7 @@
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
 
 #include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
+#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
 #include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
 
 #include <iostream>
@@ -45,6 +46,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody3DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new SplitHamMap );
   }
+  else if( "exponential_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new ExponentialEulerMap );
+  }
   else if( "NULL" == integrator_name )
   {
     unconstrained_map.reset( nullptr );
-- 
2.43.0


From c1f6bda91340ca3fb46d2541a8e580d9950fb500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:34 +0000
Subject: [PATCH 07/32] fix: APGD no longer hangs or returns NaN when the
 initial Lipschitz estimate degenerates

The estimate |A(x0-1)|/|x0-1| is 0 when x0-1 is in the null space of A (a body
squeezed between opposing contacts, started from zero) and NaN when x0 is the
vector of ones; both made the backtracking loop run forever.
---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index e66228b..e4bcc32 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -52,12 +52,15 @@ namespace ProjectionSolvers
 
     VectorXs y0{ x0 };
     scalar theta0{ 1.0 };
-    assert( ( x0.array() != x1.array() ).any() );
     g = x0 - x1;
     mult( A, g, y1 );
     // Initial estimate of the Lipschitz constant
-    scalar Lk{ y1.norm() / ( x0 - x1 ).norm() };
-    assert( Lk != 0.0 );
+    scalar Lk{ y1.norm() / g.norm() };
+    // If the two iterates coincide or their difference is in the null space of A, fall back to an arbitrary positive estimate
+    if( !( Lk > 0.0 ) )
+    {
+      Lk = 1.0;
+    }
     scalar tk{ 1.0 / Lk };
 
     scalar best_residual{ SCALAR_INFINITY };
-- 
2.43.0


From 37745c78f6733875f48cef9f1111bbc822796e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:34 +0000
Subject: [PATCH 08/32] fix: isIdentity no longer accepts matrices with
 structurally missing diagonal entries

---
 scisim/Math/MathUtilities.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scisim/Math/MathUtilities.cpp b/scisim/Math/MathUtilities.cpp
index 4a69725..5c799c1 100644
--- a/scisim/Math/MathUtilities.cpp
+++ b/scisim/Math/MathUtilities.cpp
@@ -48,14 +48,12 @@ bool MathUtilities::isIdentity( const SparseMatrixsc& A, const scalar& tol )
   }
   for( int outer_idx = 0; outer_idx < A.outerSize(); ++outer_idx )
   {
+    scalar diagonal_value{ 0.0 };
     for( SparseMatrixsc::InnerIterator it( A, outer_idx ); it; ++it )
     {
       if( it.row() == it.col() )
       {
-        if( fabs( it.value() - 1.0 ) > tol )
-        {
-          return false;
-        }
+        diagonal_value = it.value();
       }
       else
       {
@@ -65,6 +63,11 @@ bool MathUtilities::isIdentity( const SparseMatrixsc& A, const scalar& tol )
         }
       }
     }
+    // Note that an entry missing from the sparsity pattern is zero
+    if( fabs( diagonal_value - 1.0 ) > tol )
+    {
+      return false;
+    }
   }
   return true;
 }
-- 
2.43.0


From 1a125138c1bee5a46c28127002213cfe9c404d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:38 +0000
Subject: [PATCH 09/32] fix: APGD backtracking terminates when rounding hides
 the sufficient decrease

---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index e4bcc32..e84ba3a 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -47,6 +47,7 @@ namespace ProjectionSolvers
 
     VectorXs g{ b.size() };
     VectorXs y1{ b.size() };
+    VectorXs Ay1{ b.size() };
     // Store some iterate in x1
     VectorXs x1{ VectorXs::Ones( b.size() ) };
 
@@ -102,6 +103,13 @@ namespace ProjectionSolvers
         {
           break;
         }
+        // Near convergence the difference of objectives is dominated by rounding errors and the test above can fail for every Lk,
+        // so also accept the step if the algebraically equivalent bound on the curvature holds
+        mult( A, y1, Ay1 );
+        if( y1.dot( Ay1 ) <= Lk * y1.squaredNorm() )
+        {
+          break;
+        }
         Lk = 2.0 * Lk;
         assert( Lk != 0.0 );
         tk = 1.0 / Lk;
-- 
2.43.0


From a3411fd6602092c01c323cf4759d01455febe1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:46 +0000
Subject: [PATCH 10/32] fix: ball2d contacts through a Lees-Edwards portal use
 the image that collision detection found

---
 ball2d/Ball2DSim.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ball2d/Ball2DSim.cpp b/ball2d/Ball2DSim.cpp
index d14ce47..fb102d2 100644
--- a/ball2d/Ball2DSim.cpp
+++ b/ball2d/Ball2DSim.cpp
@@ -655,10 +655,13 @@ void Ball2DSim::generateTeleportedBallBallCollision( const VectorXs& q0, const V
 {
   assert( q0.size() % 2 == 0 ); assert( q0.size() == q1.size() );
 
-  // Get the center of mass of each body after the teleportation using start of step state
+  // Get the center of mass of each body after the teleportation using start of step state. Collision detection
+  // selected the periodic images using q1, so displace these images, as teleporting q0 could select other images.
   Vector2s x0;
   Vector2s x1;
-  getTeleportedBallBallCenters( q0, teleported_collision, x0, x1 );
+  getTeleportedBallBallCenters( q1, teleported_collision, x0, x1 );
+  x0 += q0.segment<2>( 2 * teleported_collision.bodyIndex0() ) - q1.segment<2>( 2 * teleported_collision.bodyIndex0() );
+  x1 += q0.segment<2>( 2 * teleported_collision.bodyIndex1() ) - q1.segment<2>( 2 * teleported_collision.bodyIndex1() );
   const scalar ri{ r( teleported_collision.bodyIndex0() ) };
   const scalar rj{ r( teleported_collision.bodyIndex1() ) };
 
-- 
2.43.0


From fdce4ae149e0200e23d4196a593006ad00458112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:10 +0000
Subject: [PATCH 11/32] fix: Gauss-Seidel impacts no longer add warm-started
 impulses twice

---
 scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
index a71e630..21e89f1 100644
--- a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
+++ b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
@@ -22,12 +22,13 @@ GaussSeidelOperator::GaussSeidelOperator( std::istream& input_stream )
 void GaussSeidelOperator::flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha )
 {
   // TODO: Check input sizes, etc
-  assert( ( alpha.array() == 0.0 ).all() );
   assert( ( v0.array() == v0F.array() ).all() );
 
   const unsigned ncons{ unsigned( cons.size() ) };
 
   VectorXs v1 = v0;
+  // Impulses accumulate from v0, so discard any initial guess
+  alpha.setZero();
 
   // Iterate until all constraint violations fall below the threshold
   bool collision_happened = true;
-- 
2.43.0


From c31633b7ee9922cfca9d8c3a518af4a1fb204636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:57 +0000
Subject: [PATCH 12/32] fix: rigidbody2d contacts through a Lees-Edwards portal
 use the image that collision detection found

---
 rigidbody2d/RigidBody2DSim.cpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/rigidbody2d/RigidBody2DSim.cpp b/rigidbody2d/RigidBody2DSim.cpp
index 56466e2..dc82b3d 100644
--- a/rigidbody2d/RigidBody2DSim.cpp
+++ b/rigidbody2d/RigidBody2DSim.cpp
@@ -485,26 +485,15 @@ void RigidBody2DSim::dispatchTeleportedNarrowPhaseCollision( const TeleportedCol
     std::exit( EXIT_FAILURE );
   }
 
-  // Get the center of mass of each body after the teleportation for the start and end of the step
-  Vector2s x0_t0;
-  Vector2s x1_t0;
-  getTeleportedCollisionCenters( q0, teleported_collision, x0_t0, x1_t0 );
-  const Vector2s delta0_t0{ x0_t0 - q0.segment<2>( 3 * teleported_collision.bodyIndex0() ) };
-  const Vector2s delta1_t0{ x1_t0 - q0.segment<2>( 3 * teleported_collision.bodyIndex1() ) };
-
+  // Get the center of mass of each body after the teleportation for the start and end of the step. Collision detection
+  // selected the periodic images using q1, so displace these images, as teleporting q0 could select other images.
   Vector2s x0_t1;
   Vector2s x1_t1;
   getTeleportedCollisionCenters( q1, teleported_collision, x0_t1, x1_t1 );
-  // TODO: If Lees-Edwards conditions are updated to have different locations at start and end of step
-  //       (instead of same at each, as now) these tests will no longer hold
-  #ifndef NDEBUG
-  {
-    const Vector2s delta0_t1{ x0_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex0() ) };
-    assert( ( delta0_t0 - delta0_t1 ).lpNorm<Eigen::Infinity>() <= 1.0e-6 );
-    const Vector2s delta1_t1{ x1_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex1() ) };
-    assert( ( delta1_t0 - delta1_t1 ).lpNorm<Eigen::Infinity>() <= 1.0e-6 );
-  }
-  #endif
+  const Vector2s delta0_t0{ x0_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex0() ) };
+  const Vector2s delta1_t0{ x1_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex1() ) };
+  const Vector2s x0_t0{ q0.segment<2>( 3 * teleported_collision.bodyIndex0() ) + delta0_t0 };
+  const Vector2s x1_t0{ q0.segment<2>( 3 * teleported_collision.bodyIndex1() ) + delta1_t0 };
 
   // At least one of the bodies must have been teleported
   assert( teleported_collision.portalIndex0() != std::numeric_limits<unsigned>::max() || teleported_collision.portalIndex1() != std::numeric_limits<unsigned>::max() );
-- 
2.43.0


From b8deeb01bce72b64a2fcb020f9dc0005fd469271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:57 +0000
Subject: [PATCH 13/32] fix: rigidbody2d contacts through portals report their
 contact normal

---
 rigidbody2d/TeleportedCircleCircleConstraint.cpp | 5 +++++
 rigidbody2d/TeleportedCircleCircleConstraint.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/rigidbody2d/TeleportedCircleCircleConstraint.cpp b/rigidbody2d/TeleportedCircleCircleConstraint.cpp
index 10acc0f..9dafbfa 100644
--- a/rigidbody2d/TeleportedCircleCircleConstraint.cpp
+++ b/rigidbody2d/TeleportedCircleCircleConstraint.cpp
@@ -157,6 +157,11 @@ void TeleportedCircleCircleConstraint::getWorldSpaceContactPoint( const VectorXs
   contact_point = q.segment<2>( 3 * m_idx0 ) + m_r0;
 }
 
+void TeleportedCircleCircleConstraint::getWorldSpaceContactNormal( const VectorXs& q, VectorXs& contact_normal ) const
+{
+  contact_normal = m_n;
+}
+
 bool TeleportedCircleCircleConstraint::operator==( const TeleportedCircleCircleConstraint& other ) const
 {
   assert( other.m_idx0 < other.m_idx1 );
diff --git a/rigidbody2d/TeleportedCircleCircleConstraint.h b/rigidbody2d/TeleportedCircleCircleConstraint.h
index 9df9f51..b23a50a 100644
--- a/rigidbody2d/TeleportedCircleCircleConstraint.h
+++ b/rigidbody2d/TeleportedCircleCircleConstraint.h
@@ -32,6 +32,7 @@ public:
   // For binary force output
   // TODO: We might want to change the output format to accept two points to account for portals
   virtual void getWorldSpaceContactPoint( const VectorXs& q, VectorXs& contact_point ) const override;
+  virtual void getWorldSpaceContactNormal( const VectorXs& q, VectorXs& contact_normal ) const override;
 
   bool operator==( const TeleportedCircleCircleConstraint& other ) const;
 
-- 
2.43.0


From aff355016c372981edd602fa329f49f8520cb3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:35 +0000
Subject: [PATCH 14/32] fix: ignore the cross products of parallel edges in the
 box-box separating axis test

---
 rigidbody3d/Constraints/BoxBoxUtilities.cpp | 29 ++++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/rigidbody3d/Constraints/BoxBoxUtilities.cpp b/rigidbody3d/Constraints/BoxBoxUtilities.cpp
index ac4e569..d3612c3 100644
--- a/rigidbody3d/Constraints/BoxBoxUtilities.cpp
+++ b/rigidbody3d/Constraints/BoxBoxUtilities.cpp
@@ -126,25 +126,28 @@ static bool axisAlignedSeperatingTest( const scalar& projected_center_dist, cons
 
 static bool edgeEdgeSeparatingTest( const scalar& projected_center_dist, const scalar& projected_aabb_widths, const scalar& n1, const scalar& n2, const scalar& n3, const int crnt_code, scalar& smallest_pen_depth, Vector3s& normalC, bool& invert_normal, int& code )
 {
+  const scalar l{ sqrt( n1 * n1 + n2 * n2 + n3 * n3 ) };
+  // If the edges are parallel their cross product is only rounding error. In this case the face
+  // axes decide, and the test along this meaningless direction must not report a separation.
+  if( l < 1.0e-6 )
+  {
+    return false;
+  }
   scalar s2{ fabs(projected_center_dist) - projected_aabb_widths };
   if( s2 > 0 )
   {
     return true;
   }
-  const scalar l{ sqrt( n1 * n1 + n2 * n2 + n3 * n3 ) };
-  if( l > 0 )
+  s2 /= l;
+  assert( smallest_pen_depth <= 0.0 );
+  const scalar fudge_factor{ 1.05 }; // <- TODO: Biasing towards faces, I think?
+  if( s2 * fudge_factor > smallest_pen_depth )
   {
-    s2 /= l;
-    assert( smallest_pen_depth <= 0.0 );
-    const scalar fudge_factor{ 1.05 }; // <- TODO: Biasing towards faces, I think?
-    if( s2 * fudge_factor > smallest_pen_depth )
-    {
-      smallest_pen_depth = s2;
-      normalC << n1, n2, n3;
-      normalC /= l;
-      invert_normal = projected_center_dist < 0;
-      code = crnt_code;
-    }
+    smallest_pen_depth = s2;
+    normalC << n1, n2, n3;
+    normalC /= l;
+    invert_normal = projected_center_dist < 0;
+    code = crnt_code;
   }
   return false;
 }
-- 
2.43.0


From 90773574eea772fec690d7f5c19de4ab64ea4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:35 +0000
Subject: [PATCH 15/32] fix: use the squared lengths of the staple's cylinders
 in its moments of inertia

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index fab5f7e..84cee1c 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -39,21 +39,21 @@ void RigidBodyStaple::computeMassAndInertia( const scalar& density, scalar& M, V
     I.x() += 2.0 * My * ( CMy.y() * CMy.y() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
     I.x() += Mx * ( m_r * m_r ) / 2.0;
-    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
 
     // Contributions from translating the cylinders
     I.y() = Mx * ( CMx.x() * CMx.x() + CMx.z() * CMx.z() );
     I.y() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
-    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
+    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
     I.y() += My * ( m_r * m_r );
 
     // Contributions from translating the cylinders
     I.z() = Mx * ( CMx.x() * CMx.x() + CMx.y() * CMx.y() );
     I.z() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.y() * CMy.y() );
     // Contributions from cylinders' centers of mass
-    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
-    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
+    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
   }
 
   R.setIdentity();
-- 
2.43.0


From b908280932508f1100a0897481aa15b9caa6c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:35 +0000
Subject: [PATCH 16/32] fix: include the staple's radius in its bounding box

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index 84cee1c..1a2338f 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -108,6 +108,9 @@ void RigidBodyStaple::computeAABB( const Vector3s& cm, const Matrix33sr& R, Arra
     min = min.min( transformed_vertex );
     max = max.max( transformed_vertex );
   }
+  // Account for the thickness of the staple
+  min -= m_r;
+  max += m_r;
   assert( ( min < max ).all() );
 }
 
-- 
2.43.0


From 741d53189dc35865f1836f4f51992b372ca17ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:53 +0000
Subject: [PATCH 17/32] fix: keep points on the upper boundary of a mesh's
 distance grid inside the last cell

---
 rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
index 3cba189..e8fc7f2 100644
--- a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
+++ b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
@@ -288,7 +288,9 @@ bool RigidBodyTriangleMesh::detectCollision( const Vector3s& x, Vector3s& n ) co
   assert( ( x.array() <= m_grid_end.array() ).all() );
 
   // Determine which cell this point lies within
-  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>() };
+  Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>() };
+  // Points on the upper boundary of the grid belong to the last cell
+  indices = indices.min( m_grid_dimensions.array() - 2 );
   assert( ( indices + 1 < m_grid_dimensions.array() ).all() );
 
   // Compute the 'barycentric' coordinates of the point in the cell
-- 
2.43.0


From 7e4a08d1cfcd07e85fff3327a460a5c53829a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:59 +0000
Subject: [PATCH 18/32] fix: compute the normal of a mesh-cylinder contact at
 the contact point

---
 rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp b/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp
index 519ff4f..77a164c 100644
--- a/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp
+++ b/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp
@@ -83,9 +83,10 @@ std::string StaticCylinderBodyConstraint::name() const
 
 Vector3s StaticCylinderBodyConstraint::computeN( const VectorXs& q ) const
 {
-  const Vector3s x_body{ q.segment<3>( 3 * m_idx_body ) };
+  // The normal points from the contact point to the axis of the cylinder
+  const Vector3s x_contact{ q.segment<3>( 3 * m_idx_body ) + m_r };
   const Vector3s axis{ m_cyl.axis() };
-  Vector3s n{ - ( x_body - m_cyl.x() - axis.dot( x_body - m_cyl.x() ) * axis ) };
+  Vector3s n{ - ( x_contact - m_cyl.x() - axis.dot( x_contact - m_cyl.x() ) * axis ) };
   assert( n.norm() > 0.0 );
   return n / n.norm();
 }
-- 
2.43.0


From 55e4dc33408fadd36ec093a5f0b2e37c5653b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:09 +0000
Subject: [PATCH 19/32] fix: keep the line breaks of scene files

The scene parsers joined the lines of a file without any separator, so an
element whose attributes are spread over several lines was rejected and a
value broken across lines was silently merged.
---
 ball2dutils/Ball2DSceneParser.cpp           | 1 +
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 1 +
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 52dfa8c..f3c3d55 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -66,6 +66,7 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index 0082c68..5f04c8e 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -62,6 +62,7 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 2b013f9..0b4218c 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -68,6 +68,7 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
-- 
2.43.0


From 7f924e682bf2b3e8e6082171d63e16257cc87d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:09 +0000
Subject: [PATCH 20/32] fix: reject balls, drums and gravity with malformed
 numbers

The results of the conversions were ignored, so a scene with, for example, a
non-numeric radius loaded successfully with a made up value.
---
 ball2dutils/Ball2DSceneParser.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index f3c3d55..aac6f24 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -248,40 +248,40 @@ static bool loadBalls( const rapidxml::xml_node<>& node, std::vector<Ball2D>& ba
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the ball's velocity
     Vector2s v;
 
     const rapidxml::xml_attribute<>* const vx_attrib{ nd->first_attribute( "vx" ) };
     if( !vx_attrib ) { return false; }
-    StringUtilities::extractFromString( vx_attrib->value(), v.x() );
+    if( !StringUtilities::extractFromString( vx_attrib->value(), v.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const vy_attrib{ nd->first_attribute( "vy" ) };
     if( !vy_attrib ) { return false; }
-    StringUtilities::extractFromString( vy_attrib->value(), v.y() );
+    if( !StringUtilities::extractFromString( vy_attrib->value(), v.y() ) ) { return false; }
 
     // Attempt to parse the ball's mass
     scalar m;
     const rapidxml::xml_attribute<>* const m_attrib{ nd->first_attribute( "m" ) };
     if( !m_attrib ) { return false; }
-    StringUtilities::extractFromString( m_attrib->value(), m );
+    if( !StringUtilities::extractFromString( m_attrib->value(), m ) ) { return false; }
 
     // Attempt to parse the ball's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) ) { return false; }
 
     // Attempt to parse whether the ball is fixed
     bool fixed;
     const rapidxml::xml_attribute<>* const fixed_attrib{ nd->first_attribute( "fixed" ) };
     if( !fixed_attrib ) { return false; }
-    StringUtilities::extractFromString( fixed_attrib->value(), fixed );
+    if( !StringUtilities::extractFromString( fixed_attrib->value(), fixed ) ) { return false; }
 
     balls.emplace_back( x, v, m, r, fixed );
   }
@@ -298,17 +298,17 @@ static bool loadStaticDrums( const rapidxml::xml_node<>& node, std::vector<Stati
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the drums's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) ) { return false; }
 
     drums.emplace_back( x, r );
   }
@@ -1432,11 +1432,11 @@ static bool loadGravityForce( const rapidxml::xml_node<>& node, std::vector<std:
 
     const rapidxml::xml_attribute<>* x_attrib{ nd->first_attribute( "fx" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), f.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), f.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* y_attrib{ nd->first_attribute( "fy" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), f.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), f.y() ) ) { return false; }
 
     forces.emplace_back( new Ball2DGravityForce{ f } );
   }
-- 
2.43.0


From 88782bab004b79dda8c3ee74ad2d453759a0aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:09 +0000
Subject: [PATCH 21/32] fix: reject renderers of the plane or cylinder one past
 the last

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 0b4218c..6032910 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -815,7 +815,7 @@ static bool loadStaticPlaneRenderers( const rapidxml::xml_node<>& node, const st
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > planes.size() )
+      if( idx >= planes.size() )
       {
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Invalid plane index specified." << std::endl;
         return false;
@@ -865,7 +865,7 @@ static bool loadStaticCylinderRenderers( const rapidxml::xml_node<>& node, const
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > cylinders.size() )
+      if( idx >= cylinders.size() )
       {
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Invalid cylinder index specified." << std::endl;
         return false;
-- 
2.43.0


From cb7ac8ae66f086e32a72a072a75268d85bfb922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:09 +0000
Subject: [PATCH 22/32] fix: refuse to simulate a 2D rigid body scene without
 an integrator

The time step is 0 in that case, so the end time was never reached.
---
 rigidbody2dcli/rigidbody2d_cli.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 4c713f8..5ef0740 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -661,6 +661,13 @@ int main( int argc, char** argv )
     return EXIT_FAILURE;
   }
 
+  // Without an integrator there is no timestep to advance the simulation with
+  if( !g_dt.positive() )
+  {
+    std::cerr << "Scene file does not specify an integrator. Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   // Override the default end time with the requested one, if provided
   if( end_time_override > 0.0 )
   {
-- 
2.43.0


From 0fab00fc8672cf5d45ad883dac0c8801c578e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:43 +0000
Subject: [PATCH 23/32] fix: reject impact operators with a coefficient of
 restitution outside [0,1]

The friction solvers already reject such values, and the command line programs
assume the range when they load a snapshot.
---
 ball2dutils/Ball2DSceneParser.cpp           | 6 ++++++
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 6 ++++++
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index aac6f24..bb8ef9c 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -910,6 +910,12 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
       std::cerr << "Could not load CoR value" << std::endl;
       return false;
     }
+
+    if( CoR < 0.0 || CoR > 1.0 )
+    {
+      std::cerr << "Could not load CoR value, value of CoR must be a scalar between 0 and 1" << std::endl;
+      return false;
+    }
   }
 
   // Attempt to load the impulse cache option
diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index 5f04c8e..b41f4b6 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -805,6 +805,12 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
       std::cerr << "Could not load CoR value" << std::endl;
       return false;
     }
+
+    if( CoR < 0.0 || CoR > 1.0 )
+    {
+      std::cerr << "Could not load CoR value, value of CoR must be a scalar between 0 and 1" << std::endl;
+      return false;
+    }
   }
 
   // Attempt to load the impulse cache option
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 6032910..9d4b70b 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -1454,6 +1454,12 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
     return false;
   }
 
+  if( CoR < 0.0 || CoR > 1.0 )
+  {
+    std::cerr << "Could not load CoR value, value of CoR must be a scalar between 0 and 1" << std::endl;
+    return false;
+  }
+
   return loadImpactOperatorNoCoR( node, impact_operator );
 }
 
-- 
2.43.0


From 4ce408fc610bf8b3f412e9774c724baf8b5a3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:43 +0000
Subject: [PATCH 24/32] fix: report snapshots that could not be written

A full disk left a truncated snapshot behind while the run went on and reported
success.
---
 ball2dcli/ball2d_cli.cpp           | 9 +++++++++
 rigidbody2dcli/rigidbody2d_cli.cpp | 9 +++++++++
 rigidbody3dcli/rigidbody3d_cli.cpp | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 5d0ea40..64f5d0d 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -247,6 +247,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Do not report success for a snapshot that did not make it to the disk
+  serial_stream.close();
+  if( serial_stream.fail() )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 5ef0740..1b1a08c 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -238,6 +238,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Do not report success for a snapshot that did not make it to the disk
+  serial_stream.close();
+  if( serial_stream.fail() )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 602b8f3..2d3d26f 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -252,6 +252,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Do not report success for a snapshot that did not make it to the disk
+  serial_stream.close();
+  if( serial_stream.fail() )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From bb9fb71ce4e0c492be2fd5e5119dc3d2a0606319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:51 +0000
Subject: [PATCH 25/32] fix: reject staples as thick as they are wide or long

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 9d4b70b..679b943 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -236,7 +236,7 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
           std::cerr << "Failed to load the D attribute for staple geometry, must provide a positive scalar" << std::endl;
           return false;
         }
-        if( D > w || D > l )
+        if( D >= w || D >= l )
         {
           std::cerr << "Failed to load the D attribute for staple geometry, value must be less than w and l" << std::endl;
           return false;
-- 
2.43.0


From 2ff4c535c3a96547d6d1910bfdbc42d661218375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:38 +0000
Subject: [PATCH 26/32] fix: long integers written to HDF5 files can be read
 back

---
 scisim/HDF5File.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scisim/HDF5File.h b/scisim/HDF5File.h
index 3e930dd..ad5deac 100644
--- a/scisim/HDF5File.h
+++ b/scisim/HDF5File.h
@@ -432,6 +432,10 @@ private:
     {
       return H5T_NATIVE_UINT;
     }
+    else if( H5Tequal( dtype_id, H5T_NATIVE_LONG ) > 0 )
+    {
+      return H5T_NATIVE_LONG;
+    }
     else return -1;
   }
 
-- 
2.43.0


From 99eae8332cc3da24f0d7760b0504c043c73d060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:36 +0000
Subject: [PATCH 27/32] fix: an unset lower simulation boundary does not
 exclude anything

---
 rigidbody3d/RigidBody3DState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody3d/RigidBody3DState.cpp b/rigidbody3d/RigidBody3DState.cpp
index 17dfd0a..e9aa233 100644
--- a/rigidbody3d/RigidBody3DState.cpp
+++ b/rigidbody3d/RigidBody3DState.cpp
@@ -35,7 +35,7 @@ RigidBody3DState::RigidBody3DState()
 , m_static_cylinders()
 , m_planar_portals()
 , m_boundary_behavior( SimBoundaryBehavior::NONE )
-, m_boundary_min( Vector3s::Constant( std::numeric_limits<scalar>::min() ) )
+, m_boundary_min( Vector3s::Constant( std::numeric_limits<scalar>::lowest() ) )
 , m_boundary_max( Vector3s::Constant( std::numeric_limits<scalar>::max() ) )
 {}
 
-- 
2.43.0


From 87407563448057502fc6c353704328efb538d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:36 +0000
Subject: [PATCH 28/32] fix: extracting no columns of a sparse matrix does not
 read out of bounds

---
 scisim/Math/MathUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/Math/MathUtilities.cpp b/scisim/Math/MathUtilities.cpp
index 5c799c1..3b70988 100644
--- a/scisim/Math/MathUtilities.cpp
+++ b/scisim/Math/MathUtilities.cpp
@@ -122,6 +122,11 @@ void MathUtilities::extractColumns( const SparseMatrixsc& A0, const std::vector<
 
   // Resize A1 and reserve space
   A1.resize( A0.rows(), ncols_to_extract );
+  // Eigen reads past the end of an empty matrix' column starts if asked to compress it
+  if( ncols_to_extract == 0 )
+  {
+    return;
+  }
   A1.reserve( column_nonzeros );
   // Copy the data over, column by column
   for( unsigned cur_col = 0; cur_col < ncols_to_extract; ++cur_col )
-- 
2.43.0


From c6fc86eddbbb676470add2c5cf8d3c50d8c55844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:20 +0000
Subject: [PATCH 29/32] fix: reject script indices equal to the number of
 objects

The index checks of the Python interface used > where the message (and the
access that follows) require <, so an index equal to the number of planes,
cylinders, forces or collisions read or wrote past the end.
---
 ball2d/PythonScripting.cpp      | 10 +++++-----
 rigidbody2d/PythonScripting.cpp | 10 +++++-----
 rigidbody3d/PythonScripting.cpp | 16 ++++++++--------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ball2d/PythonScripting.cpp b/ball2d/PythonScripting.cpp
index 6a206a1..4fb98d6 100644
--- a/ball2d/PythonScripting.cpp
+++ b/ball2d/PythonScripting.cpp
@@ -420,7 +420,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -444,7 +444,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -464,7 +464,7 @@ static PyObject* deleteStaticPlane( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in deleteStaticPlane, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -513,7 +513,7 @@ static PyObject* collisionType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -532,7 +532,7 @@ static PyObject* collisionIndices( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
diff --git a/rigidbody2d/PythonScripting.cpp b/rigidbody2d/PythonScripting.cpp
index f304934..119288e 100644
--- a/rigidbody2d/PythonScripting.cpp
+++ b/rigidbody2d/PythonScripting.cpp
@@ -369,7 +369,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -393,7 +393,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -417,7 +417,7 @@ static PyObject* setStaticPlaneNormal( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneNormal, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -440,7 +440,7 @@ static PyObject* setStaticPlaneAngularVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneAngularVelocity, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -460,7 +460,7 @@ static PyObject* deleteStaticPlane( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in deleteStaticPlane, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
diff --git a/rigidbody3d/PythonScripting.cpp b/rigidbody3d/PythonScripting.cpp
index 504c405..297a209 100644
--- a/rigidbody3d/PythonScripting.cpp
+++ b/rigidbody3d/PythonScripting.cpp
@@ -396,7 +396,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( plane_idx > s_sim_state->staticPlanes().size() )
+  if( plane_idx >= s_sim_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_sim_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -419,7 +419,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( plane_idx > s_sim_state->staticPlanes().size() )
+  if( plane_idx >= s_sim_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_sim_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -450,7 +450,7 @@ static PyObject* setStaticCylinderOrientation( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( cylinder_idx > s_sim_state->staticCylinders().size() )
+  if( cylinder_idx >= s_sim_state->staticCylinders().size() )
   {
     std::cerr << "Invalid cylinder_idx parameter of " << cylinder_idx << " in setStaticCylinderOrientation, cylinder_idx must be less than " << s_sim_state->staticCylinders().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -478,7 +478,7 @@ static PyObject* setStaticCylinderAngularVelocity( PyObject* self, PyObject* arg
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( cylinder_idx > s_sim_state->staticCylinders().size() )
+  if( cylinder_idx >= s_sim_state->staticCylinders().size() )
   {
     std::cerr << "Invalid cylinder_idx parameter of " << cylinder_idx << " in setStaticCylinderAngularVelocity, cylinder_idx must be less than " << s_sim_state->staticCylinders().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -527,7 +527,7 @@ static PyObject* collisionType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -546,7 +546,7 @@ static PyObject* collisionIndices( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionIndices, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -579,7 +579,7 @@ static PyObject* forceType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( force_idx > s_sim_state->forces().size() )
+  if( force_idx >= s_sim_state->forces().size() )
   {
     std::cerr << "Invalid force_idx parameter of " << force_idx << " for forceType, force_idx must be less than " << s_sim_state->forces().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -601,7 +601,7 @@ static PyObject* setGravityForce( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( force_idx > s_sim_state->forces().size() )
+  if( force_idx >= s_sim_state->forces().size() )
   {
     std::cerr << "Invalid force_idx parameter of " << force_idx << " in setGravityForce, force_idx must be less than " << s_sim_state->forces().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
-- 
2.43.0


From 46f036de9de2cddae576cd977fad243c1653124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:20 +0000
Subject: [PATCH 30/32] fix: do not release Python objects after the
 interpreter has been shut down

The command line programs keep their callbacks in a global, which is destroyed
after the exit handler that calls Py_Finalize.
---
 scisim/PythonObject.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scisim/PythonObject.cpp b/scisim/PythonObject.cpp
index 760560d..986a619 100644
--- a/scisim/PythonObject.cpp
+++ b/scisim/PythonObject.cpp
@@ -19,7 +19,11 @@ PythonObject::PythonObject( PythonObject&& other )
 
 PythonObject::~PythonObject()
 {
-  Py_XDECREF( m_object );
+  // Objects with static storage duration outlive the interpreter
+  if( Py_IsInitialized() )
+  {
+    Py_XDECREF( m_object );
+  }
 }
 
 PythonObject& PythonObject::operator=( PythonObject&& other )
-- 
2.43.0


From 44de99667c6bd908c896b2adc8919c92cd7fb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:36 +0000
Subject: [PATCH 31/32] fix: honour the layout of arrays passed to
 delete_bodies and delete_geometry

The data of strided, reversed or byte-swapped arrays was read as if it were
contiguous and in native order, deleting other bodies than the ones named;
arguments that are not arrays were reinterpreted as arrays.
---
 rigidbody2d/PythonScripting.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/rigidbody2d/PythonScripting.cpp b/rigidbody2d/PythonScripting.cpp
index 119288e..4f31ca3 100644
--- a/rigidbody2d/PythonScripting.cpp
+++ b/rigidbody2d/PythonScripting.cpp
@@ -539,7 +539,7 @@ static PyObject* addBody( PyObject* self, PyObject* args )
 static PyObject* deleteBodies( PyObject* self, PyObject* args )
 {
   PyArrayObject* body_list;
-  if( !PyArg_ParseTuple( args, "O", &body_list ) )
+  if( !PyArg_ParseTuple( args, "O!", &PyArray_Type, &body_list ) )
   {
     PyErr_Print();
     std::cerr << "Failed to read parameters for delete_bodies, parameters are: 32 bit unsigned NumPy array. Exiting." << std::endl;
@@ -557,7 +557,17 @@ static PyObject* deleteBodies( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
 
-  const Eigen::Map<const VectorXu> bodies_to_delete( static_cast<unsigned*>( PyArray_DATA( body_list ) ), unsigned( PyArray_DIM( body_list, 0 ) ) );
+  // The caller's array can be strided, misaligned, or byte-swapped
+  const PythonObject bodies_values{ PyArray_FROM_OTF( (PyObject*)( body_list ), NPY_UINT32, NPY_ARRAY_IN_ARRAY ) };
+  if( bodies_values == nullptr )
+  {
+    PyErr_Print();
+    std::cerr << "Error, failed to read bodies to delete list." << std::endl;
+    std::exit( EXIT_FAILURE );
+  }
+  PyArrayObject* const bodies_array{ (PyArrayObject*)( (PyObject*)( bodies_values ) ) };
+
+  const Eigen::Map<const VectorXu> bodies_to_delete( static_cast<unsigned*>( PyArray_DATA( bodies_array ) ), unsigned( PyArray_DIM( bodies_array, 0 ) ) );
 
   const unsigned num_total_bodies{ s_state->nbodies() };
   for( unsigned bdy_idx = 0; bdy_idx < bodies_to_delete.size(); ++bdy_idx )
@@ -577,7 +587,7 @@ static PyObject* deleteBodies( PyObject* self, PyObject* args )
 static PyObject* deleteGeometry( PyObject* self, PyObject* args )
 {
   PyArrayObject* geo_list;
-  if( !PyArg_ParseTuple( args, "O", &geo_list ) )
+  if( !PyArg_ParseTuple( args, "O!", &PyArray_Type, &geo_list ) )
   {
     PyErr_Print();
     std::cerr << "Failed to read parameters for delete_geometry, parameters are: 32 bit unsigned NumPy array. Exiting." << std::endl;
@@ -595,7 +605,17 @@ static PyObject* deleteGeometry( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
 
-  const Eigen::Map<const VectorXu> geometry_to_delete( static_cast<unsigned*>( PyArray_DATA( geo_list ) ), unsigned( PyArray_DIM( geo_list, 0 ) ) );
+  // The caller's array can be strided, misaligned, or byte-swapped
+  const PythonObject geometry_values{ PyArray_FROM_OTF( (PyObject*)( geo_list ), NPY_UINT32, NPY_ARRAY_IN_ARRAY ) };
+  if( geometry_values == nullptr )
+  {
+    PyErr_Print();
+    std::cerr << "Error, failed to read geometry to delete list." << std::endl;
+    std::exit( EXIT_FAILURE );
+  }
+  PyArrayObject* const geometry_array{ (PyArrayObject*)( (PyObject*)( geometry_values ) ) };
+
+  const Eigen::Map<const VectorXu> geometry_to_delete( static_cast<unsigned*>( PyArray_DATA( geometry_array ) ), unsigned( PyArray_DIM( geometry_array, 0 ) ) );
 
   const unsigned num_geo{ static_cast<unsigned>( s_state->geometry().size() ) };
   for( unsigned geo_idx = 0; geo_idx < geometry_to_delete.size(); ++geo_idx )
-- 
2.43.0


From 819f2cb7edab25542f3550bb83e865033e885c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 32/32] fix: read force files of steps without collisions in
 the post-processing tools

---
 post_processing/rb3d_processing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/post_processing/rb3d_processing.py b/post_processing/rb3d_processing.py
index dbbb99d..6e9661f 100644
--- a/post_processing/rb3d_processing.py
+++ b/post_processing/rb3d_processing.py
@@ -112,19 +112,20 @@ class CollisionState(object):
         try:
             self.count = h5_file['collision_count'][0, 0]
             assert self.count >= 0
-            self.impulses = h5_file['collision_forces'][:]
+            # The per-collision data is only present if there are collisions
+            self.impulses = h5_file['collision_forces'][:] if self.count > 0 else numpy.empty([3, 0])
             assert isinstance(self.impulses, numpy.ndarray)
             assert self.impulses.ndim == 2
             assert self.impulses.shape == (3, self.count)
-            self.indices = h5_file['collision_indices'][:]
+            self.indices = h5_file['collision_indices'][:] if self.count > 0 else numpy.empty([2, 0], dtype=int)
             assert isinstance(self.indices, numpy.ndarray)
             assert self.indices.ndim == 2
             assert self.indices.shape == (2, self.count)
-            self.normals = h5_file['collision_normals'][:]
+            self.normals = h5_file['collision_normals'][:] if self.count > 0 else numpy.empty([3, 0])
             assert isinstance(self.normals, numpy.ndarray)
             assert self.normals.ndim == 2
             assert self.normals.shape == (3, self.count)
-            self.points = h5_file['collision_points'][:]
+            self.points = h5_file['collision_points'][:] if self.count > 0 else numpy.empty([3, 0])
             assert isinstance(self.points, numpy.ndarray)
             assert self.points.ndim == 2
             assert self.points.shape == (3, self.count)
-- 
2.43.0

