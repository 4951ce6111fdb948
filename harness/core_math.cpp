// C28 linear algebra helpers, C29 projected QP solver, C05 swept ball test, C03 core binary round trips
#include "pbt.h"
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "scisim/Math/MathDefines.h"
#include "scisim/Math/MathUtilities.h"
#include "scisim/Utilities.h"
#include "scisim/StringUtilities.h"
#include "scisim/Math/Rational.h"
#include "scisim/Math/QPSolvers/ProjectionSolvers.h"
#include "scisim/Math/QPSolvers/SparseMatrixVectorOperators.h"
#include "scisim/ConstrainedMaps/ImpactMaps/NonNegativeProjection.h"
#include "scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/FischerBurmeisterImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/ConstrainedMapUtilities.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.h"
#include "scisim/CollisionDetection/CollisionDetectionUtilities.h"
#include "bits.h"

using namespace pbt;
using MU_t = MatrixXXsc;

static MatrixXXsc denseOf( Gen& g, int r, int cc, double fill )
{
  MatrixXXsc A = MatrixXXsc::Zero( r, cc );
  for( int j = 0; j < cc; ++j ) for( int i = 0; i < r; ++i ) if( g.b( fill ) ) { A( i, j ) = g.pick( { g.s( 3.0 ), double( g.i( -3, 3 ) ) } ); }
  return A;
}
static SparseMatrixsc sparseOf( Gen& g, const MatrixXXsc& A, double explicit_zero )
{
  std::vector<Eigen::Triplet<scalar>> t;
  for( int j = 0; j < A.cols(); ++j ) for( int i = 0; i < A.rows(); ++i ) if( A( i, j ) != 0.0 || g.b( explicit_zero ) ) t.emplace_back( i, j, A( i, j ) );
  SparseMatrixsc S( A.rows(), A.cols() );
  S.setFromTriplets( t.begin(), t.end() );
  S.makeCompressed();
  return S;
}

SUBCHECK( "C28", "sparse_predicates_and_extraction", "random sparse/dense matrices, near-identity and near-symmetric ones; non-trivial with at least 2 columns", 120000, 1200000 )
{
  const int r = g.i( 0, 6 ), cc = g.b( 0.6 ) ? r : g.i( 0, 6 );
  MatrixXXsc A = denseOf( g, r, cc, g.pick( { 0.0, 0.3, 0.7, 1.0 } ) );
  const int kind = g.w( { 3, 3, 3 } );
  const double tol = g.pick( { 0.0, 1e-9, 1e-3 } );
  if( kind == 1 && r == cc ) { A = MatrixXXsc::Identity( r, r ); }
  if( kind == 2 && r == cc ) { A = ( 0.5 * ( A + A.transpose() ) ).eval(); }
  if( kind != 0 && r == cc && r > 0 && g.b( 0.6 ) )
  {
    const int i = g.i( 0, r - 1 ), j = g.i( 0, r - 1 );
    A( i, j ) += g.pick( { tol * 0.25, -tol * 0.25, tol * 4.0 + 1e-6, -( tol * 4.0 + 1e-6 ), -1.0, 1.0 } );
  }
  const SparseMatrixsc S = sparseOf( g, A, g.pick( { 0.0, 0.3 } ) );
  c.note( [&]( std::ostream& o ) { o << r << "x" << cc << " tol " << tol << "\n" << A; } );
  CHECK( MathUtilities::isSquare( S ) == ( r == cc ), "isSquare" );
  {
    bool id = r == cc;
    if( id ) for( int j = 0; j < cc; ++j ) for( int i = 0; i < r; ++i ) if( std::fabs( A( i, j ) - ( i == j ? 1.0 : 0.0 ) ) > tol ) id = false;
    CHECK( MathUtilities::isIdentity( S, tol ) == id, "isIdentity, expected " << id );
    if( id && r > 0 ) c.label( "identity" );
  }
  if( r == cc )
  {
    bool sym = true;
    for( int j = 0; j < cc; ++j ) for( int i = 0; i < r; ++i ) if( std::fabs( A( i, j ) - A( j, i ) ) > tol ) sym = false;
    CHECK( MathUtilities::isSymmetric( S, tol ) == sym, "isSymmetric, expected " << sym );
    if( sym && r > 1 ) c.label( "symmetric" );
    if( sym && tol <= 1e-9 )
    {
      VectorXs x( r ), b( r ), y = VectorXs::Constant( r, 7.0 ), gr = VectorXs::Constant( r, 7.0 );
      for( int i = 0; i < r; ++i ) { x( i ) = g.s( 2.0 ); b( i ) = g.s( 2.0 ); }
      MultiplyEigenColumnMajor{}( S, x, y );
      GradientEigenColumnMajor{}( S, b, x, gr );
      const VectorXs ry = A * x;
      for( int i = 0; i < r; ++i ) { CHECK( near( y( i ), ry( i ), 1e-7 ), "product" ); CHECK( near( gr( i ), ry( i ) + b( i ), 1e-7 ), "gradient" ); }
      CHECK( near( ObjectiveEigenColumnMajor{}( S, b, x ), 0.5 * x.dot( ry ) + b.dot( x ), 1e-7, 10.0 ), "objective" );
    }
  }
  // Column extraction, in the given order, repeats allowed
  std::vector<unsigned> cols;
  if( cc > 0 ) { const int k = g.i( 0, cc ); for( int i = 0; i < k; ++i ) cols.push_back( unsigned( g.i( 0, cc - 1 ) ) ); }
  SparseMatrixsc E( g.i( 0, 3 ), g.i( 0, 3 ) );
  MathUtilities::extractColumns( S, cols, E );
  CHECK( E.rows() == r && E.cols() == int( cols.size() ), "extracted size " << E.rows() << "x" << E.cols() );
  CHECK( E.isCompressed(), "not compressed" );
  const MatrixXXsc D = E;
  for( size_t k = 0; k < cols.size(); ++k ) for( int i = 0; i < r; ++i ) CHECK( D( i, int( k ) ) == A( i, int( cols[k] ) ), "entry " << i << "," << k );
  c.nontrivial( cc >= 2 );
}

SUBCHECK( "C28", "cross_digits_frames", "vectors, unsigned numbers over all magnitudes, rotated/reflected/scaled/sheared frames", 120000, 1200000 )
{
  const Vector2s a( g.s( 5 ), g.s( 5 ) ), b( g.s( 5 ), g.s( 5 ) );
  CHECK( near( MathUtilities::cross( a, b ), a( 0 ) * b( 1 ) - a( 1 ) * b( 0 ), 1e-13, 50 ), "cross" );
  unsigned n = unsigned( g.raw( 4294967296ull ) );
  n = n >> g.i( 0, 31 );
  if( g.b( 0.3 ) ) { unsigned p = 1; const int k = g.i( 0, 9 ); for( int i = 0; i < k; ++i ) p *= 10; n = p + unsigned( g.i( -1, 1 ) ); }
  c.note( [&]( std::ostream& o ) { o << "n=" << n << " a=" << a.transpose() << " b=" << b.transpose(); } );
  CHECK( MathUtilities::computeNumDigits( n ) == std::to_string( n ).size(), n << " has " << MathUtilities::computeNumDigits( n ) << " digits" );
  // Frames
  const double tol = 1e-6;
  const double th = g.u( 0, 6.3 );
  Vector2s u( std::cos( th ), std::sin( th ) ), w( -std::sin( th ), std::cos( th ) );
  CHECK( MathUtilities::isRightHandedOrthoNormal( u, w, tol ), "2D rotation rejected" );
  CHECK( !MathUtilities::isRightHandedOrthoNormal( u, Vector2s( -w ), tol ), "2D reflection accepted" );
  const double e = g.pick( { 1e-3, -1e-3, 0.5 } );
  CHECK( !MathUtilities::isRightHandedOrthoNormal( Vector2s( u * ( 1 + e ) ), w, tol ), "2D scaled first" );
  CHECK( !MathUtilities::isRightHandedOrthoNormal( u, Vector2s( w * ( 1 + e ) ), tol ), "2D scaled second" );
  CHECK( !MathUtilities::isRightHandedOrthoNormal( u, Vector2s( ( w + e * u ).normalized() ), tol ), "2D sheared" );
  const Vector3s axis = Vector3s( g.s() + 0.1, g.s(), g.s() ).normalized();
  const Matrix33sr R = Eigen::AngleAxis<scalar>( th, axis ).toRotationMatrix();
  Vector3s f[3] = { R.col( 0 ), R.col( 1 ), R.col( 2 ) };
  CHECK( MathUtilities::isRightHandedOrthoNormal( f[0], f[1], f[2], tol ), "3D rotation rejected" );
  const int k = g.i( 0, 2 );
  Vector3s h[3] = { f[0], f[1], f[2] };
  const int what = g.i( 0, 3 );
  if( what == 0 ) h[k] = -h[k];
  else if( what == 1 ) h[k] *= 1.0 + e;
  else if( what == 2 ) h[k] = ( h[k] + e * h[( k + 1 ) % 3] ).normalized();
  else std::swap( h[k], h[( k + 1 ) % 3] );
  CHECK( !MathUtilities::isRightHandedOrthoNormal( h[0], h[1], h[2], tol ), "3D defect " << what << " of axis " << k << " accepted" );
  c.nontrivial( n > 9 );
}

// ---- C29 ----

// Exact solution of min 1/2 x'Ax + b'x, x>=0 by active set enumeration (n <= 6), nullptr when none found
static bool enumerate( const MatrixXXsc& A, const VectorXs& b, double& best, VectorXs& xs )
{
  const int n = int( b.size() );
  bool found = false;
  best = 0;
  for( int m = 0; m < ( 1 << n ); ++m )
  {
    std::vector<int> F;
    for( int i = 0; i < n; ++i ) if( m >> i & 1 ) F.push_back( i );
    const int k = int( F.size() );
    VectorXs x = VectorXs::Zero( n );
    if( k )
    {
      MatrixXXsc Af( k, k ); VectorXs bf( k );
      for( int i = 0; i < k; ++i ) { bf( i ) = -b( F[size_t( i )] ); for( int j = 0; j < k; ++j ) Af( i, j ) = A( F[size_t( i )], F[size_t( j )] ); }
      const VectorXs xf = Af.completeOrthogonalDecomposition().solve( bf );
      for( int i = 0; i < k; ++i ) x( F[size_t( i )] ) = xf( i );
    }
    const VectorXs gr = A * x + b;
    bool ok = true;
    for( int i = 0; i < n; ++i ) if( x( i ) < -1e-9 || gr( i ) < -1e-9 || std::fabs( x( i ) * gr( i ) ) > 1e-8 ) ok = false;
    if( ok ) { best = 0.5 * x.dot( A * x ) + b.dot( x ); found = true; xs = x; break; }
  }
  return found;
}

SUBCHECK( "C29", "apgd_nonnegative_qp", "Q = N' W N with W positive diagonal (redundant columns, opposing columns, zero or unit or random starting point), b = N' v so the problem is bounded; non-trivial when the solution has a positive entry", 40000, 400000 )
{
  const int dofs = g.i( 1, 5 ), n = g.i( 1, 6 );
  MatrixXXsc N( dofs, n );
  for( int j = 0; j < n; ++j )
  {
    if( j > 0 && g.b( 0.3 ) ) { N.col( j ) = N.col( g.i( 0, j - 1 ) ) * g.pick( { 1.0, -1.0 } ); continue; }
    for( int i = 0; i < dofs; ++i ) N( i, j ) = g.b( 0.4 ) ? double( g.i( -2, 2 ) ) : g.s( 1.0 );
    if( N.col( j ).norm() < 0.1 ) N( g.i( 0, dofs - 1 ), j ) = 1.0;
    N.col( j ).normalize();
  }
  VectorXs w( dofs ), v( dofs );
  const bool uniform = g.b( 0.4 );
  for( int i = 0; i < dofs; ++i ) { w( i ) = uniform ? 1.0 : g.logu( 0.3, 3.0 ); v( i ) = g.b( 0.4 ) ? double( g.i( -2, 2 ) ) : g.s( 3.0 ); }
  MatrixXXsc A = N.transpose() * w.asDiagonal() * N;
  A = ( 0.5 * ( A + A.transpose() ) ).eval();
  VectorXs b = N.transpose() * v;
  SparseMatrixsc Q = A.sparseView();
  Q.makeCompressed();
  VectorXs x0( n );
  const int st = g.w( { 3, 2, 2 } );
  for( int i = 0; i < n; ++i ) x0( i ) = st == 0 ? 0.0 : st == 1 ? 1.0 : g.s( 2.0 );
  const double tol = g.pick( { 1e-6, 1e-8, 1e-4 } );
  const unsigned iters = 20000;
  c.note( [&]( std::ostream& o ) { o << "N=\n" << N << "\nw=" << w.transpose() << " v=" << v.transpose() << " x0=" << x0.transpose() << " tol=" << tol; } );
  VectorXs x = x0;
  ProjectionSolveResults res;
  ProjectionSolvers::APGD( NonNegativeProjection{}, MinMapImpact{}, ObjectiveEigenColumnMajor{}, GradientEigenColumnMajor{}, MultiplyEigenColumnMajor{}, tol, iters, Q, b, x, res );
  CHECK( x.size() == n, "size" );
  for( int i = 0; i < n; ++i ) CHECK( x( i ) >= 0.0, "negative entry " << x.transpose() );
  const VectorXs gr = A * x + b;
  double resid = 0;
  for( int i = 0; i < n; ++i ) resid = std::max( resid, std::fabs( std::min( x( i ), gr( i ) ) ) );
  CHECK( near( res.achieved_tolerance, resid, 1e-12, 1.0 ), "reported " << res.achieved_tolerance << " actual " << resid );
  CHECK( ( res.status == ProjectionSolveStatus::Success ) == ( res.achieved_tolerance <= tol ), "status" );
  // Rounding may stall it short of tight tolerances on ill-conditioned programs
  if( res.status == ProjectionSolveStatus::Success ) c.label( "converged" );
  CHECK( resid <= 1e-4 * ( 1.0 + x.lpNorm<Eigen::Infinity>() ), "no convergence in " << res.num_iterations << " iterations, residual " << resid << " x " << x.transpose() );
  CHECK( res.num_iterations <= iters, "iterations" );
  CHECK( near( MinMapImpact{}( x, gr ), resid, 1e-13 ), "min map" );
  double best; VectorXs xs;
  if( enumerate( A, b, best, xs ) )
  {
    // convexity: f(x) - f(x*) <= g.(x - x*), each term bounded through the residual
    const double obj = 0.5 * x.dot( A * x ) + b.dot( x ), bound = resid * ( x.lpNorm<1>() + xs.lpNorm<1>() + gr.lpNorm<1>() );
    CHECK( obj <= best + 1.01 * bound + 1e-7 * ( 1.0 + xs.squaredNorm() ), "objective " << obj << " best " << best ); c.label( "enumerated" );
  }
  if( st == 1 ) c.label( "start_ones" );
  if( ( A * VectorXs::Ones( n ) ).norm() < 1e-12 ) c.label( "null_ones" );
  c.nontrivial( x.maxCoeff() > tol );
}

SUBCHECK( "C29", "budget_and_error_reporting", "the same programs under tiny iteration budgets: the point is still feasible, is the best visited and the reported error is its residual; non-trivial when the budget is exhausted", 20000, 200000 )
{
  const int dofs = g.i( 1, 5 ), n = g.i( 1, 6 );
  MatrixXXsc N( dofs, n );
  for( int j = 0; j < n; ++j ) { for( int i = 0; i < dofs; ++i ) N( i, j ) = g.s( 1.0 ); N( g.i( 0, dofs - 1 ), j ) += 1.0; }
  VectorXs v( dofs ), x0( n );
  for( int i = 0; i < dofs; ++i ) v( i ) = g.s( 3.0 );
  for( int i = 0; i < n; ++i ) x0( i ) = g.s( 2.0 );
  MatrixXXsc A = N.transpose() * N;
  A = ( 0.5 * ( A + A.transpose() ) ).eval();
  const VectorXs b = N.transpose() * v;
  SparseMatrixsc Q = A.sparseView(); Q.makeCompressed();
  const unsigned iters = unsigned( g.i( 1, 6 ) );
  c.note( [&]( std::ostream& o ) { o << "N=\n" << N << "\nv=" << v.transpose() << " x0=" << x0.transpose() << " iters=" << iters; } );
  VectorXs x = x0;
  ProjectionSolveResults res;
  ProjectionSolvers::APGD( NonNegativeProjection{}, MinMapImpact{}, ObjectiveEigenColumnMajor{}, GradientEigenColumnMajor{}, MultiplyEigenColumnMajor{}, 1e-10, iters, Q, b, x, res );
  const auto residual = [&]( const VectorXs& y ) { const VectorXs gr = A * y + b; double m = 0; for( int i = 0; i < n; ++i ) m = std::max( m, std::fabs( std::min( y( i ), gr( i ) ) ) ); return m; };
  for( int i = 0; i < n; ++i ) CHECK( x( i ) >= 0.0, "negative entry" );
  CHECK( near( res.achieved_tolerance, residual( x ), 1e-11, 1.0 ), "reported " << res.achieved_tolerance << " actual " << residual( x ) );
  CHECK( residual( x ) <= residual( x0.cwiseMax( 0.0 ) ) + 1e-11, "worse than the starting point" );
  CHECK( ( res.status == ProjectionSolveStatus::Success ) == ( res.achieved_tolerance <= 1e-10 ), "status" );
  CHECK( res.num_iterations <= iters, "iterations " << res.num_iterations );
  // Termination measures vanish exactly at complementary points
  VectorXs p( n ), q( n );
  bool comp = true;
  for( int i = 0; i < n; ++i )
  {
    const int k = g.w( { 4, 4, 1, 1, 1 } );
    const double m1 = g.u( 0.01, 3.0 ), m2 = g.u( 0.01, 3.0 );
    p( i ) = k == 0 ? m1 : k == 1 ? 0.0 : k == 2 ? m1 : k == 3 ? -m1 : 0.0;
    q( i ) = k == 0 ? 0.0 : k == 1 ? m2 : k == 2 ? m2 : k == 3 ? 0.0 : -m2;
    if( k >= 2 ) comp = false;
  }
  const double mm = MinMapImpact{}( p, q ), fb = FischerBurmeisterImpact{ 1e-8 }( p, q );
  if( comp ) { CHECK( mm == 0.0 && fb <= 1e-14, "complementary pair judged " << mm << " " << fb ); }
  else { CHECK( mm >= 0.0099 && fb >= 1e-3, "violation judged " << mm << " " << fb << " p " << p.transpose() << " q " << q.transpose() ); }
  c.nontrivial( res.status != ProjectionSolveStatus::Success );
}

// ---- C05 ----

SUBCHECK( "C05", "swept_pair_exact", "start/end positions at scales 1e-3..1e3, fast/slow/grazing/resting/co-moving motions; expected minimum distance in long double; non-trivial when the closest approach is interior to the step", 400000, 4000000 )
{
  using L = long double;
  const double sc = g.logu( 1e-3, 1e3 );
  const double ra = sc * g.mix( 0.1, 2.0 ), rb = sc * g.mix( 0.1, 2.0 );
  const int kind = g.w( { 4, 4, 2, 2, 2, 2 } );
  Vector2s a0, a1, b0, b1;
  const auto P = [&]( double m ) { return Vector2s( sc * g.s( m ), sc * g.s( m ) ); };
  const auto dirv = [&]() { const double th = g.mix( 0.0, 6.283185307179586, 8 ); return Vector2s( std::cos( th ), std::sin( th ) ); };
  if( kind == 0 ) { a0 = P( 6 ); a1 = P( 6 ); b0 = P( 6 ); b1 = P( 6 ); }
  else if( kind == 1 ) // impact parameter controlled
  {
    b0 = P( 3 );
    const Vector2s bv = P( 3 ); b1 = b0 + bv;
    const Vector2s d = dirv(), t( -d( 1 ), d( 0 ) );
    const double off = ( ra + rb ) * g.u( 0.0, 1.6 ) * g.pick( { 1.0, -1.0 } );
    const double start = ( ra + rb ) * g.u( -1.0, 8.0 );
    const double len = ( ra + rb ) * g.pick( { g.u( 0.0, 2.0 ), g.u( 0.0, 30.0 ), g.u( 0.0, 3000.0 ) } );
    a0 = b0 + off * t - start * d;
    a1 = a0 + bv + len * d;
  }
  else if( kind == 2 ) { a0 = P( 4 ); b0 = P( 4 ); const Vector2s v = P( 5 ); a1 = a0 + v; b1 = b0 + v; } // co-moving
  else if( kind == 3 ) { a0 = P( 4 ); b0 = P( 4 ); a1 = a0; b1 = b0; } // resting
  else if( kind == 4 ) // starts in contact, any motion
  {
    b0 = P( 3 ); a0 = b0 + dirv() * ( ra + rb ) * g.u( 0.0, 1.0 ); a1 = P( 20 ); b1 = P( 3 );
  }
  else // ends at a controlled separation, head on
  {
    b0 = P( 3 ); b1 = b0;
    const Vector2s d = dirv();
    a0 = b0 - d * ( ra + rb ) * g.u( 1.0, 9.0 );
    a1 = b0 - d * ( ra + rb ) * ( 1.0 + g.pick( { 1.0, -1.0 } ) * g.logu( 1e-9, 0.5 ) );
  }
  c.note( [&]( std::ostream& o ) { o.precision( 17 ); o << "a: " << a0.transpose() << " -> " << a1.transpose() << " r " << ra << " ; b: " << b0.transpose() << " -> " << b1.transpose() << " r " << rb; } );
  // Oracle
  const L px = (L) a0( 0 ) - b0( 0 ), py = (L) a0( 1 ) - b0( 1 );
  const L ex = (L) a1( 0 ) - b1( 0 ), ey = (L) a1( 1 ) - b1( 1 );
  const L dx = ex - px, dy = ey - py;
  const L dd = dx * dx + dy * dy, R = (L) ra + rb;
  L tm = dd > 0 ? -( px * dx + py * dy ) / dd : 0;
  if( tm < 0 ) tm = 0; if( tm > 1 ) tm = 1;
  const L mind = sqrtl( ( px + tm * dx ) * ( px + tm * dx ) + ( py + tm * dy ) * ( py + tm * dy ) );
  const L d0 = sqrtl( px * px + py * py ), d1 = sqrtl( ex * ex + ey * ey );
  // The quadratic is evaluated in double: error relative to the squared travel
  const L mag = std::max( { d0, d1, R, (L) ( a0.cwiseAbs().maxCoeff() + a1.cwiseAbs().maxCoeff() + b0.cwiseAbs().maxCoeff() + b1.cwiseAbs().maxCoeff() ) } );
  const L band = 1e-10L * mag * mag / R + 1e-12L * R;
  const std::pair<bool,scalar> out = CollisionDetectionUtilities::ballBallCCDCollisionHappens( a0, a1, ra, b0, b1, rb );
  const std::pair<bool,scalar> swapped = CollisionDetectionUtilities::ballBallCCDCollisionHappens( b0, b1, rb, a0, a1, ra );
  if( mind < R - band || d0 < R - band ) { CHECK( out.first, "missed: closest approach " << (double) mind << " < " << (double) R ); c.label( "hit" ); }
  else if( mind > R + band ) { CHECK( !out.first, "false hit: closest approach " << (double) mind << " > " << (double) R ); c.label( "miss" ); }
  else c.label( "band" );
  CHECK( std::fabs( mind - R ) <= band || out.first == swapped.first, "not symmetric" );
  if( out.first )
  {
    CHECK( out.second >= 0.0 && out.second <= 1.0, "time " << out.second );
    const L t = out.second;
    const L x = px + t * dx, y = py + t * dy, dist = sqrtl( x * x + y * y );
    if( d0 < R - band ) { CHECK( out.second == 0.0, "in contact at the start but time " << out.second ); }
    else if( mind < R - 4 * band )
    {
      // time of first contact: distance equals R there (or contact at the start) and no earlier time is closer
      CHECK( std::fabs( dist - R ) <= 10 * band + 1e-7L * R, "distance at the reported time " << (double) dist << " radius sum " << (double) R );
      const L tc = dd > 0 ? -( px * dx + py * dy ) / dd : 0;
      CHECK( t <= tc + 1e-9L, "reported time is after the closest approach" );
    }
  }
  c.nontrivial( tm > 0 && tm < 1 );
}

SUBCHECK( "C05", "swept_pair_touching", "axis-aligned motions with dyadic coordinates, so that every gap is exact: resting, starting or ending at exactly the sum of the radii, or 2^-10 short of it or beyond; non-trivial when the gap is exactly zero", 60000, 600000 )
{
  const double ra = g.i( 1, 64 ) / 16.0, rb = g.i( 1, 64 ) / 16.0, R = ra + rb;
  const int ax = g.i( 0, 1 );
  const double sgn = g.pick( { 1.0, -1.0 } );
  const double gap = g.pick( { 0.0, 0.0, 1.0 / 1024, -1.0 / 1024 } );
  const int kind = g.i( 0, 3 );
  Vector2s a0( g.i( -64, 64 ) / 8.0, g.i( -64, 64 ) / 8.0 ), a1 = a0, b0 = a0, b1;
  const double near_d = R + gap, far_d = near_d + g.i( 1, 64 ) / 16.0;
  b0( ax ) += sgn * ( kind == 1 ? far_d : near_d );
  b1 = b0;
  if( kind == 1 ) b1( ax ) -= sgn * ( far_d - near_d ); // ends at the gap
  if( kind == 2 ) b1( ax ) += sgn * ( far_d - near_d ); // starts at the gap and leaves
  if( kind == 3 ) { const Vector2s v( g.i( -32, 32 ) / 4.0, g.i( -32, 32 ) / 4.0 ); a1 += v; b1 += v; } // co-moving
  c.note( [&]( std::ostream& o ) { o.precision( 17 ); o << "a: " << a0.transpose() << " -> " << a1.transpose() << " r " << ra << " ; b: " << b0.transpose() << " -> " << b1.transpose() << " r " << rb << " gap " << gap; } );
  const auto out = CollisionDetectionUtilities::ballBallCCDCollisionHappens( a0, a1, ra, b0, b1, rb );
  if( gap == 0.0 && ( kind == 1 || kind == 2 ) ) { c.label( "moving" ); }
  CHECK( out.first == ( gap <= 0.0 ), "gap " << gap << " kind " << kind << " reported " << out.first );
  if( out.first ) CHECK( kind == 1 ? near( out.second, gap == 0.0 ? 1.0 : ( far_d - R ) / ( far_d - near_d ), 1e-9 ) : out.second == 0.0, "time " << out.second );
  c.nontrivial( gap == 0.0 );
}

// ---- C03 core ----

template<class T> static std::string bytesOf( const T& f ) { std::ostringstream o; f( o ); return o.str(); }
static double anyDouble( Gen& g )
{
  switch( g.w( { 4, 2, 1, 1, 1 } ) )
  {
    case 0: return g.s( 10.0 );
    case 1: return double( g.i( -3, 3 ) );
    case 2: return g.pick( { 0.0, -0.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max(), std::numeric_limits<double>::min() } );
    case 3: return g.s( 1.0 ) * std::pow( 10.0, g.i( -300, 300 ) );
    default: return g.logu( 1e-12, 1e12 );
  }
}
template<class M> static M fillM( Gen& g, int r, int cc ) { M m( r, cc ); for( int i = 0; i < r; ++i ) for( int j = 0; j < cc; ++j ) m( i, j ) = anyDouble( g ); return m; }
template<class M> static bool sameBits( const M& a, const M& b ) { return a.rows() == b.rows() && a.cols() == b.cols() && std::memcmp( a.data(), b.data(), size_t( a.size() ) * sizeof( typename M::Scalar ) ) == 0; }

SUBCHECK( "C03", "values_and_matrices", "scalars, flags, vectors of them, rationals, dense matrices of every shape and sparse matrices written back to back into one stream; non-trivial with at least 3 items", 60000, 600000 )
{
  std::stringstream ss;
  std::vector<std::function<void()>> readers;
  const int n = g.i( 0, 8 );
  for( int k = 0; k < n; ++k )
  {
    switch( g.i( 0, 11 ) )
    {
      case 0: { const double x = anyDouble( g ); Utilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { const double y = Utilities::deserialize<double>( ss ); CHECK( std::memcmp( &x, &y, 8 ) == 0, "double " << x << " read " << y ); } ); break; }
      case 1: { const unsigned x = unsigned( g.raw( 4294967296ull ) ); Utilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { CHECK( Utilities::deserialize<unsigned>( ss ) == x, "unsigned" ); } ); break; }
      case 2: { const bool x = g.b(); Utilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { CHECK( Utilities::deserialize<bool>( ss ) == x, "bool" ); } ); break; }
      case 3: { std::vector<bool> x; const int m = g.i( 0, 20 ); for( int i = 0; i < m; ++i ) x.push_back( g.b() ); Utilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { CHECK( Utilities::deserialize<std::vector<bool>>( ss ) == x, "vector<bool>" ); } ); break; }
      case 4: { std::vector<unsigned> x; const int m = g.i( 0, 20 ); for( int i = 0; i < m; ++i ) x.push_back( unsigned( g.raw( 4294967296ull ) ) ); Utilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { CHECK( Utilities::deserialize<std::vector<unsigned>>( ss ) == x, "vector<unsigned>" ); } ); break; }
      case 5: { const VectorXs x = fillM<VectorXs>( g, g.i( 0, 9 ), 1 ); MathUtilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { CHECK( sameBits( MathUtilities::deserialize<VectorXs>( ss ), x ), "VectorXs" ); } ); break; }
      case 6: { const Vector2s x = fillM<Vector2s>( g, 2, 1 ); MathUtilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { CHECK( sameBits( MathUtilities::deserialize<Vector2s>( ss ), x ), "Vector2s" ); } ); break; }
      case 7: { const Vector3s x = fillM<Vector3s>( g, 3, 1 ); MathUtilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { CHECK( sameBits( MathUtilities::deserialize<Vector3s>( ss ), x ), "Vector3s" ); } ); break; }
      case 8: { const Matrix3Xsc x = fillM<Matrix3Xsc>( g, 3, g.i( 0, 7 ) ); MathUtilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { CHECK( sameBits( MathUtilities::deserialize<Matrix3Xsc>( ss ), x ), "Matrix3X" ); } ); break; }
      case 9: { const Matrix33sr x = fillM<Matrix33sr>( g, 3, 3 ); MathUtilities::serialize( x, ss ); readers.push_back( [&c, &ss, x] { CHECK( sameBits( MathUtilities::deserialize<Matrix33sr>( ss ), x ), "Matrix33" ); } ); break; }
      case 10:
      {
        const MatrixXXsc D = denseOf( g, g.i( 0, 6 ), g.i( 0, 6 ), g.u( 0.0, 1.0 ) );
        const SparseMatrixsc x = sparseOf( g, D, g.pick( { 0.0, 0.4 } ) );
        MathUtilities::serialize( x, ss );
        readers.push_back( [&c, &ss, x]
        {
          SparseMatrixsc y( 3, 2 );
          MathUtilities::deserialize( y, ss );
          CHECK( y.rows() == x.rows() && y.cols() == x.cols() && y.nonZeros() == x.nonZeros() && y.isCompressed(), "sparse shape" );
          CHECK( sameBits( MatrixXXsc( y ), MatrixXXsc( x ) ), "sparse values" );
          std::ostringstream o0, o1; MathUtilities::serialize( x, o0 ); MathUtilities::serialize( y, o1 );
          CHECK( o0.str() == o1.str(), "sparse pattern" );
        } );
        break;
      }
      default:
      {
        const Rational<std::intmax_t> x{ g.i64( -1000000, 1000000 ), g.i64( 1, 1000000 ) };
        Utilities::serialize( x, ss );
        readers.push_back( [&c, &ss, x] { const Rational<std::intmax_t> y = Utilities::deserialize<Rational<std::intmax_t>>( ss ); CHECK( y == x, "rational" ); } );
        break;
      }
    }
  }
  c.note( [&]( std::ostream& o ) { o << n << " items, " << ss.str().size() << " bytes"; } );
  for( auto& f : readers ) f();
  CHECK( ss.good() && ss.peek() == EOF, "bytes left over or missing" );
  c.nontrivial( n >= 3 );
}

template<class U> static void roundTripPtr( Gen& g, Ctx& c, std::unique_ptr<U> obj, std::unique_ptr<U> (*load)( std::istream& ), const char* what )
{
  std::stringstream ss;
  const std::string pre = "<<", post = "trailer";
  ConstrainedMapUtilities::serialize( obj, ss );
  const std::string bytes = ss.str();
  ss << post;
  const std::unique_ptr<U> back = load( ss );
  CHECK( ( back == nullptr ) == ( obj == nullptr ), what << " null-ness" );
  std::string rest( post.size(), ' ' );
  ss.read( &rest[0], std::streamsize( post.size() ) );
  CHECK( ss.good() && rest == post, what << ": did not consume exactly what was written" );
  std::ostringstream again;
  ConstrainedMapUtilities::serialize( back, again );
  CHECK( again.str() == bytes, what << ": saved again differs (" << bytes.size() << " vs " << again.str().size() << " bytes)" );
}

SUBCHECK( "C03", "solvers_and_maps", "every impact operator, impact map, friction solver and impact-friction map over its parameters, incl. absent ones; non-trivial unless absent", 60000, 600000 )
{
  const double v1 = g.pick( { anyDouble( g ), g.u( 0.0, 1.0 ) } ), v2 = std::fabs( anyDouble( g ) ), tol = std::fabs( v1 );
  const unsigned it = unsigned( g.raw( 4294967296ull ) );
  const bool b0 = g.b(), b1 = g.b();
  const ImpulsesToCache ic = g.pick( { ImpulsesToCache::NONE, ImpulsesToCache::NORMAL, ImpulsesToCache::NORMAL_AND_FRICTION } );
  const int k = g.i( 0, 13 );
  c.note( [&]( std::ostream& o ) { o << "object kind " << k << " scalars " << v1 << " " << v2 << " unsigned " << it << " flags " << b0 << b1 << " cache " << int( ic ); } );
  c.label( std::to_string( k ) );
  using CMU = std::unique_ptr<ImpactOperator>;
  const LCPOperatorAPGD inner{ tol, it };
  switch( k )
  {
    case 0: roundTripPtr<ImpactOperator>( g, c, CMU{ new GaussSeidelOperator{ tol } }, ConstrainedMapUtilities::deserializeImpactOperator, "gauss_seidel" ); break;
    case 1: roundTripPtr<ImpactOperator>( g, c, CMU{ new LCPOperatorAPGD{ tol, it } }, ConstrainedMapUtilities::deserializeImpactOperator, "lcp_apgd" ); break;
    case 2: roundTripPtr<ImpactOperator>( g, c, CMU{ new GROperator{ tol, inner } }, ConstrainedMapUtilities::deserializeImpactOperator, "gr" ); break;
    case 3: roundTripPtr<ImpactOperator>( g, c, CMU{ new GRROperator{ LCPOperatorAPGD{ v2, it / 2 }, inner } }, ConstrainedMapUtilities::deserializeImpactOperator, "grr" ); break;
    case 4: roundTripPtr<ImpactOperator>( g, c, nullptr, ConstrainedMapUtilities::deserializeImpactOperator, "null operator" ); break;
    case 5: roundTripPtr<ImpactMap>( g, c, std::unique_ptr<ImpactMap>{ new ImpactMap{ b0 } }, ConstrainedMapUtilities::deserializeImpactMap, "impact_map" ); break;
    case 6: roundTripPtr<ImpactMap>( g, c, nullptr, ConstrainedMapUtilities::deserializeImpactMap, "null map" ); break;
    case 7: roundTripPtr<FrictionSolver>( g, c, std::unique_ptr<FrictionSolver>{ new Sobogus{ g.pick( { SobogusSolverType::Balls2D, SobogusSolverType::RigidBody2D, SobogusSolverType::RigidBodies3D } ), it } }, ConstrainedMapUtilities::deserializeFrictionSolver, "sobogus" ); break;
    case 8: roundTripPtr<FrictionSolver>( g, c, nullptr, ConstrainedMapUtilities::deserializeFrictionSolver, "null solver" ); break;
    case 9: roundTripPtr<ImpactFrictionMap>( g, c, std::unique_ptr<ImpactFrictionMap>{ new GeometricImpactFrictionMap{ tol, it, ic } }, ConstrainedMapUtilities::deserializeImpactFrictionMap, "geometric" ); break;
    case 10: roundTripPtr<ImpactFrictionMap>( g, c, std::unique_ptr<ImpactFrictionMap>{ new StabilizedImpactFrictionMap{ tol, it, b0, b1 } }, ConstrainedMapUtilities::deserializeImpactFrictionMap, "stabilized" ); break;
    case 11: roundTripPtr<ImpactFrictionMap>( g, c, std::unique_ptr<ImpactFrictionMap>{ new SymplecticEulerImpactFrictionMap{ tol, it, ic, b0, v2 } }, ConstrainedMapUtilities::deserializeImpactFrictionMap, "symplectic_euler" ); break;
    case 12: roundTripPtr<ImpactFrictionMap>( g, c, nullptr, ConstrainedMapUtilities::deserializeImpactFrictionMap, "null ifmap" ); break;
    default: roundTripPtr<FrictionOperator>( g, c, nullptr, ConstrainedMapUtilities::deserializeFrictionOperator, "null friction operator" ); break;
  }
  c.nontrivial( k != 4 && k != 6 && k != 8 && k < 12 );
}

// ---------------------------------------------------------------------------------------------------------------
// C26: values written to an output file by name
#include <unistd.h>
#include <functional>
#include "scisim/HDF5File.h"
#include "fakeh5.h"
namespace
{
struct H5Item
{
  std::string name;
  std::vector<double> want; // row by row
  std::vector<unsigned long long> dims;
  std::function<bool( const HDF5File& )> again; // reads it back with its own type and compares
  std::function<void( const HDF5File& )> wrong; // reads it with another type or shape
  std::string text;
  bool is_text = false;
};
template<typename S> S h5Value( Gen& g )
{
  if( std::is_same<S, double>::value || std::is_same<S, float>::value ) return S( g.pick( { g.s( 10.0 ), double( g.i( -4, 4 ) ), g.logu( 1e-30, 1e30 ), -0.0 } ) );
  if( std::is_same<S, unsigned>::value ) return S( unsigned( g.i64( 0, 4294967295LL ) ) );
  if( std::is_same<S, int>::value ) return S( int( g.i64( -2147483648LL, 2147483647LL ) ) );
  return S( g.i64( -( 1LL << 50 ), 1LL << 50 ) );
}
template<typename S, int O> H5Item h5Matrix( Gen& g, const HDF5File& f, const std::string& name )
{
  using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, O>;
  const int r = g.i( 0, 5 ), k = g.i( 0, 5 );
  Mat m( r, k );
  H5Item it;
  it.name = name;
  it.dims = { (unsigned long long) r, (unsigned long long) k };
  for( int i = 0; i < r; ++i ) for( int j = 0; j < k; ++j ) { m( i, j ) = h5Value<S>( g ); it.want.push_back( double( m( i, j ) ) ); }
  f.write( name, m );
  it.again = [m, name]( const HDF5File& h ) { const Mat x = h.template read<Mat>( name ); return x.rows() == m.rows() && x.cols() == m.cols() && x == m; };
  using Other = typename std::conditional<std::is_same<S, double>::value, Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic>, Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>>::type;
  const bool shape = g.b();
  it.wrong = [name, r, shape]( const HDF5File& h )
  {
    if( shape && r != 4 ) h.template read<Eigen::Matrix<S, 4, Eigen::Dynamic>>( name );
    else h.template read<Other>( name );
  };
  return it;
}
template<typename S> H5Item h5Scalar( Gen& g, const HDF5File& f, const std::string& name )
{
  const S x = h5Value<S>( g );
  H5Item it;
  it.name = name; it.dims = { 1, 1 }; it.want = { double( x ) };
  f.write( name, x );
  it.again = [x, name]( const HDF5File& h ) { return h.template read<S>( name ) == x; };
  using Other = typename std::conditional<std::is_same<S, double>::value, float, double>::type;
  it.wrong = [name]( const HDF5File& h ) { h.template read<Other>( name ); };
  return it;
}
}
SUBCHECK( "C26", "output_file_values", "scalars, dense matrices of either storage order, sparse matrices and strings written by name and group, found in the file row by row and read back; wrong types, shapes and names are refused; non-trivial with at least two items", 20000, 200000 )
{
  const char* d = getenv( "VERIF_SCRATCH" );
  const std::string fn = std::string( d ? d : "/tmp" ) + "/values_" + std::to_string( getpid() ) + ".h5";
  std::vector<H5Item> items;
  {
    HDF5File f0( fn, HDF5AccessType::READ_WRITE ), f;
    CHECK( f0.is_open() && !f.is_open(), "open state" );
    f = std::move( f0 );
    CHECK( f.is_open() && !f0.is_open(), "open state after moving" );
    const int n = g.i( 1, 6 );
    for( int i = 0; i < n; ++i )
    {
      const std::string name = g.pick( { std::string(), std::string( "g/" ), std::string( "other/" ) } ) + "item" + std::to_string( i );
      switch( g.i( 0, 12 ) )
      {
        case 0: items.push_back( h5Scalar<int>( g, f, name ) ); break;
        case 1: items.push_back( h5Scalar<unsigned>( g, f, name ) ); break;
        case 2: items.push_back( h5Scalar<double>( g, f, name ) ); break;
        case 3: items.push_back( h5Scalar<float>( g, f, name ) ); break;
        case 4: items.push_back( h5Scalar<long>( g, f, name ) ); break;
        case 5: items.push_back( h5Matrix<double, Eigen::ColMajor>( g, f, name ) ); break;
        case 6: items.push_back( h5Matrix<double, Eigen::RowMajor>( g, f, name ) ); break;
        case 7: items.push_back( h5Matrix<unsigned, Eigen::ColMajor>( g, f, name ) ); break;
        case 8: items.push_back( h5Matrix<int, Eigen::RowMajor>( g, f, name ) ); break;
        case 9: items.push_back( h5Matrix<float, Eigen::ColMajor>( g, f, name ) ); break;
        case 10: items.push_back( h5Matrix<long, Eigen::ColMajor>( g, f, name ) ); break;
        case 11:
        {
          const MatrixXXsc A = denseOf( g, g.i( 1, 5 ), g.i( 1, 5 ), 0.4 );
          const SparseMatrixsc S = A.sparseView();
          f.write( name, S );
          const auto one = [&]( const std::string& what, std::vector<double> v, bool col ) { H5Item it; it.name = name + what; it.want = v; it.dims = { col ? (unsigned long long) v.size() : 1ull, 1ull }; items.push_back( it ); };
          one( "_nrows", { double( A.rows() ) }, false ); one( "_ncols", { double( A.cols() ) }, false );
          std::vector<double> cp{ 0.0 }, ri, v;
          for( int j = 0; j < A.cols(); ++j ) { for( int r = 0; r < A.rows(); ++r ) if( A( r, j ) != 0.0 ) { ri.push_back( r ); v.push_back( A( r, j ) ); } cp.push_back( double( v.size() ) ); }
          one( "_col_ptr", cp, true ); one( "_row_ind", ri, true ); one( "_val", v, true );
          break;
        }
        default:
        {
          H5Item it;
          it.name = name; it.is_text = true;
          for( int k = g.i( 0, 12 ); k > 0; --k ) it.text += char( g.i( 32, 126 ) );
          f.write( name, it.text );
          items.push_back( it );
        }
      }
    }
  }
  c.nontrivial( items.size() > 1 );
  c.note( [&]( std::ostream& o ) { for( auto& i : items ) { o << i.name << " "; for( auto x : i.dims ) o << x << " "; o << "; "; } } );
  fakeh5::Tree t;
  CHECK( fakeh5::load( fn, t ), "no file" );
  CHECK( t.sets.size() == items.size(), t.sets.size() << " items in the file, " << items.size() << " written" );
  HDF5File f( fn, HDF5AccessType::READ_ONLY );
  for( auto& it : items )
  {
    auto p = t.sets.find( "/" + it.name );
    if( p == t.sets.end() ) p = t.sets.find( it.name );
    CHECK( p != t.sets.end(), it.name << " is not in the file" );
    if( it.is_text ) { CHECK( p->second.strs.size() == 1 && p->second.strs[0] == it.text, it.name << " has another text" ); continue; }
    CHECK( p->second.dims == it.dims, it.name << " has other dimensions" );
    CHECK( fakeh5::values( p->second ) == it.want, it.name << " has other values" );
    if( it.again ) CHECK( it.again( f ), it.name << " reads back differently" );
    if( it.wrong )
    {
      bool refused = false;
      try { it.wrong( f ); } catch( const std::string& ) { refused = true; }
      CHECK( refused, it.name << " was read with a wrong type or shape" );
    }
  }
  bool refused = false;
  try { f.read<double>( g.b() ? "absent" : "nogroup/absent" ); } catch( const std::string& ) { refused = true; }
  CHECK( refused, "an absent item was read" );
  refused = false;
  try { HDF5File h( fn + ".absent", HDF5AccessType::READ_ONLY ); } catch( const std::string& ) { refused = true; }
  CHECK( refused, "an absent file was opened" );
  unlink( fn.c_str() );
}
