// Oracles shared by the three simulators: contact kinematics, impact operators, friction steps, broad phase.
#ifndef VERIF_SIM_COMMON_H
#define VERIF_SIM_COMMON_H
#include "pbt.h"
#include "bits.h"
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "scisim/Math/MathDefines.h"
#include "scisim/Math/Rational.h"
#include "scisim/Utilities.h"
#include "scisim/ScriptingCallback.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/Constraints/ConstrainedSystem.h"
#include "scisim/UnconstrainedMaps/FlowableSystem.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactSolution.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/GRRFriction.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
#include "scisim/ConstrainedMaps/ImpulsesToCache.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.h"
#include "scisim/HDF5File.h"
#include "fakeh5.h"

using pbt::near;
using Cons = std::vector<std::unique_ptr<Constraint>>;

// Scripting callback with per-contact coefficients
struct CoefCallback final : public ScriptingCallback
{
  std::function<double( const Constraint& )> cor, mu;
  void restitutionCoefficient( const Cons& a, VectorXs& x ) override { if( cor ) for( size_t i = 0; i < a.size(); ++i ) x( i ) = cor( *a[i] ); }
  void frictionCoefficient( const Cons& a, VectorXs& x ) override { if( mu ) for( size_t i = 0; i < a.size(); ++i ) x( i ) = mu( *a[i] ); }
  void startOfSim() override {}
  void endOfSim() override {}
  void startOfStep( const unsigned, const Rational<std::intmax_t>& ) override {}
  void endOfStep( const unsigned, const Rational<std::intmax_t>& ) override {}
  std::string name() const override { return "coef"; }
};

inline SparseMatrixsc normalMatrix( const FlowableSystem& fs, const Cons& cons, const VectorXs& q )
{
  SparseMatrixsc N{ fs.nvdofs(), SparseMatrixsc::Index( cons.size() ) };
  ImpactOperatorUtilities::computeN( fs, cons, q, N );
  return N;
}
inline SparseMatrixsc tangentMatrix( const FlowableSystem& fs, const Cons& cons, const VectorXs& q, const MatrixXXsc& bases )
{
  SparseMatrixsc D;
  FrictionOperator::formGeneralizedSmoothFrictionBasis( unsigned( fs.nvdofs() ), unsigned( cons.size() ), q, cons, bases, D );
  return D;
}
// Generalized normal and tangent directions of all contacts, assembled from the contacts' Jacobian blocks (every contact type has
// them, while the gradient and tangent interfaces are optional)
inline void contactMatrices( const FlowableSystem& fs, const Cons& cons, const VectorXs& q, const MatrixXXsc& bases, SparseMatrixsc& N, SparseMatrixsc& D )
{
  const int d = int( fs.ambientSpaceDimensions() ), k = int( fs.numVelDoFsPerBody() ), n = int( cons.size() ), nv = int( fs.nvdofs() );
  MatrixXXsc Nd = MatrixXXsc::Zero( nv, n ), Dd = MatrixXXsc::Zero( nv, ( d - 1 ) * n );
  for( int i = 0; i < n; ++i )
  {
    MatrixXXsc H0 = MatrixXXsc::Zero( d, k ), H1 = MatrixXXsc::Zero( d, k );
    cons[i]->evalH( q, bases.block( 0, d * i, d, d ), H0, H1 );
    const int b[2] = { cons[i]->simulatedBody0(), cons[i]->simulatedBody1() };
    for( int w = 0; w < 2; ++w ) if( b[w] >= 0 ) for( int j = 0; j < k; ++j )
    {
      const int row = k == 6 ? ( j < 3 ? 3 * b[w] + j : nv / 2 + 3 * b[w] + j - 3 ) : k * b[w] + j;
      const MatrixXXsc& H = w ? H1 : H0;
      const double s = w ? -1.0 : 1.0;
      Nd( row, i ) += s * H( 0, j );
      for( int t = 0; t < d - 1; ++t ) Dd( row, ( d - 1 ) * i + t ) += s * H( 1 + t, j );
    }
  }
  N = Nd.sparseView( 1.0, 0.0 );
  D = Dd.sparseView( 1.0, 0.0 );
}
inline double kinetic( const FlowableSystem& fs, const VectorXs& v ) { return 0.5 * v.dot( fs.M() * v ); }
inline double vmax( const VectorXs& v ) { return v.size() ? v.lpNorm<Eigen::Infinity>() : 0.0; }

// expected_rel( constraint, out ) : independent material relative velocity at the contact, when the simulator's oracle knows it
using RelVelOracle = std::function<bool( const Constraint&, const VectorXs& q, const VectorXs& v, VectorXs& out )>;

struct KinOpts { bool gradg = true; bool friction = true; };
// Whether a contact type offers the optional parts of the interface
using KinOptsFn = std::function<KinOpts( const Constraint& )>;

inline void checkContactKinematics( pbt::Ctx& c, const FlowableSystem& fs, const VectorXs& q, const VectorXs& v, Cons& cons, const RelVelOracle& expected, const KinOptsFn& opts )
{
  const int d = int( fs.ambientSpaceDimensions() );
  const int k = int( fs.numVelDoFsPerBody() );
  const double vs = 1.0 + vmax( v );
  for( size_t ci = 0; ci < cons.size(); ++ci )
  {
    Constraint& con = *cons[ci];
    const KinOpts o = opts( con );
    const std::string nm = con.name();
    c.label( nm );
    MatrixXXsc B;
    con.computeBasis( q, v, B );
    CHECK( B.rows() == d && B.cols() == d, nm << " basis is " << B.rows() << "x" << B.cols() );
    CHECK( ( B.transpose() * B - MatrixXXsc::Identity( d, d ) ).lpNorm<Eigen::Infinity>() <= 1e-9, nm << " basis not orthonormal\n" << B );
    CHECK( near( B.determinant(), 1.0, 1e-9 ), nm << " basis not right handed" );
    VectorXs n;
    con.getWorldSpaceContactNormal( q, n );
    CHECK( n.size() == d && ( n - B.col( 0 ) ).lpNorm<Eigen::Infinity>() <= 1e-9, nm << " basis does not start with the contact normal " << n.transpose() << " / " << B.col( 0 ).transpose() );
    VectorXs rel = con.computeRelativeVelocity( q, v );
    CHECK( rel.size() == d, nm << " relative velocity size" );
    VectorXs want;
    if( expected && expected( con, q, v, want ) )
    {
      ++c.sub;
      CHECK( ( rel - want ).lpNorm<Eigen::Infinity>() <= 1e-9 * vs * 10.0, nm << " relative velocity " << rel.transpose() << " but the touching points move with " << want.transpose() );
    }
    const double nv = con.evalNdotV( q, v );
    CHECK( near( nv, n.dot( rel ), 1e-9, vs ), nm << " evalNdotV " << nv << " n.rel " << n.dot( rel ) );
    // Kinematic part in the contact frame
    VectorXs nrel( 1 ), drel( d - 1 );
    {
      Cons one;
      one.emplace_back( std::move( cons[ci] ) );
      Constraint::evalKinematicRelVelGivenBases( q, v, one, B, nrel, drel );
      cons[ci] = std::move( one[0] );
    }
    VectorXs kn = VectorXs::Constant( 3, 7.0 );
    if( o.gradg ) con.evalKinematicNormalRelVel( q, 1, kn );
    if( o.gradg ) CHECK( near( kn( 1 ), nrel( 0 ), 1e-9, vs ) && kn( 0 ) == 7.0 && kn( 2 ) == 7.0, nm << " kinematic normal velocity " << kn.transpose() << " vs " << nrel( 0 ) );
    VectorXs full( d );
    full( 0 ) = nrel( 0 );
    full.tail( d - 1 ) = drel;
    // Jacobian blocks
    MatrixXXsc H0 = MatrixXXsc::Zero( d, k ), H1 = MatrixXXsc::Zero( d, k );
    con.evalH( q, B, H0, H1 );
    VectorXs hv = full;
    const int s0 = con.simulatedBody0(), s1 = con.simulatedBody1();
    const auto vb = [&]( int b ) -> VectorXs
    {
      if( k == 6 ) { VectorXs x( 6 ); const int nb = int( v.size() ) / 6; x.head( 3 ) = v.segment( 3 * b, 3 ); x.tail( 3 ) = v.segment( 3 * nb + 3 * b, 3 ); return x; }
      return v.segment( k * b, k );
    };
    if( s0 >= 0 ) hv += H0 * vb( s0 );
    if( s1 >= 0 ) hv -= H1 * vb( s1 );
    CHECK( ( hv - B.transpose() * rel ).lpNorm<Eigen::Infinity>() <= 1e-9 * vs * 10.0, nm << " Jacobian velocity " << hv.transpose() << " vs " << ( B.transpose() * rel ).transpose() );
    const int b0 = con.body0(), b1 = con.body1();
    CHECK( b0 == s0, nm << " body indices differ: " << b0 << " " << s0 );
    CHECK( b1 == s1 || s1 == -1, nm << " second body index " << b1 << " simulated " << s1 );
    CHECK( s1 < 0 || s0 != s1, nm << " contact of a body with itself" );
    // Forcing term
    {
      const double CoR = 0.37;
      VectorXs ft;
      con.computeForcingTerm( q, v, B, CoR, 0.21, VectorXs::Constant( d - 1, -0.4 ), ft );
      VectorXs w( d );
      w( 0 ) = CoR * nv + 0.21;
      w.tail( d - 1 ).setConstant( -0.4 );
      CHECK( ( ft - B * w ).lpNorm<Eigen::Infinity>() <= 1e-9 * vs, nm << " forcing term" );
    }
    if( o.gradg )
    {
      SparseMatrixsc G{ fs.nvdofs(), 1 };
      G.reserve( VectorXi::Constant( 1, con.impactStencilSize() ) );
      con.evalgradg( q, 0, G, fs );
      CHECK( G.nonZeros() <= con.impactStencilSize(), nm << " stencil size " << con.impactStencilSize() << " but " << G.nonZeros() << " entries" );
      VectorXs Gd = VectorXs( G.col( 0 ) );
      CHECK( near( Gd.dot( v ) + nrel( 0 ), nv, 1e-9, vs * 10.0 ), nm << " gradient predicts normal velocity " << Gd.dot( v ) + nrel( 0 ) << " but it is " << nv );
    }
    if( o.friction )
    {
      for( int t = 0; t < d - 1; ++t )
      {
        SparseMatrixsc D{ fs.nvdofs(), 1 };
        D.reserve( VectorXi::Constant( 1, con.frictionStencilSize() ) );
        con.computeGeneralizedFrictionGivenTangentSample( q, B.col( t + 1 ), 0, D );
        const double tv = VectorXs( D.col( 0 ) ).dot( v ) + drel( t );
        CHECK( near( tv, B.col( t + 1 ).dot( rel ), 1e-9, vs * 10.0 ), nm << " tangent gradient predicts " << tv << " but it is " << B.col( t + 1 ).dot( rel ) );
        // Any other tangent direction must be the same linear combination
      }
    }
  }
}

// Whether iterative solvers can be expected to reach their tolerance: no principal submatrix of the Delassus operator is nearly
// but not exactly singular
inline bool wellConditioned( const MatrixXXsc& Q )
{
  const int n = int( Q.rows() );
  if( n > 7 ) return false;
  for( int mask = 1; mask < ( 1 << n ); ++mask )
  {
    std::vector<int> S;
    for( int i = 0; i < n; ++i ) if( mask & ( 1 << i ) ) S.push_back( i );
    if( S.size() < 2 ) continue;
    MatrixXXsc A( S.size(), S.size() );
    for( size_t i = 0; i < S.size(); ++i ) for( size_t j = 0; j < S.size(); ++j ) A( i, j ) = Q( S[i], S[j] );
    Eigen::SelfAdjointEigenSolver<MatrixXXsc> es( A, Eigen::EigenvaluesOnly );
    const double top = es.eigenvalues()( es.eigenvalues().size() - 1 );
    for( int i = 0; i < int( S.size() ); ++i ) if( es.eigenvalues()( i ) > 1e-11 * top && es.eigenvalues()( i ) < 1e-3 * top ) return false;
  }
  return true;
}

// All candidate solutions of 0 <= a _|_ Q a + b >= 0 have the same Q a; returns false when enumeration is too large
inline bool lcpVelocity( const MatrixXXsc& Q, const VectorXs& b, VectorXs& Qa, double& scale )
{
  const int n = int( b.size() );
  if( n > 10 ) return false;
  const double tol = 1e-9 * ( 1.0 + b.lpNorm<Eigen::Infinity>() );
  for( int mask = 0; mask < ( 1 << n ); ++mask )
  {
    std::vector<int> S;
    for( int i = 0; i < n; ++i ) if( mask & ( 1 << i ) ) S.push_back( i );
    VectorXs a = VectorXs::Zero( n );
    if( !S.empty() )
    {
      MatrixXXsc A( S.size(), S.size() );
      VectorXs r( S.size() );
      for( size_t i = 0; i < S.size(); ++i ) { r( i ) = -b( S[i] ); for( size_t j = 0; j < S.size(); ++j ) A( i, j ) = Q( S[i], S[j] ); }
      Eigen::FullPivLU<MatrixXXsc> lu( A );
      lu.setThreshold( 1e-11 );
      if( lu.rank() < int( S.size() ) ) continue; // another support of full rank carries the same velocity
      const VectorXs x = lu.solve( r );
      bool ok = true;
      for( size_t i = 0; i < S.size(); ++i ) { if( x( i ) < 0.0 ) ok = false; a( S[i] ) = x( i ); }
      if( !ok ) continue;
    }
    const VectorXs w = Q * a + b;
    if( ( w.array() >= -tol ).all() ) { Qa = Q * a; scale = 1.0 + vmax( a ); return true; }
  }
  return false;
}

// The LCP operator for use inside reflection operators. Those reflect until nothing approaches, which can take arbitrarily
// many reflections in tight corners: cases that need more than the budget are discarded, except with a single contact, where
// one reflection is enough.
struct BudgetLCP final : public ImpactOperator
{
  LCPOperatorAPGD inner;
  double tol;
  int calls = 0, ncons = 0;
  explicit BudgetLCP( double t = 1e-10 ) : inner( t, 20000 ), tol( t ) {}
  void flow( const Cons& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q, const VectorXs& v, const VectorXs& vF, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nr, const VectorXs& cor, VectorXs& a ) override
  {
    if( ++calls > 200 )
    {
      if( cons.size() == 1 ) throw pbt::Fail( "a reflection operator does not finish with a single contact" );
      throw pbt::Discard{};
    }
    inner.flow( cons, M, Minv, q, v, vF, N, Q, nr, cor, a );
    // An answer that is not one (very ill conditioned contact sets) makes the case useless, not the operator wrong
    const VectorXs u0 = N.transpose() * v + nr, u1 = u0 + Q * a;
    for( int i = 0; i < int( a.size() ); ++i ) if( !( u1( i ) + cor( i ) * u0( i ) >= -1e-7 * ( 1.0 + vmax( v ) + vmax( nr ) ) ) ) throw pbt::Discard{};
  }
  std::string name() const override { return inner.name(); }
  std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new BudgetLCP( tol ) ); }
  void serialize( std::ostream& o ) const override { inner.serialize( o ); }
};

// Generalized reflections written down directly: reflect everything that approaches, together, until nothing approaches.
// False when rounding could decide what approaches, or when it takes too long.
inline bool reflect( const MatrixXXsc& Q, const VectorXs& u0, double e, double vtol, double vs, VectorXs& u )
{
  const int n = int( u0.size() );
  u = u0;
  for( int round = 0; round < 12; ++round )
  {
    std::vector<int> in;
    for( int i = 0; i < n; ++i )
    {
      if( std::fabs( u( i ) + vtol ) < 2e-6 * vs ) return false;
      if( u( i ) < -vtol ) in.push_back( i );
    }
    if( in.empty() ) return true;
    const int k = int( in.size() );
    if( k > 8 ) return false;
    MatrixXXsc q( k, k ), all( n, k );
    VectorXs b( k );
    for( int j = 0; j < k; ++j )
    {
      all.col( j ) = Q.col( in[size_t( j )] );
      b( j ) = ( 1.0 + e ) * u( in[size_t( j )] );
      for( int i = 0; i < k; ++i ) q( i, j ) = Q( in[size_t( i )], in[size_t( j )] );
    }
    VectorXs qa;
    double sc;
    if( !lcpVelocity( q, b, qa, sc ) ) return false;
    u += all * q.completeOrthogonalDecomposition().solve( qa );
  }
  return false;
}

// Impact operators on a given contact set
inline void checkImpactOperator( pbt::Gen& g, pbt::Ctx& c, const FlowableSystem& fs, const VectorXs& q, const VectorXs& v0, const Cons& cons, const bool allow_gs )
{
  const int n = int( cons.size() );
  const SparseMatrixsc N = normalMatrix( fs, cons, q );
  const SparseMatrixsc Q = N.transpose() * fs.Minv() * N;
  VectorXs nrel;
  ImpactOperatorUtilities::evalKinematicRelativeVelocityN( q, cons, nrel );
  const VectorXs u0 = N.transpose() * v0 + nrel;
  const double vs = 1.0 + vmax( v0 ) + vmax( nrel );
  if( !wellConditioned( MatrixXXsc( Q ) ) ) throw pbt::Discard{};
  const int kind = g.w( { 4, allow_gs ? 3 : 0, 3, 3 } );
  VectorXs CoR = VectorXs::Constant( n, g.pick( { 0.0, 1.0, g.u(), g.u() } ) );
  VectorXs alpha = VectorXs::Zero( n );
  const double ltol = 1e-10, vtol = 1e-5;
  LCPOperatorAPGD lcp( ltol, 20000 );
  BudgetLCP blcp( ltol );
  const auto exact = [&]( const VectorXs& cor, VectorXs& vout ) -> bool
  {
    const VectorXs b = u0 + ( cor.array() * u0.array() ).matrix();
    VectorXs Qa;
    double sc;
    if( !lcpVelocity( MatrixXXsc( Q ), b, Qa, sc ) ) return false;
    vout = Qa + u0;
    return true;
  };
  if( kind == 0 )
  {
    c.label( "lcp" );
    for( int i = 0; i < n; ++i ) if( g.b( 0.3 ) ) CoR( i ) = g.u();
    // With different coefficients the law can ask for the impossible
    VectorXs ue;
    const bool known = n <= 9 && exact( CoR, ue );
    if( !known && ( CoR.array() != CoR( 0 ) ).any() ) throw pbt::Discard{};
    // Any starting guess must do
    if( g.b( 0.4 ) ) for( int i = 0; i < n; ++i ) alpha( i ) = g.u( 0.0, 2.0 );
    const std::unique_ptr<ImpactOperator> op = lcp.clone();
    op->flow( cons, fs.M(), fs.Minv(), q, v0, v0, N, Q, nrel, CoR, alpha );
    const VectorXs u1 = N.transpose() * ( v0 + fs.Minv() * ( N * alpha ) ) + nrel;
    for( int i = 0; i < n; ++i )
    {
      CHECK( std::isfinite( alpha( i ) ) && alpha( i ) >= 0.0, "LCP impulse " << alpha( i ) );
      const double w = u1( i ) + CoR( i ) * u0( i );
      CHECK( w >= -1e-6 * vs, "contact " << i << " leaves with " << u1( i ) << " after arriving with " << u0( i ) << " at restitution " << CoR( i ) );
      CHECK( std::min( alpha( i ), w ) <= 1e-6 * vs, "contact " << i << " pushes with " << alpha( i ) << " although it already satisfies its law by " << w );
    }
    if( known ) CHECK( ( u1 - ue ).lpNorm<Eigen::Infinity>() <= 1e-4 * vs, "post-impact contact velocities " << u1.transpose() << " but the law gives " << ue.transpose() );
  }
  else if( kind == 1 )
  {
    c.label( "gauss_seidel" );
    for( int i = 0; i < n; ++i ) if( g.b( 0.3 ) ) CoR( i ) = g.u();
    GaussSeidelOperator op( vtol );
    c.note( [&]( std::ostream& os ) { os << " CoR " << CoR.transpose() << " u0 " << u0.transpose() << " Q " << MatrixXXsc( Q ); for( auto& k : cons ) os << " " << k->name() << " " << k->evalNdotV( q, v0 ); } );
    if( g.b( 0.3 ) ) alpha.setConstant( 0.5 ); // left over guess
    // Opposing contacts can keep reflecting a trapped body forever when hardly anything is lost; such sets have no answer to judge
    if( CoR.maxCoeff() > 0.9 )
    {
      VectorXs Qa;
      double sc;
      if( n > 9 || !lcpVelocity( MatrixXXsc( Q ), VectorXs::Constant( n, -1.0 ), Qa, sc ) || sc > 1e6 ) throw pbt::Discard{};
    }
    op.flow( cons, fs.M(), fs.Minv(), q, v0, v0, N, Q, nrel, CoR, alpha );
    const VectorXs v1 = v0 + fs.Minv() * ( N * alpha );
    const VectorXs u1 = N.transpose() * v1 + nrel;
    for( int i = 0; i < n; ++i )
    {
      CHECK( std::isfinite( alpha( i ) ) && alpha( i ) >= 0.0, "impulse " << alpha( i ) );
      CHECK( u1( i ) >= -vtol - 1e-9 * vs, "Gauss-Seidel leaves contact " << i << " approaching with " << u1( i ) );
    }
    if( ( u0.array() >= 0.0 ).all() ) CHECK( vmax( alpha ) == 0.0, "separating contacts were pushed" );
    if( vmax( nrel ) == 0.0 ) CHECK( kinetic( fs, v1 ) <= kinetic( fs, v0 ) * ( 1.0 + 1e-9 ) + 1e-12, "kinetic energy grew from " << kinetic( fs, v0 ) << " to " << kinetic( fs, v1 ) );
    if( n == 1 && u0( 0 ) < -vtol ) CHECK( near( u1( 0 ), -CoR( 0 ) * u0( 0 ), 1e-9, vs ), "single contact restitution: " << u0( 0 ) << " -> " << u1( 0 ) << " with " << CoR( 0 ) );
  }
  else if( kind == 2 )
  {
    c.label( "gr" );
    GROperator op( vtol, blcp );
    if( g.b( 0.3 ) ) alpha.setConstant( 0.5 );
    op.flow( cons, fs.M(), fs.Minv(), q, v0, v0, N, Q, nrel, CoR, alpha );
    const VectorXs v1 = v0 + fs.Minv() * ( N * alpha );
    const VectorXs u1 = N.transpose() * v1 + nrel;
    for( int i = 0; i < n; ++i )
    {
      CHECK( std::isfinite( alpha( i ) ) && alpha( i ) >= 0.0, "impulse " << alpha( i ) );
      CHECK( u1( i ) >= -vtol - 1e-9 * vs, "GR leaves contact " << i << " approaching with " << u1( i ) );
    }
    if( ( u0.array() >= 0.0 ).all() ) CHECK( vmax( alpha ) == 0.0, "separating contacts were pushed" );
    if( vmax( nrel ) == 0.0 )
    {
      const double k0 = kinetic( fs, v0 ), k1 = kinetic( fs, v1 );
      CHECK( k1 <= k0 * ( 1.0 + 1e-6 ) + 1e-8, "kinetic energy grew from " << k0 << " to " << k1 );
      if( CoR( 0 ) == 1.0 ) CHECK( near( k1, k0, 1e-6, k0 ), "elastic reflection changed kinetic energy from " << k0 << " to " << k1 );
    }
    if( n == 1 && u0( 0 ) < -2.0 * vtol ) CHECK( near( u1( 0 ), -CoR( 0 ) * u0( 0 ), 1e-6, vs ), "single contact restitution: " << u0( 0 ) << " -> " << u1( 0 ) << " with " << CoR( 0 ) );
    VectorXs want;
    if( reflect( MatrixXXsc( Q ), u0, CoR( 0 ), vtol, vs, want ) )
    {
      c.label( "gr_model" );
      CHECK( ( u1 - want ).lpNorm<Eigen::Infinity>() <= 1e-4 * vs, "generalized reflections give contact velocities " << u1.transpose() << " but reflecting what approaches, round by round, gives " << want.transpose() );
    }
  }
  else
  {
    c.label( "grr" );
    GROperator el( vtol, blcp );
    GRROperator op( el, blcp );
    const double e = CoR( 0 );
    VectorXs a = alpha;
    op.flow( cons, fs.M(), fs.Minv(), q, v0, v0, N, Q, nrel, CoR, a );
    VectorXs ai = VectorXs::Zero( n ), ae = VectorXs::Zero( n );
    lcp.flow( cons, fs.M(), fs.Minv(), q, v0, v0, N, Q, nrel, VectorXs::Zero( n ), ai );
    el.flow( cons, fs.M(), fs.Minv(), q, v0, v0, N, Q, nrel, VectorXs::Ones( n ), ae );
    const VectorXs u1 = N.transpose() * ( v0 + fs.Minv() * ( N * a ) ) + nrel;
    const VectorXs ui = N.transpose() * ( v0 + fs.Minv() * ( N * ai ) ) + nrel;
    const VectorXs ue = N.transpose() * ( v0 + fs.Minv() * ( N * ae ) ) + nrel;
    for( int i = 0; i < n; ++i )
    {
      CHECK( std::isfinite( a( i ) ) && a( i ) >= 0.0, "impulse " << a( i ) );
      CHECK( u1( i ) >= -vtol - 1e-6 * vs, "GRR leaves contact " << i << " approaching with " << u1( i ) );
      CHECK( near( u1( i ), ( 1.0 - e ) * ui( i ) + e * ue( i ), 1e-6, vs ), "GRR velocity " << u1( i ) << " is not between the inelastic " << ui( i ) << " and the elastic " << ue( i ) << " response at " << e );
    }
    if( n == 1 && u0( 0 ) < -2.0 * vtol ) CHECK( near( u1( 0 ), -e * u0( 0 ), 1e-6, vs ), "single contact restitution: " << u0( 0 ) << " -> " << u1( 0 ) << " with " << e );
  }
}

// Maximal dissipation: min over |beta_i| <= mu_i alpha_i of 1/2 b'Qb + b'(D'v0 + gdotD), by projected block descent
struct DiscMDP final : public FrictionOperator
{
  const int m_per;
  explicit DiscMDP( int per ) : m_per( per ) {}
  void flow( const scalar&, const SparseMatrixsc&, const VectorXs& v0, const SparseMatrixsc& D, const SparseMatrixsc& Q, const VectorXs& gdotD, const VectorXs& mu, const VectorXs& alpha, VectorXs& beta, VectorXs& lambda ) override
  {
    const int n = int( alpha.size() );
    const MatrixXXsc W = MatrixXXsc( Q );
    const VectorXs b = D.transpose() * v0 + gdotD;
    for( int it = 0; it < 3000; ++it )
    {
      double change = 0.0;
      for( int i = 0; i < n; ++i )
      {
        const double R = std::max( 0.0, mu( i ) * alpha( i ) );
        double L = 0.0;
        for( int a = 0; a < m_per; ++a ) for( int bb = 0; bb < m_per; ++bb ) L += std::fabs( W( m_per * i + a, m_per * i + bb ) );
        if( L <= 0.0 ) continue;
        for( int in = 0; in < ( m_per == 1 ? 1 : 4 ); ++in )
        {
          VectorXs r = W.middleRows( m_per * i, m_per ) * beta + b.segment( m_per * i, m_per );
          VectorXs x = beta.segment( m_per * i, m_per ) - r / L;
          if( x.norm() > R ) x *= R > 0.0 ? R / x.norm() : 0.0;
          change = std::max( change, ( x - beta.segment( m_per * i, m_per ) ).lpNorm<Eigen::Infinity>() );
          beta.segment( m_per * i, m_per ) = x;
        }
      }
      if( change < 1e-14 ) break;
    }
    lambda.setZero();
  }
  int numFrictionImpulsesPerNormal() const override { return m_per; }
  std::string name() const override { return "disc_mdp"; }
  std::unique_ptr<FrictionOperator> clone() const override { return std::unique_ptr<FrictionOperator>( new DiscMDP( m_per ) ); }
  void serialize( std::ostream& ) const override {}
  bool isLinearized() const override { return false; }
};

// Wraps a friction solver and judges its answer at the moment it is returned
struct JudgedSolver final : public FrictionSolver
{
  FrictionSolver& inner;
  pbt::Ctx& c;
  bool exact_coulomb; // true: all the Coulomb conditions; false: only the ones every solver promises
  double tol;
  // What was seen
  int calls = 0;
  bool converged = false;
  VectorXs CoR, mu, q0, v0, alpha, beta, v2, alpha_in, beta_in;
  MatrixXXsc bases;
  std::vector<std::string> names;
  std::vector<std::pair<int, int>> bodies;
  std::vector<int> statics;
  MatrixXXsc points;
  double nrel_kin = 0.0;
  VectorXs nrel_extra, drel_extra;
  JudgedSolver( FrictionSolver& s, pbt::Ctx& cc, bool exact, double t ) : inner( s ), c( cc ), exact_coulomb( exact ), tol( t ) {}
  unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return inner.numFrictionImpulsesPerNormal( d ); }
  void serialize( std::ostream& o ) const override { inner.serialize( o ); }
  std::string name() const override { return inner.name(); }
  void solve( const unsigned iteration, const scalar& dt, const FlowableSystem& fs, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& CoR_, const VectorXs& mu_, const VectorXs& q0_, const VectorXs& v0_, Cons& cons, const MatrixXXsc& cb, const VectorXs& ne, const VectorXs& de, const unsigned max_iters, const scalar& stol, VectorXs& f, VectorXs& a, VectorXs& b, VectorXs& vout, bool& ok, scalar& err ) override
  {
    ++calls;
    CoR = CoR_; mu = mu_; q0 = q0_; v0 = v0_; bases = cb; nrel_extra = ne; drel_extra = de;
    alpha_in = a; beta_in = b;
    const int n = int( cons.size() ), d = int( fs.ambientSpaceDimensions() ), s = d - 1;
    names.clear(); bodies.clear(); statics.clear();
    points.resize( d, n );
    std::vector<std::pair<int, int>> sim_before( n );
    for( int i = 0; i < n; ++i )
    {
      names.push_back( cons[i]->name() );
      std::pair<int, int> p;
      cons[i]->getBodyIndices( p );
      bodies.push_back( p );
      cons[i]->getSimulatedBodyIndices( sim_before[i] );
      statics.push_back( p.second == -1 ? int( cons[i]->getStaticObjectIndex() ) : -1 );
      VectorXs cp;
      cons[i]->getWorldSpaceContactPoint( q0, cp );
      points.col( i ) = cp;
    }
    inner.solve( iteration, dt, fs, M, Minv, CoR_, mu_, q0_, v0_, cons, cb, ne, de, max_iters, stol, f, a, b, vout, ok, err );
    alpha = a; beta = b; v2 = vout; converged = ok;
    CHECK( int( cons.size() ) == n && a.size() == n && b.size() == s * n, "sizes after the solve" );
    for( int i = 0; i < n; ++i )
    {
      std::pair<int, int> p;
      cons[i]->getBodyIndices( p );
      CHECK( p == bodies[i], "solver left contact " << i << " attached to bodies " << p.first << "," << p.second << " instead of " << bodies[i].first << "," << bodies[i].second );
      cons[i]->getSimulatedBodyIndices( p );
      CHECK( p == sim_before[i], "solver left contact " << i << " with changed simulated bodies" );
    }
    SparseMatrixsc N, D;
    contactMatrices( fs, cons, q0, cb, N, D );
    VectorXs nk( n ), dk( s * n );
    Constraint::evalKinematicRelVelGivenBases( q0, v0, cons, cb, nk, dk );
    nrel_kin = vmax( nk ) + vmax( dk );
    const double vs = 1.0 + vmax( v0 ) + vmax( ne ) + vmax( de ) + nrel_kin;
    const double as = 1.0 + vmax( a );
    const VectorXs vexp = v0 + Minv * ( N * a + D * b );
    CHECK( ( vout - vexp ).lpNorm<Eigen::Infinity>() <= 1e-8 * ( vs + vmax( vexp ) ), "velocity " << vout.transpose() << " is not what the returned impulses produce: " << vexp.transpose() );
    CHECK( f.size() == v0.size() && ( f - D * b ).lpNorm<Eigen::Infinity>() <= 1e-8 * ( 1.0 + vmax( b ) ), "the reported friction impulse " << f.transpose() << " is not that of the returned coefficients: " << VectorXs( D * b ).transpose() );
    std::map<int, int> uses;
    for( const auto& p : bodies ) { ++uses[p.first]; if( p.second >= 0 ) ++uses[p.second]; }
    bool isolated = true;
    for( const auto& u : uses ) isolated = isolated && u.second == 1;
    double residual = 0.0; // how far the answer is from solving the contact problem exactly
    const VectorXs un0 = N.transpose() * v0 + nk, un = N.transpose() * vexp + nk, ut = D.transpose() * vexp + dk;
    for( int i = 0; i < n; ++i )
    {
      const VectorXs bi = b.segment( s * i, s );
      CHECK( std::isfinite( a( i ) ) && a( i ) >= -1e-9 * as, names[i] << " normal impulse " << a( i ) );
      {
        const double wn = un( i ) + CoR( i ) * un0( i ) + ( ne.size() ? ne( i ) : 0.0 );
        VectorXs tt = ut.segment( s * i, s );
        if( de.size() ) tt += de.segment( s * i, s );
        VectorXs x = bi - tt;
        const double R = mu( i ) * std::max( 0.0, a( i ) );
        if( x.norm() > R ) x *= R > 0.0 ? R / x.norm() : 0.0;
        residual = std::max( { residual, std::fabs( a( i ) - std::max( 0.0, a( i ) - wn ) ), ( bi - x ).lpNorm<Eigen::Infinity>() } );
      }
      // Staggered projections finish with a normal solve, so their cone only holds once converged, but the normal conditions always do
      if( !ok && inner.name() == "staggered_projections" )
      {
        if( !isolated ) continue; // the inner solver may stop short of coupled problems
        const double w = un( i ) + CoR( i ) * un0( i );
        CHECK( w >= -tol * vs, names[i] << " contact " << i << " of " << n << " approaches by " << w << " although the solve ends with the normal directions" );
        CHECK( std::min( a( i ) / as, w / vs ) <= tol * 10.0, names[i] << " contact " << i << " pushes with " << a( i ) << " although separating with " << w );
        continue;
      }
      CHECK( bi.norm() <= mu( i ) * a( i ) + std::max( 1e-8, tol ) * as, names[i] << " friction impulse " << bi.norm() << " exceeds " << mu( i ) << " * " << a( i ) );
      if( !ok ) continue;
      const double w = un( i ) + CoR( i ) * un0( i ) + ( ne.size() ? ne( i ) : 0.0 );
      CHECK( w >= -tol * vs, names[i] << " contact " << i << " of " << n << " approaches by " << w << " after the friction solve (normal velocity " << un0( i ) << " -> " << un( i ) << ", CoR " << CoR( i ) << ")" );
      CHECK( std::min( a( i ) / as, w / vs ) <= tol * 10.0, names[i] << " contact " << i << " pushes with " << a( i ) << " although separating with " << w );
      if( exact_coulomb )
      {
        VectorXs t = ut.segment( s * i, s );
        if( de.size() ) t += de.segment( s * i, s );
        const double tn = t.norm();
        if( tn > tol * 100.0 * vs )
        {
          CHECK( bi.dot( t ) <= -( mu( i ) * a( i ) - tol * 100.0 * as ) * tn + tol * 100.0 * as * tn, names[i] << " slides with " << t.transpose() << " but friction is " << bi.transpose() << " with bound " << mu( i ) * a( i ) );
        }
      }
    }
    // Contacts of balls that share no body do not influence each other, nor does friction their normal part: alternating between both solves them
    if( inner.name() == "staggered_projections" && fs.numVelDoFsPerBody() == 2 && max_iters >= 10 && stol >= 1e-9 )
    {
      if( isolated ) { c.label( "isolated contacts" ); CHECK( err <= 1e-6 * ( vs + as ), "isolated contacts were not solved: error " << err ); }
    }
    // An exact answer is not reported as a failure
    if( residual <= 1e-13 * ( vs + as ) ) CHECK( err <= 1e-7 * ( vs + as ), "the answer solves the contact problem up to " << residual << " but an error of " << err << " is reported" );
  }
};

// Broad phase against brute force. Box: (min,max) arrays of dimension D.
template<int D> struct RawBox { Eigen::Array<double, D, 1> lo, hi; };
template<int D> std::vector<RawBox<D>> genBoxes( pbt::Gen& g )
{
  const int n = g.i( 1, g.b( 0.2 ) ? 40 : 10 );
  const double span = g.pick( { 1.0, 3.0, 10.0, 100.0 } );
  const double off = g.pick( { 0.0, 0.0, -50.0, 1000.0 } );
  const bool lattice = g.b( 0.4 );
  std::vector<RawBox<D>> r;
  for( int i = 0; i < n; ++i )
  {
    RawBox<D> b;
    if( i > 0 && g.b( 0.35 ) )
    {
      // Touching or just missing an earlier box along one axis
      const RawBox<D> o = r[ size_t( g.raw( uint64_t( i ) ) ) ];
      b = o;
      const int ax = g.i( 0, D - 1 );
      const double w = g.u( 0.05, 2.0 );
      const double gap = g.pick( { 0.0, 0.0, 1e-9, 1e-7, -1e-7, 1e-3 } );
      if( g.b() ) { b.lo( ax ) = o.hi( ax ) + gap; b.hi( ax ) = b.lo( ax ) + w; }
      else { b.hi( ax ) = o.lo( ax ) - gap; b.lo( ax ) = b.hi( ax ) - w; }
      for( int k = 0; k < D; ++k ) if( k != ax && g.b() ) { const double s = g.s( 0.5 ); b.lo( k ) += s; b.hi( k ) += s; }
    }
    else for( int k = 0; k < D; ++k )
    {
      if( lattice ) { b.lo( k ) = off + g.i( -4, 4 ); b.hi( k ) = b.lo( k ) + g.i( 1, 3 ); }
      else { b.lo( k ) = off + g.s( span ); b.hi( k ) = b.lo( k ) + g.pick( { g.u( 0.01, 1.0 ), g.u( 0.01, 1.0 ), g.u( 1.0, 10.0 ) } ); }
    }
    r.push_back( b );
  }
  return r;
}
template<int D> bool boxesOverlap( const RawBox<D>& a, const RawBox<D>& b ) { return !( ( a.hi < b.lo ).any() || ( b.hi < a.lo ).any() ); }
template<int D> void checkPairs( pbt::Ctx& c, const std::vector<RawBox<D>>& boxes, const std::set<std::pair<unsigned, unsigned>>& got, const char* what )
{
  std::set<std::pair<unsigned, unsigned>> want;
  for( unsigned i = 0; i < boxes.size(); ++i ) for( unsigned j = i + 1; j < boxes.size(); ++j ) if( boxesOverlap<D>( boxes[i], boxes[j] ) ) want.insert( { i, j } );
  c.nontrivial( !want.empty() );
  c.note( [&]( std::ostream& o ) { o.precision( 17 ); for( auto& b : boxes ) o << "[" << b.lo.transpose() << " | " << b.hi.transpose() << "] "; } );
  for( auto& p : got ) CHECK( want.count( p ), what << ": pair (" << p.first << "," << p.second << ") reported but the boxes do not overlap or the pair is malformed" );
  for( auto& p : want ) CHECK( got.count( p ), what << ": overlapping pair (" << p.first << "," << p.second << ") missing" );
}
#endif
