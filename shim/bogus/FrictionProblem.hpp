// Stand-in for So-bogus' friction problem: same primal/dual definitions, with a plain block
// Gauss-Seidel whose local problems (exact Coulomb law at one contact) are solved by case analysis.
#ifndef SHIM_BOGUS_FRICTION_PROBLEM
#define SHIM_BOGUS_FRICTION_PROBLEM
#include "Core/Block.impl.hpp"
#include <cmath>

namespace bogus
{

template<unsigned Dimension>
struct PrimalFrictionProblem
{
  // M v + f = H^T r,  u = H v + E^T w, (u,r) satisfies the Coulomb law
  ShimBlockMatrix<1, 1> M;
  ShimBlockMatrix<int( Dimension ), int( Dimension )> E;
  ShimBlockMatrix<int( Dimension ), 1> H;
  const double* f = nullptr;
  const double* w = nullptr;
  const double* mu = nullptr;
  ShimBlockMatrix<1, 1> MInv;
  void computeMInv()
  {
    const long n = M.rows();
    const long nb = M.rowsOfBlocks();
    Eigen::MatrixXd inv = Eigen::MatrixXd::Zero( n, n );
    if( nb > 0 )
    {
      const long bs = n / nb;
      for( long b = 0; b < nb; ++b ) inv.block( b * bs, b * bs, bs, bs ) = M.dense().block( b * bs, b * bs, bs, bs ).inverse();
      MInv.setDense( inv, int( bs ), int( bs ) );
    }
  }
};

struct ShimColoring
{
  std::vector<std::size_t> permutation;
  template<class W> void update( bool, const W& ) {}
  void resetPermutation() {}
};

struct ShimGaussSeidel
{
  double tol = 1.0e-6;
  unsigned max_iters = 250;
  unsigned eval_every = 25;
  bool inf_norm = false;
  ShimColoring m_coloring;
  void setTol( double t ) { tol = t; }
  void setMaxIters( unsigned m ) { max_iters = m; }
  void setEvalEvery( unsigned e ) { eval_every = e; }
  void setMaxThreads( unsigned ) {}
  void setAutoRegularization( double ) {}
  void useInfinityNorm( bool b ) { inf_norm = b; }
  template<class W> void setMatrix( const W& ) {}
  ShimColoring& coloring() { return m_coloring; }
};

template<unsigned Dimension>
struct DualFrictionProblem
{
  using GaussSeidelType = ShimGaussSeidel;
  enum : int { D = int( Dimension ) };
  using Vec = Eigen::Matrix<double, D, 1>;
  using Mat = Eigen::Matrix<double, D, D>;

  ShimBlockMatrix<int( Dimension ), int( Dimension )> W;
  Eigen::VectorXd b;
  Eigen::VectorXd mu;

  void computeFrom( const PrimalFrictionProblem<Dimension>& p )
  {
    const Eigen::MatrixXd& H = p.H.dense();
    const Eigen::MatrixXd& MI = p.MInv.dense();
    W.setDense( H * MI * H.transpose(), D, D );
    b = p.E.dense().transpose() * Eigen::VectorXd::Map( p.w, H.rows() ) - H * ( MI * Eigen::VectorXd::Map( p.f, H.cols() ) );
    mu = Eigen::VectorXd::Map( p.mu, H.rows() / D );
  }
  void undoPermutation() {}
  void applyPermutation( const std::vector<std::size_t>& ) {}

  // Projection onto the second order cone { |rT| <= mu rN }
  static Vec project( const Vec& x, double m )
  {
    Vec r = x;
    const double n = x( 0 );
    const double t = x.tail( D - 1 ).norm();
    if( m * t <= -n ) return Vec::Zero();
    if( t <= m * n ) return r;
    const double rn = ( n + m * t ) / ( 1.0 + m * m );
    r( 0 ) = rn;
    if( t > 0.0 ) r.tail( D - 1 ) = x.tail( D - 1 ) * ( m * rn / t );
    return r;
  }

  static Vec solveLocal( const Mat& w, const Vec& bl, double m, const Vec& rold )
  {
    if( bl( 0 ) >= 0.0 ) return Vec::Zero();
    // Sticking
    {
      const Vec r = -w.ldlt().solve( bl );
      if( ( w * r + bl ).norm() <= 1e-12 * ( 1.0 + bl.norm() ) && r( 0 ) >= 0.0 && r.tail( D - 1 ).norm() <= m * r( 0 ) ) return r;
    }
    // Sliding: (w + lambda diag(0,1,..)) r = -bl with |rT| = mu rN
    const auto at = [&]( double lam )
    {
      Mat a = w;
      for( int k = 1; k < D; ++k ) a( k, k ) += lam;
      return Vec( -a.fullPivLu().solve( bl ) );
    };
    const auto g = [&]( const Vec& r ) { return r.tail( D - 1 ).norm() - m * r( 0 ); };
    const double s = std::max( 1e-300, w.diagonal().cwiseAbs().maxCoeff() );
    double lo = 0.0, hi = s;
    // Smallest interval from the right where g changes sign
    int it = 0;
    if( m == 0.0 )
    {
      Vec r = Vec::Zero();
      r( 0 ) = -bl( 0 ) / w( 0, 0 );
      return r;
    }
    while( g( at( hi ) ) > 0.0 && it++ < 200 ) { lo = hi; hi *= 2.0; }
    if( it == 0 )
    {
      double l = hi;
      for( int k = 0; k < 60; ++k ) { l *= 0.5; if( g( at( l ) ) > 0.0 ) { lo = l; break; } hi = l; }
    }
    for( int k = 0; k < 200 && hi - lo > 1e-17 * hi; ++k )
    {
      const double mid = 0.5 * ( lo + hi );
      if( g( at( mid ) ) > 0.0 ) lo = mid; else hi = mid;
    }
    Vec r = at( hi );
    if( !( r( 0 ) >= 0.0 ) ) return rold;
    const double t = r.tail( D - 1 ).norm();
    if( t > 0.0 ) r.tail( D - 1 ) *= std::min( 1.0, m * r( 0 ) / t );
    return r;
  }

  double evalWith( const GaussSeidelType& gs, const double* rp ) const
  {
    const Eigen::VectorXd r = Eigen::VectorXd::Map( rp, b.size() );
    const Eigen::VectorXd u = W.dense() * r + b;
    double err = 0.0;
    const long n = b.size() / D;
    for( long i = 0; i < n; ++i )
    {
      Vec ui = u.segment<D>( D * i );
      const Vec ri = r.segment<D>( D * i );
      ui( 0 ) += mu( i ) * ui.tail( D - 1 ).norm();
      const Vec e = ri - project( ri - ui, mu( i ) );
      if( gs.inf_norm ) err = std::max( err, e.template lpNorm<Eigen::Infinity>() );
      else err += e.squaredNorm() / double( n );
    }
    return err;
  }

  double solveWith( GaussSeidelType& gs, double* rp, unsigned& num_iterations, const bool = false ) const
  {
    const long n = b.size() / D;
    Eigen::Map<Eigen::VectorXd> r( rp, b.size() );
    double best = evalWith( gs, rp );
    Eigen::VectorXd best_r = r;
    num_iterations = 0;
    if( best < gs.tol ) return best;
    // Start from zero if the warm start is worse
    {
      const Eigen::VectorXd z = Eigen::VectorXd::Zero( b.size() );
      const double e0 = evalWith( gs, z.data() );
      if( e0 < best ) { best = e0; best_r = z; r = z; }
    }
    for( unsigned k = 0; k < gs.max_iters; ++k )
    {
      ++num_iterations;
      for( long i = 0; i < n; ++i )
      {
        const Mat w = W.dense().template block<D, D>( D * i, D * i );
        const Vec ri = r.template segment<D>( D * i );
        const Vec bl = b.template segment<D>( D * i ) + W.dense().middleRows( D * i, D ) * r - w * ri;
        const Vec rn = solveLocal( w, bl, mu( i ), ri );
        // Damping after a while, to break cycles
        r.template segment<D>( D * i ) = k < 200 ? rn : Vec( 0.5 * ( rn + ri ) );
      }
      if( ( k + 1 ) % gs.eval_every == 0 || k + 1 == gs.max_iters )
      {
        const double e = evalWith( gs, rp );
        if( e < best ) { best = e; best_r = r; }
        if( e < gs.tol ) break;
      }
    }
    r = best_r;
    return best;
  }
};

}
#endif
