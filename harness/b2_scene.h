#ifndef VERIF_B2_SCENE_H
#define VERIF_B2_SCENE_H
#include "sim_common.h"
#include "ball2d/Ball2DSim.h"
#include "ball2d/Ball2DState.h"
#include "ball2d/PythonScripting.h"
#include "ball2d/SymplecticEulerMap.h"
#include "ball2d/VerletMap.h"
#include "ball2d/ConstraintCache.h"
#include "ball2d/SpatialGridDetector.h"
#include "ball2d/Ball2DUtilities.h"
#include "ball2d/Forces/Ball2DGravityForce.h"
#include "ball2d/Forces/PenaltyForce.h"
#include "ball2d/Constraints/BallBallConstraint.h"
#include "ball2d/Constraints/KinematicKickBallBallConstraint.h"
#include "ball2d/Constraints/BallStaticDrumConstraint.h"
#include "ball2d/Constraints/BallStaticPlaneConstraint.h"
using namespace pbt;
using L = long double;

inline Vector2s dir2( Gen& g ) { const double th = g.mix( 0.0, 6.283185307179586, 8 ); return Vector2s( std::cos( th ), std::sin( th ) ); }
inline FlowableSystem& FS( Ball2DSim& s ) { return (FlowableSystem&) s; }
inline ConstrainedSystem& CS( Ball2DSim& s ) { return (ConstrainedSystem&) s; }

struct BallOpts
{
  int nmin = 1, nmax = 6;
  double span = 4.0, vel = 3.0;
  double overlap = 0.15; // deepest relative overlap of neighbours
  bool equal_sizes = false;
};

inline void genBalls( Gen& g, Ball2DState& st, const BallOpts& o )
{
  const int n = g.i( o.nmin, o.nmax + ( g.b( 0.08 ) ? 6 : 0 ) );
  std::vector<Vector2s> xs;
  std::vector<double> rs;
  const double r_all = g.mix( 0.2, 1.0 );
  for( int i = 0; i < n; ++i )
  {
    const double r = o.equal_sizes ? r_all : g.mix( 0.2, 1.2 );
    Vector2s x;
    if( i > 0 && g.b( 0.75 ) )
    {
      const int j = g.i( 0, i - 1 );
      const double gap = g.pick( { g.u( -o.overlap, 0.0 ), g.u( -o.overlap, 0.0 ), g.u( 0.0, 0.1 ), 0.0, g.u( 0.0, 1.0 ) } );
      x = xs[j] + dir2( g ) * ( r + rs[j] ) * ( 1.0 + gap );
    }
    else x = Vector2s( g.s( o.span ), g.s( o.span ) );
    for( int j = 0; j < i; ++j ) if( ( x - xs[j] ).norm() < 0.3 * std::min( r, rs[j] ) ) throw Discard{};
    const Vector2s v( g.b( 0.1 ) ? 0.0 : g.s( o.vel ), g.b( 0.1 ) ? 0.0 : g.s( o.vel ) );
    st.pushBallBack( x, v, r, g.mix( 0.2, 5.0 ), false );
    xs.push_back( x );
    rs.push_back( r );
  }
}

// Planes near some ball, free side containing its center
inline void genPlanes( Gen& g, Ball2DState& st, int nmax, bool moving )
{
  const int k = g.i( 0, nmax + ( nmax > 0 && g.b( 0.12 ) ? 3 : 0 ) );
  for( int i = 0; i < k; ++i )
  {
    Vector2s n = dir2( g );
    Vector2s x( g.s( 4.0 ), g.s( 4.0 ) );
    if( st.nballs() > 1 && g.b( 0.25 ) )
    {
      // A plane that two balls rest on
      const int a = g.i( 0, int( st.nballs() ) - 1 ), b = ( a + g.i( 1, int( st.nballs() ) - 1 ) ) % int( st.nballs() );
      const Vector2s d = st.q().segment<2>( 2 * b ) - st.q().segment<2>( 2 * a );
      const double l = d.norm(), c = ( st.r()( b ) - st.r()( a ) ) / l;
      if( l > 0.0 && std::fabs( c ) < 0.99 )
      {
        n = c * d / l + std::sqrt( 1.0 - c * c ) * ( g.b() ? 1.0 : -1.0 ) * Vector2s( -d.y(), d.x() ) / l;
        x = st.q().segment<2>( 2 * a ) - n * ( st.r()( a ) - g.u( -0.02, 0.1 ) * std::min( st.r()( a ), st.r()( b ) ) );
      }
    }
    else if( st.nballs() && g.b( 0.85 ) )
    {
      const int j = g.i( 0, int( st.nballs() ) - 1 );
      x = st.q().segment<2>( 2 * j ) - n * st.r()( j ) * ( 1.0 + g.pick( { g.u( -0.15, 0.0 ), g.u( 0.0, 0.1 ), 0.0, g.u( -0.15, 0.3 ) } ) ) + Vector2s( -n.y(), n.x() ) * g.s( 3.0 );
    }
    st.staticPlanes().emplace_back( x, n * g.pick( { 1.0, 1.0, g.u( 0.3, 4.0 ) } ) );
    if( moving && g.b( 0.4 ) ) st.staticPlanes().back().v() = Vector2s( g.s( 2.0 ), g.s( 2.0 ) );
  }
}
inline void genDrums( Gen& g, Ball2DState& st, int nmax )
{
  const int k = g.i( 0, nmax );
  for( int i = 0; i < k; ++i )
  {
    const Vector2s X( g.s( 2.0 ), g.s( 2.0 ) );
    double R = 0.0;
    for( unsigned j = 0; j < st.nballs(); ++j ) R = std::max( R, ( st.q().segment<2>( 2 * j ) - X ).norm() + st.r()( j ) );
    for( unsigned j = 0; j < st.nballs(); ++j ) if( ( st.q().segment<2>( 2 * j ) - X ).norm() < 0.05 ) throw Discard{};
    R *= 1.0 + g.pick( { g.u( -0.03, 0.0 ), 0.0, g.u( 0.0, 0.2 ) } );
    for( unsigned j = 0; j < st.nballs(); ++j ) if( R < 1.01 * st.r()( j ) ) throw Discard{};
    st.staticDrums().emplace_back( X, R );
  }
}
inline void describe( std::ostream& o, const Ball2DState& s )
{
  o.precision( 17 );
  for( unsigned i = 0; i < s.nballs(); ++i ) o << "ball" << i << "(x " << s.q().segment<2>( 2 * i ).transpose() << " v " << s.v().segment<2>( 2 * i ).transpose() << " r " << s.r()( i ) << " m " << s.M().valuePtr()[2 * i] << ") ";
  for( auto& p : s.staticPlanes() ) o << "plane(x " << p.x().transpose() << " n " << p.n().transpose() << " v " << p.v().transpose() << ") ";
  for( auto& p : s.staticDrums() ) o << "drum(x " << p.x().transpose() << " r " << p.r() << ") ";
  for( auto& p : s.planarPortals() ) o << "portal(A " << p.planeA().x().transpose() << " n " << p.planeA().n().transpose() << " B " << p.planeB().x().transpose() << " n " << p.planeB().n().transpose() << " bounds " << p.bounds() << " LE " << p.isLeesEdwards() << ") ";
}
inline std::string bytesOf( const Ball2DSim& s ) { std::ostringstream o; s.serialize( o ); return o.str(); }
inline std::string bytesOf( const Ball2DState& s ) { std::ostringstream o; s.serialize( o ); return o.str(); }

inline std::unique_ptr<UnconstrainedMap> genMap( Gen& g )
{
  if( g.b() ) return std::unique_ptr<UnconstrainedMap>( new SymplecticEulerMap );
  return std::unique_ptr<UnconstrainedMap>( new VerletMap );
}
#endif
