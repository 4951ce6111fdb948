#ifndef VERIF_R2_SCENE_H
#define VERIF_R2_SCENE_H
#include "sim_common.h"
#include "rigidbody2d/RigidBody2DSim.h"
#include "rigidbody2d/RigidBody2DState.h"
#include "rigidbody2d/PythonScripting.h"
#include "rigidbody2d/SymplecticEulerMap.h"
#include "rigidbody2d/VerletMap.h"
#include "rigidbody2d/ConstraintCache.h"
#include "rigidbody2d/SpatialGrid.h"
#include "rigidbody2d/RigidBody2DUtilities.h"
#include "rigidbody2d/NearEarthGravityForce.h"
#include "rigidbody2d/BoxGeometry.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/BoxBoxTools.h"
#include "rigidbody2d/CircleBoxTools.h"
#include "rigidbody2d/CircleCircleConstraint.h"
#include "rigidbody2d/BodyBodyConstraint.h"
#include "rigidbody2d/KinematicObjectCircleConstraint.h"
#include "rigidbody2d/KinematicKickCircleCircleConstraint.h"
#include "rigidbody2d/TeleportedCircleCircleConstraint.h"
#include "rigidbody2d/StaticPlaneCircleConstraint.h"
#include "rigidbody2d/StaticPlaneBodyConstraint.h"
using namespace pbt;
using L = long double;

inline Vector2s dir2( Gen& g ) { const double th = g.mix( 0.0, 6.283185307179586, 8 ); return Vector2s( std::cos( th ), std::sin( th ) ); }
inline FlowableSystem& FS( RigidBody2DSim& s ) { return (FlowableSystem&) s; }
inline ConstrainedSystem& CS( RigidBody2DSim& s ) { return (ConstrainedSystem&) s; }
inline double crs( const Vector2s& a, const Vector2s& b ) { return a.x() * b.y() - a.y() * b.x(); }
inline Vector2s perp( const Vector2s& a ) { return Vector2s( -a.y(), a.x() ); } // z x a

struct Geo { bool box = false; double r = 1.0; Vector2s h = Vector2s( 1, 1 ); double reach() const { return box ? h.norm() : r; } };
struct Body { Vector2s x, v; double th, w, m, I; int geo; bool fixed; };
// Independent description of a scene
struct Scene
{
  std::vector<Geo> geos;
  std::vector<Body> bodies;
  struct Plane { Vector2s x, n, v; double w; };
  std::vector<Plane> planes;
  Vector2s grav = Vector2s::Zero();
  int add( const Body& b ) { bodies.push_back( b ); return int( bodies.size() ) - 1; }
  const Geo& geo( int i ) const { return geos[bodies[i].geo]; }
  int n() const { return int( bodies.size() ); }
  bool anyBox() const { for( auto& b : bodies ) if( geos[b.geo].box ) return true; return false; }
  bool anyFixed() const { for( auto& b : bodies ) if( b.fixed ) return true; return false; }
  std::shared_ptr<RigidBody2DForce> extra; // a force the library does not provide
  RigidBody2DState build() const
  {
    const int k = n();
    VectorXs q( 3 * k ), v( 3 * k ), m( 3 * k );
    std::vector<bool> fixed;
    VectorXu gi( k );
    for( int i = 0; i < k; ++i )
    {
      const Body& b = bodies[i];
      q.segment<3>( 3 * i ) << b.x.x(), b.x.y(), b.th;
      v.segment<3>( 3 * i ) << b.v.x(), b.v.y(), b.w;
      m.segment<3>( 3 * i ) << b.m, b.m, b.I;
      fixed.push_back( b.fixed );
      gi( i ) = unsigned( b.geo );
    }
    std::vector<std::unique_ptr<RigidBody2DGeometry>> gs;
    for( auto& e : geos ) { if( e.box ) gs.emplace_back( new BoxGeometry( e.h ) ); else gs.emplace_back( new CircleGeometry( e.r ) ); }
    std::vector<std::unique_ptr<RigidBody2DForce>> fs;
    if( grav.norm() > 0.0 ) fs.emplace_back( new NearEarthGravityForce( grav ) );
    if( extra ) fs.emplace_back( extra->clone() );
    std::vector<RigidBody2DStaticPlane> ps;
    for( auto& p : planes ) { ps.emplace_back( p.x, p.n ); ps.back().setV( p.v ); ps.back().setOmega( p.w ); }
    return RigidBody2DState( q, v, m, fixed, gi, gs, fs, ps, {} );
  }
};
inline void massOfGeo( const Geo& e, double rho, double& m, double& I )
{
  if( e.box ) { m = rho * 4.0 * e.h.x() * e.h.y(); I = m * ( e.h.x() * e.h.x() + e.h.y() * e.h.y() ) / 3.0; }
  else { m = rho * M_PI * e.r * e.r; I = 0.5 * m * e.r * e.r; }
}
enum SceneMode { CIRCLES, KINEMATIC, BOXES };
struct SceneOpts { int nmin = 1, nmax = 6; double span = 4.0, vel = 3.0, overlap = 0.12; bool kin_boxes = true; };
inline void genBodies( Gen& g, Scene& s, SceneMode mode, const SceneOpts& o )
{
  const int ng = g.i( 1, 4 );
  for( int i = 0; i < ng; ++i )
  {
    Geo e;
    e.box = ( mode == BOXES && ( i == 0 || g.b( 0.5 ) ) ) || ( mode == KINEMATIC && i > 0 && o.kin_boxes && g.b( 0.3 ) );
    e.r = g.mix( 0.2, 1.2 );
    e.h = Vector2s( g.mix( 0.15, 1.2 ), g.mix( 0.15, 1.2 ) );
    s.geos.push_back( e );
  }
  const int n = g.i( o.nmin, o.nmax + ( g.b( 0.08 ) ? 5 : 0 ) );
  for( int i = 0; i < n; ++i )
  {
    Body b;
    b.geo = g.i( 0, ng - 1 );
    b.fixed = mode == KINEMATIC && ( s.geos[b.geo].box || g.b( 0.25 ) );
    const Geo& e = s.geos[b.geo];
    b.th = g.pick( { 0.0, g.lat( 0.0, 6.283185307179586, 8 ), g.s( 7.0 ), g.s( 7.0 ) } );
    if( i > 0 && g.b( 0.8 ) )
    {
      const int j = g.i( 0, i - 1 );
      const Geo& f = s.geo( j );
      const double ra = e.box ? g.mix( std::min( e.h.x(), e.h.y() ), e.h.norm() ) : e.r, rb = f.box ? g.mix( std::min( f.h.x(), f.h.y() ), f.h.norm() ) : f.r;
      const double gap = g.pick( { g.u( -o.overlap, 0.0 ), g.u( -o.overlap, 0.0 ), g.u( 0.0, 0.1 ), 0.0, g.u( 0.0, 1.0 ) } );
      b.x = s.bodies[j].x + dir2( g ) * ( ra + rb ) * ( 1.0 + gap );
      if( g.b( 0.3 ) ) b.th = s.bodies[j].th + g.pick( { 0.0, 0.78539816339744831, 1.5707963267948966, g.s( 0.1 ) } );
    }
    else b.x = Vector2s( g.s( o.span ), g.s( o.span ) );
    for( int j = 0; j < i; ++j )
    {
      const Geo& f = s.geo( j );
      const double a = e.box ? std::min( e.h.x(), e.h.y() ) : e.r, bb = f.box ? std::min( f.h.x(), f.h.y() ) : f.r;
      if( ( b.x - s.bodies[j].x ).norm() < 0.3 * std::min( a, bb ) ) throw Discard{};
    }
    b.v = Vector2s( g.b( 0.1 ) ? 0.0 : g.s( o.vel ), g.b( 0.1 ) ? 0.0 : g.s( o.vel ) );
    b.w = g.b( 0.2 ) ? 0.0 : g.s( 3.0 );
    massOfGeo( e, g.mix( 0.2, 4.0 ), b.m, b.I );
    s.add( b );
  }
}
inline void genScenePlanes( Gen& g, Scene& s, int nmax, bool moving )
{
  const int k = g.i( 0, nmax + ( nmax > 0 && g.b( 0.12 ) ? 3 : 0 ) );
  for( int i = 0; i < k; ++i )
  {
    Scene::Plane p;
    p.n = dir2( g );
    p.x = Vector2s( g.s( 4.0 ), g.s( 4.0 ) );
    if( s.n() > 1 && g.b( 0.25 ) )
    {
      // A plane that two bodies rest on
      const int a = g.i( 0, s.n() - 1 ), b = ( a + g.i( 1, s.n() - 1 ) ) % s.n();
      const auto rad = [&]( int j ) { const Geo& e = s.geo( j ); return e.box ? g.mix( std::min( e.h.x(), e.h.y() ), e.h.norm() ) : e.r; };
      const double ra = rad( a ), rb = rad( b );
      const Vector2s d = s.bodies[b].x - s.bodies[a].x;
      const double l = d.norm(), c = ( rb - ra ) / l;
      if( l > 0.0 && std::fabs( c ) < 0.99 )
      {
        p.n = c * d / l + std::sqrt( 1.0 - c * c ) * ( g.b() ? 1.0 : -1.0 ) * perp( d ) / l;
        p.x = s.bodies[a].x - p.n * ( ra - g.u( -0.02, 0.1 ) * std::min( ra, rb ) );
      }
    }
    else if( s.n() && g.b( 0.85 ) )
    {
      const int j = g.i( 0, s.n() - 1 );
      const Geo& e = s.geo( j );
      const double r = e.box ? g.mix( std::min( e.h.x(), e.h.y() ), e.h.norm() ) : e.r;
      if( e.box && g.b( 0.4 ) ) { const double t = s.bodies[j].th + 1.5707963267948966 * g.i( 0, 3 ); p.n = Vector2s( std::cos( t ), std::sin( t ) ); }
      p.x = s.bodies[j].x - p.n * r * ( 1.0 + g.pick( { g.u( -0.15, 0.0 ), g.u( 0.0, 0.1 ), 0.0, g.u( -0.15, 0.3 ) } ) ) + perp( p.n ) * g.s( 3.0 );
    }
    p.v = Vector2s::Zero(); p.w = 0.0;
    if( moving && g.b( 0.5 ) ) { p.v = Vector2s( g.s( 2.0 ), g.s( 2.0 ) ); if( g.b() ) p.w = g.s( 2.0 ); }
    s.planes.push_back( p );
  }
}
inline SceneMode genMode( Gen& g ) { return g.pick( { CIRCLES, KINEMATIC, BOXES, BOXES } ); }
inline void describe( std::ostream& o, const Scene& s )
{
  o.precision( 17 );
  for( int i = 0; i < s.n(); ++i )
  {
    const Body& b = s.bodies[i];
    o << "body" << i << "(x " << b.x.transpose() << " th " << b.th << " v " << b.v.transpose() << " w " << b.w << " m " << b.m << " I " << b.I << ( b.fixed ? " kinematic" : "" );
    if( s.geo( i ).box ) o << " box " << s.geo( i ).h.transpose(); else o << " circle " << s.geo( i ).r;
    o << ") ";
  }
  for( auto& p : s.planes ) o << "plane(x " << p.x.transpose() << " n " << p.n.transpose() << " v " << p.v.transpose() << " w " << p.w << ") ";
  if( s.grav.norm() > 0 ) o << "gravity(" << s.grav.transpose() << ") ";
}
inline std::string bytesOf( const RigidBody2DSim& s ) { std::ostringstream o; s.serialize( o ); return o.str(); }
inline std::string bytesOf( const RigidBody2DState& s ) { std::ostringstream o; s.serialize( o ); return o.str(); }
inline std::unique_ptr<UnconstrainedMap> genMap( Gen& g )
{
  if( g.b() ) return std::unique_ptr<UnconstrainedMap>( new SymplecticEulerMap );
  return std::unique_ptr<UnconstrainedMap>( new VerletMap );
}
inline KinOpts r2KinOpts( const Constraint& k )
{
  KinOpts o;
  const std::string n = k.name();
  if( n == "body_body" || n == "static_plane_body" ) o.gradg = o.friction = false;
  else if( n != "circle_circle" ) o.friction = false;
  return o;
}
// ------------------------------------------------------------------------------------------------ geometry oracle
inline Eigen::Matrix2d rot2( double t ) { Eigen::Matrix2d R; R << std::cos( t ), -std::sin( t ), std::sin( t ), std::cos( t ); return R; }
// Signed gap between circle and box: positive apart
inline double circleBoxGap( const Vector2s& xc, double r, const Vector2s& xb, double th, const Vector2s& h )
{
  const Vector2s u = ( rot2( th ).transpose() * ( xc - xb ) ).cwiseAbs();
  const Vector2s d = u - h;
  if( d.x() <= 0 && d.y() <= 0 ) return std::max( d.x(), d.y() ) - r;
  return Vector2s( std::max( d.x(), 0.0 ), std::max( d.y(), 0.0 ) ).norm() - r;
}
// Separation along the best of the four face axes: positive apart
inline double boxBoxGap( const Vector2s& x0, double t0, const Vector2s& h0, const Vector2s& x1, double t1, const Vector2s& h1 )
{
  double best = -1e300;
  const auto ext = []( const Vector2s& a, double t, const Vector2s& h ) { const Vector2s u = rot2( t ).transpose() * a; return std::fabs( u.x() ) * h.x() + std::fabs( u.y() ) * h.y(); };
  for( int k = 0; k < 4; ++k )
  {
    const Vector2s a = rot2( k < 2 ? t0 : t1 ).col( k % 2 );
    best = std::max( best, std::fabs( a.dot( x1 - x0 ) ) - ext( a, t0, h0 ) - ext( a, t1, h1 ) );
  }
  return best;
}
#endif
