#ifndef VERIF_R3_SCENE_H
#define VERIF_R3_SCENE_H
#include "sim_common.h"
#include "scisim/Math/MathUtilities.h"
#include "scisim/StringUtilities.h"
#include "rigidbody3d/RigidBody3DSim.h"
#include "rigidbody3d/RigidBody3DState.h"
#include "rigidbody3d/RigidBody3DUtilities.h"
#include "rigidbody3d/PythonScripting.h"
#include "rigidbody3d/SpatialGridDetector.h"
#include "rigidbody3d/ConstraintCache.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
#include "rigidbody3d/Geometry/MomentTools.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include "rigidbody3d/Portals/PlanarPortal.h"
#include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
#include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
#include "rigidbody3d/UnconstrainedMaps/IntegrationTools.h"
#include "rigidbody3d/Constraints/BodyBodyConstraint.h"
#include "rigidbody3d/Constraints/BoxBoxUtilities.h"
#include "rigidbody3d/Constraints/CollisionUtilities.h"
#include "rigidbody3d/Constraints/FrictionUtilities.h"
#include "rigidbody3d/Constraints/KinematicObjectBodyConstraint.h"
#include "rigidbody3d/Constraints/KinematicObjectSphereConstraint.h"
#include "rigidbody3d/Constraints/MeshMeshUtilities.h"
#include "rigidbody3d/Constraints/SphereSphereConstraint.h"
#include "rigidbody3d/Constraints/StapleStapleUtilities.h"
#include "rigidbody3d/Constraints/StaticCylinderBodyConstraint.h"
#include "rigidbody3d/Constraints/StaticCylinderSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneBodyConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneBoxConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneSphereConstraint.h"
#include "rigidbody3d/Constraints/TeleportedSphereSphereConstraint.h"
using namespace pbt;
using L = long double;
using M3 = Eigen::Matrix3d;

inline FlowableSystem& FS( RigidBody3DSim& s ) { return (FlowableSystem&) s; }
inline ConstrainedSystem& CS( RigidBody3DSim& s ) { return (ConstrainedSystem&) s; }
inline Vector3s vec3( Gen& g, double m ) { const double a = g.s( m ), b = g.s( m ), c = g.s( m ); return Vector3s( a, b, c ); }
inline Vector3s dir3( Gen& g )
{
  if( g.b( 0.3 ) ) { const int k = g.i( 0, 5 ); Vector3s d = Vector3s::Zero(); d( k / 2 ) = k % 2 ? -1.0 : 1.0; return d; }
  const double z = g.mix( -1.0, 1.0, 8 ), th = g.mix( 0.0, 6.283185307179586, 8 );
  const double s = std::sqrt( std::max( 0.0, 1.0 - z * z ) );
  return Vector3s( s * std::cos( th ), s * std::sin( th ), z ).normalized();
}
inline M3 rot3( Gen& g )
{
  switch( g.w( { 2, 2, 5 } ) )
  {
    case 0: return M3::Identity();
    case 1:
    {
      M3 R = M3::Identity();
      for( int k = 0; k < 2; ++k ) { Vector3s a = Vector3s::Zero(); a( g.i( 0, 2 ) ) = 1.0; R = Eigen::AngleAxis<double>( 0.78539816339744831 * g.i( 0, 7 ), a ).toRotationMatrix() * R; }
      return R;
    }
    default:
    {
      Eigen::Quaterniond q( g.u( 0.05, 1.0 ), g.s(), g.s(), g.s() );
      q.normalize();
      return q.toRotationMatrix();
    }
  }
}
inline M3 expm( const Vector3s& w )
{
  const double t = w.norm();
  if( t == 0.0 ) return M3::Identity();
  return Eigen::AngleAxis<double>( t, w / t ).toRotationMatrix();
}
inline M3 cross3( const Vector3s& a ) { M3 r; r << 0, -a.z(), a.y(), a.z(), 0, -a.x(), -a.y(), a.x(), 0; return r; }

enum Shape { SPHERE3, BOX3, MESH3, STAPLE3 };
// Triangle mesh with its precomputed data, as the mesh files carry it
struct MeshData
{
  std::string name = "mesh.h5";
  Matrix3Xsc verts; Matrix3Xuc faces;
  double volume = 1.0;
  Vector3s I_on_rho = Vector3s::Ones(), cm = Vector3s::Zero();
  M3 R = M3::Identity();
  Matrix3Xsc samples, hull;
  Vector3s delta = Vector3s::Ones(), origin = Vector3s::Zero();
  Vector3u dims;
  VectorXs sdf;
  Vector3s end() const { Vector3s e; for( int k = 0; k < 3; ++k ) e( k ) = origin( k ) + double( dims( k ) - 1 ) * delta( k ); return e; }
  double at( unsigned i, unsigned j, unsigned k ) const { return sdf( ( k * dims.y() + j ) * dims.x() + i ); }
  std::unique_ptr<RigidBodyGeometry> make() const
  {
    std::stringstream o;
    StringUtilities::serialize( name, o );
    MathUtilities::serialize( verts, o ); MathUtilities::serialize( faces, o );
    Utilities::serialize( volume, o ); MathUtilities::serialize( I_on_rho, o ); MathUtilities::serialize( cm, o ); MathUtilities::serialize( Matrix3s( R ), o );
    MathUtilities::serialize( samples, o ); MathUtilities::serialize( hull, o );
    MathUtilities::serialize( delta, o ); MathUtilities::serialize( dims, o ); MathUtilities::serialize( origin, o ); MathUtilities::serialize( sdf, o ); MathUtilities::serialize( end(), o );
    return std::unique_ptr<RigidBodyGeometry>( new RigidBodyTriangleMesh( o ) );
  }
  // Trilinear interpolation of the field, written independently: weights of the eight corners
  bool field( const Vector3s& x, double& dist, Vector3s& grad, double* edge = nullptr ) const
  {
    Eigen::Vector3i c;
    Vector3s f;
    if( edge ) *edge = 1e300;
    for( int k = 0; k < 3; ++k )
    {
      const double u = ( x( k ) - origin( k ) ) / delta( k );
      if( u < 0.0 || u > double( dims( k ) - 1 ) ) return false;
      c( k ) = std::min( int( dims( k ) ) - 2, int( std::floor( u ) ) );
      f( k ) = u - c( k );
      if( edge ) *edge = std::min( { *edge, f( k ), 1.0 - f( k ) } );
    }
    dist = 0.0;
    grad.setZero();
    for( int m = 0; m < 8; ++m )
    {
      const int b[3] = { m & 1, ( m >> 1 ) & 1, ( m >> 2 ) & 1 };
      const double val = at( c( 0 ) + b[0], c( 1 ) + b[1], c( 2 ) + b[2] );
      double w[3], dw[3];
      for( int k = 0; k < 3; ++k ) { w[k] = b[k] ? f( k ) : 1.0 - f( k ); dw[k] = ( b[k] ? 1.0 : -1.0 ) / delta( k ); }
      dist += w[0] * w[1] * w[2] * val;
      grad += Vector3s( dw[0] * w[1] * w[2], w[0] * dw[1] * w[2], w[0] * w[1] * dw[2] ) * val;
    }
    return true;
  }
};
inline double boxSdf( const Vector3s& x, const Vector3s& h )
{
  const Vector3s d = x.cwiseAbs() - h;
  return d.cwiseMax( 0.0 ).norm() + std::min( 0.0, d.maxCoeff() );
}
// Mesh of a box (an exact solid with an exact distance field)
inline MeshData boxMesh( Gen& g, const Vector3s& h )
{
  MeshData m;
  m.name = std::string( "box" ) + char( 'a' + g.i( 0, 5 ) ) + ".h5";
  m.verts.resize( 3, 8 );
  for( int i = 0; i < 8; ++i ) m.verts.col( i ) << ( i & 1 ? h.x() : -h.x() ), ( i & 2 ? h.y() : -h.y() ), ( i & 4 ? h.z() : -h.z() );
  m.faces.resize( 3, 12 );
  const unsigned f[12][3] = { { 0, 2, 1 }, { 1, 2, 3 }, { 4, 5, 6 }, { 5, 7, 6 }, { 0, 1, 4 }, { 1, 5, 4 }, { 2, 6, 3 }, { 3, 6, 7 }, { 0, 4, 2 }, { 2, 4, 6 }, { 1, 3, 5 }, { 3, 7, 5 } };
  for( int i = 0; i < 12; ++i ) m.faces.col( i ) << f[i][0], f[i][1], f[i][2];
  m.volume = 8.0 * h.prod();
  m.I_on_rho = m.volume / 3.0 * Vector3s( h.y() * h.y() + h.z() * h.z(), h.x() * h.x() + h.z() * h.z(), h.x() * h.x() + h.y() * h.y() );
  m.hull = m.verts;
  const int extra = g.i( 0, 6 );
  m.samples.resize( 3, 8 + extra );
  m.samples.leftCols( 8 ) = m.verts;
  for( int i = 0; i < extra; ++i )
  {
    Vector3s p( g.s( h.x() ), g.s( h.y() ), g.s( h.z() ) );
    const int k = g.i( 0, 2 );
    p( k ) = g.b() ? h( k ) : -h( k );
    m.samples.col( 8 + i ) = p;
  }
  const double pad = g.u( 0.1, 0.4 );
  for( int k = 0; k < 3; ++k )
  {
    m.dims( k ) = unsigned( g.i( 4, 7 ) );
    m.origin( k ) = -h( k ) - pad * g.u( 0.8, 1.2 );
    m.delta( k ) = ( h( k ) + pad - m.origin( k ) ) / double( m.dims( k ) - 1 );
  }
  m.sdf.resize( m.dims.prod() );
  for( unsigned k = 0; k < m.dims.z(); ++k ) for( unsigned j = 0; j < m.dims.y(); ++j ) for( unsigned i = 0; i < m.dims.x(); ++i )
    m.sdf( ( k * m.dims.y() + j ) * m.dims.x() + i ) = boxSdf( m.origin + Vector3s( i * m.delta.x(), j * m.delta.y(), k * m.delta.z() ), h );
  return m;
}
struct Geo { Shape type = SPHERE3; double r = 1.0; Vector3s h = Vector3s::Ones(); MeshData mesh; double reach() const { return type == SPHERE3 ? r : h.norm(); } };
struct Body { Vector3s x, v, w; M3 R; double m; Vector3s I; int geo; bool fixed; };
struct Scene
{
  std::vector<Geo> geos;
  std::vector<Body> bodies;
  struct Plane { Vector3s x, n, v, w; };
  struct Cyl { Vector3s x, axis; double r; double spin; };
  std::vector<Plane> planes;
  std::vector<Cyl> cyls;
  Vector3s grav = Vector3s::Zero();
  int n() const { return int( bodies.size() ); }
  const Geo& geo( int i ) const { return geos[bodies[i].geo]; }
  bool anyFixed() const { for( auto& b : bodies ) if( b.fixed ) return true; return false; }
  RigidBody3DState build() const
  {
    RigidBody3DState st;
    std::vector<Vector3s> X, V, W, I0;
    std::vector<double> M;
    std::vector<VectorXs> R;
    std::vector<bool> fx;
    std::vector<unsigned> gi;
    for( auto& b : bodies )
    {
      X.push_back( b.x ); V.push_back( b.v ); W.push_back( b.w ); I0.push_back( b.I ); M.push_back( b.m ); fx.push_back( b.fixed ); gi.push_back( unsigned( b.geo ) );
      VectorXs r( 9 );
      for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) r( 3 * i + j ) = b.R( i, j );
      R.push_back( r );
    }
    std::vector<std::unique_ptr<RigidBodyGeometry>> gs;
    for( auto& e : geos )
    {
      if( e.type == SPHERE3 ) gs.emplace_back( new RigidBodySphere( e.r ) );
      else if( e.type == BOX3 ) gs.emplace_back( new RigidBodyBox( e.h ) );
      else gs.emplace_back( e.mesh.make() );
    }
    st.setState( X, V, M, R, W, I0, fx, gi, gs );
    if( grav.norm() > 0.0 ) st.addForce( NearEarthGravityForce( grav ) );
    for( auto& p : planes ) { StaticPlane P( p.x, p.n ); P.v() = p.v; P.omega() = p.w; st.addStaticPlane( P ); }
    for( auto& k : cyls ) { StaticCylinder C( k.x, k.axis, k.r ); C.omega() = k.spin * k.axis.normalized(); st.addStaticCylinder( C ); }
    return st;
  }
};
inline void massOfGeo( const Geo& e, double rho, double& m, Vector3s& I )
{
  if( e.type == SPHERE3 ) { m = rho * 4.0 / 3.0 * M_PI * e.r * e.r * e.r; I.setConstant( 0.4 * m * e.r * e.r ); }
  else { m = rho * 8.0 * e.h.prod(); I = m / 3.0 * Vector3s( e.h.y() * e.h.y() + e.h.z() * e.h.z(), e.h.x() * e.h.x() + e.h.z() * e.h.z(), e.h.x() * e.h.x() + e.h.y() * e.h.y() ); }
}
enum SceneMode { SPHERES, BOXES, MESHES };
struct SceneOpts { int nmin = 1, nmax = 6; double span = 4.0, vel = 3.0, overlap = 0.12; double pfixed = 0.2; double anyI = 0.2; };
inline void genBodies( Gen& g, Scene& s, SceneMode mode, const SceneOpts& o )
{
  const int ng = g.i( 1, 3 );
  for( int i = 0; i < ng; ++i )
  {
    Geo e;
    e.type = mode == SPHERES ? SPHERE3 : mode == BOXES ? BOX3 : MESH3;
    e.r = g.mix( 0.2, 1.2 );
    e.h = Vector3s( g.mix( 0.2, 1.2 ), g.mix( 0.2, 1.2 ), g.mix( 0.2, 1.2 ) );
    if( e.type == MESH3 ) e.mesh = boxMesh( g, e.h );
    s.geos.push_back( e );
  }
  const int n = g.i( o.nmin, o.nmax + ( mode == SPHERES && g.b( 0.08 ) ? 5 : 0 ) );
  const bool fix = o.pfixed > 0.0 && g.b( 0.5 );
  for( int i = 0; i < n; ++i )
  {
    Body b;
    b.geo = g.i( 0, ng - 1 );
    b.fixed = fix && g.b( o.pfixed * 2.0 );
    const Geo& e = s.geos[b.geo];
    b.R = rot3( g );
    if( i > 0 && g.b( 0.8 ) )
    {
      const int j = g.i( 0, i - 1 );
      const Geo& f = s.geo( j );
      const double ra = e.type != SPHERE3 ? g.mix( e.h.minCoeff(), e.h.norm() ) : e.r, rb = f.type != SPHERE3 ? g.mix( f.h.minCoeff(), f.h.norm() ) : f.r;
      const double gap = g.pick( { g.u( -o.overlap, 0.0 ), g.u( -o.overlap, 0.0 ), g.u( 0.0, 0.1 ), 0.0, g.u( 0.0, 1.0 ) } );
      b.x = s.bodies[j].x + dir3( g ) * ( ra + rb ) * ( 1.0 + gap );
      if( g.b( 0.3 ) ) b.R = s.bodies[j].R;
    }
    else b.x = vec3( g, o.span );
    for( int j = 0; j < i; ++j )
    {
      const Geo& f = s.geo( j );
      const double a = e.type != SPHERE3 ? e.h.minCoeff() : e.r, bb = f.type != SPHERE3 ? f.h.minCoeff() : f.r;
      if( ( b.x - s.bodies[j].x ).norm() < 0.3 * std::min( a, bb ) ) throw Discard{};
    }
    b.v = vec3( g, o.vel );
    b.w = g.b( 0.2 ) ? Vector3s( 0, 0, 0 ) : vec3( g, 3.0 );
    if( b.fixed ) { b.v.setZero(); b.w.setZero(); }
    massOfGeo( e, g.mix( 0.2, 4.0 ), b.m, b.I );
    // The simulator takes mass and inertia as they are given
    if( g.b( o.anyI ) ) { const double a = g.u( 0.1, 2.0 ), bb = g.u( 0.1, 2.0 ); b.m = g.u( 0.1, 3.0 ); b.I = Vector3s( a, bb, std::min( a + bb, std::fabs( a - bb ) + g.u( 0.05, 1.0 ) ) ); if( e.type == SPHERE3 ) b.I.setConstant( a ); }
    s.bodies.push_back( b );
  }
}
inline void genObstacles( Gen& g, Scene& s, int np, int nc, bool moving )
{
  const int k = g.i( 0, np + ( np > 0 && g.b( 0.12 ) ? 3 : 0 ) );
  for( int i = 0; i < k; ++i )
  {
    Scene::Plane p;
    p.n = dir3( g );
    p.x = vec3( g, 4.0 );
    p.v.setZero(); p.w.setZero();
    if( s.n() > 1 && g.b( 0.25 ) )
    {
      // A plane that two bodies rest on
      const int a = g.i( 0, s.n() - 1 ), b = ( a + g.i( 1, s.n() - 1 ) ) % s.n();
      const auto rad = [&]( int j ) { const Geo& e = s.geo( j ); return e.type != SPHERE3 ? g.mix( e.h.minCoeff(), e.h.norm() ) : e.r; };
      const double ra = rad( a ), rb = rad( b );
      const Vector3s d = s.bodies[b].x - s.bodies[a].x;
      const double l = d.norm(), cs = ( rb - ra ) / l;
      if( l > 0.0 && std::fabs( cs ) < 0.99 )
      {
        Vector3s u = d.cross( p.n );
        if( u.norm() < 0.1 * l ) u = d.unitOrthogonal();
        p.n = cs * d / l + std::sqrt( 1.0 - cs * cs ) * u.normalized();
        p.x = s.bodies[a].x - p.n * ( ra - g.u( -0.02, 0.1 ) * std::min( ra, rb ) );
      }
    }
    else if( s.n() && g.b( 0.85 ) )
    {
      const int j = g.i( 0, s.n() - 1 );
      const Geo& e = s.geo( j );
      const double r = e.type != SPHERE3 ? g.mix( e.h.minCoeff(), e.h.norm() ) : e.r;
      if( e.type != SPHERE3 && g.b( 0.4 ) ) p.n = s.bodies[j].R.col( g.i( 0, 2 ) ) * ( g.b() ? 1.0 : -1.0 );
      Vector3s t = vec3( g, 3.0 );
      t -= t.dot( p.n ) * p.n;
      p.x = s.bodies[j].x - p.n * r * ( 1.0 + g.pick( { g.u( -0.15, 0.0 ), g.u( 0.0, 0.1 ), 0.0, g.u( -0.15, 0.3 ) } ) ) + t;
    }
    if( moving && g.b( 0.5 ) ) { p.v = vec3( g, 2.0 ); if( g.b() ) p.w = vec3( g, 2.0 ); }
    s.planes.push_back( p );
  }
  const int m = g.i( 0, nc + ( nc > 0 && g.b( 0.1 ) ? 2 : 0 ) );
  for( int i = 0; i < m; ++i )
  {
    Scene::Cyl q;
    q.axis = dir3( g );
    q.r = g.mix( 2.0, 6.0 );
    q.x = vec3( g, 3.0 );
    q.spin = moving && g.b( 0.5 ) ? g.s( 2.0 ) : 0.0;
    if( s.n() && g.b( 0.8 ) )
    {
      const int j = g.i( 0, s.n() - 1 );
      const double e = s.geo( j ).reach();
      Vector3s t = dir3( g ).cross( q.axis );
      if( t.norm() < 0.1 ) t = q.axis.unitOrthogonal();
      t.normalize();
      q.x = s.bodies[j].x + t * ( q.r - e * ( 1.0 + g.pick( { g.u( -0.15, 0.0 ), g.u( 0.0, 0.1 ), g.u( -0.3, 0.3 ) } ) ) ) + q.axis * g.s( 2.0 );
    }
    s.cyls.push_back( q );
  }
}
inline void describe( std::ostream& o, const Scene& s )
{
  o.precision( 17 );
  for( int i = 0; i < s.n(); ++i )
  {
    const Body& b = s.bodies[i];
    o << "body" << i << "(x " << b.x.transpose() << " R " << b.R.row( 0 ) << " / " << b.R.row( 1 ) << " / " << b.R.row( 2 ) << " v " << b.v.transpose() << " w " << b.w.transpose() << " m " << b.m << " I " << b.I.transpose() << ( b.fixed ? " kinematic" : "" );
    const Geo& e = s.geo( i );
    if( e.type == SPHERE3 ) o << " sphere " << e.r; else o << ( e.type == BOX3 ? " box " : " mesh " ) << e.h.transpose();
    o << ") ";
  }
  for( auto& p : s.planes ) o << "plane(x " << p.x.transpose() << " n " << p.n.transpose() << " v " << p.v.transpose() << " w " << p.w.transpose() << ") ";
  for( auto& p : s.cyls ) o << "cylinder(x " << p.x.transpose() << " axis " << p.axis.transpose() << " r " << p.r << " spin " << p.spin << ") ";
  if( s.grav.norm() > 0 ) o << "gravity(" << s.grav.transpose() << ") ";
}
inline std::string bytesOf( const RigidBody3DSim& s ) { std::ostringstream o; s.serialize( o ); return o.str(); }
inline std::string bytesOf( const RigidBody3DState& s ) { std::ostringstream o; s.serialize( o ); return o.str(); }
inline std::unique_ptr<RigidBody3DSim> simOf( const Scene& s ) { std::unique_ptr<RigidBody3DSim> p( new RigidBody3DSim ); p->state() = s.build(); return p; }
inline M3 Rof( const VectorXs& q, int i ) { const int n = int( q.size() ) / 12; M3 R; for( int a = 0; a < 3; ++a ) for( int b = 0; b < 3; ++b ) R( a, b ) = q( 3 * n + 9 * i + 3 * a + b ); return R; }
inline void setR( VectorXs& q, int i, const M3& R ) { const int n = int( q.size() ) / 12; for( int a = 0; a < 3; ++a ) for( int b = 0; b < 3; ++b ) q( 3 * n + 9 * i + 3 * a + b ) = R( a, b ); }
inline Vector3s Xof( const VectorXs& q, int i ) { return q.segment<3>( 3 * i ); }
inline Vector3s Wof( const VectorXs& v, int i ) { return v.segment<3>( v.size() / 2 + 3 * i ); }
// Rigid motion of every free body, as an end-of-step configuration
inline VectorXs advance( const Scene& s, const VectorXs& q, double dt )
{
  VectorXs r = q;
  for( int i = 0; i < s.n(); ++i ) if( !s.bodies[i].fixed )
  {
    r.segment<3>( 3 * i ) += dt * s.bodies[i].v;
    setR( r, i, expm( dt * s.bodies[i].w ) * Rof( q, i ) );
  }
  return r;
}
// The discrete Moser-Veselov step has no solution once a body would turn by a radian or more in one step; such steps are not judged
class BoundedDMV final : public UnconstrainedMap
{
public:
  virtual ~BoundedDMV() override = default;
  virtual void flow( const VectorXs& q0, const VectorXs& v0, FlowableSystem& fs, const unsigned it, const scalar& dt, VectorXs& q1, VectorXs& v1 ) override
  {
    const int n = int( q0.size() / 12 );
    VectorXs F( v0.size() );
    fs.computeForce( q0, v0, scalar( it ) * dt, F );
    const VectorXs p = fs.M() * v0 + 0.5 * dt * F;
    for( int i = 0; i < n; ++i )
    {
      if( fs.isKinematicallyScripted( i ) ) continue;
      const double imin = std::min( { fs.M0().valuePtr()[3 * n + 3 * i], fs.M0().valuePtr()[3 * n + 3 * i + 1], fs.M0().valuePtr()[3 * n + 3 * i + 2] } );
      if( !( dt * p.segment<3>( 3 * n + 3 * i ).norm() <= 0.6 * imin ) ) throw Discard{};
    }
    m_map.flow( q0, v0, fs, it, dt, q1, v1 );
  }
  virtual std::string name() const override { return m_map.name(); }
  virtual void serialize( std::ostream& o ) const override { m_map.serialize( o ); }
private:
  DMVMap m_map;
};
inline std::unique_ptr<UnconstrainedMap> genMap( Gen& g, bool anyfixed )
{
  switch( g.w( { 3, 3, anyfixed ? 0 : 2 } ) )
  {
    case 0: return std::unique_ptr<UnconstrainedMap>( new SplitHamMap );
    case 1: return std::unique_ptr<UnconstrainedMap>( new BoundedDMV );
    default: return std::unique_ptr<UnconstrainedMap>( new ExponentialEulerMap );
  }
}
inline void sync( Scene& s, const RigidBody3DState& st )
{
  for( int i = 0; i < s.n(); ++i ) { s.bodies[i].x = Xof( st.q(), i ); s.bodies[i].R = Rof( st.q(), i ); s.bodies[i].v = Xof( st.v(), i ); s.bodies[i].w = Wof( st.v(), i ); }
}
#endif
