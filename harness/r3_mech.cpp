// C37: whole runs of the 3D rigid body simulator against closed-form mechanics
#include "r3_scene.h"
#include "mech_common.h"


namespace
{
struct World3
{
  static const int d = 3;
  static constexpr bool hasSE = true;
  static constexpr bool gsFree = true, gsPlane = true;
  static constexpr double kRot = 0.4;
  static SobogusSolverType solverType() { return SobogusSolverType::RigidBodies3D; }
  static std::unique_ptr<UnconstrainedMap> umap( Gen& g ) { return genMap( g, false ); }
  static mech::V flat( const mech::V& v ) { return v; }
  static mech::V spin( const mech::V& v ) { return v; }
  Scene s;
  RigidBody3DSim sim;
  PythonScripting ps;
  void gravity( const mech::V& a ) { s.grav = a; }
  void round( const mech::V& x, const mech::V& v, const mech::V& w, double r, double m ) { Geo e; e.r = r; s.geos.push_back( e ); s.bodies.push_back( Body{ x, v, w, M3::Identity(), m, Vector3s::Constant( 0.4 * m * r * r ), int( s.geos.size() ) - 1, false } ); }
  void block( const mech::V& x, const mech::V& t, const mech::V& n, const mech::V& half, const mech::V& v, double m )
  {
    Geo e; e.type = BOX3; e.h = half; s.geos.push_back( e );
    M3 R; R.col( 0 ) = t; R.col( 1 ) = n; R.col( 2 ) = t.cross( n );
    s.bodies.push_back( Body{ x, v, Vector3s::Zero(), R, m, m / 3.0 * Vector3s( half.y() * half.y() + half.z() * half.z(), half.x() * half.x() + half.z() * half.z(), half.x() * half.x() + half.y() * half.y() ), int( s.geos.size() ) - 1, false } );
  }
  void plane( const mech::V& x, const mech::V& n, const mech::V& v ) { s.planes.push_back( { x, n, v, Vector3s::Zero() } ); }
  void hollow( const mech::V& x, const mech::V& axis, double r ) { s.cyls.push_back( { x, axis, r, 0.0 } ); }
  void build() { sim.state() = s.build(); }
  mech::V x( int i ) const { return Xof( sim.state().q(), i ); }
  mech::V v( int i ) const { return Xof( sim.state().v(), i ); }
  mech::V w( int i ) const { return Wof( sim.state().v(), i ); }
  double turnError( int i, const mech::V& turn ) const { return ( Rof( sim.state().q(), i ) - expm( turn ) * s.bodies[i].R ).norm(); }
  void free( mech::Run& r ) { sim.flow( ps, ++r.it, r.dtr, *r.umap ); }
  void impact( mech::Run& r ) { sim.flow( ps, ++r.it, r.dtr, *r.umap, *r.op, r.CoR ); }
  void rub( mech::Run& r ) { sim.flow( ps, ++r.it, r.dtr, *r.umap, r.CoR, r.mu, *r.solver, *r.fmap ); }
  void describe( std::ostream& o ) const { ::describe( o, s ); }
};
}
SUBCHECK( "C37", "rb3d_flight", "free flight of 1..3 spinning spheres under gravity for 10..120 steps in every kind of step; always non-trivial", 1000, 15000 ) { mech::flight<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_bounce", "a sphere dropped on a (sliding) floor, up to four bounces; non-trivial when a bounce completes", 600, 8000 ) { mech::bounce<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_rebound", "oblique arrivals of spinning spheres with friction and restitution; non-trivial with friction and slip", 2000, 30000 ) { mech::rebound<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_collide", "two spheres meeting with any offset; always non-trivial", 2000, 30000 ) { mech::collide<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_roll", "a sphere slipping, then rolling on a rough floor or belt; non-trivial with friction and slip", 600, 8000 ) { mech::settle<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_slope", "a sphere on a slope; non-trivial with friction", 600, 8000 ) { mech::slope<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_stack", "a resting column of 1..4 spheres; always non-trivial", 600, 8000 ) { mech::stack<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_cradle", "an elastic blow through 2..6 touching spheres; non-trivial with more than two", 2000, 30000 ) { mech::cradle<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_block", "a box sliding on a floor or slope; non-trivial with friction and slip", 400, 6000 ) { mech::block<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_swing", "a smooth sphere swinging in and sliding along a cylinder; non-trivial with an amplitude above 0.1", 600, 8000 ) { mech::swing<World3>( g, c ); }
SUBCHECK( "C37", "rb3d_tumble", "torque-free tumbling of bodies with three different moments, at two step sizes, against Runge-Kutta; always non-trivial", 400, 6000 )
{
  // Smaller steps come closer to the motion Euler's equations give
  using mech::V;
  const double m = g.u( 0.3, 3.0 );
  Vector3s I( g.u( 0.2, 2.0 ), 0, 0 );
  I.y() = I.x() * g.u( 0.6, 1.4 );
  I.z() = g.u( 1.02 * std::fabs( I.x() - I.y() ), 0.98 * ( I.x() + I.y() ) );
  const M3 R0 = rot3( g );
  const Vector3s w0 = vec3( g, 2.0 );
  const std::unique_ptr<UnconstrainedMap> umap = genMap( g, true ); // the two rotational integrators; exponential Euler leaves out the gyroscopic torque
  const double T = 0.5;
  Scene s;
  Geo e; e.type = BOX3; e.h = Vector3s( 0.5, 0.5, 0.5 );
  s.geos.push_back( e );
  s.bodies.push_back( Body{ Vector3s::Zero(), vec3( g, 2.0 ), w0, R0, m, I, 0, false } );
  c.note( [&]( std::ostream& o ) { describe( o, s ); o << " map " << umap->name(); } );
  c.nontrivial( true );
  // Reference
  Eigen::Quaterniond q( R0 );
  Vector3s L = R0 * I.asDiagonal() * R0.transpose() * w0;
  const auto omega = [&]( const Eigen::Quaterniond& p ) -> Vector3s { const M3 R = p.normalized().toRotationMatrix(); return R * I.cwiseInverse().asDiagonal() * R.transpose() * L; };
  const auto rate = [&]( const Eigen::Vector4d& x ) -> Eigen::Vector4d
  {
    Eigen::Quaterniond p; p.coeffs() = x;
    const Vector3s w = omega( p );
    return 0.5 * ( Eigen::Quaterniond( 0, w.x(), w.y(), w.z() ) * p ).coeffs();
  };
  const int N = 400;
  Eigen::Vector4d x = q.coeffs();
  const double h = T / N;
  for( int i = 0; i < N; ++i )
  {
    const Eigen::Vector4d a = rate( x ), b = rate( x + 0.5 * h * a ), d = rate( x + 0.5 * h * b ), f = rate( x + h * d );
    x += h / 6.0 * ( a + 2 * b + 2 * d + f );
    x.normalize();
  }
  Eigen::Quaterniond qf; qf.coeffs() = x;
  const M3 Rf = qf.toRotationMatrix();
  const Vector3s wf = omega( qf );
  double err[2], werr[2];
  for( int k = 0; k < 2; ++k )
  {
    const int steps = k ? 800 : 200;
    RigidBody3DSim sim;
    sim.state() = s.build();
    PythonScripting ps;
    const Rational<std::intmax_t> dt( 1, 2 * steps );
    for( int i = 1; i <= steps; ++i ) sim.flow( ps, unsigned( i ), dt, *umap );
    err[k] = ( Rof( sim.state().q(), 0 ) - Rf ).norm();
    werr[k] = ( Wof( sim.state().v(), 0 ) - wf ).norm();
    CHECK( ( Xof( sim.state().q(), 0 ) - s.bodies[0].v * T ).norm() <= 1e-9, "a free body left its line" );
  }
  const double W = 1.0 + w0.norm();
  CHECK( err[0] <= 0.02 * W * W && werr[0] <= 0.05 * W * W * W, "after " << T << " s the rotation is " << err[0] << " and the angular velocity " << werr[0] << " away from Euler's equations" );
  CHECK( err[1] <= 0.45 * err[0] + 1e-6 && werr[1] <= 0.45 * werr[0] + 1e-6, "four times smaller steps leave the error of the rotation at " << err[1] << " after " << err[0] << ", of the angular velocity at " << werr[1] << " after " << werr[0] );
}
