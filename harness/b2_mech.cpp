// C37: whole runs of the ball simulator against closed-form mechanics
#include "b2_scene.h"
#include "mech_common.h"


namespace
{
struct World2
{
  static const int d = 2;
  static constexpr bool hasSE = true;
  static constexpr bool gsFree = true, gsPlane = false;
  static constexpr double kRot = 0.0; // balls of the plane simulator do not rotate
  static SobogusSolverType solverType() { return SobogusSolverType::Balls2D; }
  static std::unique_ptr<UnconstrainedMap> umap( Gen& g ) { return genMap( g ); }
  static mech::V flat( const mech::V& v ) { return mech::V( v.x(), v.y(), 0.0 ); }
  static mech::V spin( const mech::V& ) { return mech::V( 0, 0, 0 ); }
  Ball2DSim sim;
  PythonScripting ps;
  void gravity( const mech::V& a ) { sim.state().forces().emplace_back( new Ball2DGravityForce( a.head<2>() ) ); }
  void round( const mech::V& x, const mech::V& v, const mech::V&, double r, double m ) { sim.state().pushBallBack( x.head<2>(), v.head<2>(), r, m, false ); }
  void plane( const mech::V& x, const mech::V& n, const mech::V& v ) { sim.state().staticPlanes().emplace_back( Vector2s( x.head<2>() ), Vector2s( n.head<2>() ) ); sim.state().staticPlanes().back().v() = v.head<2>(); }
  void hollow( const mech::V& x, const mech::V&, double r ) { sim.state().staticDrums().emplace_back( Vector2s( x.head<2>() ), r ); }
  void build() {}
  mech::V x( int i ) const { return mech::V( sim.state().q()( 2 * i ), sim.state().q()( 2 * i + 1 ), 0.0 ); }
  mech::V v( int i ) const { return mech::V( sim.state().v()( 2 * i ), sim.state().v()( 2 * i + 1 ), 0.0 ); }
  mech::V w( int ) const { return mech::V( 0, 0, 0 ); }
  double turnError( int, const mech::V& ) const { return 0.0; }
  void free( mech::Run& r ) { sim.flow( ps, ++r.it, r.dtr, *r.umap ); }
  void impact( mech::Run& r ) { sim.flow( ps, ++r.it, r.dtr, *r.umap, *r.op, r.CoR, *r.imap ); }
  void rub( mech::Run& r ) { sim.flow( ps, ++r.it, r.dtr, *r.umap, r.CoR, r.mu, *r.solver, *r.fmap ); }
  void describe( std::ostream& o ) const { ::describe( o, sim.state() ); }
};
}
SUBCHECK( "C37", "ball2d_flight", "free flight of 1..3 balls under gravity for 10..120 steps in every kind of step; always non-trivial", 2000, 30000 ) { mech::flight<World2>( g, c ); }
SUBCHECK( "C37", "ball2d_bounce", "a ball dropped on a (sliding) floor, up to four bounces; non-trivial when a bounce completes", 1000, 15000 ) { mech::bounce<World2>( g, c ); }
SUBCHECK( "C37", "ball2d_rebound", "oblique arrivals with friction and restitution; non-trivial with friction and slip", 3000, 50000 ) { mech::rebound<World2>( g, c ); }
SUBCHECK( "C37", "ball2d_collide", "two balls meeting with any offset; always non-trivial", 3000, 50000 ) { mech::collide<World2>( g, c ); }
SUBCHECK( "C37", "ball2d_slide", "a ball sliding on a rough floor or belt; non-trivial with friction and slip", 1000, 15000 ) { mech::settle<World2>( g, c ); }
SUBCHECK( "C37", "ball2d_slope", "a ball on a slope; non-trivial with friction", 1000, 15000 ) { mech::slope<World2>( g, c ); }
SUBCHECK( "C37", "ball2d_stack", "a resting column of 1..4 balls; always non-trivial", 1000, 15000 ) { mech::stack<World2>( g, c ); }
SUBCHECK( "C37", "ball2d_cradle", "an elastic blow through 2..6 touching balls; non-trivial with more than two", 3000, 50000 ) { mech::cradle<World2>( g, c ); }
SUBCHECK( "C37", "ball2d_swing", "a smooth ball swinging in a drum; non-trivial with an amplitude above 0.1", 1000, 15000 ) { mech::swing<World2>( g, c ); }
SUBCHECK( "C37", "ball2d_spring", "two balls meeting through a linear penalty force, or one ball ringing between two; non-trivial when the contact ends", 1000, 15000 )
{
  // While they overlap the balls are masses on a spring: half an oscillation, then they part with the velocities of an elastic collision
  using mech::V;
  mech::Run r;
  V n, t, b;
  mech::axes<World2>( g, n, t, b );
  const double k = g.logu( 10.0, 1000.0 ), m0 = g.u( 0.3, 3.0 ), m1 = g.u( 0.3, 3.0 ), red = m0 * m1 / ( m0 + m1 ), om = std::sqrt( k / red ), R0 = g.u( 0.5, 1.0 ), R1 = g.u( 0.5, 1.0 );
  const double sp = g.u( 0.05, 0.3 ) * R0 * om; // deepest overlap is sp / om
  const int rate = int( std::ceil( om * g.u( 100.0, 300.0 ) ) );
  r.dtr = Rational<std::intmax_t>( 1, rate );
  r.dt = scalar( r.dtr );
  r.umap = World2::umap( g );
  World2 w;
  const V x0 = mech::origin<World2>( g ), drift = World2::flat( g.s( 2.0 ) * n + g.s( 2.0 ) * t );
  w.sim.state().forces().emplace_back( new PenaltyForce( k, 2.0 ) );
  w.round( x0, drift, V( 0, 0, 0 ), R0, m0 );
  w.round( x0 + ( R0 + R1 ) * n, drift - sp * n, V( 0, 0, 0 ), R1, m1 );
  const double T = M_PI / om * g.pick( { g.u( 0.1, 0.95 ), 1.1, 1.5 } );
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " map " << r.umap->name() << " k " << k << " T " << T; } );
  const int steps = int( T / r.dt );
  for( int s = 0; s < steps; ++s ) w.free( r );
  const double time = steps * r.dt, ph = om * time;
  c.nontrivial( true );
  double dist, rel; // of the surfaces, along n
  if( ph < M_PI ) { dist = -sp / om * std::sin( ph ); rel = -sp * std::cos( ph ); }
  else { rel = sp; dist = sp * ( time - M_PI / om ); }
  const double tol = 4.0 * ( 1.0 + ph ) * om * r.dt * sp;
  MECH_NEAR( V( w.v( 1 ) - w.v( 0 ) ), V( rel * n ), tol + 1e-9, "the relative velocity " << time << " s after the meeting" );
  MECH_NEAR( V( w.x( 1 ) - w.x( 0 ) ), V( ( R0 + R1 + dist ) * n ), tol / om + 1e-9, "the relative place " << time << " s after the meeting" );
  MECH_NEAR( V( m0 * w.v( 0 ) + m1 * w.v( 1 ) ), V( ( m0 + m1 ) * drift - m1 * sp * n ), 1e-9 * ( m0 + m1 ) * ( 1 + sp + drift.norm() ), "the momentum" );
}
