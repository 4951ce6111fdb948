// C37: whole runs of the 2D rigid body simulator against closed-form mechanics
#include "r2_scene.h"
#include "mech_common.h"


namespace
{
struct World2
{
  static const int d = 2;
  static constexpr bool hasSE = false;
  static constexpr bool gsFree = false, gsPlane = false;
  static constexpr double kRot = 0.5;
  static SobogusSolverType solverType() { return SobogusSolverType::RigidBody2D; }
  static std::unique_ptr<UnconstrainedMap> umap( Gen& g ) { return genMap( g ); }
  static mech::V flat( const mech::V& v ) { return mech::V( v.x(), v.y(), 0.0 ); }
  static mech::V spin( const mech::V& v ) { return mech::V( 0, 0, v.z() ); }
  Scene s;
  RigidBody2DSim sim;
  PythonScripting ps;
  void gravity( const mech::V& a ) { s.grav = a.head<2>(); }
  void round( const mech::V& x, const mech::V& v, const mech::V& w, double r, double m ) { Geo e; e.r = r; s.geos.push_back( e ); s.add( Body{ x.head<2>(), v.head<2>(), 0.0, w.z(), m, 0.5 * m * r * r, int( s.geos.size() ) - 1, false } ); }
  void block( const mech::V& x, const mech::V& t, const mech::V&, const mech::V& half, const mech::V& v, double m )
  {
    Geo e; e.box = true; e.h = half.head<2>(); s.geos.push_back( e );
    s.add( Body{ x.head<2>(), v.head<2>(), std::atan2( t.y(), t.x() ), 0.0, m, m * ( half.x() * half.x() + half.y() * half.y() ) / 3.0, int( s.geos.size() ) - 1, false } );
  }
  void plane( const mech::V& x, const mech::V& n, const mech::V& v ) { s.planes.push_back( { x.head<2>(), n.head<2>(), v.head<2>(), 0.0 } ); }
  void build() { sim.state() = s.build(); }
  mech::V x( int i ) const { return mech::V( sim.state().q()( 3 * i ), sim.state().q()( 3 * i + 1 ), 0.0 ); }
  mech::V v( int i ) const { return mech::V( sim.state().v()( 3 * i ), sim.state().v()( 3 * i + 1 ), 0.0 ); }
  mech::V w( int i ) const { return mech::V( 0, 0, sim.state().v()( 3 * i + 2 ) ); }
  double turnError( int i, const mech::V& turn ) const { return std::fabs( sim.state().q()( 3 * i + 2 ) - s.bodies[i].th - turn.z() ); }
  void free( mech::Run& r ) { sim.flow( ps, ++r.it, r.dtr, *r.umap ); }
  void impact( mech::Run& r ) { sim.flow( ps, ++r.it, r.dtr, *r.umap, *r.op, r.CoR, *r.imap ); }
  void rub( mech::Run& r ) { sim.flow( ps, ++r.it, r.dtr, *r.umap, r.CoR, r.mu, *r.solver, *r.fmap ); }
  void describe( std::ostream& o ) const { ::describe( o, s ); }
};
}
SUBCHECK( "C37", "rb2d_flight", "free flight of 1..3 discs under gravity for 10..120 steps in every kind of step; always non-trivial", 2000, 30000 ) { mech::flight<World2>( g, c ); }
SUBCHECK( "C37", "rb2d_bounce", "a disc dropped on a (sliding) floor, up to four bounces; non-trivial when a bounce completes", 1000, 15000 ) { mech::bounce<World2>( g, c ); }
SUBCHECK( "C37", "rb2d_rebound", "oblique arrivals of spinning discs with friction and restitution; non-trivial with friction and slip", 3000, 50000 ) { mech::rebound<World2>( g, c ); }
SUBCHECK( "C37", "rb2d_collide", "two discs meeting with any offset; always non-trivial", 3000, 50000 ) { mech::collide<World2>( g, c ); }
SUBCHECK( "C37", "rb2d_roll", "a disc slipping, then rolling on a rough floor or belt; non-trivial with friction and slip", 1000, 15000 ) { mech::settle<World2>( g, c ); }
SUBCHECK( "C37", "rb2d_slope", "a disc on a slope; non-trivial with friction", 1000, 15000 ) { mech::slope<World2>( g, c ); }
SUBCHECK( "C37", "rb2d_stack", "a resting column of 1..4 discs; always non-trivial", 1000, 15000 ) { mech::stack<World2>( g, c ); }
SUBCHECK( "C37", "rb2d_cradle", "an elastic blow through 2..6 touching discs; non-trivial with more than two", 3000, 50000 ) { mech::cradle<World2>( g, c ); }
SUBCHECK( "C37", "rb2d_block", "a box sliding on a floor or slope; non-trivial with friction and slip", 600, 10000 ) { mech::block<World2>( g, c ); }
