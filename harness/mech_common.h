// Whole runs against the closed-form solutions of mechanics, written once for the three simulators.
// A World is one scene of round bodies (and, where the simulator has them, blocks) with planes and gravity, in 3-vectors
// (the plane simulators use z = 0). Everything runs through the simulator's own step functions.
#ifndef VERIF_MECH_COMMON_H
#define VERIF_MECH_COMMON_H
#include "step_common.h"

namespace mech
{
using pbt::Gen;
using pbt::Ctx;
using V = Eigen::Vector3d;

struct Run
{
  Rational<std::intmax_t> dtr;
  double dt = 0.0;
  unsigned it = 0;
  std::unique_ptr<UnconstrainedMap> umap;
  std::unique_ptr<ImpactOperator> op;
  std::unique_ptr<ImpactMap> imap;
  std::unique_ptr<FrictionSolver> solver;
  std::unique_ptr<ImpactFrictionMap> fmap;
  double CoR = 0.0, mu = 0.0;
  FrictionSetup su;
};
template<class W> Run start( Gen& g, const std::vector<int>& rates )
{
  Run r;
  r.dtr = Rational<std::intmax_t>( 1, rates[size_t( g.i( 0, int( rates.size() ) - 1 ) )] );
  r.dt = scalar( r.dtr );
  r.umap = W::umap( g );
  r.imap.reset( new ImpactMap( g.b( 0.5 ) ) );
  return r;
}
template<class W> void friction( Gen& g, Run& r, bool cor )
{
  r.su.map = W::hasSE && !cor ? g.pick( { FMap::Geometric, FMap::Stabilized, FMap::SymplecticEuler } ) : g.pick( { FMap::Geometric, FMap::Stabilized } );
  r.su.cache = g.pick( { ImpulsesToCache::NONE, ImpulsesToCache::NORMAL } );
  r.su.tol = 1e-10;
  r.solver.reset( new Sobogus( W::solverType(), 10 ) );
  r.fmap = r.su.make();
}
inline std::unique_ptr<ImpactOperator> operators( Gen& g, bool gs, bool reflect )
{
  LCPOperatorAPGD lcp( 1e-12, 20000 );
  const double vtol = 1e-9;
  switch( g.w( { 3, gs ? 2 : 0, reflect ? 2 : 0, reflect ? 2 : 0 } ) )
  {
    case 0: return lcp.clone();
    case 1: return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator( vtol ) );
    case 2: return std::unique_ptr<ImpactOperator>( new GROperator( vtol, lcp ) );
    default: { GROperator el( vtol, lcp ); return std::unique_ptr<ImpactOperator>( new GRROperator( el, lcp ) ); }
  }
}
// Right-handed axes: up, and two tangents (the plane simulators keep the last along z)
template<class W> void axes( Gen& g, V& n, V& t, V& b )
{
  if( W::d == 2 )
  {
    const double th = g.b( 0.3 ) ? 1.5707963267948966 * g.i( 0, 3 ) : g.s( 3.2 );
    t = V( std::cos( th ), std::sin( th ), 0.0 );
    b = V( 0, 0, g.b() ? 1.0 : -1.0 );
    n = b.cross( t );
    return;
  }
  Eigen::Quaterniond q( g.u( 0.05, 1.0 ), g.s(), g.s(), g.s() );
  q.normalize();
  if( g.b( 0.3 ) ) q.setIdentity();
  n = q * V( 0, 1, 0 );
  t = q * V( 1, 0, 0 );
  b = t.cross( n );
}
template<class W> V origin( Gen& g ) { const double x = g.s( 3.0 ), y = g.s( 3.0 ), z = g.s( 3.0 ); return V( x, y, W::d == 3 ? z : 0.0 ); }
inline std::string str( const V& v ) { std::ostringstream o; o.precision( 12 ); o << "(" << v.transpose() << ")"; return o.str(); }
#define MECH_NEAR( got, want, tol, what ) CHECK( ( ( got ) - ( want ) ).norm() <= ( tol ), what << " is " << mech::str( got ) << " where mechanics gives " << mech::str( want ) << " (tolerance " << ( tol ) << ")" )
#define MECH_NEAR1( got, want, tol, what ) CHECK( std::fabs( ( got ) - ( want ) ) <= ( tol ), what << " is " << ( got ) << " where mechanics gives " << ( want ) << " (tolerance " << ( tol ) << ")" )

// Parabola and steady spin
template<class W> void flight( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 50, 100, 200 } );
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const double G = g.u( 1.0, 10.0 );
  w.gravity( -G * n );
  const int k = g.i( 1, 3 );
  std::vector<V> x0, v0, w0;
  for( int i = 0; i < k; ++i )
  {
    x0.push_back( origin<W>( g ) + 100.0 * i * t );
    v0.push_back( W::flat( g.s( 4.0 ) * n + g.s( 4.0 ) * t + g.s( 4.0 ) * b ) );
    w0.push_back( W::spin( g.s( 3.0 ) * n + g.s( 3.0 ) * t + g.s( 3.0 ) * b ) );
    w.round( x0.back(), v0.back(), w0.back(), g.u( 0.2, 1.0 ), g.u( 0.3, 3.0 ) );
  }
  w.build();
  const int mode = g.i( 0, 2 ), steps = g.i( 10, 120 );
  r.op = operators( g, W::gsFree, true );
  r.CoR = g.u();
  friction<W>( g, r, false );
  r.mu = g.u();
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " map " << r.umap->name() << " mode " << mode << " steps " << steps; } );
  c.nontrivial( true );
  for( int s = 0; s < steps; ++s )
  {
    if( mode == 0 ) w.free( r );
    else if( mode == 1 ) w.impact( r );
    else w.rub( r );
  }
  const double T = steps * r.dt;
  for( int i = 0; i < k; ++i )
  {
    const double vs = v0[i].norm() + G * T;
    MECH_NEAR( w.v( i ), V( v0[i] - G * T * n ), 1e-9 * ( 1 + vs ), "the velocity of body " << i << " after " << T << " s" );
    MECH_NEAR( w.x( i ), V( x0[i] + v0[i] * T - 0.5 * G * T * T * n ), 0.5001 * G * T * r.dt + 1e-9 * ( 1 + x0[i].norm() + vs * T ), "the position of body " << i << " after " << T << " s" );
    MECH_NEAR( w.w( i ), w0[i], 1e-7, "the spin of body " << i << " after " << T << " s" );
    const double s = w0[i].norm();
    CHECK( w.turnError( i, V( w0[i] * T ) ) <= s * s * s * r.dt * r.dt * T + 1e-7, "body " << i << " turned away from its steady spin by " << w.turnError( i, V( w0[i] * T ) ) );
  }
}

// Drop on a floor: each bounce keeps CoR^2 of the height, the velocity along the floor and the spin
template<class W> void bounce( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 500, 1000, 2000 } );
  r.op = operators( g, W::gsPlane, true );
  r.CoR = g.pick( { 1.0, 0.5, g.u( 0.3, 1.0 ), g.u( 0.3, 1.0 ) } );
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const double G = g.u( 2.0, 10.0 ), h = g.u( 0.1, 0.6 ), R = g.u( 0.2, 1.0 ), sl = g.s( 2.0 );
  const V x0 = origin<W>( g ), u = W::flat( sl * t + g.s( 2.0 ) * b ), w0 = W::spin( g.s( 3.0 ) * n + g.s( 3.0 ) * t + g.s( 3.0 ) * b );
  w.gravity( -G * n );
  const V vp = W::flat( g.s( 2.0 ) * t + g.s( 2.0 ) * b );
  w.plane( x0, n, g.b( 0.3 ) ? vp : V( 0, 0, 0 ) );
  w.round( x0 + ( R + h ) * n, u, w0, R, g.u( 0.3, 3.0 ) );
  w.build();
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " map " << r.umap->name() << " op " << r.op->name() << " CoR " << r.CoR << " g " << G << " h " << h; } );
  const double vmaxi = std::sqrt( 2 * G * h );
  int bounces = 0;
  double apex = 0.0, before = -1.0, T = 0.0;
  while( bounces < 4 && r.it < 4000 )
  {
    w.impact( r );
    T += r.dt;
    const double vn = w.v( 0 ).dot( n ), y = ( w.x( 0 ) - x0 ).dot( n ) - R;
    CHECK( y >= -2.0 * G * r.dt * r.dt - 1e-9, "body sank " << -y << " into the floor" );
    MECH_NEAR( V( w.v( 0 ) - vn * n ), u, 1e-9 * ( 1 + vmaxi ), "the velocity along the floor" );
    MECH_NEAR( w.w( 0 ), w0, 1e-7, "the spin" );
    if( before < 0.0 && vn > 0.0 )
    {
      ++bounces;
      apex = 0.0;
      // fall time, then twice CoR^k of it
      double when = 1.0;
      for( int k = 1; k < bounces; ++k ) when += 2.0 * std::pow( r.CoR, k );
      MECH_NEAR1( T, when * vmaxi / G, ( 2.0 + 2.5 * bounces * ( bounces + 1 ) ) * r.dt, "the time of bounce " << bounces );
    }
    apex = std::max( apex, y );
    if( bounces && before > 0.0 && vn <= 0.0 )
    {
      const double want = std::pow( r.CoR, 2 * bounces ) * h, tol = 3.0 * ( bounces + 1 ) * vmaxi * r.dt + 4 * G * r.dt * r.dt;
      MECH_NEAR1( apex, want, tol, "the height of bounce " << bounces );
      c.nontrivial( true );
      if( want < 5 * tol ) break;
    }
    before = vn;
  }
  CHECK( bounces > 0, "the body never bounced" );
}

// Oblique arrival of a spinning body with friction: Coulomb's rebound
template<class W> void rebound( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 100, 1000 } );
  friction<W>( g, r, true );
  r.CoR = g.pick( { 0.0, 1.0, g.u(), g.u() } );
  r.mu = g.pick( { 0.0, g.u(), g.u( 0.0, 0.4 ), g.u( 0.0, 2.0 ) } );
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const double R = g.u( 0.2, 1.0 ), dist = g.u( 0.05, 0.3 );
  const V x0 = origin<W>( g ), v0 = W::flat( -g.u( 0.5, 3.0 ) * n + g.s( 3.0 ) * t + g.s( 3.0 ) * b ), w0 = W::spin( g.s( 4.0 ) * n + g.s( 4.0 ) * t + g.s( 4.0 ) * b );
  const V vp = g.b( 0.4 ) ? W::flat( g.s( 2.0 ) * t + g.s( 2.0 ) * b ) : V( 0, 0, 0 );
  w.plane( x0, n, vp );
  w.round( x0 + ( R + dist ) * n + g.s( 1.0 ) * t, v0, w0, R, g.u( 0.3, 3.0 ) );
  w.build();
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " map " << r.umap->name() << " fmap " << int( r.su.map ) << " CoR " << r.CoR << " mu " << r.mu; } );
  const int steps = int( dist / -v0.dot( n ) / r.dt ) + 3;
  for( int s = 0; s < steps; ++s ) w.rub( r );
  // Per unit mass
  const double jn = ( 1.0 + r.CoR ) * -v0.dot( n ), k = W::kRot;
  const V arm = -R * n, slip = V( v0 - v0.dot( n ) * n + ( k > 0.0 ? w0.cross( arm ) : V( 0, 0, 0 ) ) - vp ), tn = slip - slip.dot( n ) * n;
  const double stick = tn.norm() * ( k > 0.0 ? k / ( 1.0 + k ) : 1.0 ), jt = std::min( r.mu * jn, stick );
  c.label( r.mu == 0.0 ? "smooth" : r.mu * jn < stick ? "slips" : "grips" );
  c.nontrivial( r.mu > 0.0 && tn.norm() > 1e-3 );
  const V j = jn * n - ( tn.norm() > 0.0 ? V( jt * tn / tn.norm() ) : V( 0, 0, 0 ) );
  const double tol = 1e-4 * ( 1 + v0.norm() + w0.norm() * R + vp.norm() );
  MECH_NEAR( w.v( 0 ), V( v0 + j ), tol, "the velocity after the rebound" );
  if( k > 0.0 ) MECH_NEAR( w.w( 0 ), V( w0 + arm.cross( j ) / ( k * R * R ) ), tol / R, "the spin after the rebound" );
}

// Two free bodies meet: momentum is exchanged along the line of centres
template<class W> void collide( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 1000, 4000 } );
  r.op = operators( g, W::gsFree, true );
  r.CoR = g.pick( { 0.0, 1.0, g.u(), g.u() } );
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const double R0 = g.u( 0.2, 1.0 ), R1 = g.u( 0.2, 1.0 ), m0 = g.u( 0.3, 3.0 ), m1 = g.u( 0.3, 3.0 ), S = R0 + R1, sp = g.u( 0.5, 3.0 );
  const V x0 = origin<W>( g ), cm = W::flat( g.s( 2.0 ) * n + g.s( 2.0 ) * t + g.s( 2.0 ) * b );
  V miss = W::flat( g.s( 0.7 ) * t + ( W::d == 3 ? g.s( 0.5 ) : 0.0 ) * b );
  if( miss.norm() > 0.8 ) miss *= 0.8 / miss.norm();
  const double gap = g.u( 0.02, 0.2 ), along = std::sqrt( 1.0 - miss.squaredNorm() ) * S;
  // Body 1 approaches body 0 along -n
  const V v0 = cm, v1 = cm - sp * n;
  const V w0 = W::spin( g.s( 3.0 ) * n + g.s( 3.0 ) * b ), w1 = W::spin( g.s( 3.0 ) * t + g.s( 3.0 ) * b );
  w.round( x0, v0, w0, R0, m0 );
  w.round( x0 + ( along + gap ) * n + S * miss, v1, w1, R1, m1 );
  w.build();
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " op " << r.op->name() << " CoR " << r.CoR; } );
  const int steps = int( gap / sp / r.dt ) + 5;
  const int mode = g.b( 0.4 ) ? 1 : 0; // a friction map without friction has to agree
  if( mode ) { friction<W>( g, r, true ); r.mu = 0.0; }
  for( int s = 0; s < steps; ++s ) { if( mode ) w.rub( r ); else w.impact( r ); }
  c.nontrivial( true );
  const V u = ( along * n + S * miss ) / S;
  const double j = ( 1.0 + r.CoR ) * m0 * m1 / ( m0 + m1 ) * -( v1 - v0 ).dot( u );
  const double tol = 6.0 * sp * ( sp * r.dt / S ) / std::max( 0.5, along / S ) * std::max( 1.0, std::max( m0 / m1, m1 / m0 ) ) + 1e-6;
  MECH_NEAR( w.v( 0 ), V( v0 - j / m0 * u ), tol, "the velocity of the struck body" );
  MECH_NEAR( w.v( 1 ), V( v1 + j / m1 * u ), tol, "the velocity of the striking body" );
  const double sep = ( w.x( 1 ) - w.x( 0 ) ).norm() - S;
  CHECK( sep >= -2.0 * sp * r.dt - 1e-9, "the bodies overlap by " << -sep );
  MECH_NEAR( w.w( 0 ), w0, 1e-6, "the spin of a frictionless body" );
  MECH_NEAR( w.w( 1 ), w1, 1e-6, "the spin of a frictionless body" );
}

// A body on a rough floor or belt goes from slipping to rolling (or, without rotation, to rest on the belt)
template<class W> void settle( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 200, 500, 1000 } );
  friction<W>( g, r, false );
  r.mu = g.pick( { 0.0, g.u( 0.05, 0.6 ), g.u( 0.05, 0.6 ), g.u( 0.05, 0.6 ) } );
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const double G = g.u( 2.0, 10.0 ), R = g.u( 0.2, 1.0 ), T = g.u( 0.1, 0.5 ), k = W::kRot;
  const V x0 = origin<W>( g ), v0 = W::flat( g.s( 2.0 ) * t + g.s( 2.0 ) * b ), w0 = W::spin( g.s( 4.0 ) * n + g.s( 4.0 ) * t + g.s( 4.0 ) * b ), vp = g.b( 0.5 ) ? W::flat( g.s( 2.0 ) * t + g.s( 2.0 ) * b ) : V( 0, 0, 0 );
  w.gravity( -G * n );
  w.plane( x0, n, vp );
  w.round( x0 + R * n + W::flat( g.s( 3.0 ) * t + g.s( 3.0 ) * b ), v0, w0, R, g.u( 0.3, 3.0 ) );
  w.build();
  const V p0 = w.x( 0 );
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " map " << r.umap->name() << " fmap " << int( r.su.map ) << " mu " << r.mu << " g " << G << " T " << T; } );
  const int steps = int( T / r.dt );
  for( int s = 0; s < steps; ++s ) w.rub( r );
  const double time = steps * r.dt;
  const V arm = -R * n, slip = v0 + ( k > 0.0 ? w0.cross( arm ) : V( 0, 0, 0 ) ) - vp, u = slip - slip.dot( n ) * n;
  const double a = r.mu * G, troll = a > 0.0 ? u.norm() / ( a * ( k > 0.0 ? 1.0 + 1.0 / k : 1.0 ) ) : 1e300, ts = std::min( troll, time );
  c.label( troll < time ? "rolls" : "still slips" );
  c.nontrivial( r.mu > 0.0 && u.norm() > 0.05 );
  const V f = u.norm() > 0.0 ? V( -a * u / u.norm() ) : V( 0, 0, 0 );
  const V got = w.v( 0 ) - w.v( 0 ).dot( n ) * n;
  const double tol = 2.0 * a * r.dt + 1e-5 * ( 1 + v0.norm() + w0.norm() * R );
  MECH_NEAR( got, V( v0 + f * ts ), tol, "the velocity after " << time << " s" );
  if( k > 0.0 ) MECH_NEAR( w.w( 0 ), V( w0 + arm.cross( f ) * ts / ( k * R * R ) ), tol / ( k * R ) + 1e-5, "the spin after " << time << " s" );
  const V dx = w.x( 0 ) - p0;
  MECH_NEAR( V( dx - dx.dot( n ) * n ), V( v0 * time + f * ( ts * time - 0.5 * ts * ts ) ), r.dt * ( a * time + 2 * a * r.dt + 1e-3 ) + 1e-4 * time * ( 1 + v0.norm() + w0.norm() * R ), "the distance covered in " << time << " s" );
  CHECK( std::fabs( dx.dot( n ) ) <= 1.01 * G * r.dt * time + 2 * G * r.dt * r.dt + 1e-9, "the body left the floor or sank by " << dx.dot( n ) );
}

// Release on a slope: rests, rolls or slips
template<class W> void slope( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 200, 500, 1000 } );
  friction<W>( g, r, false );
  r.mu = g.pick( { 0.0, g.u( 0.0, 0.3 ), g.u( 0.0, 1.5 ), g.u( 0.0, 1.5 ) } );
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const double G = g.u( 2.0, 10.0 ), R = g.u( 0.2, 1.0 ), T = g.u( 0.1, 0.5 ), k = W::kRot, th = g.u( 0.05, 1.2 );
  const V x0 = origin<W>( g );
  const double push = k > 0.0 ? 0.0 : g.pick( { 0.0, g.s( 1.0 ) } );
  w.gravity( -G * std::cos( th ) * n + G * std::sin( th ) * t );
  w.plane( x0, n, V( 0, 0, 0 ) );
  w.round( x0 + R * n + W::flat( g.s( 3.0 ) * t + g.s( 3.0 ) * b ), push * t, V( 0, 0, 0 ), R, g.u( 0.3, 3.0 ) );
  w.build();
  const V p0 = w.x( 0 );
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " map " << r.umap->name() << " fmap " << int( r.su.map ) << " mu " << r.mu << " g " << G << " slope " << th << " T " << T; } );
  const int steps = int( T / r.dt );
  for( int s = 0; s < steps; ++s ) w.rub( r );
  const double time = steps * r.dt, gs = G * std::sin( th ), gn = G * std::cos( th ) * r.mu;
  double vt, dist;
  if( k > 0.0 )
  {
    const double acc = std::max( gs / ( 1.0 + k ), gs - gn );
    c.label( gs / ( 1.0 + k ) >= gs - gn ? "rolls" : "slips" );
    vt = acc * time;
    dist = 0.5 * acc * time * time;
    const double fr = gs - acc; // friction, uphill
    MECH_NEAR( w.w( 0 ), V( ( -R * n ).cross( -fr * t ) * time / ( k * R * R ) ), ( 2 * fr * r.dt + 1e-5 * ( 1 + vt ) ) / ( k * R ), "the spin after " << time << " s" );
  }
  else
  {
    // uphill motion is braked first
    double v = push, x = 0.0, left = time;
    if( v < 0.0 )
    {
      const double d = gs + gn, tt = std::min( left, -v / d );
      x += v * tt + 0.5 * d * tt * tt; v += d * tt; left -= tt;
      if( left > 0.0 ) v = 0.0;
    }
    if( left > 0.0 )
    {
      const double d = gs - gn;
      const double tt = d < 0.0 ? std::min( left, v / -d ) : left;
      x += v * tt + 0.5 * d * tt * tt; v += d * tt;
      if( d < 0.0 && tt < left ) v = 0.0;
    }
    c.label( gs > gn ? "slides" : "sticks" );
    vt = v; dist = x;
  }
  c.nontrivial( r.mu > 0.0 );
  const V got = w.v( 0 ) - w.v( 0 ).dot( n ) * n, dx = w.x( 0 ) - p0;
  const double ac = gs + gn;
  MECH_NEAR( got, V( vt * t ), 2.0 * ac * r.dt + 1e-5 * ( 1 + vt ), "the velocity after " << time << " s" );
  MECH_NEAR( V( dx - dx.dot( n ) * n ), V( dist * t ), r.dt * ( ac * time + 4 * ac * r.dt + 1e-3 ) + 1e-4 * time, "the distance covered in " << time << " s" );
  CHECK( std::fabs( dx.dot( n ) ) <= 1.01 * G * r.dt * time + 2 * G * r.dt * r.dt + 1e-9, "the body left the slope or sank by " << dx.dot( n ) );
}

// A column stands still
template<class W> void stack( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 200, 500, 1000 } );
  const int mode = g.i( 0, 1 );
  r.op = operators( g, W::gsPlane, true );
  friction<W>( g, r, false );
  r.mu = g.u( 0.0, 1.0 );
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const double G = g.u( 2.0, 10.0 ), T = g.u( 0.05, 0.3 );
  const V x0 = origin<W>( g );
  w.gravity( -G * n );
  w.plane( x0, n, V( 0, 0, 0 ) );
  const int k = g.i( 1, 4 );
  double h = 0.0;
  const double R = g.u( 0.3, 1.0 );
  for( int i = 0; i < k; ++i ) { const double Ri = R * g.u( 0.7, 1.3 ); w.round( x0 + ( h + Ri ) * n, V( 0, 0, 0 ), V( 0, 0, 0 ), Ri, g.u( 0.3, 2.0 ) ); h += 2.0 * Ri; }
  w.build();
  std::vector<V> p0;
  for( int i = 0; i < k; ++i ) p0.push_back( w.x( i ) );
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " map " << r.umap->name() << " op " << r.op->name() << " fmap " << int( r.su.map ) << " mode " << mode << " g " << G << " mu " << r.mu << " T " << T; } );
  const int steps = int( T / r.dt );
  for( int s = 0; s < steps; ++s ) { if( mode ) w.rub( r ); else w.impact( r ); }
  c.nontrivial( true );
  for( int i = 0; i < k; ++i )
  {
    MECH_NEAR( w.x( i ), p0[i], 2.0 * G * r.dt * T + 4 * G * r.dt * r.dt + 1e-5, "the place of body " << i << " of a resting column" );
    CHECK( w.v( i ).norm() <= 3.1 * G * r.dt + 1e-3, "body " << i << " of a resting column moves with " << str( w.v( i ) ) );
    CHECK( w.w( i ).norm() <= 1e-3, "body " << i << " of a resting column spins with " << str( w.w( i ) ) );
  }
}

// Newton's cradle: an elastic blow travels through a chain of touching bodies one contact at a time
template<class W> void cradle( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 100, 1000 } );
  LCPOperatorAPGD lcp( 1e-12, 20000 );
  const int kind = W::gsFree ? g.i( 0, 2 ) : g.i( 1, 2 );
  if( kind == 0 ) r.op.reset( new GaussSeidelOperator( 1e-7 ) );
  else if( kind == 1 ) r.op.reset( new GROperator( 1e-7, lcp ) );
  else { GROperator el( 1e-7, lcp ); r.op.reset( new GRROperator( el, lcp ) ); }
  r.CoR = 1.0;
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const int k = g.i( 2, 6 );
  const V x0 = origin<W>( g ), drift = W::flat( g.s( 2.0 ) * n + g.s( 2.0 ) * t );
  const double R = g.u( 0.2, 1.0 ), sp = g.u( 0.5, 3.0 ), gap = g.u( 0.01, 0.1 );
  const bool equal = g.b();
  double m = g.u( 0.5, 3.0 );
  std::vector<double> ms, want( size_t( k ), 0.0 );
  for( int i = 0; i < k; ++i )
  {
    ms.push_back( m );
    // a hair of overlap keeps neighbours in contact
    w.round( x0 + ( 2.0 * R * ( 1.0 - 1e-9 ) * i - ( i == 0 ? gap : 0.0 ) ) * n, drift + ( i == 0 ? sp : 0.0 ) * n, V( 0, 0, 0 ), R, m );
    if( !equal ) m *= g.u( 0.5, 0.95 );
  }
  w.build();
  want[0] = sp;
  for( int i = 0; i + 1 < k; ++i ) { const double u = want[i]; want[i] = ( ms[i] - ms[i + 1] ) / ( ms[i] + ms[i + 1] ) * u; want[i + 1] = 2.0 * ms[i] / ( ms[i] + ms[i + 1] ) * u; }
  for( int i = 0; i + 1 < k; ++i ) if( want[i] > want[i + 1] + 1e-9 ) throw pbt::Discard{}; // they would meet again
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " op " << r.op->name(); } );
  const int steps = int( gap / sp / r.dt ) + 4;
  for( int s = 0; s < steps; ++s ) w.impact( r );
  c.nontrivial( k > 2 );
  for( int i = 0; i < k; ++i ) MECH_NEAR( w.v( i ), V( drift + want[i] * n ), 1e-5 * ( 1 + sp ), "the velocity of body " << i << " of the chain" );
}

// A smooth round body swings in a smooth hollow cylinder: a pendulum of length (hollow radius - body radius), free along the axis
template<class W> void swing( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 2000, 4000 } );
  const int mode = g.i( 0, 1 );
  r.op = operators( g, false, false );
  friction<W>( g, r, true );
  r.mu = 0.0;
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const double G = g.u( 2.0, 10.0 ), R = g.u( 0.2, 0.5 ), hollow = R * g.u( 2.0, 4.0 ), L = hollow - R, a0 = g.s( 1.2 ), slide = W::d == 3 ? g.s( 1.0 ) : 0.0;
  const V x0 = origin<W>( g ), w0 = W::spin( g.s( 2.0 ) * n + g.s( 2.0 ) * b );
  w.gravity( -G * n );
  w.hollow( x0, b, hollow );
  w.round( x0 + L * ( std::sin( a0 ) * t - std::cos( a0 ) * n ) + slide * b, slide * b, w0, R, g.u( 0.3, 3.0 ) );
  w.build();
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " map " << r.umap->name() << " op " << r.op->name() << " fmap " << int( r.su.map ) << " mode " << mode << " g " << G << " hollow " << hollow << " axis " << str( b ) << " a0 " << a0; } );
  c.nontrivial( std::fabs( a0 ) > 0.1 );
  const double T = g.u( 0.1, 0.6 );
  const int steps = int( T / r.dt );
  for( int s = 0; s < steps; ++s ) { if( mode ) w.rub( r ); else w.impact( r ); }
  // The pendulum by Runge-Kutta
  double a = a0, wa = 0.0;
  const int fine = 4 * steps;
  const double h = steps * r.dt / fine;
  const auto acc = [&]( double x ) { return -G / L * std::sin( x ); };
  for( int s = 0; s < fine; ++s )
  {
    const double k1 = acc( a ), k2 = acc( a + 0.5 * h * wa ), k3 = acc( a + 0.5 * h * wa + 0.25 * h * h * k1 ), k4 = acc( a + h * wa + 0.5 * h * h * k2 );
    a += h * wa + h * h / 6.0 * ( k1 + k2 + k3 );
    wa += h / 6.0 * ( k1 + 2 * k2 + 2 * k3 + k4 );
  }
  const double om = std::sqrt( G / L ), time = steps * r.dt, vm = 2.0 * L * om, tol = r.dt * ( 2.0 * G * time + vm * ( 2.0 + 4.0 * om * time + 4.0 * om * om * time * time ) ) + 1e-5;
  const V want = x0 + L * ( std::sin( a ) * t - std::cos( a ) * n ) + slide * ( 1.0 + time ) * b;
  MECH_NEAR( w.x( 0 ), want, tol, "the place of the swinging body after " << time << " s" );
  MECH_NEAR( w.v( 0 ), V( L * wa * ( std::cos( a ) * t + std::sin( a ) * n ) + slide * b ), 2.0 * om * tol, "the velocity of the swinging body after " << time << " s" );
  MECH_NEAR( w.w( 0 ), w0, 1e-6, "the spin of a smooth body" );
}

// A wide block slides on a floor or slope without turning, and stops
template<class W> void block( Gen& g, Ctx& c )
{
  Run r = start<W>( g, { 200, 500 } );
  friction<W>( g, r, false );
  if( r.su.map == FMap::SymplecticEuler ) r.su.map = FMap::Geometric;
  r.su.cache = ImpulsesToCache::NONE; // these contacts have no cache
  r.fmap = r.su.make();
  r.mu = g.pick( { 0.0, g.u( 0.05, 0.8 ), g.u( 0.05, 0.8 ) } );
  W w;
  V n, t, b;
  axes<W>( g, n, t, b );
  const double G = g.u( 2.0, 10.0 ), T = g.u( 0.05, 0.3 ), hn = g.u( 0.1, 0.3 );
  const V half( hn * g.u( 3.0, 5.0 ), hn, hn * g.u( 3.0, 5.0 ) );
  const bool inclined = g.b( 0.4 );
  const double th = inclined ? g.u( 0.05, 0.8 ) : 0.0;
  const V x0 = origin<W>( g ), vp = V( 0, 0, 0 ); // (moving planes only carry round bodies)
  const V v0 = inclined ? V( g.u( 0.0, 1.0 ) * t ) : W::flat( g.s( 2.0 ) * t + g.s( 2.0 ) * b );
  w.gravity( -G * std::cos( th ) * n + G * std::sin( th ) * t );
  w.plane( x0, n, vp );
  w.block( x0 + hn * n + W::flat( g.s( 2.0 ) * t + g.s( 2.0 ) * b ), t, n, half, v0, g.u( 0.3, 3.0 ) );
  w.build();
  const V p0 = w.x( 0 );
  c.note( [&]( std::ostream& o ) { w.describe( o ); o << " dt " << r.dt << " map " << r.umap->name() << " fmap " << int( r.su.map ) << " mu " << r.mu << " g " << G << " slope " << th << " T " << T; } );
  const int steps = int( T / r.dt );
  for( int s = 0; s < steps; ++s ) w.rub( r );
  const double time = steps * r.dt, fr = r.mu * G * std::cos( th ), gs = G * std::sin( th );
  const V u = v0 - vp;
  V want, dist;
  const double dec = inclined ? fr - gs : fr; // slowing along u
  const V dirn = inclined ? t : u.norm() > 0.0 ? V( u / u.norm() ) : V( 0, 0, 0 );
  const double tt = dec > 0.0 ? std::min( time, u.norm() / dec ) : time;
  want = v0 - dec * tt * dirn;
  dist = v0 * time - dec * ( tt * time - 0.5 * tt * tt ) * dirn;
  c.label( dec > 0.0 && tt < time ? "stops" : "slides" );
  c.nontrivial( r.mu > 0.0 && u.norm() > 0.05 );
  const V got = w.v( 0 ) - w.v( 0 ).dot( n ) * n, dx = w.x( 0 ) - p0;
  const double ac = fr + gs;
  MECH_NEAR( got, want, 3.0 * ac * r.dt + 1e-3 * ( 1 + v0.norm() ), "the velocity of the block after " << time << " s" );
  MECH_NEAR( V( dx - dx.dot( n ) * n ), dist, r.dt * ( ac * time + 6 * ac * r.dt + 1e-3 ) + 1e-3 * time * ( 1 + v0.norm() ), "the distance the block covered in " << time << " s" );
  CHECK( std::fabs( dx.dot( n ) ) <= 1.5 * G * r.dt * time + 4 * G * r.dt * r.dt + 1e-6, "the block left the floor or sank by " << dx.dot( n ) );
  CHECK( w.turnError( 0, V( 0, 0, 0 ) ) <= 2e-3, "the block turned by " << w.turnError( 0, V( 0, 0, 0 ) ) );
}
}
#endif
