// 3D rigid bodies: C06 broad phase, C09 contact detection, C10 contact kinematics, C17 mass, C18/C19 portals, C23 geometry queries
#include "r3_scene.h"

SUBCHECK( "C06", "rb3d_grid", "1..40 boxes, biased to touching, lattice aligned and equal placements; grid and all-pairs detectors; non-trivial when at least one pair overlaps", 60000, 600000 )
{
  const auto boxes = genBoxes<3>( g );
  std::vector<AABB> a( boxes.size() );
  for( size_t i = 0; i < boxes.size(); ++i ) { a[i].min() = boxes[i].lo; a[i].max() = boxes[i].hi; }
  std::set<std::pair<unsigned, unsigned>> got, all;
  SpatialGridDetector::getPotentialOverlaps( a, got );
  checkPairs<3>( c, boxes, got, "grid" );
  SpatialGridDetector::getPotentialOverlapsAllPairs( a, all );
  checkPairs<3>( c, boxes, all, "all pairs" );
  for( size_t i = 0; i < std::min<size_t>( 6, boxes.size() ); ++i ) for( size_t j = 0; j < std::min<size_t>( 6, boxes.size() ); ++j ) CHECK( a[i].overlaps( a[j] ) == boxesOverlap<3>( boxes[i], boxes[j] ), "overlap test of two boxes" );
}

// ---------------------------------------------------------------------------------------------------- box against box
namespace
{
struct Axis { Vector3s n; double sep; int kind; int i, j; }; // kind 0: face of box 0, 1: face of box 1, 2: edges
double sepAlong( const Vector3s& n, const Vector3s& x0, const M3& R0, const Vector3s& h0, const Vector3s& x1, const M3& R1, const Vector3s& h1 )
{
  return std::fabs( n.dot( x1 - x0 ) ) - ( R0.transpose() * n ).cwiseAbs().dot( h0 ) - ( R1.transpose() * n ).cwiseAbs().dot( h1 );
}
std::vector<Axis> boxAxes( const Vector3s& x0, const M3& R0, const Vector3s& h0, const Vector3s& x1, const M3& R1, const Vector3s& h1 )
{
  std::vector<Axis> r;
  const auto add = [&]( const Vector3s& n, int kind, int i, int j ) { r.push_back( { n, sepAlong( n, x0, R0, h0, x1, R1, h1 ), kind, i, j } ); };
  for( int i = 0; i < 3; ++i ) { add( R0.col( i ), 0, i, -1 ); add( R1.col( i ), 1, i, -1 ); }
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
  {
    const Vector3s cr = R0.col( i ).cross( R1.col( j ) );
    if( cr.norm() > 1e-6 ) add( cr.normalized(), 2, i, j );
  }
  return r;
}
double boxBoxGap( const Vector3s& x0, const M3& R0, const Vector3s& h0, const Vector3s& x1, const M3& R1, const Vector3s& h1 )
{
  double g = -1e300;
  for( auto& a : boxAxes( x0, R0, h0, x1, R1, h1 ) ) g = std::max( g, a.sep );
  return g;
}
// Clips a polygon to { p : d.(p-o) <= h }
std::vector<Vector3s> clip( const std::vector<Vector3s>& in, const Vector3s& d, const Vector3s& o, double h )
{
  std::vector<Vector3s> out;
  for( size_t i = 0; i < in.size(); ++i )
  {
    const Vector3s &a = in[i], &b = in[( i + 1 ) % in.size()];
    const double fa = d.dot( a - o ) - h, fb = d.dot( b - o ) - h;
    if( fa <= 0.0 ) out.push_back( a );
    if( ( fa < 0.0 && fb > 0.0 ) || ( fa > 0.0 && fb < 0.0 ) ) out.push_back( a + ( b - a ) * ( fa / ( fa - fb ) ) );
  }
  return out;
}
bool inPolygon( const std::vector<Vector3s>& poly, const Vector3s& nrm, const Vector3s& p, double tol )
{
  if( poly.empty() ) return false;
  if( std::fabs( nrm.dot( p - poly[0] ) ) > tol ) return false;
  double area = 0.0;
  for( size_t i = 1; i + 1 < poly.size(); ++i ) area += nrm.dot( ( poly[i] - poly[0] ).cross( poly[i + 1] - poly[0] ) );
  const double sg = area < 0.0 ? -1.0 : 1.0;
  for( size_t i = 0; i < poly.size(); ++i )
  {
    const Vector3s a = poly[i], e = poly[( i + 1 ) % poly.size()] - a;
    if( e.norm() < 1e-7 ) continue;
    if( sg * nrm.dot( e.normalized().cross( p - a ) ) < -tol ) return false;
  }
  return true;
}
// Judges the manifold of two boxes; n points from box 1 to box 0. Returns true when they overlap.
bool checkBoxBox( Ctx& c, const Vector3s& x0, const M3& R0, const Vector3s& h0, const Vector3s& x1, const M3& R1, const Vector3s& h1, const Vector3s& n, const std::vector<Vector3s>& pts, double band, const std::string& what )
{
  const auto axes = boxAxes( x0, R0, h0, x1, R1, h1 );
  double gap = -1e300;
  for( auto& a : axes ) gap = std::max( gap, a.sep );
  if( gap > band ) { CHECK( pts.empty(), what << " are " << gap << " apart but " << pts.size() << " contact points were generated" ); return false; }
  if( gap > -band ) return false;
  CHECK( !pts.empty(), what << " overlap by " << -gap << " but no contact was generated" );
  CHECK( pts.size() <= 8, what << ": " << pts.size() << " contact points" );
  CHECK( near( n.norm(), 1.0, 1e-9 ), what << " normal not unit" );
  const double P = -sepAlong( n, x0, R0, h0, x1, R1, h1 );
  CHECK( P <= 1.05 * -gap + 1e-6, what << " are pushed apart along a direction with penetration " << P << " although " << -gap << " is possible" );
  CHECK( n.dot( x0 - x1 ) >= -1e-7, what << " normal points the wrong way" );
  if( n.dot( x0 - x1 ) < 1e-6 ) return true; // either direction is right
  const double tol = 1e-6;
  bool ok = false, judged = false;
  std::ostringstream why;
  why.precision( 17 );
  for( int ref = 0; ref < 2; ++ref )
  {
    const Vector3s xa = ref ? x1 : x0, xb = ref ? x0 : x1, ha = ref ? h1 : h0, hb = ref ? h0 : h1, out = ref ? n : Vector3s( -n );
    const M3 Ra = ref ? R1 : R0, Rb = ref ? R0 : R1;
    for( int k = 0; k < 3; ++k )
    {
      if( std::fabs( Ra.col( k ).dot( out ) ) < 1.0 - 1e-12 ) continue;
      const Vector3s nb = Rb.transpose() * out;
      for( int f = 0; f < 3; ++f )
      {
        if( std::fabs( nb( f ) ) < nb.cwiseAbs().maxCoeff() - 1e-9 ) continue;
        judged = true;
        const int a1 = ( f + 1 ) % 3, a2 = ( f + 2 ) % 3, k1 = ( k + 1 ) % 3, k2 = ( k + 2 ) % 3;
        const Vector3s fc = xb - ( nb( f ) > 0.0 ? 1.0 : -1.0 ) * hb( f ) * Rb.col( f );
        const Vector3s e1 = hb( a1 ) * Rb.col( a1 ), e2 = hb( a2 ) * Rb.col( a2 );
        std::vector<Vector3s> poly = { fc - e1 - e2, fc + e1 - e2, fc + e1 + e2, fc - e1 + e2 };
        for( int s = -1; s <= 1; s += 2 ) { poly = clip( poly, s * Ra.col( k1 ), xa, ha( k1 ) ); poly = clip( poly, s * Ra.col( k2 ), xa, ha( k2 ) ); }
        const auto depth = [&]( const Vector3s& p ) { return ha( k ) - out.dot( p - xa ); };
        bool good = true;
        for( auto& p : pts )
        {
          if( !inPolygon( poly, Rb.col( f ), p, tol ) ) { good = false; why << " [point " << p.transpose() << " not on the incident face inside the reference face " << ref << k << "/" << f << "]"; }
          if( depth( p ) < -tol ) { good = false; why << " [point " << p.transpose() << " does not penetrate]"; }
        }
        std::vector<Vector3s> u;
        for( auto& p : poly ) { bool dup = false; for( auto& e : u ) if( ( e - p ).norm() < 1e-5 ) dup = true; if( !dup ) u.push_back( p ); }
        for( size_t i = 0; i < u.size(); ++i )
        {
          if( depth( u[i] ) < tol ) continue;
          if( u.size() > 2 )
          {
            const Vector3s pr = u[( i + u.size() - 1 ) % u.size()], nx = u[( i + 1 ) % u.size()];
            if( ( nx - pr ).normalized().cross( u[i] - pr ).norm() < 1e-5 ) continue; // in the middle of a side
          }
          bool found = false;
          for( auto& p : pts ) if( ( p - u[i] ).norm() < 1e-4 ) found = true;
          if( !found ) { good = false; why << " [corner " << u[i].transpose() << " of the contact area missing]"; }
        }
        if( good ) ok = true;
      }
    }
  }
  for( auto& a : axes )
  {
    if( a.kind != 2 || std::fabs( a.n.dot( n ) ) < 1.0 - 1e-10 ) continue;
    const Vector3s d = -n; // from box 0 to box 1
    Vector3s pa = x0, pb = x1;
    bool amb = false;
    for( int k = 0; k < 3; ++k )
    {
      const double s0 = d.dot( R0.col( k ) ), s1 = d.dot( R1.col( k ) );
      if( k != a.i ) { if( std::fabs( s0 ) < 1e-9 ) amb = true; pa += ( s0 > 0.0 ? 1.0 : -1.0 ) * h0( k ) * R0.col( k ); }
      if( k != a.j ) { if( std::fabs( s1 ) < 1e-9 ) amb = true; pb -= ( s1 > 0.0 ? 1.0 : -1.0 ) * h1( k ) * R1.col( k ); }
    }
    const Vector3s ua = R0.col( a.i ), ub = R1.col( a.j );
    const double uv = ua.dot( ub );
    if( amb || 1.0 - uv * uv < 1e-3 ) { ok = true; judged = true; continue; }
    judged = true;
    Eigen::Matrix2d A; A << 1.0, -uv, uv, -1.0;
    const Eigen::Vector2d st = A.inverse() * Eigen::Vector2d( ua.dot( pb - pa ), ub.dot( pb - pa ) );
    const Vector3s p = 0.5 * ( pa + st( 0 ) * ua + pb + st( 1 ) * ub );
    if( pts.size() == 1 && ( pts[0] - p ).norm() <= 1e-6 ) ok = true;
    else why << " [edge contact at " << p.transpose() << "]";
  }
  if( !judged ) FAILCASE( what << " normal " << n.transpose() << " is neither a face normal nor orthogonal to two edges" );
  std::ostringstream got;
  got.precision( 17 );
  for( auto& p : pts ) got << " (" << p.transpose() << ")";
  CHECK( ok, what << " contact points" << got.str() << " normal " << n.transpose() << ":" << why.str() );
  return true;
}
struct BoxPair { Vector3s x0, x1, h0, h1; M3 R0, R1; };
BoxPair genBoxPair( Gen& g )
{
  BoxPair b;
  b.h0 = Vector3s( g.mix( 0.2, 2.0 ), g.mix( 0.2, 2.0 ), g.mix( 0.2, 2.0 ) );
  b.h1 = g.b( 0.3 ) ? b.h0 : Vector3s( g.mix( 0.2, 2.0 ), g.mix( 0.2, 2.0 ), g.mix( 0.2, 2.0 ) );
  b.R0 = rot3( g );
  switch( g.w( { 3, 2, 2, 4 } ) )
  {
    case 0: b.R1 = b.R0; break;
    case 1: { b.R1 = b.R0 * Eigen::AngleAxis<double>( M_PI / 2.0 * g.i( 0, 3 ), Vector3s( Vector3s::Unit( g.i( 0, 2 ) ) ) ).toRotationMatrix(); break; }
    case 2: b.R1 = Eigen::AngleAxis<double>( g.u( -M_PI, M_PI ), dir3( g ) ).toRotationMatrix() * b.R0; break;
    default: b.R1 = rot3( g );
  }
  b.x0 = vec3( g, 3.0 );
  // Place the second box along one of the candidate axes at a chosen gap
  const auto ax = boxAxes( b.x0, b.R0, b.h0, b.x0, b.R1, b.h1 );
  const Axis a = ax[g.raw( ax.size() )];
  Vector3s t = g.b( 0.3 ) ? Vector3s( 0, 0, 0 ) : vec3( g, 1.5 );
  t -= t.dot( a.n ) * a.n;
  const double ext = -a.sep;
  b.x1 = b.x0 + ( g.b() ? 1.0 : -1.0 ) * a.n * ext * ( 1.0 + g.pick( { g.u( -0.3, 0.0 ), g.u( -0.05, 0.0 ), g.u( -0.8, 0.0 ), g.u( 0.0, 0.2 ), 0.0 } ) ) + t;
  return b;
}
void describePair( std::ostream& o, const BoxPair& b )
{
  o.precision( 17 );
  o << "box(x " << b.x0.transpose() << " R " << b.R0.row( 0 ) << " / " << b.R0.row( 1 ) << " / " << b.R0.row( 2 ) << " h " << b.h0.transpose() << ") box(x " << b.x1.transpose() << " R " << b.R1.row( 0 ) << " / " << b.R1.row( 1 ) << " / " << b.R1.row( 2 ) << " h " << b.h1.transpose() << ")";
}
}

SUBCHECK( "C23", "rb3d_box_box", "pairs of boxes of any size and orientation (equal, right-angle, nearly equal and general rotations) placed along each of the fifteen candidate axes with touching, overlapping and missing gaps; non-trivial when they overlap", 60000, 600000 )
{
  const BoxPair b = genBoxPair( g );
  c.note( [&]( std::ostream& o ) { describePair( o, b ); } );
  if( ( b.x0 - b.x1 ).norm() < 1e-3 ) throw Discard{};
  Vector3s n( 0, 0, 0 );
  std::vector<Vector3s> pts;
  BoxBoxUtilities::isActive( b.x0, Matrix33sr( b.R0 ), b.h0, b.x1, Matrix33sr( b.R1 ), b.h1, n, pts );
  c.nontrivial( checkBoxBox( c, b.x0, b.R0, b.h0, b.x1, b.R1, b.h1, n, pts, 1e-7, "boxes" ) );
}

SUBCHECK( "C23", "rb3d_segments", "pairs of segments: general, parallel, nearly parallel, collinear, sharing end points, of zero length; minimum distance recomputed in extended precision; non-trivial when both have length", 100000, 1000000 )
{
  const double m = g.pick( { 1.0, 1.0, 10.0 } );
  Vector3s p1 = vec3( g, m ), d1 = dir3( g ) * g.logu( 0.01, 5.0 ), p2 = vec3( g, m ), d2 = dir3( g ) * g.logu( 0.01, 5.0 );
  switch( g.w( { 5, 2, 2, 1, 1, 1 } ) )
  {
    case 1: d2 = d1 * g.pick( { 1.0, -1.0, g.s( 2.0 ), 0.5 } ); break;
    case 2: d2 = expm( dir3( g ) * g.logu( 1e-9, 1e-2 ) ) * d1 * g.pick( { 1.0, -1.0, g.s( 2.0 ) } ); break;
    case 3: d2 = d1 * g.s( 2.0 ); p2 = p1 + d1 * g.s( 2.0 ); break;
    case 4: p2 = p1 + d1 * g.lat( 0.0, 1.0, 4 ); break;
    case 5: if( g.b() ) d1.setZero(); else d2.setZero(); if( g.b( 0.2 ) ) { d1.setZero(); d2.setZero(); } break;
    default: break;
  }
  // Segments below the documented length threshold are points
  if( ( d1.norm() > 0 && d1.norm() < 1e-3 ) || ( d2.norm() > 0 && d2.norm() < 1e-3 ) ) throw Discard{};
  const Vector3s q1 = p1 + d1, q2 = p2 + d2;
  c.note( [&]( std::ostream& o ) { o.precision( 17 ); o << p1.transpose() << " | " << q1.transpose() << " ; " << p2.transpose() << " | " << q2.transpose(); } );
  c.nontrivial( d1.norm() > 0 && d2.norm() > 0 );
  double s = -1, t = -1;
  Vector3s c1, c2;
  const double dd = CollisionUtilities::closestPointSegmentSegment( p1, q1, p2, q2, s, t, c1, c2 );
  const double sc = 1.0 + m + d1.norm() + d2.norm();
  CHECK( s >= 0.0 && s <= 1.0 && t >= 0.0 && t <= 1.0, "parameters " << s << " " << t );
  CHECK( ( c1 - ( p1 + s * d1 ) ).norm() <= 1e-12 * sc && ( c2 - ( p2 + t * d2 ) ).norm() <= 1e-12 * sc, "points do not match the parameters" );
  CHECK( near( dd, ( c1 - c2 ).squaredNorm(), 1e-12, 1.0 ), "squared distance" );
  // Oracle
  using V3 = Eigen::Matrix<L, 3, 1>;
  const V3 P1 = p1.cast<L>(), D1 = d1.cast<L>(), P2 = p2.cast<L>(), D2 = d2.cast<L>();
  L best = 1e300L;
  const auto ptseg = []( const V3& p, const V3& a, const V3& d ) -> L
  {
    const L dd2 = d.squaredNorm();
    L u = dd2 > 0 ? ( p - a ).dot( d ) / dd2 : 0;
    u = std::min<L>( 1, std::max<L>( 0, u ) );
    return ( p - a - u * d ).norm();
  };
  best = std::min( std::min( ptseg( P1, P2, D2 ), ptseg( P1 + D1, P2, D2 ) ), std::min( ptseg( P2, P1, D1 ), ptseg( P2 + D2, P1, D1 ) ) );
  const L a = D1.squaredNorm(), e = D2.squaredNorm(), b = D1.dot( D2 ), den = a * e - b * b;
  if( den > 1e-16L * a * e && a > 0 && e > 0 )
  {
    const V3 r = P1 - P2;
    const L cc = D1.dot( r ), f = D2.dot( r ), S = ( b * f - cc * e ) / den, T = ( a * f - b * cc ) / den;
    if( S >= 0 && S <= 1 && T >= 0 && T <= 1 ) best = std::min( best, ( P1 + S * D1 - P2 - T * D2 ).norm() );
  }
  CHECK( std::sqrt( dd ) <= double( best ) + 2e-7 * sc, "points at distance " << std::sqrt( dd ) << " but the segments come within " << double( best ) );
}

SUBCHECK( "C23", "rb3d_box_sphere", "box and sphere placements around faces, edges and corners, with the sphere's centre outside the box; non-trivial when they overlap", 60000, 600000 )
{
  const Vector3s h( g.mix( 0.2, 2.0 ), g.mix( 0.2, 2.0 ), g.mix( 0.2, 2.0 ) ), xb = vec3( g, 3.0 );
  const M3 R = rot3( g );
  const double r = g.mix( 0.1, 2.0 );
  Vector3s u;
  for( int k = 0; k < 3; ++k ) u( k ) = g.pick( { g.s( h( k ) ), h( k ) + r * g.u( 0.0, 1.2 ), -h( k ) - r * g.u( 0.0, 1.2 ), g.s( 4.0 ) } );
  Vector3s cl = u;
  for( int k = 0; k < 3; ++k ) cl( k ) = std::min( h( k ), std::max( -h( k ), u( k ) ) );
  const double d = ( u - cl ).norm();
  if( d < 1e-3 || std::fabs( d - r ) < 1e-7 ) throw Discard{};
  const Vector3s xs = xb + R * u;
  c.note( [&]( std::ostream& o ) { o.precision( 17 ); o << "box " << xb.transpose() << " h " << h.transpose() << " R " << R.row( 0 ) << " / " << R.row( 1 ) << " / " << R.row( 2 ) << " sphere " << xs.transpose() << " r " << r; } );
  std::vector<Vector3s> p, n;
  CollisionUtilities::computeBoxSphereActiveSet( xb, Matrix33sc( R ), h, xs, r, p, n );
  c.nontrivial( d < r );
  CHECK( p.size() == size_t( d < r ) && n.size() == p.size(), p.size() << " contacts at distance " << d << " with radius " << r );
  if( d < r )
  {
    CHECK( ( p[0] - ( xb + R * cl ) ).norm() <= 1e-9, "closest point" );
    CHECK( ( n[0] - R * ( cl - u ) / d ).norm() <= 1e-9, "normal from the sphere to the box" );
  }
}

SUBCHECK( "C23", "rb3d_bounds", "bounding boxes of spheres, boxes, meshes and staples in any orientation, and bounding box and sphere of whole scenes; non-trivial with a non-trivial rotation", 40000, 400000 )
{
  Scene s;
  SceneOpts o;
  o.nmax = 5;
  genBodies( g, s, g.pick( { SPHERES, BOXES, MESHES } ), o );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  RigidBody3DSim sim;
  sim.state() = s.build();
  Array3s lo = Array3s::Constant( 1e300 ), hi = -lo;
  for( int i = 0; i < s.n(); ++i )
  {
    const Geo& e = s.geo( i );
    const Body& b = s.bodies[i];
    if( ( b.R - M3::Identity() ).norm() > 1e-6 ) c.nontrivial( true );
    Array3s ext = Array3s::Constant( e.r );
    if( e.type != SPHERE3 ) ext = ( b.R.cwiseAbs() * e.h ).array();
    Array3s mn, mx;
    sim.state().getGeometryOfBody( unsigned( i ) ).computeAABB( b.x, Matrix33sr( b.R ), mn, mx );
    CHECK( ( ( mn - ( b.x.array() - ext ) ).abs() <= 1e-9 ).all() && ( ( mx - ( b.x.array() + ext ) ).abs() <= 1e-9 ).all(), "bounding box of body " << i << ": " << mn.transpose() << " | " << mx.transpose() );
    lo = lo.min( b.x.array() - ext );
    hi = hi.max( b.x.array() + ext );
    const double vol = e.type == SPHERE3 ? 4.0 / 3.0 * M_PI * e.r * e.r * e.r : 8.0 * e.h.prod();
    CHECK( near( sim.state().getGeometryOfBody( unsigned( i ) ).volume(), vol, 1e-12, vol ), "volume of body " << i );
  }
  double a, b, cc, d, e, f;
  sim.computeBoundingBox( a, b, cc, d, e, f );
  CHECK( near( a, lo( 0 ), 1e-9 ) && near( b, hi( 0 ), 1e-9 ) && near( cc, lo( 1 ), 1e-9 ) && near( d, hi( 1 ), 1e-9 ) && near( e, lo( 2 ), 1e-9 ) && near( f, hi( 2 ), 1e-9 ), "scene bounding box" );
  double r;
  Vector3s ctr;
  sim.computeBoundingSphere( r, ctr );
  CHECK( ( ctr.array() - 0.5 * ( lo + hi ) ).matrix().norm() <= 1e-9 && near( r, 0.5 * ( hi - lo ).matrix().norm(), 1e-9 ), "scene bounding sphere" );
  // Staples
  const double D = g.u( 0.05, 0.5 ), w = D + g.u( 0.1, 2.0 ), l = D + g.u( 0.1, 2.0 );
  RigidBodyStaple st( w, l, D );
  const M3 R = rot3( g );
  const Vector3s x = vec3( g, 3.0 );
  Array3s mn, mx, el = Array3s::Constant( 1e300 ), eh = -el;
  st.clone()->computeAABB( x, Matrix33sr( R ), mn, mx );
  CHECK( st.points().size() == 4 && st.r() == 0.5 * D, "staple parameters" );
  for( auto& p : st.points() ) { el = el.min( ( x + R * p ).array() - 0.5 * D ); eh = eh.max( ( x + R * p ).array() + 0.5 * D ); }
  CHECK( ( ( mn - el ).abs() <= 1e-9 ).all() && ( ( mx - eh ).abs() <= 1e-9 ).all(), "bounding box of a staple " << mn.transpose() << " | " << mx.transpose() << " expected " << el.transpose() << " | " << eh.transpose() );
  // The skeleton spans the outer width and length, open at one side
  CHECK( near( ( st.points()[0] - st.points()[1] ).norm(), l - D, 1e-12 ) && near( ( st.points()[1] - st.points()[2] ).norm(), w - D, 1e-12 ) && near( ( st.points()[2] - st.points()[3] ).norm(), l - D, 1e-12 ) && near( ( st.points()[0] - st.points()[3] ).norm(), w - D, 1e-12 ), "staple skeleton" );
}

SUBCHECK( "C23", "rb3d_staples", "pairs of staples near each other, and a staple against a half space; judged by the distance between their skeletons; non-trivial when they overlap", 40000, 400000 )
{
  const double D0 = g.u( 0.05, 0.5 ), w0 = D0 + g.u( 0.1, 2.0 ), l0 = D0 + g.u( 0.1, 2.0 );
  const double D1 = g.u( 0.05, 0.5 ), w1 = D1 + g.u( 0.1, 2.0 ), l1 = D1 + g.u( 0.1, 2.0 );
  RigidBodyStaple a( w0, l0, D0 ), b( w1, l1, D1 );
  const M3 R0 = rot3( g ), R1 = rot3( g );
  const Vector3s x0 = vec3( g, 1.0 );
  Vector3s x1 = vec3( g, 2.0 );
  // Bring one point of each skeleton together, then move apart by about the sum of the radii
  const auto onSkel = [&]( const RigidBodyStaple& s ) -> Vector3s { const int e = g.i( 0, 2 ); const double t = g.pick( { 0.0, 1.0, g.u() } ); return ( 1.0 - t ) * s.points()[e] + t * s.points()[e + 1]; };
  x1 = x0 + R0 * onSkel( a ) - R1 * onSkel( b ) + dir3( g ) * ( a.r() + b.r() ) * g.u( 0.6, 1.4 );
  c.note( [&]( std::ostream& o ) { o.precision( 17 ); o << w0 << " " << l0 << " " << D0 << " / " << w1 << " " << l1 << " " << D1 << " x " << x0.transpose() << " | " << x1.transpose(); } );
  double best = 1e300;
  for( int e = 0; e < 3; ++e ) for( int f = 0; f < 3; ++f )
  {
    const Vector3s p1 = x0 + R0 * a.points()[e], d1 = R0 * ( a.points()[e + 1] - a.points()[e] ), p2 = x1 + R1 * b.points()[f], d2 = R1 * ( b.points()[f + 1] - b.points()[f] );
    const auto ptseg = []( const Vector3s& p, const Vector3s& o, const Vector3s& d ) { double u = ( p - o ).dot( d ) / d.squaredNorm(); u = std::min( 1.0, std::max( 0.0, u ) ); return ( p - o - u * d ).norm(); };
    best = std::min( { best, ptseg( p1, p2, d2 ), ptseg( p1 + d1, p2, d2 ), ptseg( p2, p1, d1 ), ptseg( p2 + d2, p1, d1 ) } );
    const double aa = d1.squaredNorm(), ee = d2.squaredNorm(), bb = d1.dot( d2 ), den = aa * ee - bb * bb;
    if( den > 1e-10 * aa * ee )
    {
      const Vector3s r = p1 - p2;
      const double S = ( bb * d2.dot( r ) - d1.dot( r ) * ee ) / den, T = ( aa * d2.dot( r ) - bb * d1.dot( r ) ) / den;
      if( S >= 0 && S <= 1 && T >= 0 && T <= 1 ) best = std::min( best, ( p1 + S * d1 - p2 - T * d2 ).norm() );
    }
  }
  const double gap = best - a.r() - b.r();
  if( std::fabs( gap ) > 1e-6 )
  {
    c.nontrivial( gap < 0.0 );
    CHECK( StapleStapleUtilities::isActive( x0, Matrix33sr( R0 ), a, x1, Matrix33sr( R1 ), b ) == ( gap < 0.0 ), "staples with gap " << gap );
  }
  const Vector3s n = dir3( g ), px = x0 + R0 * onSkel( a ) - n * a.r() * g.u( 0.5, 1.5 );
  std::vector<int> got, want;
  bool fuzzy = false;
  for( int i = 0; i < 4; ++i ) { const double d = n.dot( x0 + R0 * a.points()[i] - px ) - a.r(); if( std::fabs( d ) < 1e-9 ) fuzzy = true; if( d <= 0.0 ) want.push_back( i ); }
  StapleStapleUtilities::computeStapleHalfPlaneActiveSet( x0, Matrix33sr( R0 ), a, px, n, got );
  if( !fuzzy ) CHECK( got == want, "staple corners below a plane" );
}

SUBCHECK( "C23", "rb3d_mesh_field", "points inside, outside and on the boundary of a mesh's distance grid; value and gradient recomputed by trilinear interpolation; non-trivial when the point is inside the mesh", 40000, 400000 )
{
  const Vector3s h( g.mix( 0.2, 1.2 ), g.mix( 0.2, 1.2 ), g.mix( 0.2, 1.2 ) );
  MeshData m = boxMesh( g, h );
  if( g.b( 0.3 ) ) for( int i = 0; i < m.sdf.size(); ++i ) m.sdf( i ) = g.s( 1.0 );
  const auto geo = m.make();
  const RigidBodyTriangleMesh& mesh = static_cast<const RigidBodyTriangleMesh&>( *geo );
  for( int rep = 0; rep < 4; ++rep )
  {
    Vector3s x;
    for( int k = 0; k < 3; ++k )
    {
      const double u = g.pick( { g.u( 0.0, 1.0 ), g.u( 0.0, 1.0 ), g.u( -0.2, 1.2 ), 1.0, 0.0, double( g.i( 0, int( m.dims( k ) ) - 1 ) ) / double( m.dims( k ) - 1 ) } );
      x( k ) = m.origin( k ) + u * ( m.end()( k ) - m.origin( k ) );
      if( u == 1.0 ) x( k ) = m.end()( k );
    }
    double d = 0.0, edge = 0.0;
    Vector3s gr;
    const bool in = m.field( x, d, gr, &edge );
    c.note( [&]( std::ostream& o ) { o.precision( 17 ); o << "h " << h.transpose() << " dims " << m.dims.transpose() << " origin " << m.origin.transpose() << " end " << m.end().transpose() << " x " << x.transpose() << " inside grid " << in << " distance " << d; } );
    // Points within rounding of the grid's boundary may count as inside or outside
    bool rim = false;
    for( int k = 0; k < 3; ++k ) { const double u = ( x( k ) - m.origin( k ) ) / m.delta( k ); if( std::fabs( u ) < 1e-9 || std::fabs( u - double( m.dims( k ) - 1 ) ) < 1e-9 ) rim = true; }
    Vector3s n( 7, 7, 7 );
    const bool hit = mesh.detectCollision( x, n );
    if( rim && !hit ) continue;
    if( !in ) { if( !rim ) CHECK( !hit, "a point outside the distance grid collides" ); continue; }
    if( std::fabs( d ) < 1e-9 ) continue;
    CHECK( hit == ( d < 0.0 ), "point with signed distance " << d << " collides: " << hit );
    if( hit )
    {
      c.nontrivial( true );
      if( gr.norm() < 1e-6 ) continue;
      CHECK( near( n.norm(), 1.0, 1e-9 ), "mesh normal not unit" );
      // The gradient jumps between cells
      if( edge > 1e-9 && gr.norm() > 1e-6 ) CHECK( ( n - gr.normalized() ).norm() <= 1e-7, "mesh normal " << n.transpose() << " but the field's gradient is " << gr.normalized().transpose() );
    }
  }
}

// ---------------------------------------------------------------------------------------------------- mass
namespace
{
// Exact integrals of a closed triangle mesh by signed tetrahedra
void meshIntegrals( const Matrix3Xsc& v, const Matrix3Xuc& f, double& vol, Vector3s& cm, M3& I )
{
  L V = 0;
  Eigen::Matrix<L, 3, 1> C = Eigen::Matrix<L, 3, 1>::Zero();
  Eigen::Matrix<L, 3, 3> S = Eigen::Matrix<L, 3, 3>::Zero(), canon;
  canon.setConstant( 1.0L / 120.0L );
  for( int i = 0; i < 3; ++i ) canon( i, i ) = 1.0L / 60.0L;
  for( int t = 0; t < f.cols(); ++t )
  {
    Eigen::Matrix<L, 3, 3> A;
    for( int k = 0; k < 3; ++k ) A.col( k ) = v.col( f( k, t ) ).cast<L>();
    const L det = A.determinant();
    V += det / 6;
    C += det / 24 * ( A.col( 0 ) + A.col( 1 ) + A.col( 2 ) );
    S += det * ( A * canon * A.transpose() );
  }
  C /= V;
  S -= V * C * C.transpose();
  vol = double( V );
  cm = C.cast<double>();
  const Eigen::Matrix<L, 3, 3> J = S.trace() * Eigen::Matrix<L, 3, 3>::Identity() - S;
  I = J.cast<double>();
}
// Cylinder of mass m, radius r, length l about the centre, axis along e
M3 cylInertia( double m, double r, double l, const Vector3s& e )
{
  const double a = 0.5 * m * r * r, t = m * ( 3.0 * r * r + l * l ) / 12.0;
  return t * M3::Identity() + ( a - t ) * e * e.transpose();
}
M3 shift( double m, const Vector3s& d ) { return m * ( d.squaredNorm() * M3::Identity() - d * d.transpose() ); }
}

SUBCHECK( "C17", "rb3d_shapes", "boxes, spheres, staples and precomputed meshes of any size and density against closed-form integrals, and their scaling; every case is non-trivial", 60000, 600000 )
{
  const double rho = g.logu( 0.01, 100.0 );
  const int kind = g.i( 0, 3 );
  c.nontrivial( true );
  double M = -1;
  Vector3s cm, I;
  Matrix33sr R;
  if( kind == 0 )
  {
    const Vector3s h( g.logu( 0.05, 20 ), g.logu( 0.05, 20 ), g.logu( 0.05, 20 ) );
    c.note( [&]( std::ostream& o ) { o << "box " << h.transpose() << " density " << rho; } );
    RigidBodyBox b( h );
    b.computeMassAndInertia( rho, M, cm, I, R );
    // Integral over the box by exact quadrature (Gauss with two points integrates quadratics)
    const double m = rho * 8.0 * h.prod(), q = 1.0 / std::sqrt( 3.0 );
    Vector3s J( 0, 0, 0 );
    for( int i = 0; i < 8; ++i )
    {
      const Vector3s p( ( i & 1 ? q : -q ) * h.x(), ( i & 2 ? q : -q ) * h.y(), ( i & 4 ? q : -q ) * h.z() );
      J += m / 8.0 * Vector3s( p.y() * p.y() + p.z() * p.z(), p.x() * p.x() + p.z() * p.z(), p.x() * p.x() + p.y() * p.y() );
    }
    CHECK( near( M, m, 1e-12, m ) && ( I - J ).norm() <= 1e-12 * J.norm(), "mass " << M << " inertia " << I.transpose() << " expected " << m << " " << J.transpose() );
    CHECK( cm.norm() == 0.0 && ( R - Matrix33sr::Identity() ).norm() == 0.0, "frame of a box" );
    CHECK( ( b.halfWidths() - h ).norm() == 0.0 && near( b.volume(), 8.0 * h.prod(), 1e-12, b.volume() ), "box parameters" );
  }
  else if( kind == 1 )
  {
    const double r = g.logu( 0.05, 20 );
    c.note( [&]( std::ostream& o ) { o << "sphere " << r << " density " << rho; } );
    RigidBodySphere b( r );
    b.computeMassAndInertia( rho, M, cm, I, R );
    const double m = rho * 4.0 / 3.0 * M_PI * r * r * r, J = rho * 8.0 / 15.0 * M_PI * std::pow( r, 5 );
    CHECK( near( M, m, 1e-12, m ) && ( I - Vector3s::Constant( J ) ).norm() <= 1e-12 * J * 3, "mass " << M << " inertia " << I.transpose() << " expected " << m << " " << J );
    CHECK( cm.norm() == 0.0 && ( R - Matrix33sr::Identity() ).norm() == 0.0, "frame of a sphere" );
    CHECK( b.r() == r && near( b.volume(), m / rho, 1e-12, m / rho ), "sphere parameters" );
  }
  else if( kind == 2 )
  {
    const double D = g.logu( 0.02, 1.0 ), w = D + g.logu( 0.1, 5.0 ), l = D + g.logu( 0.1, 5.0 );
    c.note( [&]( std::ostream& o ) { o << "staple " << w << " " << l << " " << D << " density " << rho; } );
    RigidBodyStaple b( w, l, D );
    b.computeMassAndInertia( rho, M, cm, I, R );
    // Three cylinders along the skeleton
    double m = 0.0;
    Vector3s cen( 0, 0, 0 );
    for( int e = 0; e < 3; ++e ) { const Vector3s a = b.points()[e], bb = b.points()[e + 1]; const double me = rho * M_PI * 0.25 * D * D * ( bb - a ).norm(); m += me; cen += me * 0.5 * ( a + bb ); }
    cen /= m;
    M3 J = M3::Zero();
    for( int e = 0; e < 3; ++e ) { const Vector3s a = b.points()[e], bb = b.points()[e + 1]; const double le = ( bb - a ).norm(), me = rho * M_PI * 0.25 * D * D * le; J += cylInertia( me, 0.5 * D, le, ( bb - a ) / le ) + shift( me, 0.5 * ( a + bb ) - cen ); }
    CHECK( near( M, m, 1e-10, m ), "mass " << M << " expected " << m );
    CHECK( cen.norm() <= 1e-10 * ( w + l ), "skeleton not about its center of mass" );
    CHECK( ( M3( I.asDiagonal() ) - J ).norm() <= 1e-10 * J.norm(), "inertia " << I.transpose() << " expected " << J );
    // Center of mass relative to the horizontal bar's centre
    CHECK( ( cm - ( -0.5 * ( b.points()[1] + b.points()[2] ) ) ).norm() <= 1e-10 * ( w + l ) && ( R - Matrix33sr::Identity() ).norm() == 0.0, "frame of a staple" );
  }
  else
  {
    MeshData m = boxMesh( g, Vector3s( g.mix( 0.2, 1.2 ), g.mix( 0.2, 1.2 ), g.mix( 0.2, 1.2 ) ) );
    m.volume = g.u( 0.1, 5.0 );
    m.I_on_rho = Vector3s( g.u( 0.1, 2 ), g.u( 0.1, 2 ), g.u( 0.1, 2 ) );
    m.cm = vec3( g, 2.0 );
    m.R = rot3( g );
    const auto b = m.make();
    b->computeMassAndInertia( rho, M, cm, I, R );
    CHECK( near( M, rho * m.volume, 1e-12, M ) && ( I - rho * m.I_on_rho ).norm() <= 1e-12 * I.norm() && ( cm - m.cm ).norm() == 0.0 && ( R - Matrix33sr( m.R ) ).norm() == 0.0, "mesh mass properties" );
    CHECK( b->volume() == m.volume, "mesh volume" );
  }
}

SUBCHECK( "C17", "rb3d_mesh_moments", "closed meshes (affine images of a box, tetrahedra, star-shaped solids) anywhere in space; volume, center and inertia against signed-tetrahedra integrals; every case is non-trivial", 20000, 200000 )
{
  Matrix3Xsc v;
  Matrix3Xuc f;
  const int kind = g.i( 0, 2 );
  if( kind == 0 )
  {
    const MeshData m = boxMesh( g, Vector3s( g.mix( 0.3, 2.0 ), g.mix( 0.3, 2.0 ), g.mix( 0.3, 2.0 ) ) );
    M3 A;
    for( int i = 0; i < 9; ++i ) A( i / 3, i % 3 ) = g.s( 0.5 );
    A += M3::Identity();
    if( A.determinant() < 0.1 ) throw Discard{};
    v = A * m.verts;
    f = m.faces;
  }
  else if( kind == 1 )
  {
    v.resize( 3, 4 );
    for( int i = 0; i < 4; ++i ) v.col( i ) = vec3( g, 2.0 );
    f.resize( 3, 4 );
    f << 0, 0, 0, 1, 2, 1, 3, 2, 1, 3, 2, 3;
    M3 E;
    for( int k = 0; k < 3; ++k ) E.col( k ) = v.col( k + 1 ) - v.col( 0 );
    if( std::fabs( E.determinant() ) < 0.3 ) throw Discard{};
    if( E.determinant() < 0 ) v.col( 0 ).swap( v.col( 1 ) );
  }
  else
  {
    // Octahedron subdivided once, with radii of its own
    std::vector<Vector3s> p = { Vector3s( 1, 0, 0 ), Vector3s( -1, 0, 0 ), Vector3s( 0, 1, 0 ), Vector3s( 0, -1, 0 ), Vector3s( 0, 0, 1 ), Vector3s( 0, 0, -1 ) };
    std::map<std::pair<int, int>, int> mid;
    std::vector<std::array<int, 3>> t;
    const int oct[8][3] = { { 0, 2, 4 }, { 2, 1, 4 }, { 1, 3, 4 }, { 3, 0, 4 }, { 2, 0, 5 }, { 1, 2, 5 }, { 3, 1, 5 }, { 0, 3, 5 } };
    const auto md = [&]( int a, int b ) { const auto k = std::make_pair( std::min( a, b ), std::max( a, b ) ); if( !mid.count( k ) ) { p.push_back( ( p[a] + p[b] ).normalized() ); mid[k] = int( p.size() ) - 1; } return mid[k]; };
    for( auto& o : oct ) { const int a = o[0], b = o[1], e = o[2], x = md( a, b ), y = md( b, e ), z = md( e, a ); t.push_back( { { a, x, z } } ); t.push_back( { { x, b, y } } ); t.push_back( { { z, y, e } } ); t.push_back( { { x, y, z } } ); }
    v.resize( 3, p.size() );
    for( size_t i = 0; i < p.size(); ++i ) v.col( i ) = p[i] * g.u( 0.4, 1.5 );
    f.resize( 3, t.size() );
    for( size_t i = 0; i < t.size(); ++i ) for( int k = 0; k < 3; ++k ) f( k, i ) = unsigned( t[i][k] );
  }
  v.colwise() += vec3( g, 3.0 );
  c.nontrivial( true );
  c.note( [&]( std::ostream& o ) { o.precision( 17 ); o << "mesh kind " << kind << " vertices " << v.transpose(); } );
  double vol;
  Vector3s cm;
  M3 J;
  meshIntegrals( v, f, vol, cm, J );
  double m = -1;
  Vector3s I, cen;
  Matrix3s R;
  MomentTools::computeMoments( v, f, m, I, cen, R );
  const double sc = 1.0 + vol * 30.0;
  CHECK( near( m, vol, 1e-9, sc ), "volume " << m << " expected " << vol );
  CHECK( ( cen - cm ).norm() <= 1e-8, "center " << cen.transpose() << " expected " << cm.transpose() );
  CHECK( ( R.transpose() * R - Matrix3s::Identity() ).norm() <= 1e-9 && near( R.determinant(), 1.0, 1e-9 ), "principal axes not a rotation" );
  CHECK( ( I.array() > 0.0 ).all(), "principal moments" );
  CHECK( ( M3( R ) * I.asDiagonal() * M3( R ).transpose() - J ).norm() <= 1e-7 * sc, "inertia tensor" );
}

SUBCHECK( "C17", "rb3d_mass_matrix", "scenes of any bodies with arbitrary principal moments and orientations, before and after moving them; M, its inverse, totals, momenta and energies against per-body formulas; non-trivial with unequal moments", 20000, 200000 )
{
  Scene s;
  SceneOpts o;
  o.anyI = 0.7;
  genBodies( g, s, g.pick( { SPHERES, BOXES, MESHES } ), o );
  if( g.b() ) s.grav = vec3( g, 10.0 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  RigidBody3DSim sim;
  sim.state() = s.build();
  RigidBody3DState& st = sim.state();
  const int n = s.n();
  for( int pass = 0; pass < 2; ++pass )
  {
    if( pass == 1 )
    {
      for( int i = 0; i < n; ++i ) { s.bodies[i].R = rot3( g ); s.bodies[i].x += vec3( g, 1.0 ); setR( st.q(), i, s.bodies[i].R ); st.q().segment<3>( 3 * i ) = s.bodies[i].x; }
      st.updateMandMinv();
    }
    CHECK( int( st.nbodies() ) == n && st.q().size() == 12 * n && st.v().size() == 6 * n, "sizes" );
    MatrixXXsc M = MatrixXXsc::Zero( 6 * n, 6 * n ), M0 = M;
    L ke = 0, pe = 0;
    Vector3s p( 0, 0, 0 ), Lm( 0, 0, 0 );
    double tm = 0;
    for( int i = 0; i < n; ++i )
    {
      const Body& b = s.bodies[i];
      const M3 I = b.R * b.I.asDiagonal() * b.R.transpose();
      for( int k = 0; k < 3; ++k ) M( 3 * i + k, 3 * i + k ) = M0( 3 * i + k, 3 * i + k ) = b.m, M0( 3 * n + 3 * i + k, 3 * n + 3 * i + k ) = b.I( k );
      M.block<3, 3>( 3 * n + 3 * i, 3 * n + 3 * i ) = I;
      if( ( b.I.array() != b.I( 0 ) ).any() ) c.nontrivial( true );
      CHECK( st.getTotalMass( unsigned( i ) ) == b.m, "mass of body " << i );
      CHECK( ( M3( st.getInertia( unsigned( i ) ) ) - I ).norm() <= 1e-12 * ( 1 + I.norm() ), "world inertia of body " << i );
      CHECK( st.isKinematicallyScripted( i ) == b.fixed, "flag of body " << i );
      ke += 0.5L * b.m * b.v.squaredNorm() + 0.5L * b.w.dot( I * b.w );
      pe -= b.m * s.grav.dot( b.x );
      p += b.m * b.v;
      Lm += b.m * b.x.cross( b.v ) + I * b.w;
      tm += b.m;
    }
    CHECK( ( MatrixXXsc( st.M() ) - M ).norm() <= 1e-12 * ( 1 + M.norm() ), "mass matrix" );
    CHECK( ( MatrixXXsc( st.Minv() ) * M - MatrixXXsc::Identity( 6 * n, 6 * n ) ).norm() <= 1e-9, "inverse mass matrix" );
    CHECK( ( MatrixXXsc( st.M0() ) - M0 ).norm() <= 1e-12 * ( 1 + M.norm() ) && ( MatrixXXsc( st.Minv0() ) * M0 - MatrixXXsc::Identity( 6 * n, 6 * n ) ).norm() <= 1e-9, "body space mass matrix" );
    CHECK( near( sim.computeKineticEnergy(), double( ke ), 1e-9, 1 + double( ke ) ), "kinetic energy " << sim.computeKineticEnergy() << " expected " << double( ke ) );
    CHECK( near( sim.computePotentialEnergy(), double( pe ), 1e-9, 1 + std::fabs( double( pe ) ) + tm * 100 ), "potential energy" );
    CHECK( near( sim.computeTotalEnergy(), double( ke + pe ), 1e-9, 1 + double( ke ) + std::fabs( double( pe ) ) + tm * 100 ), "total energy" );
    CHECK( ( sim.computeTotalMomentum() - p ).norm() <= 1e-10 * ( 1 + tm * 10 ) && ( sim.computeTotalAngularMomentum() - Lm ).norm() <= 1e-10 * ( 1 + tm * 100 ), "total momenta" );
    VectorXs P, A;
    FS( sim ).computeMomentum( st.v(), P );
    FS( sim ).computeAngularMomentum( st.v(), A );
    CHECK( ( P - p ).norm() <= 1e-10 * ( 1 + tm * 10 ) && ( A - Lm ).norm() <= 1e-10 * ( 1 + tm * 100 ), "momenta of a velocity" );
  }
}

// ---------------------------------------------------------------------------------------------------- active sets
namespace
{
double magOf( const Scene& s ) { double m = 1.0; for( auto& b : s.bodies ) m = std::max( m, b.x.norm() + b.v.norm() + b.w.norm() ); for( auto& p : s.planes ) m = std::max( m, p.x.norm() ); for( auto& p : s.cyls ) m = std::max( m, p.x.norm() + p.r ); return m; }
// Moment arm of a contact whose only public trace of it is the relative velocity of the contact point
Vector3s armOf( const Constraint& k, const VectorXs& q, int body, int n )
{
  Vector3s r;
  VectorXs v = VectorXs::Zero( 6 * n );
  M3 A;
  for( int a = 0; a < 3; ++a ) { v.setZero(); v( 3 * n + 3 * body + a ) = 1.0; A.col( a ) = Vector3s( k.computeRelativeVelocity( q, v ) ); }
  // A = -[r]x
  return Vector3s( -A( 2, 1 ), -A( 0, 2 ), -A( 1, 0 ) );
}
}
SUBCHECK( "C09", "rb3d_touching_counts", "two spheres, a sphere or an unrotated box on a floor, a sphere against the wall of an upright cylinder, axis-aligned with dyadic coordinates, so that every gap is exact: zero, 2^-10 or -2^-10; non-trivial when the gap is exactly zero", 20000, 200000 )
{
  const int kind = g.i( 0, 3 );
  const double gap = g.pick( { 0.0, 0.0, 1.0 / 1024, -1.0 / 1024 } );
  const double r0 = g.i( 1, 32 ) / 16.0, r1 = g.i( 1, 32 ) / 16.0;
  Scene s;
  Geo e0, e1;
  e0.type = kind == 2 ? BOX3 : SPHERE3; e0.r = r0; e0.h = Vector3s( g.i( 1, 32 ) / 16.0, r0, r1 );
  e1.type = SPHERE3; e1.r = r1; e1.h = Vector3s( r1, r1, r1 );
  s.geos = { e0, e1 };
  const auto put = [&]( const Vector3s& x, int geo ) { Body b; b.x = x; b.v.setZero(); b.w.setZero(); b.R.setIdentity(); b.geo = geo; b.fixed = false; massOfGeo( s.geos[geo], 1.0, b.m, b.I ); s.bodies.push_back( b ); };
  const Vector3s x( g.i( -64, 64 ) / 8.0, g.i( -64, 64 ) / 8.0, g.i( -64, 64 ) / 8.0 );
  put( x, 0 );
  Vector3s dir = Vector3s::Zero();
  if( kind == 0 ) { dir( g.i( 0, 2 ) ) = g.pick( { 1.0, -1.0 } ); put( x + dir * ( r0 + r1 + gap ), 1 ); }
  else if( kind <= 2 )
  {
    Scene::Plane p;
    p.x = x - Vector3s( g.i( -32, 32 ) / 8.0, r0 + gap, g.i( -32, 32 ) / 8.0 );
    p.n = Vector3s( 0, 1, 0 ); p.v.setZero(); p.w.setZero();
    s.planes.push_back( p );
  }
  else
  {
    dir( g.b() ? 0 : 2 ) = g.pick( { 1.0, -1.0 } );
    Scene::Cyl k;
    k.r = r0 + g.i( 1, 32 ) / 8.0;
    k.axis = Vector3s( 0, 1, 0 );
    k.x = x - dir * ( k.r - r0 - gap ) + Vector3s( 0, g.i( -32, 32 ) / 8.0, 0 );
    k.spin = 0.0;
    s.cyls.push_back( k );
  }
  RigidBody3DSim sim;
  sim.state() = s.build();
  const VectorXs q = sim.state().q();
  c.note( [&]( std::ostream& o ) { describe( o, s ); o << " gap " << gap; } );
  Cons cons;
  CS( sim ).computeActiveSet( q, q, sim.state().v(), cons );
  const size_t want = gap > 0.0 ? 0 : kind == 2 ? 4 : 1;
  CHECK( cons.size() == want, "a gap of exactly " << gap << " gives " << cons.size() << " contacts instead of " << want );
  c.nontrivial( gap == 0.0 );
}

SUBCHECK( "C09", "rb3d_active_set", "1..6 spheres, boxes or meshes (some immovable) with planes and cylinders placed at touching, overlapping and missing gaps, moved over a step; the contact set compared with an all-pairs oracle (spheres exact, boxes by fifteen axes and face clipping, meshes by their distance field); non-trivial when something touches", 40000, 400000 )
{
  Scene s;
  const SceneMode mode = SceneMode( g.w( { 3, 3, 2 } ) );
  genBodies( g, s, mode, SceneOpts{} );
  genObstacles( g, s, 2, mode == BOXES ? 0 : 2, mode == SPHERES );
  const double dt = g.pick( { 0.0, 0.01, 0.05, 0.1 } );
  RigidBody3DSim sim;
  sim.state() = s.build();
  const VectorXs q0 = sim.state().q(), v = sim.state().v(), q1 = advance( s, q0, dt );
  const int n = s.n();
  c.note( [&]( std::ostream& o ) { describe( o, s ); o << " dt " << dt; } );
  const double mag = magOf( s ), band = 1e-8 * mag * 10.0;
  Cons cons;
  CS( sim ).computeActiveSet( q0, q1, v, cons );
  struct Found { std::vector<Vector3s> p, n; std::string name; std::vector<double> depth; };
  std::map<std::pair<int, int>, Found> bb, pl, cy;
  for( auto& k : cons )
  {
    const std::string nm = k->name();
    std::pair<int, int> sb;
    k->getSimulatedBodyIndices( sb );
    if( nm == "static_cylinder_body" )
    {
      CHECK( sb.first >= 0 && sb.first < n && sb.second == -1, nm << " bodies" );
      MatrixXXsc B;
      k->computeBasis( q0, v, B );
      // Which cylinder is decided by the point and normal below
      const Vector3s p = Xof( q0, sb.first ) + armOf( *k, q0, sb.first, n );
      int hit = -1;
      for( size_t j = 0; j < s.cyls.size(); ++j )
      {
        const auto& C = s.cyls[j];
        Vector3s d = p - C.x;
        d -= d.dot( C.axis ) * C.axis;
        if( d.norm() > 1e-9 && ( Vector3s( B.col( 0 ) ) + d.normalized() ).norm() <= 1e-7 )
        {
          bool used = false;
          for( auto& e : cy[{ int( j ), sb.first }].p ) if( ( e - p ).norm() < 1e-9 ) used = true;
          if( !used ) { hit = int( j ); break; }
        }
      }
      CHECK( hit >= 0, "cylinder contact at " << p.transpose() << " with normal " << B.col( 0 ).transpose() << " which points to the axis of no cylinder" );
      Found& f = cy[{ hit, sb.first }];
      f.p.push_back( p ); f.n.push_back( B.col( 0 ) ); f.name = nm;
      continue;
    }
    std::pair<int, int> ids;
    k->getBodyIndices( ids );
    VectorXs nn, p;
    k->getWorldSpaceContactNormal( q0, nn );
    k->getWorldSpaceContactPoint( q0, p );
    CHECK( nn.size() == 3 && p.size() == 3 && near( nn.norm(), 1.0, 1e-9 ), nm << " normal" );
    CHECK( ids.first >= 0 && ids.first < n && !s.bodies[ids.first].fixed && ids.second < n && ids.first != ids.second, nm << " bodies " << ids.first << "," << ids.second );
    CHECK( sb.first == ids.first && sb.second == ( ids.second >= 0 && s.bodies[ids.second].fixed ? -1 : ids.second ), nm << " simulated bodies " << sb.first << "," << sb.second );
    Found* f = nullptr;
    if( ids.second >= 0 ) f = &bb[ids];
    else
    {
      const int so = int( k->getStaticObjectIndex() );
      if( nm == "static_cylinder_sphere" ) { CHECK( so < int( s.cyls.size() ), "cylinder index" ); f = &cy[{ so, ids.first }]; }
      else { CHECK( so < int( s.planes.size() ), "plane index" ); f = &pl[{ so, ids.first }]; }
    }
    f->p.push_back( p ); f->n.push_back( nn ); f->name = nm;
    if( nm == "sphere_sphere" || nm == "kinematic_sphere_sphere" || nm == "static_plane_sphere" || nm == "static_cylinder_sphere" )
    {
      f->depth.push_back( k->penetrationDepth( q0 ) );
      const double gp = k->evaluateGapFunction( q0 );
      CHECK( near( f->depth.back(), std::min( 0.0, gp ), 1e-12 ), nm << " depth " << f->depth.back() << " gap " << gp );
    }
  }
  bool any = false;
  for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j )
  {
    int a = i, b = j;
    if( s.bodies[a].fixed ) std::swap( a, b );
    const Found none;
    const Found& f = bb.count( { a, b } ) ? bb[{ a, b }] : none;
    CHECK( !bb.count( { b, a } ), "pair " << a << "," << b << " reported in the wrong order" );
    if( s.bodies[i].fixed && s.bodies[j].fixed ) { CHECK( f.p.empty(), "contact between two immovable bodies" ); continue; }
    const Geo &ga = s.geo( a ), &gb = s.geo( b );
    const Vector3s xa = Xof( q1, a ), xb = Xof( q1, b ), ya = Xof( q0, a ), yb = Xof( q0, b );
    if( mode == SPHERES )
    {
      const double m = ( xa - xb ).norm() - ga.r - gb.r;
      CHECK( f.p.size() <= 1, "spheres " << a << "," << b << " reported " << f.p.size() << " times" );
      if( m < -band ) { any = true; CHECK( f.p.size() == 1, "spheres " << a << "," << b << " overlap by " << m << " without contact" ); }
      else if( m > band ) CHECK( f.p.empty(), "spheres " << a << "," << b << " are " << m << " apart but have a contact" );
      if( f.p.empty() ) continue;
      CHECK( f.name == ( s.bodies[b].fixed ? "kinematic_sphere_sphere" : "sphere_sphere" ), "kind of contact " << f.name );
      CHECK( ( f.n[0] - ( ya - yb ).normalized() ).norm() <= 1e-9, "normal of spheres " << a << "," << b );
      const Vector3s p = s.bodies[b].fixed ? Vector3s( ya - ga.r * f.n[0] ) : Vector3s( ya + ga.r / ( ga.r + gb.r ) * ( yb - ya ) );
      CHECK( ( f.p[0] - p ).norm() <= 1e-9 * mag, "contact point " << f.p[0].transpose() << " expected " << p.transpose() );
      CHECK( near( f.depth[0], std::min( 0.0, ( ya - yb ).norm() - ga.r - gb.r ), 1e-9, mag ), "depth of spheres" );
    }
    else if( mode == BOXES )
    {
      CHECK( f.p.empty() || f.name == ( s.bodies[b].fixed ? "kinematic_object_body" : "body_body" ), "kind of contact " << f.name );
      for( auto& nn : f.n ) CHECK( ( nn - f.n[0] ).norm() == 0.0, "contact points of one pair have different normals" );
      if( ( xa - xb ).norm() < 1e-3 ) continue;
      if( checkBoxBox( c, xa, Rof( q1, a ), ga.h, xb, Rof( q1, b ), gb.h, f.n.empty() ? Vector3s( 0, 0, 0 ) : f.n[0], f.p, std::max( band, 1e-7 ), "boxes " + std::to_string( a ) + "," + std::to_string( b ) ) ) any = true;
    }
    else
    {
      CHECK( f.p.empty() || f.name == ( s.bodies[b].fixed ? "kinematic_object_body" : "body_body" ), "kind of contact " << f.name );
      std::vector<bool> used( f.p.size(), false );
      bool fuzzy = false;
      for( int w = 0; w < 2; ++w )
      {
        const int sa = w ? b : a, sf = w ? a : b; // samples of one against the field of the other
        const M3 Rs = Rof( q1, sa ), Rf = Rof( q1, sf );
        const MeshData &ms = s.geo( sa ).mesh, &mf = s.geo( sf ).mesh;
        for( int e = 0; e < ms.samples.cols(); ++e )
        {
          const Vector3s pw = Xof( q1, sa ) + Rs * ms.samples.col( e ), x = Rf.transpose() * ( pw - Xof( q1, sf ) );
          double d, edge;
          Vector3s gr;
          const bool in = mf.field( x, d, gr, &edge );
          if( !in ) { for( int kk = 0; kk < 3; ++kk ) { const double u = ( x( kk ) - mf.origin( kk ) ) / mf.delta( kk ); if( std::fabs( u ) < 1e-6 || std::fabs( u - double( mf.dims( kk ) - 1 ) ) < 1e-6 ) fuzzy = true; } continue; }
          if( std::fabs( d ) < 1e-7 || edge < 1e-6 || gr.norm() < 1e-6 ) { fuzzy = true; continue; }
          const Vector3s nw = ( w ? -1.0 : 1.0 ) * ( Rf * gr.normalized() );
          int hit = -1;
          for( size_t z = 0; z < f.p.size(); ++z ) if( !used[z] && ( f.p[z] - pw ).norm() <= 1e-9 * mag && ( f.n[z] - nw ).norm() <= 1e-6 ) { hit = int( z ); break; }
          if( d < 0.0 ) { any = true; CHECK( hit >= 0, "sample " << e << " of mesh " << sa << " lies " << d << " inside mesh " << sf << " without the contact at " << pw.transpose() << " normal " << nw.transpose() ); used[hit] = true; }
        }
      }
      if( !fuzzy ) for( size_t z = 0; z < used.size(); ++z ) CHECK( used[z], "mesh contact at " << f.p[z].transpose() << " matches no penetrating sample" );
    }
  }
  for( size_t st = 0; st < s.planes.size(); ++st ) for( int i = 0; i < n; ++i )
  {
    const auto& P = s.planes[st];
    Found f;
    if( pl.count( { int( st ), i } ) ) f = pl[{ int( st ), i }];
    if( s.bodies[i].fixed ) { CHECK( f.p.empty(), "plane contact of an immovable body" ); continue; }
    const Geo& ge = s.geo( i );
    for( auto& nn : f.n ) CHECK( ( nn - P.n.normalized() ).norm() <= 1e-9, "plane normal" );
    if( mode == SPHERES )
    {
      const double m = P.n.dot( Xof( q1, i ) - P.x ) - ge.r;
      CHECK( f.p.size() <= 1, "plane contact duplicated" );
      if( m < -band ) { any = true; CHECK( f.p.size() == 1, "sphere " << i << " penetrates plane " << st << " by " << m << " without contact" ); }
      else if( m > band ) CHECK( f.p.empty(), "sphere " << i << " is " << m << " above plane " << st << " but has a contact" );
      if( !f.p.empty() ) CHECK( f.name == "static_plane_sphere" && ( f.p[0] - ( Xof( q0, i ) - ge.r * P.n ) ).norm() <= 1e-9 * mag && near( f.depth[0], std::min( 0.0, P.n.dot( Xof( q0, i ) - P.x ) - ge.r ), 1e-9, mag ), "plane contact point and depth of sphere " << i );
      continue;
    }
    CHECK( f.p.empty() || f.name == ( mode == BOXES ? "static_plane_box" : "static_plane_body" ), "kind of contact " << f.name );
    size_t used = 0;
    for( int e = 0; e < 8; ++e )
    {
      const Vector3s arm( ( e & 1 ? 1 : -1 ) * ge.h.x(), ( e & 2 ? 1 : -1 ) * ge.h.y(), ( e & 4 ? 1 : -1 ) * ge.h.z() );
      const Vector3s w1 = Xof( q1, i ) + Rof( q1, i ) * arm, w0 = Xof( q0, i ) + Rof( q0, i ) * arm;
      const double m = P.n.dot( w1 - P.x );
      int cnt = 0;
      for( auto& p : f.p ) if( ( p - w0 ).norm() <= 1e-9 * mag ) ++cnt;
      CHECK( cnt <= 1, "corner contact duplicated" );
      used += cnt;
      if( m < -band ) { any = true; CHECK( cnt == 1, "corner " << e << " of body " << i << " penetrates plane " << st << " by " << m << " without contact" ); }
      else if( m > band ) CHECK( cnt == 0, "corner " << e << " of body " << i << " is " << m << " above plane " << st << " but has a contact" );
    }
    CHECK( used == f.p.size(), "plane contact of body " << i << " away from its corners" );
  }
  for( size_t st = 0; st < s.cyls.size(); ++st ) for( int i = 0; i < n; ++i )
  {
    const auto& C = s.cyls[st];
    Found f;
    if( cy.count( { int( st ), i } ) ) f = cy[{ int( st ), i }];
    if( s.bodies[i].fixed ) { CHECK( f.p.empty(), "cylinder contact of an immovable body" ); continue; }
    const Geo& ge = s.geo( i );
    const auto radial = [&]( const Vector3s& x ) -> Vector3s { const Vector3s d = x - C.x; return d - d.dot( C.axis ) * C.axis; };
    if( mode == SPHERES )
    {
      const double m = C.r - ge.r - radial( Xof( q1, i ) ).norm();
      // Spheres as large as the cylinder have no meaningful contact
      if( ge.r >= C.r ) continue;
      CHECK( f.p.size() <= 1, "cylinder contact duplicated" );
      if( m < -band ) { any = true; CHECK( f.p.size() == 1, "sphere " << i << " is " << m << " beyond the wall of cylinder " << st << " without contact" ); }
      else if( m > band ) CHECK( f.p.empty(), "sphere " << i << " is " << m << " inside the wall of cylinder " << st << " but has a contact" );
      const Vector3s d = radial( Xof( q0, i ) );
      if( !f.p.empty() && d.norm() > 1e-3 )
      {
        CHECK( ( f.n[0] + d.normalized() ).norm() <= 1e-8, "cylinder normal" );
        CHECK( ( f.p[0] - ( Xof( q0, i ) + ge.r * d.normalized() ) ).norm() <= 1e-8 * mag, "cylinder contact point" );
        CHECK( near( f.depth[0], std::min( 0.0, C.r - ge.r - d.norm() ), 1e-9, mag ), "cylinder contact depth" );
      }
      continue;
    }
    size_t used = 0;
    for( int e = 0; e < 8; ++e )
    {
      const Vector3s arm = ge.mesh.hull.col( e ), w1 = Xof( q1, i ) + Rof( q1, i ) * arm, w0 = Xof( q0, i ) + Rof( q0, i ) * arm;
      const double m = C.r - radial( w1 ).norm();
      int cnt = 0;
      for( auto& p : f.p ) if( ( p - w0 ).norm() <= 1e-9 * mag ) ++cnt;
      CHECK( cnt <= 1, "vertex contact duplicated" );
      used += cnt;
      if( m < -band ) { any = true; CHECK( cnt == 1, "vertex " << e << " of mesh " << i << " is " << m << " beyond the wall of cylinder " << st << " without contact" ); }
      else if( m > band ) CHECK( cnt == 0, "vertex " << e << " of mesh " << i << " is " << m << " inside cylinder " << st << " but has a contact" );
    }
    CHECK( used == f.p.size(), "cylinder contact of mesh " << i << " away from its vertices" );
  }
  for( auto& e : pl ) CHECK( e.first.first < int( s.planes.size() ), "plane index" );
  c.nontrivial( any );
  // Collision statistics are those of the state against itself
  if( mode == SPHERES )
  {
    std::map<std::string, unsigned> cnt;
    std::map<std::string, double> dep, vol;
    sim.computeNumberOfCollisions( cnt, dep, vol );
    Cons self;
    CS( sim ).computeActiveSet( q0, q0, v, self );
    std::map<std::string, unsigned> wc;
    std::map<std::string, double> wd, wv;
    for( auto& k : self )
    {
      ++wc[k->name()];
      wd[k->name()] += k->penetrationDepth( q0 );
      double vv = k->overlapVolume( q0 );
      wv[k->name()] += vv;
      if( k->name() == "sphere_sphere" )
      {
        // Integrate the discs common to both spheres
        const int a = k->body0(), b = k->body1();
        const double r0 = s.geo( a ).r, r1 = s.geo( b ).r, d = ( Xof( q0, a ) - Xof( q0, b ) ).norm();
        const double lo = std::max( -r0, d - r1 ), hi = std::min( r0, d + r1 );
        double sum = 0.0;
        // Simpson on each piece is exact for the quadratic discs
        const double cut = d > 0 ? ( r0 * r0 - r1 * r1 + d * d ) / ( 2.0 * d ) : lo;
        const auto A = [&]( double x ) { return M_PI * std::max( 0.0, std::min( r0 * r0 - x * x, r1 * r1 - ( x - d ) * ( x - d ) ) ); };
        std::vector<double> kn = { lo, std::min( hi, std::max( lo, cut ) ), hi };
        for( int z = 0; z < 2; ++z ) sum += ( kn[z + 1] - kn[z] ) / 6.0 * ( A( kn[z] ) + 4.0 * A( 0.5 * ( kn[z] + kn[z + 1] ) ) + A( kn[z + 1] ) );
        CHECK( near( vv, std::max( 0.0, sum ), 1e-9, 10.0 ), "overlap volume " << vv << " expected " << sum << " for radii " << r0 << " " << r1 << " at distance " << d );
      }
    }
    CHECK( cnt == wc, "collision counts" );
    for( auto& e : wd ) CHECK( near( dep[e.first], e.second, 1e-12, 10.0 ), "collision depths" );
    for( auto& e : wv ) CHECK( ( std::isnan( e.second ) && std::isnan( vol[e.first] ) ) || near( vol[e.first], e.second, 1e-12, 10.0 ), "overlap volumes" );
  }
}

// ---------------------------------------------------------------------------------------------------- kinematics
namespace
{
KinOpts r3KinOpts( const Constraint& ) { return KinOpts{ true, true }; }
void checkCylinderBody( Ctx& c, RigidBody3DSim& sim, const Scene& s, const VectorXs& q, const VectorXs& v, Constraint& k )
{
  const int n = s.n();
  std::pair<int, int> sb;
  k.getSimulatedBodyIndices( sb );
  const int b = sb.first;
  c.label( k.name() );
  MatrixXXsc B;
  k.computeBasis( q, v, B );
  CHECK( ( B.transpose() * B - MatrixXXsc::Identity( 3, 3 ) ).norm() <= 1e-9 && near( B.determinant(), 1.0, 1e-9 ), "basis" );
  const Vector3s r = armOf( k, q, b, n );
  const Vector3s rel = Xof( v, b ) + Wof( v, b ).cross( r );
  CHECK( ( Vector3s( k.computeRelativeVelocity( q, v ) ) - rel ).norm() <= 1e-9 * ( 1 + vmax( v ) ) * 10, "relative velocity" );
  CHECK( near( k.evalNdotV( q, v ), B.col( 0 ).dot( rel ), 1e-9, 10 * ( 1 + vmax( v ) ) ), "normal velocity" );
  MatrixXXsc H0 = MatrixXXsc::Zero( 3, 6 ), H1 = MatrixXXsc::Zero( 3, 6 );
  k.evalH( q, B, H0, H1 );
  VectorXs x( 6 );
  x << Xof( v, b ), Wof( v, b );
  CHECK( ( H0 * x - B.transpose() * rel ).norm() <= 1e-9 * ( 1 + vmax( v ) ) * 10, "Jacobian" );
  // The normal decreases the distance of the touching vertex from the axis of one of the cylinders
  const Vector3s p = Xof( q, b ) + r;
  bool ok = false;
  for( auto& C : s.cyls ) { Vector3s d = p - C.x; d -= d.dot( C.axis ) * C.axis; if( d.norm() < 1e-6 || ( Vector3s( B.col( 0 ) ) + d.normalized() ).norm() <= 1e-8 ) ok = true; }
  CHECK( ok, "normal " << B.col( 0 ).transpose() << " of the cylinder contact at " << p.transpose() << " is not radial" );
}
}
SUBCHECK( "C10", "rb3d_contact_kinematics", "contacts of generated 3D scenes (spheres, boxes, meshes, immovable bodies, moving planes, spinning cylinders) and directly built teleported pairs; every representation of the contact velocity compared with rigid body kinematics; non-trivial with at least one contact", 30000, 300000 )
{
  Scene s;
  const SceneMode mode = SceneMode( g.w( { 4, 2, 2 } ) );
  genBodies( g, s, mode, SceneOpts{} );
  genObstacles( g, s, 2, mode == BOXES ? 0 : 2, mode == SPHERES );
  RigidBody3DSim sim;
  sim.state() = s.build();
  const VectorXs q = sim.state().q();
  VectorXs v = sim.state().v();
  const int n = s.n();
  // Sometimes bodies at relative rest
  if( g.b( 0.1 ) ) v.setZero();
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " v " << v.transpose(); } );
  Cons all, cons;
  CS( sim ).computeActiveSet( q, q, v, all );
  for( auto& k : all )
  {
    if( k->name() == "static_cylinder_body" ) { checkCylinderBody( c, sim, s, q, v, *k ); ++c.sub; }
    else if( k->name() == "static_cylinder_sphere" )
    {
      // On the axis there is no direction
      const auto& C = s.cyls[k->getStaticObjectIndex()];
      Vector3s d = Xof( q, k->body0() ) - C.x;
      d -= d.dot( C.axis ) * C.axis;
      if( d.norm() > 1e-3 ) cons.emplace_back( std::move( k ) );
    }
    else cons.emplace_back( std::move( k ) );
  }
  const Vector3s y0 = n ? Vector3s( Xof( q, 0 ) + vec3( g, 3.0 ) ) : Vector3s( 0, 0, 0 ), y1 = n > 1 ? Vector3s( Xof( q, 1 ) + vec3( g, 3.0 ) ) : Vector3s( 0, 0, 0 );
  const double r0 = g.u( 0.2, 1 ), r1 = g.u( 0.2, 1 );
  if( n >= 2 && mode == SPHERES && g.b( 0.5 ) && ( y0 - y1 ).norm() > 0.1 )
  {
    if( g.b() ) cons.emplace_back( new TeleportedSphereSphereConstraint( 0, 1, y0, y1, r0, r1 ) );
    else cons.emplace_back( new KinematicObjectSphereConstraint( 0, r0, ( y0 - y1 ).normalized(), 1, y1, Vector3s( 0, 0, 0 ), Vector3s( 0, 0, 0 ) ) ); // immovable bodies are documented to be at rest
  }
  c.nontrivial( !cons.empty() || c.sub > 0 );
  const auto V = [&]( const VectorXs& vv, int i, const Vector3s& arm ) -> Vector3s { return Xof( vv, i ) + Wof( vv, i ).cross( arm ); };
  checkContactKinematics( c, FS( sim ), q, v, cons, [&]( const Constraint& k, const VectorXs& qq, const VectorXs& vv, VectorXs& out )
  {
    std::pair<int, int> ids;
    k.getBodyIndices( ids );
    const int a = ids.first, b = ids.second;
    VectorXs p, nn;
    k.getWorldSpaceContactPoint( qq, p );
    k.getWorldSpaceContactNormal( qq, nn );
    const Vector3s P = p, N = nn;
    const std::string nm = k.name();
    if( nm == "sphere_sphere" || nm == "body_body" ) { out = V( vv, a, P - Xof( qq, a ) ) - V( vv, b, P - Xof( qq, b ) ); return true; }
    if( nm == "teleported_sphere_sphere" )
    {
      const Vector3s m = y0 + r0 / ( r0 + r1 ) * ( y1 - y0 );
      out = V( vv, 0, m - y0 ) - V( vv, 1, m - y1 );
      CHECK( ( N - ( y0 - y1 ).normalized() ).norm() <= 1e-9, nm << " normal" );
      return true;
    }
    if( nm == "kinematic_object_sphere" )
    {
      const Vector3s cp = Xof( qq, a ) - r0 * N;
      CHECK( ( P - cp ).norm() <= 1e-9, nm << " contact point" );
      out = V( vv, a, -r0 * N );
      return true;
    }
    if( nm == "kinematic_sphere_sphere" || nm == "kinematic_object_body" ) { out = V( vv, a, P - Xof( qq, a ) ); return true; }
    if( nm == "static_cylinder_sphere" )
    {
      const auto& C = s.cyls[k.getStaticObjectIndex()];
      Vector3s d = Xof( qq, a ) - C.x;
      const double al = d.dot( C.axis );
      d -= al * C.axis;
      const Vector3s arm = al * C.axis + C.r * d.normalized();
      out = V( vv, a, P - Xof( qq, a ) ) - ( C.spin * C.axis ).cross( arm );
      return true;
    }
    const auto& pl = s.planes[k.getStaticObjectIndex()];
    const Vector3s on = Xof( qq, a ) - N.dot( Xof( qq, a ) - pl.x ) * N; // the wall's material point nearest to the body's centre
    out = V( vv, a, P - Xof( qq, a ) );
    if( nm == "static_plane_sphere" ) out -= pl.v + pl.w.cross( on - pl.x );
    return true;
  }, r3KinOpts );
  for( auto& k : cons )
  {
    const std::string nm = k->name();
    const int a = k->body0(), b = k->body1();
    // Sampled friction discs: equally spaced tangents starting against the sliding direction
    if( nm.compare( 0, 9, "kinematic" ) != 0 ) // those declare the sampled disc unsupported
    {
      const int m = g.pick( { 1, 2, 4, 6 } );
      SparseMatrixsc D{ FS( sim ).nvdofs(), m };
      D.reserve( VectorXi::Constant( m, k->frictionStencilSize() ) );
      VectorXs drel = VectorXs::Zero( m );
      k->computeGeneralizedFrictionDisk( q, v, 0, m, D, drel );
      VectorXs nn;
      k->getWorldSpaceContactNormal( q, nn );
      const VectorXs rel = k->computeRelativeVelocity( q, v );
      const VectorXs tan = rel - rel.dot( nn ) * nn;
      // drel of moving obstacles is left to the smooth interface
      double moving = 0.0;
      if( nm.find( "static" ) == 0 || nm == "kinematic_object_sphere" ) { VectorXs z = VectorXs::Zero( v.size() ); moving = VectorXs( k->computeRelativeVelocity( q, z ) ).norm(); }
      if( tan.norm() > 1e-3 && moving == 0.0 ) for( int j = 0; j < m; ++j )
        CHECK( near( VectorXs( D.col( j ) ).dot( v ) + drel( j ), -tan.norm() * std::cos( 2.0 * M_PI * j / m ), 1e-8, 10 * ( 1 + vmax( v ) ) ), nm << " friction disc direction " << j << " of " << m << " sees velocity " << VectorXs( D.col( j ) ).dot( v ) + drel( j ) << " with sliding speed " << tan.norm() );
    }
    // The normal gradient is the derivative of the gap of round bodies
    if( nm == "sphere_sphere" || nm == "static_plane_sphere" || nm == "static_cylinder_sphere" || nm == "kinematic_sphere_sphere" )
    {
      SparseMatrixsc G{ FS( sim ).nvdofs(), 1 };
      G.reserve( VectorXi::Constant( 1, k->impactStencilSize() ) );
      k->evalgradg( q, 0, G, FS( sim ) );
      const VectorXs Gd = VectorXs( G.col( 0 ) );
      const double h = 1e-5;
      for( int i = 0; i < 3 * n; ++i )
      {
        VectorXs qa = q, qb = q;
        qa( i ) += h; qb( i ) -= h;
        const double fd = ( k->evaluateGapFunction( qa ) - k->evaluateGapFunction( qb ) ) / ( 2 * h );
        const double want = nm == "kinematic_sphere_sphere" && i / 3 == b ? 0.0 : fd;
        CHECK( near( want, Gd( i ), 1e-5 ), nm << " gap derivative " << i << ": " << fd << " gradient " << Gd( i ) );
      }
      for( int i = 3 * n; i < 6 * n; ++i ) CHECK( std::fabs( Gd( i ) ) <= 1e-9 * 10, nm << " spinning changes the gap" );
    }
    (void) a;
  }
  if( !cons.empty() )
  {
    MatrixXXsc ib, cb;
    CS( sim ).computeImpactBases( q, cons, ib );
    CS( sim ).computeContactBases( q, v, cons, cb );
    CHECK( ib.cols() == int( cons.size() ) && cb.cols() == 3 * int( cons.size() ), "stacked sizes" );
    for( size_t i = 0; i < cons.size(); ++i )
    {
      MatrixXXsc B;
      cons[i]->computeBasis( q, v, B );
      CHECK( ( ib.col( i ) - B.col( 0 ) ).norm() <= 1e-12 && ( cb.block<3, 3>( 0, 3 * i ) - B ).norm() <= 1e-12, "stacked bases" );
    }
  }
  // Tangent sampling
  const Vector3s nn = dir3( g );
  const Vector3s o = FrictionUtilities::orthogonalVector( nn );
  CHECK( near( o.norm(), 1.0, 1e-12 ) && std::fabs( o.dot( nn ) ) <= 1e-12, "orthogonal vector" );
  Vector3s sug = vec3( g, 2.0 );
  if( sug.cross( nn ).norm() > 1e-3 )
  {
    std::vector<Vector3s> ts( size_t( g.i( 1, 7 ) ) );
    FrictionUtilities::generateOrthogonalVectors( nn, ts, sug );
    const Vector3s t0 = ( sug - sug.dot( nn ) * nn ).normalized();
    for( size_t i = 0; i < ts.size(); ++i )
    {
      const double th = 2.0 * M_PI * double( i ) / double( ts.size() );
      CHECK( ( ts[i] - ( std::cos( th ) * t0 + std::sin( th ) * nn.cross( t0 ) ) ).norm() <= 1e-9, "tangent sample " << i << " of " << ts.size() );
    }
  }
}

// ---------------------------------------------------------------------------------------------------- portals
namespace
{
// Box with pairs of opposing portals along some of its axes
struct Domain3 { Vector3s L, c; M3 Q = M3::Identity(); Vector3s toWorld( const Vector3s& u ) const { return c + Q * u; } Vector3s toLocal( const Vector3s& x ) const { return Q.transpose() * ( x - c ); } bool per[3] = { false, false, false }; std::vector<std::pair<int, PlanarPortal>> portals; };
Domain3 genDomain3( Gen& g )
{
  Domain3 d;
  d.L = Vector3s( g.u( 2.0, 4.0 ), g.u( 2.0, 4.0 ), g.u( 2.0, 4.0 ) );
  d.c = g.b( 0.5 ) ? Vector3s( 0, 0, 0 ) : vec3( g, 5.0 );
  // Tangent frames of opposing planes are mirror images of each other only for normals in the xy or the yz plane
  if( g.b( 0.5 ) ) d.Q = M3( Eigen::AngleAxis<double>( ( g.u( 0.02, 0.98 ) + g.i( -2, 1 ) ) * M_PI / 2.0, g.b() ? Vector3s::UnitZ() : Vector3s::UnitX() ) );
  std::vector<int> axes = { 0, 1, 2 };
  for( int i = 2; i > 0; --i ) std::swap( axes[i], axes[g.i( 0, i )] );
  const int np = g.w( { 5, 3, 1 } ) + 1;
  for( int i = 0; i < np; ++i )
  {
    const int a = axes[i];
    d.per[a] = true;
    const int sg = g.b() ? 1 : -1;
    // Plane A at +-L, facing inwards; the anchor may be anywhere on it but the partner's must be opposite
    Vector3s off = g.b( 0.5 ) ? Vector3s( 0, 0, 0 ) : vec3( g, 2.0 );
    off( a ) = 0.0;
    Vector3s n = Vector3s::Zero();
    n( a ) = -sg;
    n = d.Q * n; off = d.Q * off;
    const StaticPlane A( d.c + off - n * d.L( a ), n * g.pick( { 1.0, 1.0, 2.5 } ) ), B( d.c + off + n * d.L( a ), -n );
    Array3i mult;
    mult( 0 ) = 1;
    mult( 1 ) = A.t0().dot( B.t0() ) > 0.0 ? -1 : 1;
    mult( 2 ) = A.t1().dot( B.t1() ) > 0.0 ? -1 : 1;
    d.portals.emplace_back( a, PlanarPortal( A, B, mult ) );
  }
  return d;
}
void describeDomain( std::ostream& o, const Domain3& d )
{
  o.precision( 17 );
  o << "domain centre " << d.c.transpose() << " half " << d.L.transpose() << " turned by " << Eigen::AngleAxis<double>( d.Q ).angle() << " portals";
  for( auto& p : d.portals ) o << " axis " << p.first << " A " << p.second.planeA().x().transpose() << " n " << p.second.planeA().n().transpose();
  o << " ";
}
}
SUBCHECK( "C18", "rb3d_portal_map", "axis aligned and rotated opposing portal pairs and points inside, outside and near the planes; non-trivial when the point is beyond a plane", 60000, 600000 )
{
  const Domain3 d = genDomain3( g );
  for( auto& pp : d.portals )
  {
    const int a = pp.first;
    const PlanarPortal& P = pp.second;
    Vector3s u( g.s( d.L.x() * 1.3 ), g.s( d.L.y() * 1.3 ), g.s( d.L.z() * 1.3 ) );
    if( g.b() ) u( a ) = d.L( a ) * g.pick( { 1.0, -1.0 } ) * ( 1.0 + g.pick( { 1.0, -1.0 } ) * g.logu( 1e-6, 0.3 ) );
    if( std::fabs( std::fabs( u( a ) ) - d.L( a ) ) < 1e-9 ) throw Discard{};
    c.note( [&]( std::ostream& o ) { describeDomain( o, d ); o << " u " << u.transpose(); } );
    const Vector3s x = d.toWorld( u );
    const bool in = P.pointInsidePortal( x );
    CHECK( in == ( std::fabs( u( a ) ) > d.L( a ) ), "point at " << u.transpose() << " inside portal: " << in );
    c.nontrivial( in );
    if( in )
    {
      Vector3s xo = x, wu = u;
      P.teleportPointInsidePortal( x, xo );
      wu( a ) += ( u( a ) > 0 ? -2.0 : 2.0 ) * d.L( a );
      const Vector3s want = d.toWorld( wu );
      CHECK( ( xo - want ).norm() <= 1e-9, "teleported to " << ( xo - d.c ).transpose() << " from " << u.transpose() );
      Vector3s back;
      const bool throughA = P.planeA().distanceToPoint( x ) < 0.0;
      if( throughA ) P.teleportPointThroughPlaneB( xo, back ); else P.teleportPointThroughPlaneA( xo, back );
      CHECK( ( back - x ).norm() <= 1e-9, "through and back moved the point" );
    }
    else
    {
      Array3s h( g.u( 0.05, 0.9 ), g.u( 0.05, 0.9 ), g.u( 0.05, 0.9 ) );
      const double m = d.L( a ) - std::fabs( u( a ) ) - d.Q.col( a ).cwiseAbs().dot( h.matrix() );
      // A box that reaches both planes of a portal is outside the supported domain
      if( d.L( a ) + std::fabs( u( a ) ) - d.Q.col( a ).cwiseAbs().dot( h.matrix() ) < 1e-6 ) continue;
      if( std::fabs( m ) > 1e-9 )
      {
        bool idx = false;
        const bool touch = P.aabbTouchesPortal( x.array() - h, x.array() + h, idx );
        CHECK( touch == ( m < 0.0 ), "box touching portal" );
        if( touch )
        {
          CHECK( idx == ( P.planeB().n().dot( d.Q.col( a ) ) * u( a ) < 0.0 ), "plane index of a touching box" );
          Vector3s xo, wu = u;
          P.teleportPoint( x, idx, xo );
          wu( a ) += ( u( a ) > 0 ? -2.0 : 2.0 ) * d.L( a );
          const Vector3s want = d.toWorld( wu );
          CHECK( ( xo - want ).norm() <= 1e-9, "teleported box" );
        }
      }
    }
  }
}
SUBCHECK( "C18", "rb3d_portal_steps", "free spinning bodies drift for up to 30 steps of any kind (without contacts, with impacts, with friction) in a box periodic along one to three axes; positions compared with free flight modulo the box, velocities and orientations with the motion without portals; non-trivial when a body crossed a portal", 4000, 40000 )
{
  const Domain3 d = genDomain3( g );
  Scene s, f;
  Geo e;
  e.r = 0.02;
  s.geos.push_back( e );
  const int kind = g.w( { 3, 1, 1 } );
  const int n = kind == 0 ? g.i( 1, 4 ) : 1;
  for( int i = 0; i < n; ++i )
  {
    Body b;
    b.geo = 0; b.fixed = false;
    b.x = d.toWorld( Vector3s( g.s( d.L.x() * 0.98 ), g.s( d.L.y() * 0.98 ), g.s( d.L.z() * 0.98 ) ) );
    b.v = vec3( g, 6.0 ); b.w = vec3( g, 3.0 ); b.R = rot3( g );
    massOfGeo( e, 1.0, b.m, b.I );
    b.m = g.u( 0.5, 2.0 ); b.I.setConstant( g.u( 0.1, 1.0 ) );
    s.bodies.push_back( b );
  }
  RigidBody3DSim sim, freesim;
  sim.state() = s.build();
  freesim.state() = s.build();
  for( auto& p : d.portals ) sim.state().addPlanarPortal( p.second );
  const Rational<std::intmax_t> dt( 1, g.pick( { 20, 50, 100 } ) );
  const auto map = genMap( g, false );
  PythonScripting cb;
  const auto step = [&]( RigidBody3DSim& x, unsigned it )
  {
    if( kind == 0 ) x.flow( cb, it, dt, *map );
    else if( kind == 1 ) { LCPOperatorAPGD lcp( 1e-8, 200 ); x.flow( cb, it, dt, *map, lcp, 0.5 ); }
    else { Sobogus so( SobogusSolverType::RigidBodies3D, 10 ); GeometricImpactFrictionMap gm( 1e-8, 100, ImpulsesToCache::NONE ); x.flow( cb, it, dt, *map, 0.5, 0.3, so, gm ); }
  };
  sim.impactMap() = ImpactMap( false ); freesim.impactMap() = ImpactMap( false );
  const int steps = g.i( 1, 30 );
  c.note( [&]( std::ostream& o ) { describe( o, s ); describeDomain( o, d ); o << " steps " << steps << " map " << map->name() << " kind " << kind; } );
  std::vector<Vector3s> u( n );
  for( int i = 0; i < n; ++i ) u[i] = d.toLocal( s.bodies[i].x );
  bool crossed = false;
  for( int it = 1; it <= steps; ++it )
  {
    step( sim, unsigned( it ) );
    step( freesim, unsigned( it ) );
    for( int i = 0; i < n; ++i )
    {
      u[i] += scalar( dt ) * ( d.Q.transpose() * s.bodies[i].v );
      for( int a = 0; a < 3; ++a ) if( d.per[a] )
      {
        if( std::fabs( std::fabs( u[i]( a ) ) - d.L( a ) ) < 1e-9 ) throw Discard{};
        if( std::fabs( u[i]( a ) ) > d.L( a ) ) { crossed = true; u[i]( a ) += ( u[i]( a ) > 0 ? -2.0 : 2.0 ) * d.L( a ); }
      }
      CHECK( ( d.toLocal( Xof( sim.state().q(), i ) ) - u[i] ).norm() <= 1e-8, "step " << it << " body " << i << " at " << d.toLocal( Xof( sim.state().q(), i ) ).transpose() << " expected " << u[i].transpose() );
      CHECK( ( Rof( sim.state().q(), i ) - Rof( freesim.state().q(), i ) ).norm() <= 1e-12, "orientation of body " << i );
    }
    CHECK( sim.state().v() == freesim.state().v(), "a portal changed a velocity" );
  }
  c.nontrivial( crossed );
}
SUBCHECK( "C19", "rb3d_portal_contacts", "2..6 spheres (some immovable) in a box periodic along one to three axes, many near faces and edges; contacts compared with all periodic images; non-trivial when a contact crosses a portal", 30000, 300000 )
{
  const Domain3 d = genDomain3( g );
  const int n = g.i( 2, 6 );
  std::vector<Vector3s> u0( n ), u1( n );
  std::vector<double> r( n );
  Scene s;
  const auto wrap = [&]( Vector3s u ) { for( int a = 0; a < 3; ++a ) if( d.per[a] ) while( std::fabs( u( a ) ) > d.L( a ) ) u( a ) -= ( u( a ) > 0 ? 2.0 : -2.0 ) * d.L( a ); return u; };
  const bool anyfix = g.b( 0.3 );
  for( int i = 0; i < n; ++i )
  {
    r[i] = g.mix( 0.2, 1.0 );
    Vector3s u( g.s( d.L.x() ), g.s( d.L.y() ), g.s( d.L.z() ) );
    if( i > 0 && g.b( 0.7 ) ) { const int j = g.i( 0, i - 1 ); u = u1[j] + dir3( g ) * ( r[i] + r[j] ) * ( 1.0 + g.u( -0.2, 0.1 ) ); }
    else for( int a = 0; a < 3; ++a ) if( d.per[a] && g.b( 0.5 ) ) u( a ) = g.pick( { 1.0, -1.0 } ) * ( d.L( a ) - r[i] * g.u( 0.0, 1.2 ) );
    u1[i] = wrap( u );
    Body b;
    b.fixed = anyfix && g.b( 0.4 );
    u0[i] = b.fixed ? u1[i] : Vector3s( u1[i] + vec3( g, 0.05 ) );
    Geo e; e.r = r[i];
    s.geos.push_back( e );
    b.geo = i; b.x = d.toWorld( u0[i] ); b.v = vec3( g, 2.0 ); b.w = vec3( g, 3.0 ); b.R = rot3( g );
    if( b.fixed ) { b.v.setZero(); b.w.setZero(); }
    massOfGeo( e, 1.0, b.m, b.I );
    s.bodies.push_back( b );
    // A body that reaches both planes of a portal is outside the supported domain
    for( int a = 0; a < 3; ++a ) if( d.per[a] && r[i] > 0.9 * d.L( a ) ) throw Discard{};
  }
  RigidBody3DSim sim;
  sim.state() = s.build();
  for( auto& p : d.portals ) sim.state().addPlanarPortal( p.second );
  const VectorXs q0 = sim.state().q(), v = sim.state().v();
  VectorXs q1 = q0;
  for( int i = 0; i < n; ++i ) q1.segment<3>( 3 * i ) = d.toWorld( u1[i] );
  c.note( [&]( std::ostream& o ) { describe( o, s ); describeDomain( o, d ); o << " q1"; for( int i = 0; i < n; ++i ) o << " (" << Xof( q1, i ).transpose() << ")"; } );
  for( int i = 0; i < n; ++i ) for( int j = 0; j < i; ++j ) if( ( u0[i] - u0[j] ).norm() < 0.02 ) throw Discard{}; // no direction between coincident centres
  const double band = 1e-8;
  struct Img { Eigen::Vector3i k; double gap; };
  std::map<std::pair<int, int>, std::vector<Img>> may;
  std::map<std::pair<int, int>, bool> must, fuzzy;
  for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j ) for( int z = 0; z < 27; ++z )
  {
    const Eigen::Vector3i k( z % 3 - 1, z / 3 % 3 - 1, z / 9 - 1 );
    bool legal = true;
    int axes = 0;
    for( int a = 0; a < 3; ++a ) { if( k( a ) && !d.per[a] ) legal = false; if( k( a ) ) ++axes; }
    if( !legal ) continue;
    Vector3s img = u1[j];
    for( int a = 0; a < 3; ++a ) img( a ) += 2.0 * k( a ) * d.L( a );
    const double gap = ( u1[i] - img ).norm() - r[i] - r[j];
    const auto key = std::make_pair( i, j );
    if( std::fabs( gap ) < band ) fuzzy[key] = true;
    if( gap >= band ) continue;
    may[key].push_back( { k, gap } );
    if( gap > -band ) continue;
    bool req = axes <= 1;
    if( axes == 2 )
    {
      // Each of the two crossings is taken by one of the bodies
      int a0 = -1, a1 = -1;
      for( int a = 0; a < 3; ++a ) if( k( a ) ) { if( a0 < 0 ) a0 = a; else a1 = a; }
      const auto t = [&]( int b, int a ) { return std::fabs( u1[b]( a ) ) + r[b] >= d.L( a ) + band; };
      req = ( t( i, a0 ) && t( j, a1 ) ) || ( t( i, a1 ) && t( j, a0 ) );
    }
    if( s.bodies[i].fixed && s.bodies[j].fixed ) req = false;
    if( req ) must[key] = true;
  }
  Cons cons;
  CS( sim ).computeActiveSet( q0, q1, v, cons );
  std::map<std::pair<int, int>, int> seen;
  bool through = false;
  for( auto& kk : cons )
  {
    std::pair<int, int> ids;
    kk->getBodyIndices( ids );
    const int a = ids.first, b = ids.second;
    CHECK( a >= 0 && b >= 0 && a < n && b < n && a != b && !s.bodies[a].fixed, "bodies" );
    const auto key = std::make_pair( std::min( a, b ), std::max( a, b ) );
    ++seen[key];
    CHECK( may.count( key ), kk->name() << " between spheres " << a << "," << b << " which touch in no periodic image" );
    const bool tele = kk->name() == "teleported_sphere_sphere" || kk->name() == "kinematic_object_sphere";
    CHECK( ( kk->name().find( "kinematic" ) == 0 ) == s.bodies[b].fixed, "kind of contact " << kk->name() );
    VectorXs nn, p;
    kk->getWorldSpaceContactNormal( q0, nn );
    kk->getWorldSpaceContactPoint( q0, p );
    const VectorXs rel = kk->computeRelativeVelocity( q0, v );
    bool ok = false;
    std::ostringstream why;
    for( auto& im : may[key] )
    {
      if( tele == im.k.isZero() ) continue;
      const int sg = a < b ? 1 : -1;
      Vector3s B0 = u0[b];
      for( int x = 0; x < 3; ++x ) B0( x ) += 2.0 * sg * im.k( x ) * d.L( x );
      const Vector3s want = d.Q * ( u0[a] - B0 ).normalized();
      const bool fx = s.bodies[b].fixed;
      const Vector3s arm0 = fx ? Vector3s( -r[a] * want ) : Vector3s( d.Q * ( B0 - u0[a] ) * ( r[a] / ( r[a] + r[b] ) ) ), arm1 = d.Q * ( u0[a] - B0 ) * ( r[b] / ( r[a] + r[b] ) );
      Vector3s w = Xof( v, a ) + Wof( v, a ).cross( arm0 );
      if( !fx ) w -= Xof( v, b ) + Wof( v, b ).cross( arm1 );
      why << " [image " << im.k.transpose() << " normal " << want.transpose() << " vs " << nn.transpose() << " rel " << w.transpose() << " vs " << rel.transpose() << "]";
      // The point is where the first body is, or in the image the portal shows
      bool pt = ( Vector3s( p ) - ( Xof( q0, a ) + arm0 ) ).norm() <= 1e-7;
      bool dep = true;
      if( kk->name() != "kinematic_object_sphere" && kk->name() != "teleported_sphere_sphere" ) dep = near( kk->penetrationDepth( q0 ), std::min( 0.0, ( u0[a] - B0 ).norm() - r[a] - r[b] ), 1e-7 );
      why << " pt " << pt << " depth " << dep;
      if( ( want - Vector3s( nn ) ).norm() <= 1e-7 && ( w - Vector3s( rel ) ).norm() <= 1e-7 && pt && dep ) ok = true;
      if( !im.k.isZero() ) through = true;
    }
    CHECK( ok, kk->name() << " between spheres " << a << "," << b << " matches no overlapping image:" << why.str() );
    Cons one;
    one.emplace_back( std::move( kk ) );
    checkContactKinematics( c, FS( sim ), q0, v, one, nullptr, r3KinOpts );
    kk = std::move( one[0] );
  }
  for( auto& e : must ) if( e.second ) { if( seen[e.first] == 0 && !fuzzy[e.first] ) FAILCASE( "spheres " << e.first.first << "," << e.first.second << " touch through a portal but have no contact" ); ++c.sub; }
  for( auto& e : seen ) CHECK( e.second <= 1 || may[e.first].size() > 1, "contact between spheres " << e.first.first << "," << e.first.second << " generated " << e.second << " times" );
  c.nontrivial( through );
}
