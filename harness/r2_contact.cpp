// 2D rigid bodies: C06 broad phase, C08 contact detection, C10 contact kinematics, C17 mass, C18/C19 portals, C23 geometry queries
#include "r2_scene.h"
#include "domain2.h"

SUBCHECK( "C06", "rb2d_grid", "1..40 boxes, biased to touching, lattice aligned and equal placements, plus a query box; non-trivial when at least one pair overlaps", 60000, 600000 )
{
  const auto boxes = genBoxes<2>( g );
  std::vector<AABB> a;
  for( auto& b : boxes ) a.emplace_back( b.lo, b.hi );
  std::set<std::pair<unsigned, unsigned>> got;
  SpatialGrid::getPotentialOverlaps( a, got );
  checkPairs<2>( c, boxes, got, "grid" );
  // Query against one more box
  RawBox<2> t = boxes[ g.raw( boxes.size() ) ];
  const int ax = g.i( 0, 1 );
  const double w = g.u( 0.05, 2.0 ), gap = g.pick( { 0.0, 1e-7, -1e-7, g.s( 3.0 ) } );
  t.lo( ax ) = t.hi( ax ) + gap;
  t.hi( ax ) = t.lo( ax ) + w;
  std::vector<unsigned> q;
  SpatialGrid::getPotentialOverlaps( AABB( t.lo, t.hi ), a, q );
  std::set<unsigned> qs( q.begin(), q.end() );
  CHECK( qs.size() == q.size(), "query reports a box twice" );
  for( unsigned i = 0; i < boxes.size(); ++i ) CHECK( ( qs.count( i ) != 0 ) == boxesOverlap<2>( t, boxes[i] ), "query against box " << i );
}

// ---------------------------------------------------------------------------------------------------- narrow phase oracle
namespace
{
struct Cand { Vector2s n; std::vector<std::pair<Vector2s, double>> pts; };
// All manifolds the smallest-penetration face rule admits (ties give several); normals point from body 1 to body 0
std::vector<Cand> boxBoxCandidates( const Vector2s& x0, double t0, const Vector2s& h0, const Vector2s& x1, double t1, const Vector2s& h1, double tol )
{
  std::vector<Cand> out;
  const double best = boxBoxGap( x0, t0, h0, x1, t1, h1 );
  for( int k = 0; k < 4; ++k ) for( int sg = -1; sg <= 1; sg += 2 )
  {
    const bool first = k < 2;
    const Vector2s xa = first ? x0 : x1, xb = first ? x1 : x0, ha = first ? h0 : h1, hb = first ? h1 : h0;
    const Eigen::Matrix2d Ra = rot2( first ? t0 : t1 ), Rb = rot2( first ? t1 : t0 );
    const Vector2s nn = sg * Ra.col( k % 2 ); // outward from the reference box towards the other
    const double cd = nn.dot( xb - xa );
    if( cd < -tol ) continue;
    const Vector2s nb = Rb.transpose() * nn;
    const double pen = cd - ha( k % 2 ) - std::fabs( nb.x() ) * hb.x() - std::fabs( nb.y() ) * hb.y();
    if( pen < best - tol ) continue;
    const Vector2s ta = Ra.col( 1 - k % 2 );
    const double ht = ha( 1 - k % 2 );
    for( int f = 0; f < 2; ++f ) for( int fs = -1; fs <= 1; fs += 2 )
    {
      const double align = fs * nb( f ); // outward face normal against nn
      if( align > -std::max( std::fabs( nb.x() ), std::fabs( nb.y() ) ) + 1e-9 ) continue;
      const Vector2s p0 = xb + fs * hb( f ) * Rb.col( f ) - hb( 1 - f ) * Rb.col( 1 - f ), p1 = xb + fs * hb( f ) * Rb.col( f ) + hb( 1 - f ) * Rb.col( 1 - f );
      // Clip to the slab of the reference face
      double s0 = 0.0, s1 = 1.0;
      const double a0 = ta.dot( p0 - xa ), a1 = ta.dot( p1 - xa );
      const double da = a1 - a0;
      if( std::fabs( da ) < 1e-12 ) continue;
      double u0 = ( -ht - a0 ) / da, u1 = ( ht - a0 ) / da;
      if( u0 > u1 ) std::swap( u0, u1 );
      s0 = std::max( s0, u0 );
      s1 = std::min( s1, u1 );
      Cand cd2;
      cd2.n = first ? Vector2s( -nn ) : nn;
      // A face that just misses the slab contributes its nearest end
      if( s0 > s1 ) { const double m = u0 > 1.0 ? 1.0 : 0.0; s0 = s1 = m; }
      for( double s : { s0, s1 } )
      {
        const Vector2s p = p0 + s * ( p1 - p0 );
        const double depth = ha( k % 2 ) - nn.dot( p - xa );
        if( depth >= -tol ) cd2.pts.push_back( { p + 0.5 * depth * nn, depth } );
      }
      out.push_back( cd2 );
    }
  }
  return out;
}
bool matches( const Cand& cd, const Vector2s& n, const std::vector<Vector2s>& pts, double tol )
{
  if( ( cd.n - n ).norm() > 1e-7 ) return false;
  for( auto& p : pts ) { bool ok = false; for( auto& e : cd.pts ) if( ( e.first - p ).norm() <= tol ) ok = true; if( !ok ) return false; }
  for( auto& e : cd.pts ) if( e.second > tol ) { bool ok = false; for( auto& p : pts ) if( ( e.first - p ).norm() <= tol ) ok = true; if( !ok ) return false; }
  return true;
}
void checkBoxBox( Ctx& c, const Vector2s& x0, double t0, const Vector2s& h0, const Vector2s& x1, double t1, const Vector2s& h1, const Vector2s& n, const std::vector<Vector2s>& pts, double band, const char* who )
{
  const double gap = boxBoxGap( x0, t0, h0, x1, t1, h1 );
  if( gap > band ) { CHECK( pts.empty(), who << ": boxes are " << gap << " apart but touch at " << pts.size() << " points" ); return; }
  if( gap > -band ) return;
  CHECK( !pts.empty(), who << ": boxes overlap by " << -gap << " but have no contact point" );
  CHECK( pts.size() <= 2, who << ": " << pts.size() << " contact points" );
  CHECK( near( n.norm(), 1.0, 1e-9 ), who << ": normal length" );
  CHECK( n.dot( x0 - x1 ) >= -1e-9, who << ": normal " << n.transpose() << " does not point from the second box to the first" );
  bool ok = false;
  std::ostringstream why;
  for( auto& cd : boxBoxCandidates( x0, t0, h0, x1, t1, h1, 1e-7 ) )
  {
    if( matches( cd, n, pts, 1e-5 ) ) ok = true;
    why << " [n " << cd.n.transpose();
    for( auto& e : cd.pts ) why << " p " << e.first.transpose() << " d " << e.second;
    why << "]";
  }
  std::ostringstream g_;
  for( auto& p : pts ) g_ << " p " << p.transpose();
  CHECK( ok, who << ": contacts n " << n.transpose() << g_.str() << " but the smallest penetration gives" << why.str() );
}
void checkCircleBox( Ctx& c, const Vector2s& xc, double r, const Vector2s& xb, double th, const Vector2s& h, bool active, const Vector2s& n, const Vector2s& p, bool have_p, double band, const char* who )
{
  const double gap = circleBoxGap( xc, r, xb, th, h );
  if( gap > band ) { CHECK( !active, who << ": circle and box are " << gap << " apart but in contact" ); return; }
  if( gap < -band ) CHECK( active, who << ": circle and box overlap by " << -gap << " but are not in contact" );
  if( !active ) return;
  CHECK( near( n.norm(), 1.0, 1e-9 ), who << ": normal length" );
  const Eigen::Matrix2d R = rot2( th );
  const Vector2s u = R.transpose() * ( xc - xb ), nl = R.transpose() * n;
  const Vector2s cl( std::min( h.x(), std::max( -h.x(), u.x() ) ), std::min( h.y(), std::max( -h.y(), u.y() ) ) );
  double depth;
  if( ( u - cl ).norm() > 1e-7 )
  {
    CHECK( ( nl - ( u - cl ).normalized() ).norm() <= 1e-6, who << ": normal " << nl.transpose() << " (box frame) but the closest point is towards " << ( cl - u ).transpose() );
    depth = ( u - cl ).norm() - r;
  }
  else if( ( u.cwiseAbs() - h ).cwiseAbs().maxCoeff() <= 1e-6 )
  {
    // Center at a corner: any outward direction
    for( int k = 0; k < 2; ++k ) CHECK( nl( k ) * u( k ) >= -1e-6, who << ": normal points into the box" );
    depth = -r;
  }
  else
  {
    // Center inside: pushed out through a face on its side
    int ax = -1;
    for( int k = 0; k < 2; ++k ) if( std::fabs( std::fabs( nl( k ) ) - 1.0 ) <= 1e-6 ) ax = k;
    CHECK( ax >= 0, who << ": normal " << nl.transpose() << " is not a face normal although the center is inside the box" );
    CHECK( nl( ax ) * u( ax ) >= -1e-6, who << ": normal points to the far face" );
    depth = std::fabs( u( ax ) ) - h( ax ) - r;
  }
  if( have_p ) CHECK( ( p - ( xc - ( r + 0.5 * depth ) * n ) ).norm() <= 1e-6, who << ": contact point " << p.transpose() << " expected " << ( xc - ( r + 0.5 * depth ) * n ).transpose() );
}
Geo genBoxGeo( Gen& g ) { Geo e; e.box = true; e.h = Vector2s( g.mix( 0.1, 2.0 ), g.mix( 0.1, 2.0 ) ); return e; }
double genAngle( Gen& g ) { return g.pick( { 0.0, g.lat( 0.0, 6.283185307179586, 8 ), g.s( 7.0 ), g.s( 7.0 ), g.s( 100.0 ) } ); }
}

SUBCHECK( "C23", "rb2d_circle_box", "a circle around and inside a box at every orientation, biased to the touching distance; non-trivial when they touch", 100000, 1000000 )
{
  const Geo b = genBoxGeo( g );
  const double th = genAngle( g ), r = g.mix( 0.05, 2.0 );
  const Vector2s xb( g.s( 5 ), g.s( 5 ) );
  // A point on the border or anywhere, moved by the radius
  Vector2s u( b.h.x() * g.pick( { 1.0, -1.0, g.s( 1.0 ) } ), b.h.y() * g.pick( { 1.0, -1.0, g.s( 1.0 ) } ) );
  u += dir2( g ) * r * g.pick( { g.u( 0.0, 1.5 ), 1.0, g.u( 0.9, 1.1 ), 0.0 } );
  const Vector2s xc = xb + rot2( th ) * u;
  c.note( [&]( std::ostream& o ) { o.precision( 17 ); o << "circle " << xc.transpose() << " r " << r << " box " << xb.transpose() << " th " << th << " h " << b.h.transpose(); } );
  Vector2s n( 9, 9 ), p( 9, 9 );
  const bool act = CircleBoxTools::isActive( xc, r, xb, th, b.h, n, p );
  c.nontrivial( act );
  checkCircleBox( c, xc, r, xb, th, b.h, act, n, p, true, 1e-9 * ( 10 + std::fabs( th ) ), "circle-box" );
}
SUBCHECK( "C23", "rb2d_box_box", "two boxes at every relative placement, biased to touching faces and corners and to equal or perpendicular orientations; both orders and a rigidly moved copy compared; non-trivial when they touch", 100000, 1000000 )
{
  const Geo a = genBoxGeo( g ), b = g.b( 0.2 ) ? a : genBoxGeo( g );
  const double t0 = genAngle( g );
  const double t1 = g.b( 0.4 ) ? t0 + g.pick( { 0.0, 1.5707963267948966, 0.78539816339744831, g.s( 1e-3 ), g.s( 0.1 ) } ) : genAngle( g );
  const Vector2s x0( g.s( 3 ), g.s( 3 ) );
  Vector2s x1;
  if( g.b( 0.7 ) )
  {
    // Touching along a face normal of the first
    const int k = g.i( 0, 1 );
    const double sg = g.pick( { 1.0, -1.0 } );
    const Vector2s ax = rot2( t0 ).col( k );
    const Vector2s ub = rot2( t1 ).transpose() * ax;
    const double sup = std::fabs( ub.x() ) * b.h.x() + std::fabs( ub.y() ) * b.h.y();
    x1 = x0 + sg * ax * ( a.h( k ) + sup ) * ( 1.0 + g.pick( { g.u( -0.3, 0.02 ), g.s( 1e-3 ), g.u( -0.02, 0.0 ), g.u( -1.0, 0.0 ) } ) ) + rot2( t0 ).col( 1 - k ) * g.s( a.h( 1 - k ) + b.h.norm() );
  }
  else x1 = x0 + dir2( g ) * g.u( 0.0, a.h.norm() + b.h.norm() );
  if( ( x1 - x0 ).norm() < 1e-3 ) throw Discard{};
  c.note( [&]( std::ostream& o ) { o.precision( 17 ); o << "box0 " << x0.transpose() << " th " << t0 << " h " << a.h.transpose() << " box1 " << x1.transpose() << " th " << t1 << " h " << b.h.transpose(); } );
  Vector2s n( 9, 9 );
  std::vector<Vector2s> pts;
  BoxBoxTools::isActive( x0, t0, a.h, x1, t1, b.h, n, pts );
  c.nontrivial( !pts.empty() );
  const double band = 1e-9 * ( 10 + std::fabs( t0 ) + std::fabs( t1 ) );
  checkBoxBox( c, x0, t0, a.h, x1, t1, b.h, n, pts, band, "box-box" );
  Vector2s m( 9, 9 );
  std::vector<Vector2s> qs;
  BoxBoxTools::isActive( x1, t1, b.h, x0, t0, a.h, m, qs );
  checkBoxBox( c, x1, t1, b.h, x0, t0, a.h, m, qs, band, "swapped box-box" );
}
SUBCHECK( "C23", "rb2d_bounds", "bounding boxes of circles and boxes at generated placements, static and swept; compared with the extent over sampled and extremal surface points; non-trivial for boxes", 40000, 400000 )
{
  Geo e;
  if( g.b( 0.6 ) ) e = genBoxGeo( g ); else e.r = g.mix( 0.05, 2 );
  c.nontrivial( e.box );
  std::unique_ptr<RigidBody2DGeometry> geo;
  if( e.box ) geo.reset( new BoxGeometry( e.h ) ); else geo.reset( new CircleGeometry( e.r ) );
  if( g.b() ) geo = geo->clone();
  CHECK( geo->type() == ( e.box ? RigidBody2DGeometryType::BOX : RigidBody2DGeometryType::CIRCLE ), "type" );
  const double t0 = genAngle( g ), t1 = genAngle( g );
  const Vector2s x0( g.s( 5 ), g.s( 5 ) ), x1 = x0 + Vector2s( g.s( 3 ), g.s( 3 ) );
  const auto ext = [&]( double t ) -> Vector2s { if( !e.box ) return Vector2s( e.r, e.r ); return rot2( t ).cwiseAbs() * e.h; };
  Array2s lo, hi;
  geo->computeAABB( x1, t1, lo, hi );
  CHECK( ( lo.matrix() - ( x1 - ext( t1 ) ) ).norm() <= 1e-9 && ( hi.matrix() - ( x1 + ext( t1 ) ) ).norm() <= 1e-9, "bounds [" << lo.transpose() << "] [" << hi.transpose() << "] expected half width " << ext( t1 ).transpose() );
  Array2s cl, ch;
  geo->computeCollisionAABB( x0, t0, x1, t1, cl, ch );
  const Vector2s wl = e.box ? Vector2s( x1 - ext( t1 ) ) : Vector2s( x0.cwiseMin( x1 ) - ext( t1 ) ), wh = e.box ? Vector2s( x1 + ext( t1 ) ) : Vector2s( x0.cwiseMax( x1 ) + ext( t1 ) );
  for( int k = 0; k < 2; ++k ) CHECK( cl( k ) <= wl( k ) + 1e-9 && ch( k ) >= wh( k ) - 1e-9, "collision bounds do not cover the motion that detection has to see" );
  // The whole scene
  Scene s;
  genBodies( g, s, genMode( g ), SceneOpts{} );
  const RigidBody2DState st = s.build();
  const Array4s bb = st.computeBoundingBox();
  Array4s w( 1e300, 1e300, -1e300, -1e300 );
  for( int i = 0; i < s.n(); ++i )
  {
    const Vector2s ee = s.geo( i ).box ? Vector2s( rot2( s.bodies[i].th ).cwiseAbs() * s.geo( i ).h ) : Vector2s( s.geo( i ).r, s.geo( i ).r );
    w.segment<2>( 0 ) = w.segment<2>( 0 ).min( ( s.bodies[i].x - ee ).array() );
    w.segment<2>( 2 ) = w.segment<2>( 2 ).max( ( s.bodies[i].x + ee ).array() );
  }
  CHECK( ( bb - w ).abs().maxCoeff() <= 1e-9, "scene bounds " << bb.transpose() << " expected " << w.transpose() );
}
SUBCHECK( "C17", "rb2d_mass", "circles and boxes of every size and density added to a scene; mass and inertia compared with the closed form and with numerical integration; non-trivial always", 60000, 600000 )
{
  Geo e;
  if( g.b( 0.6 ) ) e = genBoxGeo( g ); else e.r = g.mix( 0.05, 2 );
  const double rho = g.logu( 0.05, 20.0 );
  std::unique_ptr<RigidBody2DGeometry> geo;
  if( e.box ) geo.reset( new BoxGeometry( e.h ) ); else geo.reset( new CircleGeometry( e.r ) );
  double m = -1, I = -1;
  geo->computeMassAndInertia( rho, m, I );
  // Sum over a polar or cartesian grid, exact for the polynomial integrands
  double wm = 0, wI = 0;
  if( e.box ) { const int N = 2; const double gp = std::sqrt( 1.0 / 3.0 ); for( int i = 0; i < N; ++i ) for( int j = 0; j < N; ++j ) { const double x = e.h.x() * ( i ? gp : -gp ), y = e.h.y() * ( j ? gp : -gp ), w = rho * e.h.x() * e.h.y(); wm += w; wI += w * ( x * x + y * y ); } }
  else { const int N = 400; for( int i = 0; i < N; ++i ) { const double a = e.r * i / N, b = e.r * ( i + 1 ) / N; wm += rho * M_PI * ( b * b - a * a ); wI += rho * M_PI * 0.5 * ( b * b * b * b - a * a * a * a ); } }
  c.note( [&]( std::ostream& o ) { o << ( e.box ? "box" : "circle" ) << " " << e.h.transpose() << " r " << e.r << " rho " << rho; } );
  CHECK( near( m, wm, 1e-10, wm ) , "mass " << m << " expected " << wm );
  CHECK( std::fabs( I - wI ) <= 1e-10 * wI, "inertia " << I << " expected " << wI );
  CHECK( std::fabs( m - wm ) <= 1e-10 * wm, "mass " << m << " expected " << wm );
  // The mass matrix of a state to which bodies were added
  RigidBody2DState st;
  st.geometry().emplace_back( geo->clone() );
  const double r2 = g.u( 0.1, 2.0 ), rho2 = g.u( 0.1, 5.0 );
  st.addCircleGeometry( r2 );
  st.addBody( Vector2s( 0, 0 ), 0.3, Vector2s( 0, 0 ), 0.0, rho, 0, false );
  st.addBody( Vector2s( 5, 0 ), 0.3, Vector2s( 0, 0 ), 0.0, rho2, 1, g.b() );
  const double M1 = rho2 * M_PI * r2 * r2, I1 = 0.5 * M1 * r2 * r2;
  const double want[6] = { wm, wm, wI, M1, M1, I1 };
  CHECK( st.M().nonZeros() == 6 && st.Minv().nonZeros() == 6, "mass matrix structure" );
  for( int i = 0; i < 6; ++i ) CHECK( std::fabs( st.M().coeff( i, i ) - want[i] ) <= 1e-10 * want[i] && near( st.Minv().coeff( i, i ) * want[i], 1.0, 1e-10 ), "mass matrix entry " << i );
  CHECK( near( st.m( 0 ), wm, 1e-10, wm ) && near( st.I( 1 ), I1, 1e-10, I1 ), "mass accessors" );
}

static L minDist3( const VectorXs& q0, const VectorXs& q1, int i, int j )
{
  const L px = (L) q0( 3 * i ) - q0( 3 * j ), py = (L) q0( 3 * i + 1 ) - q0( 3 * j + 1 );
  const L ex = (L) q1( 3 * i ) - q1( 3 * j ), ey = (L) q1( 3 * i + 1 ) - q1( 3 * j + 1 );
  const L dx = ex - px, dy = ey - py, dd = dx * dx + dy * dy;
  L t = dd > 0 ? -( px * dx + py * dy ) / dd : 0;
  t = std::min( (L) 1, std::max( (L) 0, t ) );
  return sqrtl( ( px + t * dx ) * ( px + t * dx ) + ( py + t * dy ) * ( py + t * dy ) );
}

SUBCHECK( "C08", "rb2d_touching_counts", "two circles, a circle or an unrotated box on a plane, axis-aligned with dyadic coordinates, so that every gap is exact: zero, 2^-10 or -2^-10; non-trivial when the gap is exactly zero", 30000, 300000 )
{
  const int kind = g.i( 0, 2 );
  const double gap = g.pick( { 0.0, 0.0, 1.0 / 1024, -1.0 / 1024 } );
  const double r0 = g.i( 1, 32 ) / 16.0, r1 = g.i( 1, 32 ) / 16.0;
  const int ax = g.i( 0, 1 );
  const double sgn = g.pick( { 1.0, -1.0 } );
  const Vector2s dir = ax ? Vector2s( 0, sgn ) : Vector2s( sgn, 0 ), tan = ax ? Vector2s( 1, 0 ) : Vector2s( 0, 1 );
  Scene s;
  Geo e0, e1;
  e0.box = kind == 2; e0.r = r0; e0.h = Vector2s( ax ? r1 : r0, ax ? r0 : r1 );
  e1.r = r1;
  s.geos = { e0, e1 };
  const auto put = [&]( const Vector2s& x, int geo ) { Body b; b.x = x; b.v = Vector2s::Zero(); b.th = 0.0; b.w = 0.0; b.geo = geo; b.fixed = false; massOfGeo( s.geos[geo], 1.0, b.m, b.I ); s.add( b ); };
  const Vector2s x( g.i( -64, 64 ) / 8.0, g.i( -64, 64 ) / 8.0 );
  put( x, 0 );
  if( kind == 0 ) put( x + dir * ( r0 + r1 + gap ), 1 );
  else { Scene::Plane p; p.x = x - dir * ( r0 + gap ) + tan * ( g.i( -32, 32 ) / 8.0 ); p.n = dir; p.v = Vector2s::Zero(); p.w = 0.0; s.planes.push_back( p ); }
  RigidBody2DSim sim;
  sim.state() = s.build();
  const VectorXs q1 = sim.state().q();
  VectorXs q0 = q1;
  if( kind != 2 && g.b() ) q0.segment<2>( 0 ) += dir * ( kind == 0 ? -1.0 : 1.0 ) * ( g.i( 1, 16 ) / 64.0 );
  c.note( [&]( std::ostream& o ) { describe( o, s ); o << " q0 " << q0.transpose() << " gap " << gap; } );
  Cons cons;
  CS( sim ).computeActiveSet( q0, q1, sim.state().v(), cons );
  const size_t want = gap > 0.0 ? 0 : kind == 2 ? 2 : 1;
  CHECK( cons.size() == want, "a gap of exactly " << gap << " gives " << cons.size() << " contacts instead of " << want );
  c.nontrivial( gap == 0.0 );
}

SUBCHECK( "C08", "rb2d_active_set", "1..7 bodies (circles with kinematic circles and boxes, or circles with free boxes) and up to 2 planes, end positions from small to many-diameter moves; all pairs judged by an independent geometric test with a 1e-7 band; non-trivial when at least one contact is required", 60000, 600000 )
{
  Scene s;
  const SceneMode mode = genMode( g );
  SceneOpts o;
  if( g.b( 0.1 ) ) o.nmax = 16; else o.nmax = 7;
  genBodies( g, s, mode, o );
  genScenePlanes( g, s, 2, !s.anyBox() || mode == KINEMATIC );
  RigidBody2DSim sim;
  sim.state() = s.build();
  const int n = s.n();
  const VectorXs q0 = sim.state().q(), v = sim.state().v();
  VectorXs q1 = q0;
  const double reach = g.pick( { 0.0, 0.05, 0.5, 5.0 } );
  for( int i = 0; i < n; ++i ) if( g.b( 0.8 ) ) { q1( 3 * i ) += g.s( reach ); q1( 3 * i + 1 ) += g.s( reach ); q1( 3 * i + 2 ) += g.s( reach ); }
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " q1 " << q1.transpose(); } );
  Cons cons;
  if( g.b( 0.2 ) ) { cons.emplace_back( nullptr ); } // whatever was there is replaced
  CS( sim ).computeActiveSet( q0, q1, v, cons );
  const double mag = 1.0 + vmax( q0 ) + vmax( q1 ), band = 1e-7 * mag;
  const auto X0 = [&]( int i ) -> Vector2s { return q0.segment<2>( 3 * i ); };
  const auto X1 = [&]( int i ) -> Vector2s { return q1.segment<2>( 3 * i ); };
  struct Found { std::vector<Vector2s> p, n; std::string name; };
  std::map<std::pair<int, int>, Found> bb;
  std::map<std::pair<int, int>, std::vector<Vector2s>> pl;
  for( auto& k : cons )
  {
    CHECK( k != nullptr, "null contact" );
    VectorXs nn, p;
    k->getWorldSpaceContactNormal( q0, nn );
    k->getWorldSpaceContactPoint( q0, p );
    CHECK( near( nn.norm(), 1.0, 1e-9 ), k->name() << " normal length" );
    std::pair<int, int> ids;
    k->getBodyIndices( ids );
    const int a = ids.first, b = ids.second;
    CHECK( a >= 0 && a < n && b < n && a != b, "bodies " << a << " " << b );
    const std::string nm = k->name();
    if( nm == "static_plane_circle" || nm == "static_plane_body" )
    {
      const int st = int( k->getStaticObjectIndex() );
      CHECK( b == -1 && st >= 0 && st < int( s.planes.size() ), "plane index " << st );
      CHECK( !s.bodies[a].fixed, "a kinematic body got a plane contact" );
      CHECK( s.geo( a ).box == ( nm == "static_plane_body" ), "kind of contact" );
      CHECK( ( nn - s.planes[st].n ).norm() <= 1e-9, "plane normal" );
      if( !s.geo( a ).box )
      {
        CHECK( ( p - ( X0( a ) - s.geo( a ).r * s.planes[st].n ) ).norm() <= 1e-9 * mag, "contact point " << p.transpose() );
        const double gap = s.planes[st].n.dot( X0( a ) - s.planes[st].x ) - s.geo( a ).r;
        CHECK( near( k->penetrationDepth( q0 ), std::min( 0.0, gap ), 1e-9, mag ), "penetration depth of circle " << a );
      }
      pl[{ st, a }].push_back( p );
      continue;
    }
    CHECK( b >= 0, "missing second body of " << nm );
    CHECK( !s.bodies[a].fixed, "the first body of " << nm << " is kinematic" );
    auto& f = bb[{ a, b }];
    f.p.push_back( p ); f.n.push_back( nn ); f.name = nm;
    if( nm == "circle_circle" || ( nm == "kinematic_object_circle" && !s.geo( b ).box ) )
    {
      CHECK( !s.geo( a ).box && !s.geo( b ).box, "kind of contact" );
      CHECK( ( nm == "circle_circle" ) == !s.bodies[b].fixed, nm << " with kinematic " << s.bodies[b].fixed );
      const Vector2s d = X0( a ) - X0( b );
      CHECK( ( nn - d.normalized() ).norm() <= 1e-9, "normal " << nn.transpose() << " for circles " << a << "," << b );
      const Vector2s want = nm == "circle_circle" ? Vector2s( X0( a ) - d * ( s.geo( a ).r / ( s.geo( a ).r + s.geo( b ).r ) ) ) : Vector2s( X0( a ) - s.geo( a ).r * nn );
      CHECK( ( p - want ).norm() <= 1e-9 * mag, "contact point " << p.transpose() << " expected " << want.transpose() );
      if( nm == "circle_circle" ) CHECK( near( k->penetrationDepth( q0 ), std::min( 0.0, d.norm() - s.geo( a ).r - s.geo( b ).r ), 1e-9, mag ), "penetration depth " << k->penetrationDepth( q0 ) );
    }
    else if( nm == "kinematic_object_circle" )
    {
      CHECK( !s.geo( a ).box && s.geo( b ).box && s.bodies[b].fixed, "kind of contact" );
      checkCircleBox( c, X1( a ), s.geo( a ).r, X1( b ), q1( 3 * b + 2 ), s.geo( b ).h, true, nn, p, false, band, "kinematic box" );
      CHECK( ( p - ( X0( a ) - s.geo( a ).r * nn ) ).norm() <= 1e-9 * mag, "contact point " << p.transpose() );
    }
    else CHECK( nm == "body_body" && ( s.geo( a ).box || s.geo( b ).box ) && !s.bodies[b].fixed, "unexpected contact " << nm );
  }
  bool any = false;
  for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j )
  {
    int a = i, b = j;
    if( s.bodies[a].fixed ) std::swap( a, b );
    CHECK( !bb.count( { b, a } ), "pair " << a << "," << b << " reported in the wrong order" );
    const Found none;
    const Found& f = bb.count( { a, b } ) ? bb[{ a, b }] : none;
    if( s.bodies[i].fixed && s.bodies[j].fixed ) { CHECK( f.p.empty(), "contact between two kinematic bodies" ); continue; }
    const Geo &ga = s.geo( a ), &gb = s.geo( b );
    if( !ga.box && !gb.box )
    {
      const L m = minDist3( q0, q1, a, b ) - ( (L) ga.r + gb.r );
      CHECK( f.p.size() <= 1, "circles " << a << "," << b << " reported " << f.p.size() << " times" );
      if( m < -band ) { any = true; CHECK( f.p.size() == 1, "circles " << a << "," << b << " come within " << double( m ) << " of touching but no contact was generated" ); }
      else if( m > band ) CHECK( f.p.empty(), "circles " << a << "," << b << " stay " << double( m ) << " apart but a contact was generated" );
    }
    else if( ga.box && gb.box )
    {
      const double gap = boxBoxGap( X1( a ), q1( 3 * a + 2 ), ga.h, X1( b ), q1( 3 * b + 2 ), gb.h );
      if( gap < -band ) any = true;
      if( ( X1( a ) - X1( b ) ).norm() < 1e-3 ) continue;
      for( auto& nn : f.n ) CHECK( ( nn - f.n[0] ).norm() == 0.0, "contact points of one pair have different normals" );
      checkBoxBox( c, X1( a ), q1( 3 * a + 2 ), ga.h, X1( b ), q1( 3 * b + 2 ), gb.h, f.n.empty() ? Vector2s( 0, 0 ) : f.n[0], f.p, band, "boxes" );
    }
    else
    {
      const int ci = ga.box ? b : a, bi = ga.box ? a : b;
      const double gap = circleBoxGap( X1( ci ), s.geo( ci ).r, X1( bi ), q1( 3 * bi + 2 ), s.geo( bi ).h );
      if( gap < -band ) any = true;
      CHECK( f.p.size() <= 1, "circle-box contact duplicated" );
      Vector2s nn = f.n.empty() ? Vector2s( 0, 0 ) : f.n[0];
      if( ga.box ) nn = -nn; // from the box to the circle
      checkCircleBox( c, X1( ci ), s.geo( ci ).r, X1( bi ), q1( 3 * bi + 2 ), s.geo( bi ).h, !f.p.empty(), nn, f.p.empty() ? Vector2s( 0, 0 ) : f.p[0], f.name == "body_body", band, "circle and box" );
    }
  }
  for( size_t st = 0; st < s.planes.size(); ++st ) for( int i = 0; i < n; ++i )
  {
    const auto& P = s.planes[st];
    std::vector<Vector2s> got;
    if( pl.count( { int( st ), i } ) ) got = pl[{ int( st ), i }];
    if( s.bodies[i].fixed ) continue;
    if( !s.geo( i ).box )
    {
      const double m = P.n.dot( X1( i ) - P.x ) - s.geo( i ).r;
      CHECK( got.size() <= 1, "plane contact duplicated" );
      if( m < -band ) { any = true; CHECK( got.size() == 1, "circle " << i << " penetrates plane " << st << " by " << m << " without contact" ); }
      else if( m > band ) CHECK( got.empty(), "circle " << i << " is " << m << " above plane " << st << " but has a contact" );
    }
    else
    {
      size_t used = 0;
      for( int e = 0; e < 4; ++e )
      {
        const Vector2s arm( ( e & 1 ? 1 : -1 ) * s.geo( i ).h.x(), ( e & 2 ? 1 : -1 ) * s.geo( i ).h.y() );
        const Vector2s w1 = X1( i ) + rot2( q1( 3 * i + 2 ) ) * arm, w0 = X0( i ) + rot2( q0( 3 * i + 2 ) ) * arm;
        const double m = P.n.dot( w1 - P.x );
        int cnt = 0;
        for( auto& p : got ) if( ( p - w0 ).norm() <= 1e-9 * mag ) ++cnt;
        CHECK( cnt <= 1, "vertex contact duplicated" );
        used += cnt;
        if( m < -band ) { any = true; CHECK( cnt == 1, "vertex " << e << " of box " << i << " penetrates plane " << st << " by " << m << " without contact" ); }
        else if( m > band ) CHECK( cnt == 0, "vertex " << e << " of box " << i << " is " << m << " above plane " << st << " but has a contact" );
      }
      CHECK( used == got.size(), "plane contact of box " << i << " away from its vertices" );
    }
  }
  c.nontrivial( any );
  // Contact points shown to the user are those of the state against itself
  std::vector<Vector2s> pts, nrm;
  sim.computeContactPoints( pts, nrm );
  Cons self;
  CS( sim ).computeActiveSet( q0, q0, v, self );
  CHECK( pts.size() == self.size() && nrm.size() == self.size(), "number of reported contact points" );
  for( size_t i = 0; i < self.size(); ++i )
  {
    VectorXs nn, p;
    self[i]->getWorldSpaceContactNormal( q0, nn );
    self[i]->getWorldSpaceContactPoint( q0, p );
    CHECK( pts[i] == p && nrm[i] == nn, "reported contact point " << i );
  }
}

SUBCHECK( "C10", "rb2d_contact_kinematics", "contacts of generated rigid body scenes (circles, boxes, kinematic bodies, moving planes) and directly built teleported and kicked pairs; every representation of the contact velocity compared with rigid body kinematics at the contact point; non-trivial with at least one contact", 40000, 400000 )
{
  Scene s;
  const SceneMode mode = genMode( g );
  genBodies( g, s, mode, SceneOpts{} );
  genScenePlanes( g, s, 2, mode != BOXES );
  RigidBody2DSim sim;
  sim.state() = s.build();
  const VectorXs q = sim.state().q(), v = sim.state().v();
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  Cons cons;
  CS( sim ).computeActiveSet( q, q, v, cons );
  const Vector2s kick( g.s( 3 ), g.s( 3 ) ), d0( g.s( 3 ), g.s( 3 ) ), d1( g.s( 3 ), g.s( 3 ) );
  double rr[2] = { g.u( 0.2, 1 ), g.u( 0.2, 1 ) };
  const auto X = [&]( int i ) -> Vector2s { return q.segment<2>( 3 * i ); };
  if( s.n() >= 2 && g.b( 0.5 ) && ( X( 0 ) + d0 - X( 1 ) - d1 ).norm() > 0.1 )
  {
    const bool tele = g.b();
    for( auto& k : cons ) if( k->name() == "static_plane_circle" ) (void) k;
    if( tele ) cons.emplace_back( new TeleportedCircleCircleConstraint( 0, 1, X( 0 ) + d0, X( 1 ) + d1, rr[0], rr[1], d0, d1, rr[0], rr[1] ) );
    else cons.emplace_back( new KinematicKickCircleCircleConstraint( 0, 1, X( 0 ) + d0, X( 1 ) + d1, rr[0], rr[1], kick ) );
  }
  c.nontrivial( !cons.empty() );
  const auto V = [&]( const VectorXs& vv, int i, const Vector2s& arm ) -> Vector2s { return Vector2s( vv.segment<2>( 3 * i ) ) + vv( 3 * i + 2 ) * perp( arm ); };
  checkContactKinematics( c, FS( sim ), q, v, cons, [&]( const Constraint& k, const VectorXs& qq, const VectorXs& vv, VectorXs& out )
  {
    std::pair<int, int> ids;
    k.getBodyIndices( ids );
    const int a = ids.first, b = ids.second;
    VectorXs p, nn;
    k.getWorldSpaceContactPoint( qq, p );
    k.getWorldSpaceContactNormal( qq, nn );
    const std::string nm = k.name();
    const Vector2s P = p;
    if( nm == "circle_circle" || nm == "body_body" ) { out = V( vv, a, P - X( a ) ) - V( vv, b, P - X( b ) ); return true; }
    if( nm == "teleported_circle_circle" || nm == "kinematic_kick_circle_circle" )
    {
      const Vector2s y0 = X( 0 ) + d0, y1 = X( 1 ) + d1, m = y0 + rr[0] / ( rr[0] + rr[1] ) * ( y1 - y0 );
      out = V( vv, 0, m - y0 ) - V( vv, 1, m - y1 );
      if( nm == "kinematic_kick_circle_circle" ) out -= kick;
      CHECK( ( nn - ( y0 - y1 ).normalized() ).norm() <= 1e-9, nm << " normal" );
      return true;
    }
    if( nm == "kinematic_object_circle" ) { out = V( vv, a, P - X( a ) ) - V( v, b, P - X( b ) ); return true; }
    const auto& pl = s.planes[k.getStaticObjectIndex()];
    out = V( vv, a, P - X( a ) ) - ( pl.v + pl.w * perp( P - pl.x ) );
    return true;
  }, r2KinOpts );
  // The normal gradient is the derivative of the gap between circles
  for( auto& k : cons ) if( k->name() == "circle_circle" || k->name() == "static_plane_circle" )
  {
    SparseMatrixsc G{ FS( sim ).nvdofs(), 1 };
    G.reserve( VectorXi::Constant( 1, k->impactStencilSize() ) );
    k->evalgradg( q, 0, G, FS( sim ) );
    const VectorXs Gd = VectorXs( G.col( 0 ) );
    const int a = k->body0(), b = k->body1();
    const auto gap = [&]( const VectorXs& qq ) { if( b >= 0 ) return ( Vector2s( qq.segment<2>( 3 * a ) ) - Vector2s( qq.segment<2>( 3 * b ) ) ).norm(); return s.planes[k->getStaticObjectIndex()].n.dot( Vector2s( qq.segment<2>( 3 * a ) ) ); };
    const double h = 1e-5;
    for( int i = 0; i < q.size(); ++i )
    {
      VectorXs qa = q, qb = q;
      qa( i ) += h; qb( i ) -= h;
      CHECK( near( ( gap( qa ) - gap( qb ) ) / ( 2 * h ), Gd( i ), 1e-5 ), k->name() << " gap derivative " << i );
    }
  }
  if( !cons.empty() )
  {
    MatrixXXsc ib, cb;
    CS( sim ).computeImpactBases( q, cons, ib );
    CS( sim ).computeContactBases( q, v, cons, cb );
    CHECK( ib.cols() == int( cons.size() ) && cb.cols() == 2 * int( cons.size() ), "stacked sizes" );
    for( size_t i = 0; i < cons.size(); ++i )
    {
      MatrixXXsc B;
      cons[i]->computeBasis( q, v, B );
      CHECK( ( ib.col( i ) - B.col( 0 ) ).norm() <= 1e-12 && ( cb.block<2, 2>( 0, 2 * i ) - B ).norm() <= 1e-12, "stacked bases" );
    }
  }
}

// ---------------------------------------------------------------------------------------------------- portals
static void describePortals( std::ostream& o, const RigidBody2DState& s )
{
  o.precision( 17 );
  for( auto& p : s.planarPortals() ) o << "portal(A " << p.planeA().x().transpose() << " n " << p.planeA().n().transpose() << " B " << p.planeB().x().transpose() << " n " << p.planeB().n().transpose() << " bounds " << p.bounds() << " LE " << p.isLeesEdwards() << ") ";
}
SUBCHECK( "C18", "rb2d_portal_map", "opposing portal pairs (static or shearing, any orientation and time) and points inside, outside and near the planes; non-trivial when the point is beyond a plane", 60000, 600000 )
{
  RigidBody2DState st;
  Domain d = genDomain<RigidBody2DStaticPlane>( g, st, 1.0 );
  c.note( [&]( std::ostream& os ) { describePortals( os, st ); os << " t " << d.t << " v " << d.v; } );
  for( const PlanarPortal& P : st.planarPortals() )
  {
    const bool isy = std::fabs( d.dirLocal( P.planeA().n() ).y() ) > 0.5;
    const double H = isy ? d.Ly : d.Lx;
    Vector2s u( g.s( d.Lx * 1.3 ), g.s( d.Ly * 1.3 ) );
    if( g.b( 0.5 ) ) ( isy ? u.y() : u.x() ) = H * g.pick( { 1.0, -1.0 } ) * ( 1.0 + g.pick( { 1.0, -1.0 } ) * g.logu( 1e-6, 0.3 ) );
    const double along = isy ? u.y() : u.x();
    if( std::fabs( std::fabs( along ) - H ) < 1e-9 ) throw Discard{};
    const Vector2s x = d.toWorld( u );
    const bool inside = P.pointInsidePortal( x );
    CHECK( inside == ( std::fabs( along ) > H ), "point at " << u.transpose() << " inside portal: " << inside );
    CHECK( P.isLeesEdwards() == ( isy && d.v != 0.0 ), "shearing flag" );
    const double sh = isy && d.v != 0.0 ? d.shift() : 0.0;
    if( isy && d.v != 0.0 )
    {
      CHECK( P.v() == d.v && P.bounds() == d.Lx, "portal parameters" );
      CHECK( std::fabs( P.delta() ) <= d.Lx * ( 1 + 1e-12 ), "shear offset out of its bounds" );
      double off = P.delta() - d.v * d.t;
      off -= 2.0 * d.Lx * std::round( off / ( 2.0 * d.Lx ) );
      CHECK( std::fabs( off ) <= 1e-8, "shear offset does not follow time" );
      CHECK( ( P.transformedAx() - ( P.planeA().x() + P.delta() * P.planeA().t() ) ).norm() <= 1e-12 * 100 && ( P.transformedBx() - ( P.planeB().x() + P.delta() * P.planeB().t() ) ).norm() <= 1e-12 * 100, "shifted planes" );
    }
    c.nontrivial( inside );
    if( inside )
    {
      Vector2s xo;
      P.teleportPointInsidePortal( x, xo );
      const Vector2s uo = d.toLocal( xo );
      const int sgn = along > 0.0 ? -1 : 1;
      const double want_al = along + sgn * 2.0 * H;
      CHECK( near( isy ? uo.y() : uo.x(), want_al, 1e-9, 10.0 ), "normal coordinate " << uo.transpose() << " from " << u.transpose() );
      double dt = isy ? uo.x() - ( u.x() + sgn * sh ) : uo.y() - u.y();
      if( isy && d.v != 0.0 )
      {
        const double k = std::round( dt / ( 2.0 * d.Lx ) );
        dt -= 2.0 * d.Lx * k;
        CHECK( std::fabs( uo.x() ) <= d.Lx * ( 1.0 + 1e-9 ), "sheared image left the periodic range: " << uo.transpose() );
      }
      CHECK( std::fabs( dt ) <= 1e-8, "tangential coordinate off by " << dt );
      const Vector2s kick = d.dirLocal( P.getKinematicVelocityOfPoint( x ) );
      CHECK( ( kick - Vector2s( isy ? sgn * d.v : 0.0, 0.0 ) ).norm() <= 1e-9 * ( 1 + std::fabs( d.v ) ), "shear velocity " << kick.transpose() << " leaving at " << u.transpose() << " with v " << d.v );
      Vector2s xb;
      if( P.planeA().distanceLessThanZero( x ) ) P.teleportPointThroughPlaneB( xo, xb ); else P.teleportPointThroughPlaneA( xo, xb );
      Vector2s ub = d.toLocal( xb ) - u;
      if( isy && d.v != 0.0 ) ub.x() -= 2.0 * d.Lx * std::round( ub.x() / ( 2.0 * d.Lx ) );
      CHECK( ub.norm() <= 1e-8, "through and back moved the point by " << ub.transpose() );
    }
    // A box touches the portal when one of its corners reaches a plane
    if( std::fabs( along ) < H )
    {
      const Vector2s hw( g.u( 0.05, 0.6 ), g.u( 0.05, 0.6 ) );
      const Vector2s nw = isy ? d.ey() : d.ex();
      const double supp = std::fabs( nw.x() ) * hw.x() + std::fabs( nw.y() ) * hw.y();
      const double m = std::min( H - along, along + H ) - supp;
      if( std::fabs( m ) > 1e-9 && 2.0 * supp < 2.0 * H )
      {
        bool idx = false;
        const bool touch = P.aabbTouchesPortal( x - hw, x + hw, idx );
        CHECK( touch == ( m < 0.0 ), "box touching portal" );
        if( touch )
        {
          const bool isA = d.dirLocal( P.planeA().n() ).dot( isy ? Vector2s( 0, 1 ) : Vector2s( 1, 0 ) ) * along < 0.0;
          CHECK( idx == !isA, "plane index of a touching box" );
          Vector2s xo, xe;
          P.teleportPoint( x, idx, xo );
          if( isA ) P.teleportPointThroughPlaneA( x, xe ); else P.teleportPointThroughPlaneB( x, xe );
          CHECK( ( xo - xe ).norm() <= 1e-12 * ( 1 + xo.norm() ), "teleported box" );
          const int sgn = along > 0.0 ? -1 : 1;
          const Vector2s kick = d.dirLocal( P.getKinematicVelocityOfAABB( x - hw, x + hw ) );
          CHECK( ( kick - Vector2s( isy ? sgn * d.v : 0.0, 0.0 ) ).norm() <= 1e-9 * ( 1 + std::fabs( d.v ) ), "shear velocity of a box" );
        }
      }
    }
  }
}

SUBCHECK( "C18", "rb2d_portal_steps", "free circles drift for up to 40 steps of any kind (without contacts, with impacts, with friction) in a periodic (possibly sheared) box; positions compared with free flight modulo the box, velocities with the number of shear crossings, rotation with uniform spinning; non-trivial when a body crossed a portal", 6000, 60000 )
{
  RigidBody2DSim sim;
  Scene s;
  Geo e; e.r = 0.05;
  s.geos.push_back( e );
  RigidBody2DState tmp;
  Domain d = genDomain<RigidBody2DStaticPlane>( g, tmp, 0.5 );
  const int kind = g.w( { 3, 1, 1 } );
  const int n = kind == 0 ? g.i( 1, 4 ) : 1;
  std::vector<Vector2s> u, w;
  for( int i = 0; i < n; ++i )
  {
    u.push_back( Vector2s( g.s( d.Lx * 0.98 ), g.s( d.Ly * 0.98 ) ) );
    w.push_back( Vector2s( g.s( 6.0 ), g.s( 6.0 ) ) );
    Body b{ d.toWorld( u[i] ), d.dirWorld( w[i] ), g.s( 3 ), g.s( 3 ), g.u( 0.5, 2.0 ), g.u( 0.1, 1.0 ), 0, false };
    s.add( b );
  }
  sim.state() = s.build();
  RigidBody2DState& st = sim.state();
  st.planarPortals() = tmp.planarPortals();
  const Rational<std::intmax_t> dt( 1, g.pick( { 20, 50, 100 } ) );
  const double h = scalar( dt );
  PythonScripting cb;
  const std::unique_ptr<UnconstrainedMap> map = genMap( g );
  const int steps = g.i( 1, 40 );
  bool crossed = false;
  c.note( [&]( std::ostream& os ) { describe( os, s ); describePortals( os, st ); os << " kind " << kind << " steps " << steps << " dt " << h << " v " << d.v; } );
  for( int it = 1; it <= steps; ++it )
  {
    if( kind == 0 ) sim.flow( cb, unsigned( it ), dt, *map );
    else if( kind == 1 ) { LCPOperatorAPGD lcp( 1e-8, 200 ); ImpactMap im( false ); sim.flow( cb, unsigned( it ), dt, *map, lcp, 0.5, im ); }
    else { Sobogus so( SobogusSolverType::RigidBody2D, 10 ); GeometricImpactFrictionMap gm( 1e-8, 100, ImpulsesToCache::NONE ); sim.flow( cb, unsigned( it ), dt, *map, 0.5, 0.3, so, gm ); }
    d.t = it * h;
    for( int i = 0; i < n; ++i )
    {
      u[i] += h * w[i];
      for( const PlanarPortal& P : st.planarPortals() )
      {
        const bool isy = std::fabs( d.dirLocal( P.planeA().n() ).y() ) > 0.5;
        const double H = isy ? d.Ly : d.Lx;
        double& al = isy ? u[i].y() : u[i].x();
        if( std::fabs( std::fabs( al ) - H ) < 1e-9 ) throw Discard{};
        if( std::fabs( al ) > H )
        {
          crossed = true;
          const int sgn = al > 0.0 ? -1 : 1;
          al += sgn * 2.0 * H;
          if( isy && d.v != 0.0 )
          {
            u[i].x() += sgn * d.shift();
            w[i].x() += sgn * d.v;
            if( std::fabs( std::fabs( u[i].x() ) - d.Lx ) < 1e-9 ) throw Discard{};
            while( u[i].x() > d.Lx ) u[i].x() -= 2.0 * d.Lx;
            while( u[i].x() < -d.Lx ) u[i].x() += 2.0 * d.Lx;
          }
        }
      }
      const Vector2s got = d.toLocal( st.q().segment<2>( 3 * i ) ), gv = d.dirLocal( st.v().segment<2>( 3 * i ) );
      CHECK( ( gv - w[i] ).norm() <= 1e-8 * ( 1 + w[i].norm() ), "step " << it << " body " << i << " velocity " << gv.transpose() << " expected " << w[i].transpose() );
      CHECK( ( got - u[i] ).norm() <= 1e-7, "step " << it << " body " << i << " at " << got.transpose() << " expected " << u[i].transpose() );
      CHECK( near( st.q()( 3 * i + 2 ), s.bodies[i].th + it * h * s.bodies[i].w, 1e-9, 10 ) && near( st.v()( 3 * i + 2 ), s.bodies[i].w, 1e-12 ), "rotation of body " << i );
    }
  }
  c.nontrivial( crossed );
}

SUBCHECK( "C19", "rb2d_portal_contacts", "2..6 circles in a periodic (possibly sheared) box, many near the faces and corners; contacts compared with all periodic images; non-trivial when a contact crosses a portal", 40000, 400000 )
{
  RigidBody2DState tmp;
  Domain d = genDomain<RigidBody2DStaticPlane>( g, tmp, 1.0 );
  const int n = g.i( 2, 6 );
  std::vector<Vector2s> u0( n ), u1( n );
  std::vector<double> r( n );
  Scene s;
  for( int i = 0; i < n; ++i )
  {
    r[i] = g.mix( 0.2, 1.0 );
    Vector2s u( g.s( d.Lx ), g.s( d.Ly ) );
    if( i > 0 && g.b( 0.7 ) )
    {
      const int j = g.i( 0, i - 1 );
      u = u1[j] + dir2( g ) * ( r[i] + r[j] ) * ( 1.0 + g.u( -0.2, 0.1 ) );
    }
    else if( g.b( 0.7 ) )
    {
      if( d.py && g.b() ) u.y() = g.pick( { 1.0, -1.0 } ) * ( d.Ly - r[i] * g.u( 0.0, 1.2 ) ); else if( d.px ) u.x() = g.pick( { 1.0, -1.0 } ) * ( d.Lx - r[i] * g.u( 0.0, 1.2 ) );
    }
    if( d.py ) while( std::fabs( u.y() ) > d.Ly ) { const int sg = u.y() > 0 ? -1 : 1; u.y() += 2.0 * sg * d.Ly; if( d.v != 0.0 ) u.x() += sg * d.shift(); }
    if( d.px || d.v != 0.0 ) while( std::fabs( u.x() ) > d.Lx ) u.x() -= ( u.x() > 0 ? 2.0 : -2.0 ) * d.Lx;
    u1[i] = u;
    u0[i] = u + Vector2s( g.s( 0.05 ), g.s( 0.05 ) );
    Geo e; e.r = r[i];
    s.geos.push_back( e );
    Body b{ d.toWorld( u0[i] ), d.dirWorld( Vector2s( g.s( 2.0 ), g.s( 2.0 ) ) ), g.s( 3 ), g.s( 3 ), g.u( 0.5, 2 ), g.u( 0.1, 1 ), i, false };
    s.add( b );
  }
  RigidBody2DSim sim;
  sim.state() = s.build();
  RigidBody2DState& st = sim.state();
  st.planarPortals() = tmp.planarPortals();
  VectorXs q0 = st.q(), q1 = q0;
  for( int i = 0; i < n; ++i ) q1.segment<2>( 3 * i ) = d.toWorld( u1[i] );
  c.note( [&]( std::ostream& os ) { describe( os, s ); describePortals( os, st ); os << " q1 " << q1.transpose() << " t " << d.t << " v " << d.v << " box " << d.Lx << " " << d.Ly; } );
  const double band = 1e-7;
  struct Img { int k, m; double gap; };
  std::map<std::pair<int, int>, std::vector<Img>> may;
  std::map<std::pair<int, int>, bool> must, fuzzy;
  const int K = d.px || d.v != 0.0 ? 2 : 0, M = d.py ? 1 : 0;
  const auto sweptGap = [&]( int i, int j ) { return double( minDist3( q0, q1, i, j ) - r[i] - r[j] ); };
  for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) for( int k = -K; k <= K; ++k ) for( int m = -M; m <= M; ++m )
  {
    if( i == j ) { if( ( k || m ) && ( imageOf( d, u1[j], k, m ) - u1[i] ).norm() < 2.0 * r[i] + 1e-3 ) throw Discard{}; continue; }
    if( j < i ) continue;
    if( !d.px && k != 0 && m == 0 ) continue;
    // Pairs that were not teleported are swept
    const double end = ( imageOf( d, u1[j], k, m ) - u1[i] ).norm() - r[i] - r[j];
    const double gap = k == 0 && m == 0 ? std::min( end, sweptGap( i, j ) ) : end;
    const auto key = std::make_pair( i, j );
    if( std::fabs( gap ) < band || std::fabs( end ) < band ) fuzzy[key] = true;
    if( gap >= band ) continue;
    may[key].push_back( { k, m, gap } );
    const bool itx = d.px && std::fabs( u1[i].x() ) + r[i] >= d.Lx + band, jtx = d.px && std::fabs( u1[j].x() ) + r[j] >= d.Lx + band;
    const bool ity = d.py && std::fabs( u1[i].y() ) + r[i] >= d.Ly + band, jty = d.py && std::fabs( u1[j].y() ) + r[j] >= d.Ly + band;
    if( end > -band ) continue;
    bool req = false;
    if( k == 0 && m == 0 ) req = true;
    else if( m == 0 ) req = true;
    else if( d.v == 0.0 && k == 0 ) req = true;
    else if( d.v == 0.0 ) req = ( itx && jty ) || ( jtx && ity );
    else
    {
      const Vector2s ji = imageOf( d, u1[j], k, m ), ij = imageOf( d, u1[i], -k, -m );
      if( jty && std::fabs( ji.x() ) < d.Lx - 1e-6 ) req = true;
      if( ity && std::fabs( ij.x() ) < d.Lx - 1e-6 ) req = true;
    }
    if( req ) must[key] = true;
  }
  Cons cons;
  CS( sim ).computeActiveSet( q0, q1, st.v(), cons );
  std::map<std::pair<int, int>, int> seen;
  bool through = false;
  for( auto& kk : cons )
  {
    std::pair<int, int> ids;
    kk->getBodyIndices( ids );
    const int a = ids.first, b = ids.second;
    CHECK( a >= 0 && b >= 0 && a < n && b < n && a != b, "bodies" );
    const auto key = std::make_pair( std::min( a, b ), std::max( a, b ) );
    ++seen[key];
    CHECK( may.count( key ), kk->name() << " between circles " << a << "," << b << " which touch in no periodic image" );
    VectorXs nn, p;
    kk->getWorldSpaceContactNormal( q0, nn );
    kk->getWorldSpaceContactPoint( q0, p );
    const bool tele = kk->name() != "circle_circle";
    bool ok = false;
    std::ostringstream why;
    const VectorXs rel = kk->computeRelativeVelocity( q0, st.v() );
    for( auto& im : may[key] )
    {
      if( tele == ( im.k == 0 && im.m == 0 ) ) continue;
      const int sg = a < b ? 1 : -1; // images are of the higher index as seen from the lower
      const Vector2s A0 = u0[a], B0 = imageOf( d, u0[b], sg * im.k, sg * im.m );
      const Vector2s want = d.dirWorld( A0 - B0 ).normalized();
      const Vector2s arm0 = d.dirWorld( B0 - A0 ) * ( r[a] / ( r[a] + r[b] ) ), arm1 = d.dirWorld( A0 - B0 ) * ( r[b] / ( r[a] + r[b] ) );
      const Vector2s va = Vector2s( st.v().segment<2>( 3 * a ) ) + st.v()( 3 * a + 2 ) * perp( arm0 );
      const Vector2s vb = Vector2s( st.v().segment<2>( 3 * b ) ) + st.v()( 3 * b + 2 ) * perp( arm1 ) + d.dirWorld( Vector2s( d.v * sg * im.m, 0.0 ) );
      why << " [image " << im.k << "," << im.m << " normal " << want.transpose() << " vs " << nn.transpose() << " rel " << ( va - vb ).transpose() << " vs " << rel.transpose() << "]";
      const bool pt = ( p - ( Vector2s( q0.segment<2>( 3 * a ) ) + arm0 ) ).norm() <= 1e-7;
      double dep = 0.0;
      bool depok = true;
      if( kk->name() != "kinematic_kick_circle_circle" ) { dep = kk->penetrationDepth( q0 ); depok = near( dep, std::min( 0.0, ( A0 - B0 ).norm() - r[a] - r[b] ), 1e-7 ); }
      why << " pt " << pt << " depth " << depok;
      if( ( want - nn ).norm() <= 1e-7 && ( rel - ( va - vb ) ).norm() <= 1e-7 && pt && depok ) ok = true;
      if( im.k || im.m ) through = true;
    }
    CHECK( ok, kk->name() << " between circles " << a << "," << b << " matches no overlapping image:" << why.str() );
    Cons one;
    one.emplace_back( std::move( kk ) );
    checkContactKinematics( c, FS( sim ), q0, st.v(), one, nullptr, r2KinOpts );
    kk = std::move( one[0] );
  }
  for( auto& e : must ) if( e.second ) { if( seen[e.first] == 0 && !fuzzy[e.first] ) FAILCASE( "circles " << e.first.first << "," << e.first.second << " touch through a portal but have no contact" ); ++c.sub; }
  for( auto& e : seen ) CHECK( e.second <= 1 || may[e.first].size() > 1, "contact between circles " << e.first.first << "," << e.first.second << " generated " << e.second << " times" );
  c.nontrivial( through );
}
