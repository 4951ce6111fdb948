// Ball simulator: C06 broad phase, C07 contact detection, C10 contact kinematics, C18/C19 portals, C20 cache
#include "b2_scene.h"
#include "domain2.h"

SUBCHECK( "C06", "ball2d_grid", "1..40 boxes, biased to touching, lattice aligned and equal placements; non-trivial when at least one pair overlaps", 60000, 600000 )
{
  const auto boxes = genBoxes<2>( g );
  std::vector<AABB> a;
  for( auto& b : boxes ) a.emplace_back( b.lo, b.hi );
  std::set<std::pair<unsigned, unsigned>> got;
  SpatialGridDetector::getPotentialOverlaps( a, got );
  checkPairs<2>( c, boxes, got, "grid" );
  std::set<std::pair<unsigned, unsigned>> all;
  SpatialGridDetector::getPotentialOverlapsAllPairs( a, all );
  checkPairs<2>( c, boxes, all, "all pairs" );
}

static L minDist( const VectorXs& q0, const VectorXs& q1, int i, int j )
{
  const L px = (L) q0( 2 * i ) - q0( 2 * j ), py = (L) q0( 2 * i + 1 ) - q0( 2 * j + 1 );
  const L ex = (L) q1( 2 * i ) - q1( 2 * j ), ey = (L) q1( 2 * i + 1 ) - q1( 2 * j + 1 );
  const L dx = ex - px, dy = ey - py, dd = dx * dx + dy * dy;
  L t = dd > 0 ? -( px * dx + py * dy ) / dd : 0;
  t = std::min( (L) 1, std::max( (L) 0, t ) );
  return sqrtl( ( px + t * dx ) * ( px + t * dx ) + ( py + t * dy ) * ( py + t * dy ) );
}

SUBCHECK( "C07", "touching_counts", "two balls, a ball on a plane, a ball against a drum wall, axis-aligned with dyadic coordinates, so that every gap is exact: zero, 2^-10 or -2^-10, resting or moving into place; non-trivial when the gap is exactly zero", 30000, 300000 )
{
  const int kind = g.i( 0, 2 );
  const double gap = g.pick( { 0.0, 0.0, 1.0 / 1024, -1.0 / 1024 } );
  const double r0 = g.i( 1, 32 ) / 16.0, r1 = g.i( 1, 32 ) / 16.0;
  const int ax = g.i( 0, 1 );
  const double sgn = g.pick( { 1.0, -1.0 } );
  const Vector2s dir = ax ? Vector2s( 0, sgn ) : Vector2s( sgn, 0 ), tan = ax ? Vector2s( 1, 0 ) : Vector2s( 0, 1 );
  const Vector2s x( g.i( -64, 64 ) / 8.0, g.i( -64, 64 ) / 8.0 );
  const double along = g.i( -32, 32 ) / 8.0, R = r0 + g.i( 1, 32 ) / 8.0;
  const int extra = kind == 0 ? g.i( 0, 2 ) : 0;
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  for( int k = 0; k < extra; ++k ) st.pushBallBack( x + Vector2s( 100.0 + 20.0 * k, g.i( -8, 8 ) ), Vector2s::Zero(), 0.5, 1.0, false );
  const int id = extra;
  st.pushBallBack( x, Vector2s::Zero(), r0, 1.0, false );
  if( kind == 0 ) st.pushBallBack( x + dir * ( r0 + r1 + gap ), Vector2s::Zero(), r1, 2.0, false );
  else if( kind == 1 ) st.staticPlanes().emplace_back( Vector2s( x - dir * ( r0 + gap ) + tan * along ), dir );
  else st.staticDrums().emplace_back( Vector2s( x - dir * ( R - r0 - gap ) ), R );
  VectorXs q1 = st.q(), q0 = q1;
  if( g.b() ) q0.segment<2>( 2 * id ) += dir * ( kind == 0 ? -1.0 : kind == 1 ? 1.0 : -1.0 ) * ( g.i( 1, 16 ) / 64.0 ); // comes from the free side
  c.note( [&]( std::ostream& o ) { describe( o, st ); o << " q0 " << q0.transpose() << " gap " << gap; } );
  Cons cons;
  CS( sim ).computeActiveSet( q0, q1, st.v(), cons );
  const size_t want = gap <= 0.0 ? 1 : 0;
  CHECK( cons.size() == want, "a gap of exactly " << gap << " gives " << cons.size() << " contacts" );
  c.nontrivial( gap == 0.0 );
}

SUBCHECK( "C07", "active_set_exact", "1..8 balls near contact, up to 2 planes and 1 drum, end positions from small to many-diameter moves; all pairs judged in long double with a 1e-7 relative band; non-trivial when at least one contact is required", 60000, 600000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  BallOpts o; o.nmax = g.b( 0.15 ) ? 20 : 7;
  genBalls( g, st, o );
  genPlanes( g, st, 2, true );
  genDrums( g, st, 1 );
  const int n = int( st.nballs() );
  const VectorXs q0 = st.q();
  VectorXs q1 = q0;
  const double reach = g.pick( { 0.0, 0.05, 0.5, 5.0 } );
  for( int i = 0; i < n; ++i ) if( g.b( 0.8 ) ) { q1( 2 * i ) += g.s( reach ); q1( 2 * i + 1 ) += g.s( reach ); }
  c.note( [&]( std::ostream& os ) { describe( os, st ); os << " q1 " << q1.transpose(); } );
  Cons cons;
  CS( sim ).computeActiveSet( q0, q1, st.v(), cons );
  const double mag = 1.0 + vmax( q0 ) + vmax( q1 );
  const double band = 1e-7 * mag;
  std::map<std::pair<int, int>, int> bb, pl, dr;
  for( auto& k : cons )
  {
    VectorXs nn, p;
    k->getWorldSpaceContactNormal( q0, nn );
    k->getWorldSpaceContactPoint( q0, p );
    if( k->name() == "ball_ball" )
    {
      const int a = k->body0(), b = k->body1();
      CHECK( a >= 0 && b > a && b < n, "bodies " << a << " " << b );
      ++bb[{ a, b }];
      const Vector2s d = q0.segment<2>( 2 * a ) - q0.segment<2>( 2 * b );
      CHECK( ( nn - d.normalized() ).norm() <= 1e-9, "normal " << nn.transpose() << " for balls " << a << "," << b );
      CHECK( ( p - ( q0.segment<2>( 2 * a ) - st.r()( a ) * nn ) ).norm() <= 1e-9 * mag, "contact point " << p.transpose() );
      const double dist = d.norm() - st.r()( a ) - st.r()( b );
      CHECK( near( k->penetrationDepth( q0 ), std::min( 0.0, dist ), 1e-9, mag ), "penetration depth " << k->penetrationDepth( q0 ) << " expected " << std::min( 0.0, dist ) );
      CHECK( near( k->evaluateGapFunction( q0 ), dist, 1e-9, mag ), "gap" );
    }
    else if( k->name() == "static_plane_constraint" )
    {
      const int a = k->body0(), s = int( k->getStaticObjectIndex() );
      CHECK( k->body1() == -1 && s < int( st.staticPlanes().size() ) && a >= 0 && a < n, "indices " << a << " " << s );
      ++pl[{ s, a }];
      const StaticPlane& P = st.staticPlanes()[s];
      CHECK( ( nn - P.n() ).norm() <= 1e-9, "plane normal" );
      CHECK( ( p - ( q0.segment<2>( 2 * a ) - st.r()( a ) * P.n() ) ).norm() <= 1e-9 * mag, "contact point " << p.transpose() );
      const double gap = P.n().dot( q0.segment<2>( 2 * a ) - P.x() ) - st.r()( a );
      CHECK( near( k->evaluateGapFunction( q0 ), gap, 1e-9, mag ), "gap" );
      CHECK( near( k->penetrationDepth( q0 ), std::min( 0.0, gap ), 1e-9, mag ), "penetration depth" );
    }
    else if( k->name() == "static_drum_constraint" )
    {
      const int a = k->body0(), s = int( k->getStaticObjectIndex() );
      CHECK( k->body1() == -1 && s < int( st.staticDrums().size() ) && a >= 0 && a < n, "indices " << a << " " << s );
      ++dr[{ s, a }];
      const StaticDrum& D = st.staticDrums()[s];
      CHECK( ( nn - ( D.x() - q0.segment<2>( 2 * a ) ).normalized() ).norm() <= 1e-9, "drum normal " << nn.transpose() );
      CHECK( ( p - ( q0.segment<2>( 2 * a ) - st.r()( a ) * nn ) ).norm() <= 1e-9 * mag, "contact point " << p.transpose() );
    }
    else FAILCASE( "unexpected contact " << k->name() );
  }
  bool any = false;
  for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j )
  {
    const L m = minDist( q0, q1, i, j ) - ( (L) st.r()( i ) + st.r()( j ) );
    const int got = bb.count( { i, j } ) ? bb[{ i, j }] : 0;
    CHECK( got <= 1, "pair " << i << "," << j << " reported " << got << " times" );
    if( m < -band ) { any = true; CHECK( got == 1, "balls " << i << "," << j << " come within " << double( m ) << " of touching but no contact was generated" ); }
    else if( m > band ) CHECK( got == 0, "balls " << i << "," << j << " stay " << double( m ) << " apart but a contact was generated" );
  }
  for( size_t s = 0; s < st.staticPlanes().size(); ++s ) for( int i = 0; i < n; ++i )
  {
    const StaticPlane& P = st.staticPlanes()[s];
    const double m = P.n().dot( q1.segment<2>( 2 * i ) - P.x() ) - st.r()( i );
    const int got = pl.count( { int( s ), i } ) ? pl[{ int( s ), i }] : 0;
    CHECK( got <= 1, "plane contact duplicated" );
    if( m < -band ) { any = true; CHECK( got == 1, "ball " << i << " penetrates plane " << s << " by " << m << " without contact" ); }
    else if( m > band ) CHECK( got == 0, "ball " << i << " is " << m << " above plane " << s << " but has a contact" );
  }
  for( size_t s = 0; s < st.staticDrums().size(); ++s ) for( int i = 0; i < n; ++i )
  {
    const StaticDrum& D = st.staticDrums()[s];
    const double m = D.r() - st.r()( i ) - ( D.x() - q1.segment<2>( 2 * i ) ).norm();
    const int got = dr.count( { int( s ), i } ) ? dr[{ int( s ), i }] : 0;
    CHECK( got <= 1, "drum contact duplicated" );
    if( m < -band ) { any = true; CHECK( got == 1, "ball " << i << " is beyond the wall of drum " << s << " without contact" ); }
    else if( m > band ) CHECK( got == 0, "ball " << i << " is " << m << " away from the wall of drum " << s << " but has a contact" );
  }
  c.nontrivial( any );
  // The collision statistics of a state count the contacts of the state against itself
  std::map<std::string, unsigned> counts;
  std::map<std::string, scalar> depths;
  sim.computeNumberOfCollisions( counts, depths );
  Cons self;
  CS( sim ).computeActiveSet( q0, q0, st.v(), self );
  std::map<std::string, unsigned> wc;
  std::map<std::string, double> wd;
  for( auto& k : self ) { ++wc[k->name()]; wd[k->name()] += k->penetrationDepth( q0 ); }
  CHECK( wc == counts, "collision counts" );
  for( auto& e : wd ) CHECK( near( e.second, depths[e.first], 1e-9, mag ) || std::isnan( e.second ), "collision depths" );
}

static bool b2RelVel( const Ball2DState& st, const Constraint& k, const VectorXs&, const VectorXs& v, VectorXs& out )
{
  const int a = k.body0(), b = k.body1();
  if( k.name() == "ball_ball" || k.name() == "teleported_ball_ball" ) { out = v.segment<2>( 2 * a ) - v.segment<2>( 2 * b ); return true; }
  if( k.name() == "static_plane_constraint" ) { out = v.segment<2>( 2 * a ) - st.staticPlanes()[k.getStaticObjectIndex()].v(); return true; }
  if( k.name() == "static_drum_constraint" ) { out = v.segment<2>( 2 * a ); return true; }
  return false;
}

SUBCHECK( "C10", "ball2d_contact_kinematics", "contacts of generated ball scenes (balls, moving planes, drums, kicked pairs); every representation of the contact velocity compared; non-trivial with at least one contact", 40000, 400000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  BallOpts o;
  genBalls( g, st, o );
  genPlanes( g, st, 2, true );
  genDrums( g, st, 1 );
  const VectorXs q = st.q(), v = st.v();
  c.note( [&]( std::ostream& os ) { describe( os, st ); } );
  Cons cons;
  CS( sim ).computeActiveSet( q, q, v, cons );
  Vector2s kick( g.s( 3.0 ), g.s( 3.0 ) );
  const bool kicked = st.nballs() >= 2 && g.b( 0.4 );
  if( kicked ) cons.emplace_back( new KinematicKickBallBallConstraint( 0, 1, q.segment<2>( 0 ), q.segment<2>( 2 ), st.r()( 0 ), st.r()( 1 ), kick, false ) );
  c.nontrivial( !cons.empty() );
  checkContactKinematics( c, FS( sim ), q, v, cons, [&]( const Constraint& k, const VectorXs& qq, const VectorXs& vv, VectorXs& out )
  {
    if( k.name() == "kinematic_kick_ball_ball" ) { out = vv.segment<2>( 0 ) - vv.segment<2>( 2 ) - kick; return true; }
    return b2RelVel( st, k, qq, vv, out );
  }, []( const Constraint& ) { return KinOpts{}; } );
  // The normal gradient is the derivative of the gap
  for( auto& k : cons )
  {
    if( k->name() != "ball_ball" && k->name() != "static_plane_constraint" ) continue;
    SparseMatrixsc G{ FS( sim ).nvdofs(), 1 };
    G.reserve( VectorXi::Constant( 1, k->impactStencilSize() ) );
    k->evalgradg( q, 0, G, FS( sim ) );
    const VectorXs Gd = VectorXs( G.col( 0 ) );
    const double h = 1e-5;
    for( int i = 0; i < q.size(); ++i )
    {
      VectorXs qa = q, qb = q;
      qa( i ) += h; qb( i ) -= h;
      const double fd = ( k->evaluateGapFunction( qa ) - k->evaluateGapFunction( qb ) ) / ( 2.0 * h );
      CHECK( near( fd, Gd( i ), 1e-5 ), k->name() << " gap derivative " << fd << " vs gradient " << Gd( i ) );
    }
  }
  // Pairwise impulse
  for( auto& k : cons ) if( k->name() == "ball_ball" )
  {
    const double nv = k->evalNdotV( q, v );
    if( nv >= 0.0 ) continue;
    const double CoR = g.pick( { 0.0, 1.0, g.u() } );
    VectorXs v1 = v;
    double alpha = -1.0;
    k->resolveImpact( CoR, st.M(), nv, v1, alpha );
    CHECK( near( k->evalNdotV( q, v1 ), -CoR * nv, 1e-9, std::fabs( nv ) ), "restitution of the pair" );
    SparseMatrixsc G{ FS( sim ).nvdofs(), 1 };
    G.reserve( VectorXi::Constant( 1, k->impactStencilSize() ) );
    k->evalgradg( q, 0, G, FS( sim ) );
    CHECK( ( v1 - ( v + st.Minv() * VectorXs( G.col( 0 ) ) * alpha ) ).lpNorm<Eigen::Infinity>() <= 1e-9 * ( 1.0 + vmax( v ) ), "impulse is not along the gradient" );
  }
  // Stacked bases agree with the contacts
  if( !cons.empty() )
  {
    MatrixXXsc ib, cb;
    CS( sim ).computeImpactBases( q, cons, ib );
    CS( sim ).computeContactBases( q, v, cons, cb );
    CHECK( ib.cols() == int( cons.size() ) && cb.cols() == 2 * int( cons.size() ), "stacked sizes" );
    for( size_t i = 0; i < cons.size(); ++i )
    {
      MatrixXXsc B;
      cons[i]->computeBasis( q, v, B );
      CHECK( ( ib.col( i ) - B.col( 0 ) ).norm() <= 1e-12 && ( cb.block<2, 2>( 0, 2 * i ) - B ).norm() <= 1e-12, "stacked bases" );
    }
  }
}

// ---------------------------------------------------------------------------------------------------- portals
SUBCHECK( "C18", "ball2d_portal_map", "opposing portal pairs (static or shearing, any orientation and time) and points inside, outside and near the planes; non-trivial when the point is beyond a plane", 60000, 600000 )
{
  Ball2DState st;
  Domain d = genDomain<StaticPlane>( g, st, 1.0 );
  c.note( [&]( std::ostream& os ) { describe( os, st ); os << " t " << d.t << " v " << d.v; } );
  for( const PlanarPortal& P : st.planarPortals() )
  {
    const bool isy = std::fabs( d.dirLocal( P.planeA().n() ).y() ) > 0.5;
    const double H = isy ? d.Ly : d.Lx;
    Vector2s u( g.s( d.Lx * 1.3 ), g.s( d.Ly * 1.3 ) );
    if( g.b( 0.5 ) ) ( isy ? u.y() : u.x() ) = H * g.pick( { 1.0, -1.0 } ) * ( 1.0 + g.pick( { 1.0, -1.0 } ) * g.logu( 1e-6, 0.3 ) );
    const double along = isy ? u.y() : u.x();
    if( std::fabs( std::fabs( along ) - H ) < 1e-9 ) throw Discard{};
    const Vector2s x = d.toWorld( u );
    const bool inside = P.pointInsidePortal( x );
    CHECK( inside == ( std::fabs( along ) > H ), "point at " << u.transpose() << " inside portal: " << inside );
    CHECK( P.isLeesEdwards() == ( isy && d.v != 0.0 ), "shearing flag" );
    const double sh = isy && d.v != 0.0 ? d.shift() : 0.0;
    c.nontrivial( inside );
    if( inside )
    {
      Vector2s xo;
      P.teleportPointInsidePortal( x, xo );
      const Vector2s uo = d.toLocal( xo );
      const int sgn = along > 0.0 ? -1 : 1; // leaving through the upper plane re-enters at the bottom
      const double want_al = along + sgn * 2.0 * H;
      CHECK( near( isy ? uo.y() : uo.x(), want_al, 1e-9, 10.0 ), "normal coordinate " << uo.transpose() << " from " << u.transpose() );
      double dt = isy ? uo.x() - ( u.x() + sgn * sh ) : uo.y() - u.y();
      if( sh != 0.0 || ( isy && d.v != 0.0 ) )
      {
        const double k = std::round( dt / ( 2.0 * d.Lx ) );
        dt -= 2.0 * d.Lx * k;
        CHECK( std::fabs( uo.x() ) <= d.Lx * ( 1.0 + 1e-9 ), "sheared image left the periodic range: " << uo.transpose() );
      }
      CHECK( std::fabs( dt ) <= 1e-8, "tangential coordinate off by " << dt );
      const Vector2s kick = d.dirLocal( P.getKinematicVelocityOfPoint( x ) );
      CHECK( ( kick - Vector2s( isy ? sgn * d.v : 0.0, 0.0 ) ).norm() <= 1e-9 * ( 1 + std::fabs( d.v ) ), "shear velocity " << kick.transpose() << " leaving at " << u.transpose() << " with v " << d.v );
      // Through and back
      Vector2s xb;
      if( P.planeA().distanceLessThanZero( x ) ) P.teleportPointThroughPlaneB( xo, xb ); else P.teleportPointThroughPlaneA( xo, xb );
      Vector2s ub = d.toLocal( xb ) - u;
      if( isy && d.v != 0.0 ) ub.x() -= 2.0 * d.Lx * std::round( ub.x() / ( 2.0 * d.Lx ) );
      CHECK( ub.norm() <= 1e-8, "through and back moved the point by " << ub.transpose() );
    }
    // A ball touches the portal when its surface reaches a plane
    const double r = g.u( 0.05, 0.9 );
    const double m = std::min( H - along, along + H ) - r;
    if( std::fabs( m ) > 1e-9 && std::fabs( along ) < H )
    {
      bool idx = false;
      const bool touch = P.ballTouchesPortal( x, r, idx );
      CHECK( touch == ( m < 0.0 ), "ball touching portal" );
      if( touch )
      {
        const bool isA = d.dirLocal( P.planeA().n() ).dot( isy ? Vector2s( 0, 1 ) : Vector2s( 1, 0 ) ) * along < 0.0;
        CHECK( idx == !isA, "plane index of a touching ball" );
        Vector2s xo;
        P.teleportBall( x, r, xo );
        Vector2s xe;
        if( isA ) P.teleportPointThroughPlaneA( x, xe ); else P.teleportPointThroughPlaneB( x, xe );
        CHECK( ( xo - xe ).norm() <= 1e-12 * ( 1 + xo.norm() ), "teleported ball" );
        const int sgn = along > 0.0 ? -1 : 1;
        const Vector2s kick = d.dirLocal( P.getKinematicVelocityOfBall( x, r ) );
        CHECK( ( kick - Vector2s( isy ? sgn * d.v : 0.0, 0.0 ) ).norm() <= 1e-9 * ( 1 + std::fabs( d.v ) ), "shear velocity of a ball" );
      }
    }
  }
}

SUBCHECK( "C18", "ball2d_portal_steps", "free balls drift for up to 40 steps of any kind (without contacts, with impacts, with friction) in a periodic (possibly sheared) box; positions compared with unwrapped free flight modulo the box, velocities with the number of shear crossings; non-trivial when a ball crossed a portal", 6000, 60000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  const double rmax = 0.05;
  Domain d = genDomain<StaticPlane>( g, st, 0.5 );
  const int kind = g.w( { 3, 1, 1 } );
  const int n = kind == 0 ? g.i( 1, 4 ) : 1;
  std::vector<Vector2s> u, w;
  for( int i = 0; i < n; ++i )
  {
    u.push_back( Vector2s( g.s( d.Lx * 0.98 ), g.s( d.Ly * 0.98 ) ) );
    w.push_back( Vector2s( g.s( 6.0 ), g.s( 6.0 ) ) );
    st.pushBallBack( d.toWorld( u[i] ), d.dirWorld( w[i] ), rmax, g.u( 0.5, 2.0 ), false );
  }
  const Rational<std::intmax_t> dt( 1, g.pick( { 20, 50, 100 } ) );
  const double h = scalar( dt );
  PythonScripting cb;
  SymplecticEulerMap map;
  const int steps = g.i( 1, 40 );
  bool crossed = false;
  c.note( [&]( std::ostream& os ) { describe( os, st ); os << " kind " << kind << " steps " << steps << " dt " << h << " v " << d.v; } );
  for( int s = 1; s <= steps; ++s )
  {
    if( kind == 0 ) sim.flow( cb, unsigned( s ), dt, map );
    else if( kind == 1 ) { LCPOperatorAPGD lcp( 1e-8, 200 ); ImpactMap im( false ); sim.flow( cb, unsigned( s ), dt, map, lcp, 0.5, im ); }
    else { Sobogus so( SobogusSolverType::Balls2D, 10 ); GeometricImpactFrictionMap gm( 1e-8, 100, ImpulsesToCache::NONE ); sim.flow( cb, unsigned( s ), dt, map, 0.5, 0.3, so, gm ); }
    d.t = s * h;
    for( int i = 0; i < n; ++i )
    {
      u[i] += h * w[i];
      // Portals act one after the other, in the order they are listed
      for( const PlanarPortal& P : st.planarPortals() )
      {
        const bool isy = std::fabs( d.dirLocal( P.planeA().n() ).y() ) > 0.5;
        const double H = isy ? d.Ly : d.Lx;
        double& al = isy ? u[i].y() : u[i].x();
        if( std::fabs( std::fabs( al ) - H ) < 1e-9 ) throw Discard{};
        if( std::fabs( al ) > H )
        {
          crossed = true;
          const int sgn = al > 0.0 ? -1 : 1;
          al += sgn * 2.0 * H;
          if( isy && d.v != 0.0 )
          {
            u[i].x() += sgn * d.shift();
            w[i].x() += sgn * d.v;
            if( std::fabs( std::fabs( u[i].x() ) - d.Lx ) < 1e-9 ) throw Discard{};
            while( u[i].x() > d.Lx ) u[i].x() -= 2.0 * d.Lx;
            while( u[i].x() < -d.Lx ) u[i].x() += 2.0 * d.Lx;
          }
        }
      }
      const Vector2s got = d.toLocal( st.q().segment<2>( 2 * i ) ), gv = d.dirLocal( st.v().segment<2>( 2 * i ) );
      CHECK( ( gv - w[i] ).norm() <= 1e-8 * ( 1 + w[i].norm() ), "step " << s << " ball " << i << " velocity " << gv.transpose() << " expected " << w[i].transpose() );
      CHECK( ( got - u[i] ).norm() <= 1e-7, "step " << s << " ball " << i << " at " << got.transpose() << " expected " << u[i].transpose() );
    }
  }
  c.nontrivial( crossed );
}

SUBCHECK( "C19", "ball2d_portal_contacts", "2..6 balls in a periodic (possibly sheared) box, many near the faces and corners; contacts compared with all periodic images; non-trivial when a contact crosses a portal", 40000, 400000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  Domain d = genDomain<StaticPlane>( g, st, 1.0 );
  const int n = g.i( 2, 6 );
  std::vector<Vector2s> u0( n ), u1( n );
  std::vector<double> r( n );
  for( int i = 0; i < n; ++i )
  {
    r[i] = g.mix( 0.2, 1.0 );
    Vector2s u( g.s( d.Lx ), g.s( d.Ly ) );
    if( i > 0 && g.b( 0.7 ) )
    {
      const int j = g.i( 0, i - 1 );
      u = u1[j] + dir2( g ) * ( r[i] + r[j] ) * ( 1.0 + g.u( -0.2, 0.1 ) );
    }
    else if( g.b( 0.7 ) )
    {
      if( d.py && g.b() ) u.y() = g.pick( { 1.0, -1.0 } ) * ( d.Ly - r[i] * g.u( 0.0, 1.2 ) ); else if( d.px ) u.x() = g.pick( { 1.0, -1.0 } ) * ( d.Lx - r[i] * g.u( 0.0, 1.2 ) );
    }
    // Wrap into the box
    if( d.py ) while( std::fabs( u.y() ) > d.Ly ) { const int s = u.y() > 0 ? -1 : 1; u.y() += 2.0 * s * d.Ly; if( d.v != 0.0 ) u.x() += s * d.shift(); }
    if( d.px || d.v != 0.0 ) while( std::fabs( u.x() ) > d.Lx ) u.x() -= ( u.x() > 0 ? 2.0 : -2.0 ) * d.Lx;
    u1[i] = u;
    u0[i] = u + Vector2s( g.s( 0.05 ), g.s( 0.05 ) );
    st.pushBallBack( d.toWorld( u0[i] ), d.dirWorld( Vector2s( g.s( 2.0 ), g.s( 2.0 ) ) ), r[i], g.u( 0.5, 2.0 ), false );
  }
  VectorXs q0 = st.q(), q1( 2 * n );
  for( int i = 0; i < n; ++i ) q1.segment<2>( 2 * i ) = d.toWorld( u1[i] );
  c.note( [&]( std::ostream& os ) { describe( os, st ); os << " q1 " << q1.transpose() << " t " << d.t << " v " << d.v << " box " << d.Lx << " " << d.Ly; } );
  // Images that overlap at the end of the step
  const double band = 1e-7;
  struct Img { int k, m; double gap; };
  std::map<std::pair<int, int>, std::vector<Img>> may;
  std::map<std::pair<int, int>, bool> must, fuzzy;
  const int K = d.px || d.v != 0.0 ? 2 : 0, M = d.py ? 1 : 0;
  for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) for( int k = -K; k <= K; ++k ) for( int m = -M; m <= M; ++m )
  {
    if( i == j ) { if( ( k || m ) && ( imageOf( d, u1[j], k, m ) - u1[i] ).norm() < 2.0 * r[i] + 1e-3 ) throw Discard{}; continue; }
    if( j < i ) continue;
    // Without an x portal, wrapping in x only happens together with the sheared faces
    if( !d.px && k != 0 && m == 0 ) continue;
    const double gap = ( imageOf( d, u1[j], k, m ) - u1[i] ).norm() - r[i] - r[j];
    const auto key = std::make_pair( i, j );
    if( std::fabs( gap ) < band ) fuzzy[key] = true;
    if( gap >= band ) continue;
    may[key].push_back( { k, m, gap } );
    const bool itx = d.px && std::fabs( u1[i].x() ) + r[i] >= d.Lx + band, jtx = d.px && std::fabs( u1[j].x() ) + r[j] >= d.Lx + band;
    const bool ity = d.py && std::fabs( u1[i].y() ) + r[i] >= d.Ly + band, jty = d.py && std::fabs( u1[j].y() ) + r[j] >= d.Ly + band;
    if( gap > -band ) continue;
    bool req = false;
    if( k == 0 && m == 0 ) req = true;
    else if( m == 0 ) req = true;
    else if( d.v == 0.0 && k == 0 ) req = true;
    else if( d.v == 0.0 ) req = ( itx && jty ) || ( jtx && ity );
    else
    {
      // The sheared face wraps its image into the box: found directly when that wrapped image is the overlapping one
      const Vector2s ji = imageOf( d, u1[j], k, m ), ij = imageOf( d, u1[i], -k, -m );
      if( jty && std::fabs( ji.x() ) < d.Lx - 1e-6 ) req = true;
      if( ity && std::fabs( ij.x() ) < d.Lx - 1e-6 ) req = true;
    }
    if( req ) must[key] = true;
  }
  Cons cons;
  CS( sim ).computeActiveSet( q0, q1, st.v(), cons );
  std::map<std::pair<int, int>, int> seen;
  bool through = false;
  for( auto& kk : cons )
  {
    const int a = kk->body0(), b = kk->body1();
    CHECK( a >= 0 && b > a && b < n, "bodies" );
    const auto key = std::make_pair( a, b );
    ++seen[key];
    CHECK( may.count( key ), kk->name() << " between balls " << a << "," << b << " which touch in no periodic image" );
    VectorXs nn, p;
    kk->getWorldSpaceContactNormal( q0, nn );
    kk->getWorldSpaceContactPoint( q0, p );
    CHECK( ( p - ( q0.segment<2>( 2 * a ) - r[a] * nn ) ).norm() <= 1e-9 * ( 1 + p.norm() ), "contact point" );
    const bool tele = kk->name().find( "teleported" ) == 0;
    // Some overlapping image must explain normal and relative velocity
    bool ok = false;
    std::ostringstream why;
    for( auto& im : may[key] )
    {
      if( tele == ( im.k == 0 && im.m == 0 ) ) continue;
      const Vector2s want = d.dirWorld( u0[a] - imageOf( d, u0[b], im.k, im.m ) ).normalized();
      const Vector2s wrel = st.v().segment<2>( 2 * a ) - ( st.v().segment<2>( 2 * b ) + d.dirWorld( Vector2s( d.v * im.m, 0.0 ) ) );
      const VectorXs rel = kk->computeRelativeVelocity( q0, st.v() );
      why << " [image " << im.k << "," << im.m << " normal " << want.transpose() << " vs " << nn.transpose() << " rel " << wrel.transpose() << " vs " << rel.transpose() << "]";
      if( ( want - nn ).norm() <= 1e-7 && ( rel - wrel ).norm() <= 1e-8 ) ok = true;
      if( im.k || im.m ) through = true;
    }
    CHECK( ok, kk->name() << " between balls " << a << "," << b << " matches no overlapping image:" << why.str() );
  }
  for( auto& e : must ) if( e.second ) { if( seen[e.first] == 0 && !fuzzy[e.first] ) FAILCASE( "balls " << e.first.first << "," << e.first.second << " touch through a portal but have no contact" ); ++c.sub; }
  for( auto& e : seen ) CHECK( e.second <= 1 || may[e.first].size() > 1, "contact between balls " << e.first.first << "," << e.first.second << " generated " << e.second << " times" );
  c.nontrivial( through );
}
