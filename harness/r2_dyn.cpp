// 2D rigid body dynamics: C03 states, C11 impact operators, C12 impact steps, C13 friction steps, C14 integrators, C16 forces,
// C20 warm starting, C21 kinematic bodies, C22 scene edits, C26 output, C30 frames, C31 copies
#include "r2_scene.h"
#include "step_common.h"

namespace
{
void sync( Scene& s, const RigidBody2DState& st )
{
  for( int i = 0; i < s.n(); ++i )
  {
    s.bodies[i].x = st.q().segment<2>( 3 * i ); s.bodies[i].th = st.q()( 3 * i + 2 );
    s.bodies[i].v = st.v().segment<2>( 3 * i ); s.bodies[i].w = st.v()( 3 * i + 2 );
  }
}
Vector2s momentum( const Scene& s, const VectorXs& v ) { Vector2s p = Vector2s::Zero(); for( int i = 0; i < s.n(); ++i ) p += s.bodies[i].m * v.segment<2>( 3 * i ); return p; }
double angular( const Scene& s, const VectorXs& q, const VectorXs& v ) { double a = 0; for( int i = 0; i < s.n(); ++i ) a += s.bodies[i].m * ( q( 3 * i ) * v( 3 * i + 1 ) - q( 3 * i + 1 ) * v( 3 * i ) ) + s.bodies[i].I * v( 3 * i + 2 ); return a; }
double energy( const Scene& s, const VectorXs& v ) { double a = 0; for( int i = 0; i < s.n(); ++i ) a += 0.5 * s.bodies[i].m * v.segment<2>( 3 * i ).squaredNorm() + 0.5 * s.bodies[i].I * v( 3 * i + 2 ) * v( 3 * i + 2 ); return a; }
double massScale( const Scene& s ) { double a = 1.0; for( auto& b : s.bodies ) a += b.m + b.I; return a; }
void genGrav( Gen& g, Scene& s, double p ) { if( g.b( p ) ) s.grav = Vector2s( g.s( 10.0 ), g.s( 10.0 ) ); }
std::unique_ptr<ImpactOperator> genImpactOp( Gen& g, double vtol )
{
  BudgetLCP lcp;
  switch( g.w( { 3, 2, 2 } ) )
  {
    case 0: return lcp.clone();
    case 1: return std::unique_ptr<ImpactOperator>( new GROperator( vtol, lcp ) );
    default: { GROperator el( vtol, lcp ); return std::unique_ptr<ImpactOperator>( new GRROperator( el, lcp ) ); }
  }
}
// Contacts whose kinematic parts can all be satisfied: obstacles and kinematic bodies at rest, or one common velocity
void calm( Gen& g, Scene& s, bool& moving )
{
  moving = g.b( 0.35 );
  const Vector2s w = moving ? Vector2s( g.s( 2.0 ), g.s( 2.0 ) ) : Vector2s( 0, 0 );
  int nk = 0;
  for( auto& b : s.bodies ) nk += b.fixed;
  const bool spin = moving && nk == 1 && s.planes.empty() && g.b( 0.5 ); // (several would squeeze a body between them)
  for( auto& p : s.planes ) { p.v = w; p.w = 0.0; }
  for( auto& b : s.bodies ) if( b.fixed ) { b.v = w; b.w = spin ? g.s( 2.0 ) : 0.0; }
  if( s.planes.empty() && !s.anyFixed() ) moving = false;
}
std::unique_ptr<RigidBody2DSim> simOf( const Scene& s ) { std::unique_ptr<RigidBody2DSim> p( new RigidBody2DSim ); p->state() = s.build(); return p; }
bool dupIds( const std::vector<ContactId>& ids ) { std::map<ContactId, int> m; for( auto& i : ids ) if( ++m[i] > 1 ) return true; return false; }
}

SUBCHECK( "C11", "rb2d_impact_operators", "contact sets of generated circle scenes (circles, kinematic circles and boxes, planes), every operator those contacts support; non-trivial with an approaching contact", 20000, 300000 )
{
  Scene s;
  genBodies( g, s, g.b() ? CIRCLES : KINEMATIC, SceneOpts{} );
  if( g.b( 0.5 ) ) genScenePlanes( g, s, 2, false );
  bool moving = false;
  calm( g, s, moving );
  auto sim = simOf( s );
  const RigidBody2DState& st = sim->state();
  Cons cons;
  CS( *sim ).computeActiveSet( st.q(), st.q(), st.v(), cons );
  if( cons.empty() || cons.size() > 9 ) throw Discard{};
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  bool app = false;
  for( auto& k : cons ) if( k->evalNdotV( st.q(), st.v() ) < 0.0 ) app = true;
  c.nontrivial( app );
  checkImpactOperator( g, c, FS( *sim ), st.q(), st.v(), cons, false );
}

static void r2ImpactHistory( Gen& g, Ctx& c, int aspects )
{
  Scene s;
  SceneOpts o; o.nmax = 5;
  genBodies( g, s, g.b() ? CIRCLES : KINEMATIC, o );
  if( g.b( 0.35 ) ) genScenePlanes( g, s, 2, false );
  bool moving = false;
  calm( g, s, moving );
  genGrav( g, s, 0.4 );
  auto sp = simOf( s );
  const bool free = s.planes.empty() && !s.anyFixed();
  const double vtol = 1e-6;
  const std::unique_ptr<ImpactOperator> op = genImpactOp( g, vtol );
  const bool warm = g.b();
  ImpactMap imap( warm );
  const double CoR = g.pick( { 0.0, 1.0, g.u(), g.u() } );
  const Rational<std::intmax_t> dtr( 1, g.pick( { 10, 100, 1000 } ) );
  const double dt = scalar( dtr );
  const std::unique_ptr<UnconstrainedMap> umap = genMap( g );
  CoefCallback cb;
  const bool percontact = op->name() == "lcp_apgd" && g.b( 0.3 );
  const uint64_t salt = g.bits();
  if( percontact ) cb.cor = [salt]( const Constraint& k ) { const ContactId id = idOf( k ); uint64_t h = salt + uint64_t( id.b0 ) * 7919u + uint64_t( id.b1 + 1 ) * 104729u + uint64_t( id.st + 1 ) * 1299709u; return double( h % 101 ) / 100.0; };
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " op " << op->name() << " CoR " << CoR << " dt " << dt << " warm " << warm << " map " << umap->name(); } );
  CacheModel model;
  const int steps = g.i( 1, 5 );
  for( int it = 1; it <= steps; ++it )
  {
    RigidBody2DState& st = sp->state();
    const VectorXs q0 = st.q(), v0 = st.v();
    VectorXs q1, v1, v2;
    bool well = true;
    RigidBody2DSim twin = *sp;
    const int n = impactStep( c, aspects, FS( *sp ), CS( *sp ), *umap, imap, warm, *op, cb, unsigned( it ), dt, CoR, q0, v0, q1, v1, v2, model, &well );
    if( n > 9 ) throw Discard{};
    c.nontrivial( n > 0 );
    if( aspects & CONSERVE )
    {
      const double vs = 1.0 + vmax( v0 ), ms = massScale( s ), qs = 1.0 + vmax( q0 );
      if( free )
      {
        CHECK( ( momentum( s, v2 ) - momentum( s, v0 ) ).norm() <= 1e-8 * vs * ms, "momentum " << momentum( s, v0 ).transpose() << " became " << momentum( s, v2 ).transpose() );
        CHECK( std::fabs( angular( s, q0, v2 ) - angular( s, q0, v0 ) ) <= 1e-8 * vs * ms * qs, "angular momentum " << angular( s, q0, v0 ) << " became " << angular( s, q0, v2 ) );
      }
      const double K0 = energy( s, v0 ), K2 = energy( s, v2 );
      if( !moving && !percontact && well )
      {
        CHECK( K2 <= K0 + 1e-6 * ( 1 + K0 ), "kinetic energy grew from " << K0 << " to " << K2 );
        if( CoR == 1.0 ) CHECK( std::fabs( K2 - K0 ) <= 1e-5 * ( 1 + K0 ), "elastic impacts changed kinetic energy from " << K0 << " to " << K2 );
      }
      // The reported quantities are those of the state
      RigidBody2DSim tmp = *sp;
      tmp.state().v() = v2;
      CHECK( near( tmp.computeKineticEnergy(), K2, 1e-10, K2 ), "reported kinetic energy" );
      CHECK( ( tmp.computeTotalMomentum() - momentum( s, v2 ) ).norm() <= 1e-10 * vs * ms, "reported momentum" );
      CHECK( near( tmp.computeTotalAngularMomentum(), angular( s, q0, v2 ), 1e-10, vs * ms * qs ), "reported angular momentum" );
      VectorXs P, A;
      FS( *sp ).computeMomentum( v2, P );
      FS( *sp ).computeAngularMomentum( v2, A );
      CHECK( ( P - momentum( s, v2 ) ).norm() <= 1e-10 * vs * ms && near( A( 0 ), angular( s, q0, v2 ), 1e-10, vs * ms * qs ), "momentum of a velocity" );
      // Frictionless contacts exert no torque on circles
      for( int i = 0; i < s.n(); ++i ) CHECK( near( v2( 3 * i + 2 ), v0( 3 * i + 2 ), 1e-10, vs ), "a frictionless impact changed the spin of circle " << i );
      if( n == 1 && !percontact )
      {
        Cons A1;
        VectorXs qp( q0.size() ), vp( v0.size() );
        umap->flow( q0, v0, FS( *sp ), unsigned( it ), dt, qp, vp );
        CS( *sp ).computeActiveSet( q0, qp, v0, A1 );
        const double u0 = A1[0]->evalNdotV( q0, v0 ), u2 = A1[0]->evalNdotV( q0, v2 );
        if( !moving && u0 < -10 * vtol ) CHECK( near( u2, -CoR * u0, 1e-6, u0 ), "an isolated contact arriving with " << u0 << " leaves with " << u2 << " at restitution " << CoR );
        else if( u0 > 1e-9 && !moving ) CHECK( near( u2, u0, 1e-6, u0 ), "a separating contact was changed from " << u0 << " to " << u2 );
      }
    }
    if( ( aspects & DYN ) && !percontact )
    {
      PythonScripting ps;
      ImpactMap imap2( warm );
      twin.flow( ps, unsigned( it ), dtr, *umap, *op, CoR, imap2 );
      CHECK( closeVec( twin.state().q(), q1, 1e-13 ) && closeVec( twin.state().v(), v1, 1e-13 ), "the simulator's step differs from its impact map" );
    }
    st.q() = q1;
    st.v() = v1;
    sync( s, st );
    if( ( aspects & WARM ) && g.b( 0.3 ) )
    {
      const std::string b = bytesOf( *sp );
      std::istringstream is( b );
      sp.reset( new RigidBody2DSim );
      sp->deserialize( is );
      CHECK( bytesOf( *sp ) == b && size_t( is.tellg() ) == b.size(), "saved simulation changed on loading" );
    }
  }
}
SUBCHECK( "C12", "rb2d_impact_steps", "1..5 impact steps of generated circle scenes with kinematic bodies, planes and optional gravity, every operator, per-contact restitution; non-trivial when a step has contacts", 12000, 150000 ) { r2ImpactHistory( g, c, DYN | COEF | CONSERVE ); }
SUBCHECK( "C20", "rb2d_impact_warm_start", "impact step histories with saving and loading in between; the cache is compared with a map keyed by contact identity; non-trivial when a step has contacts", 8000, 100000 ) { r2ImpactHistory( g, c, WARM ); }
SUBCHECK( "C26", "rb2d_impact_forces", "impact steps with force export; file members compared with the recorded solve; non-trivial when a step has contacts", 3000, 40000 ) { r2ImpactHistory( g, c, FILES ); }

static void r2FrictionHistory( Gen& g, Ctx& c, int aspects )
{
  Scene s;
  SceneOpts o; o.nmax = 4; o.overlap = 0.08;
  const SceneMode mode = genMode( g );
  genBodies( g, s, mode, o );
  if( g.b( 0.5 ) ) genScenePlanes( g, s, 2, false );
  bool moving = false;
  calm( g, s, moving );
  if( mode == BOXES ) for( auto& p : s.planes ) p.v.setZero();
  if( mode == BOXES ) moving = false;
  genGrav( g, s, 0.6 );
  auto sp = simOf( s );
  const bool free = s.planes.empty() && !s.anyFixed();
  FrictionSetup su;
  su.map = g.pick( { FMap::Geometric, FMap::Stabilized } );
  su.cache = g.pick( { ImpulsesToCache::NONE, ImpulsesToCache::NORMAL, ImpulsesToCache::NORMAL_AND_FRICTION } );
  if( s.anyBox() && mode == BOXES && !s.planes.empty() ) su.cache = ImpulsesToCache::NONE; // box-plane contacts are not cached
  const bool exact = true;
  std::unique_ptr<FrictionSolver> solver;
  if( free && mode == CIRCLES && g.b( 0.4 ) )
  {
    LCPOperatorAPGD lcp( 1e-11, 5000 );
    DiscMDP mdp( 1 );
    solver.reset( new StaggeredProjections( g.b(), g.b(), lcp, mdp ) );
    su.iters = 60;
  }
  else solver.reset( new Sobogus( SobogusSolverType::RigidBody2D, 10 ) );
  const double CoR = g.pick( { 0.0, 0.0, 1.0, g.u() } );
  const double mu = g.pick( { 0.0, g.u(), g.u( 0.0, 0.5 ), g.u( 0.0, 2.0 ) } );
  const Rational<std::intmax_t> dtr( 1, g.pick( { 10, 100, 1000 } ) );
  const double dt = scalar( dtr );
  const std::unique_ptr<UnconstrainedMap> umap = genMap( g );
  CoefCallback cb;
  const bool percontact = g.b( 0.3 );
  const uint64_t salt = g.bits();
  const auto hash = [salt]( const Constraint& k, uint64_t m ) { const ContactId id = idOf( k ); uint64_t h = salt + m + uint64_t( id.b0 ) * 7919u + uint64_t( id.b1 + 1 ) * 104729u + uint64_t( id.st + 1 ) * 1299709u; return double( h % 101 ) / 100.0; };
  if( percontact ) { cb.mu = [hash]( const Constraint& k ) { return hash( k, 5 ); }; cb.cor = [hash]( const Constraint& k ) { return hash( k, 77 ); }; }
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " map " << int( su.map ) << " cache " << int( su.cache ) << " solver " << solver->name() << " CoR " << CoR << " mu " << mu << " dt " << dt << " percontact " << percontact << " umap " << umap->name(); } );
  c.label( solver->name() );
  std::unique_ptr<ImpactFrictionMap> fmap = su.make();
  JudgedSolver js( *solver, c, exact, 1e-5 );
  CacheModel model;
  const int steps = g.i( 1, 4 );
  for( int it = 1; it <= steps; ++it )
  {
    RigidBody2DState& st = sp->state();
    const VectorXs q0 = st.q(), v0 = st.v();
    VectorXs q1, v1;
    RigidBody2DSim twin = *sp;
    if( su.map == FMap::Geometric && su.cache != ImpulsesToCache::NONE && mode == BOXES )
    {
      // Only one contact per pair of bodies can be cached
      VectorXs qp( q0.size() ), vp( v0.size() );
      umap->flow( q0, v0, FS( *sp ), unsigned( it ), dt, qp, vp );
      Cons A;
      CS( *sp ).computeActiveSet( q0, qp, v0, A );
      if( dupIds( idsOf( A ) ) ) throw Discard{};
    }
    const int n = frictionStep( c, aspects, FS( *sp ), CS( *sp ), *umap, *fmap, su, js, cb, unsigned( it ), dt, CoR, mu, q0, v0, q1, v1, model );
    if( n > 8 ) throw Discard{};
    c.nontrivial( n > 0 );
    c.label( !n ? "no contact" : js.converged ? "converged" : "not converged" );
    if( ( aspects & CONSERVE ) && n > 0 )
    {
      const double vs = 1.0 + vmax( js.v0 ), ms = massScale( s ), qs = 1.0 + vmax( q0 );
      if( free ) CHECK( ( momentum( s, js.v2 ) - momentum( s, js.v0 ) ).norm() <= 1e-8 * vs * ms, "momentum " << momentum( s, js.v0 ).transpose() << " became " << momentum( s, js.v2 ).transpose() );
      // Contacts between boxes act at one point, so they conserve angular momentum too
      bool all_body = true;
      for( auto& nm : js.names ) if( nm != "body_body" ) all_body = false;
      if( free && all_body ) CHECK( std::fabs( angular( s, q0, js.v2 ) - angular( s, q0, js.v0 ) ) <= 1e-8 * vs * ms * qs, "angular momentum " << angular( s, q0, js.v0 ) << " became " << angular( s, q0, js.v2 ) );
      const double K0 = energy( s, js.v0 ), K2 = energy( s, js.v2 );
      if( js.nrel_kin == 0.0 && !moving && vmax( js.CoR ) == 0.0 && js.converged ) CHECK( K2 <= K0 + 1e-5 * ( 1 + K0 ), "kinetic energy grew from " << K0 << " to " << K2 );
    }
    if( ( aspects & DYN ) && !percontact && it == 1 )
    {
      PythonScripting ps;
      std::unique_ptr<ImpactFrictionMap> fm2 = su.make();
      twin.flow( ps, unsigned( it ), dtr, *umap, CoR, mu, *solver, *fm2 );
      CHECK( closeVec( twin.state().q(), q1, 1e-12 ) && closeVec( twin.state().v(), v1, 1e-12 ), "the simulator's step differs from its impact-friction map" );
    }
    st.q() = q1;
    st.v() = v1;
    if( ( aspects & WARM ) && g.b( 0.3 ) )
    {
      const std::string b = bytesOf( *sp );
      std::istringstream is( b );
      sp.reset( new RigidBody2DSim );
      sp->deserialize( is );
      CHECK( bytesOf( *sp ) == b, "saved simulation changed on loading" );
    }
    if( vmax( v1 ) > 1e4 ) break;
  }
  if( aspects & WARM )
  {
    std::ostringstream used, fresh;
    fmap->resetCachedData();
    fmap->serialize( used );
    su.make()->serialize( fresh );
    CHECK( used.str() == fresh.str(), "a step map whose cached data was reset differs from a new one" );
  }
}
SUBCHECK( "C13", "rb2d_friction_steps", "1..4 friction steps of generated scenes of circles, boxes, kinematic bodies and planes, both solver families, default and per-contact coefficients; non-trivial when a step has contacts", 12000, 150000 ) { r2FrictionHistory( g, c, DYN | COEF | CONSERVE ); }
SUBCHECK( "C20", "rb2d_friction_warm_start", "friction step histories under every caching mode with saving and loading in between; non-trivial when a step has contacts", 8000, 100000 ) { r2FrictionHistory( g, c, WARM ); }
SUBCHECK( "C26", "rb2d_friction_forces", "friction steps with force export; file members compared with the recorded solve; non-trivial when a step has contacts", 3000, 40000 ) { r2FrictionHistory( g, c, FILES ); }

SUBCHECK( "C20", "rb2d_cache_model", "random sequences of caching, querying, clearing, saving and loading on contacts of every cached kind; compared with a map keyed by kind and bodies; non-trivial when a query hits", 150000, 1500000 )
{
  std::unique_ptr<ConstraintCache> cache( new ConstraintCache );
  const int nb = g.i( 2, 5 ), ns = g.i( 1, 3 );
  VectorXs q( 3 * nb );
  for( int i = 0; i < nb; ++i ) q.segment<3>( 3 * i ) << i, 0.0, 0.0;
  std::vector<RigidBody2DStaticPlane> planes( ns, RigidBody2DStaticPlane( Vector2s( 0, 0 ), Vector2s( 0, 1 ) ) );
  const auto mk = [&]() -> std::unique_ptr<Constraint>
  {
    const int k = g.i( 0, 3 );
    int a = g.i( 0, nb - 2 ), b = g.i( a + 1, nb - 1 );
    if( k == 0 ) return std::unique_ptr<Constraint>( new CircleCircleConstraint( unsigned( a ), unsigned( b ), Vector2s( -1, 0 ), Vector2s( 0.5 * ( a + b ), 0 ), 0.6, 0.6 ) );
    if( k == 1 ) return std::unique_ptr<Constraint>( new BodyBodyConstraint( unsigned( a ), unsigned( b ), Vector2s( 0.5 * ( a + b ), 0 ), Vector2s( -1, 0 ), q ) );
    if( k == 2 ) { if( g.b() ) std::swap( a, b ); return std::unique_ptr<Constraint>( new KinematicObjectCircleConstraint( unsigned( a ), 0.6, Vector2s( 1, 0 ), unsigned( b ), Vector2s( b, 0 ), Vector2s( 0, 0 ), 0.0 ) ); }
    return std::unique_ptr<Constraint>( new StaticPlaneCircleConstraint( unsigned( g.i( 0, nb - 1 ) ), unsigned( g.i( 0, ns - 1 ) ), 0.6, planes[0] ) );
  };
  // (a kinematic contact is one and the same whichever of the two is listed first)
  const auto key = [&]( const Constraint& k ) { ContactId id = idOf( k ); if( id.name == "kinematic_object_circle" && id.b0 > id.b1 ) std::swap( id.b0, id.b1 ); return id; };
  CacheModel model;
  const int ops = g.i( 1, 25 ), sz = g.i( 1, 2 );
  bool hit = false;
  for( int o = 0; o < ops; ++o )
  {
    const int what = g.w( { 5, 6, 1, 1 } );
    if( what == 0 )
    {
      auto k = mk();
      const ContactId id = key( *k );
      if( model.count( id ) ) continue;
      VectorXs r( sz );
      for( int i = 0; i < sz; ++i ) r( i ) = g.s( 5.0 );
      cache->cacheConstraint( *k, r );
      model[id] = r;
    }
    else if( what == 1 )
    {
      auto k = mk();
      VectorXs r = VectorXs::Constant( sz, 9.0 );
      cache->getCachedConstraint( *k, r );
      auto m = model.find( key( *k ) );
      if( m != model.end() ) hit = true;
      CHECK( r == ( m != model.end() ? m->second : VectorXs( VectorXs::Zero( sz ) ) ), "query for " << idOf( *k ) << " returned " << r.transpose() );
    }
    else if( what == 2 ) { cache->clear(); model.clear(); }
    else
    {
      std::ostringstream os;
      cache->serialize( os );
      std::istringstream is( os.str() );
      if( g.b() ) cache.reset( new ConstraintCache );
      cache->deserialize( is );
      CHECK( size_t( is.tellg() ) == os.str().size(), "cache did not consume its bytes" );
    }
    CHECK( cache->empty() == model.empty(), "emptiness" );
  }
  c.nontrivial( hit );
}

SUBCHECK( "C14", "rb2d_integrators", "1..10 steps of both integrators under gravity, with kinematic bodies; compared with independently computed reference updates, reversed for Verlet; non-trivial with gravity", 20000, 300000 )
{
  Scene s;
  genBodies( g, s, genMode( g ), SceneOpts{} );
  genGrav( g, s, 0.8 );
  if( g.b( 0.3 ) ) for( auto& b : s.bodies ) if( g.b( 0.3 ) ) b.fixed = true;
  auto sim = simOf( s );
  RigidBody2DState& st = sim->state();
  c.nontrivial( s.grav.norm() > 0.0 );
  const Rational<std::intmax_t> dtr( g.i( 1, 5 ), g.pick( { 100, 250, 1000 } ) );
  const double h = scalar( dtr );
  const bool verlet = g.b();
  std::unique_ptr<UnconstrainedMap> map;
  if( verlet ) map.reset( new VerletMap ); else map.reset( new SymplecticEulerMap );
  CHECK( map->name() == ( verlet ? "verlet" : "symplectic_euler" ), "integrator name" );
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " h " << h << " verlet " << verlet; } );
  const int n = s.n(), steps = g.i( 1, 10 );
  VectorXs acc = VectorXs::Zero( 3 * n );
  for( int i = 0; i < n; ++i ) if( !s.bodies[i].fixed ) acc.segment<2>( 3 * i ) = s.grav;
  const VectorXs qs = st.q(), vs = st.v();
  PythonScripting cb;
  for( int k = 1; k <= steps; ++k )
  {
    const VectorXs qb = st.q(), vb = st.v();
    VectorXs q = qb, v = vb;
    if( verlet ) { q += h * ( v + 0.5 * h * acc ); v += h * acc; }
    else { v += h * acc; q += h * v; }
    sim->flow( cb, unsigned( k ), dtr, *map );
    const double sc = 1.0 + vmax( q ) + vmax( v );
    CHECK( ( st.q() - q ).lpNorm<Eigen::Infinity>() <= 1e-11 * sc, "positions " << st.q().transpose() << " expected " << q.transpose() );
    CHECK( ( st.v() - v ).lpNorm<Eigen::Infinity>() <= 1e-11 * sc, "velocities " << st.v().transpose() << " expected " << v.transpose() );
    const double t = k * h;
    if( verlet ) CHECK( ( st.q() - ( qs + t * vs + 0.5 * t * t * acc ) ).lpNorm<Eigen::Infinity>() <= 1e-9 * sc, "ballistic flight" );
    if( verlet )
    {
      VectorXs q2( 3 * n ), v2( 3 * n );
      map->flow( st.q(), -st.v(), FS( *sim ), 1, h, q2, v2 );
      CHECK( ( q2 - qb ).lpNorm<Eigen::Infinity>() <= 1e-10 * sc && ( v2 + vb ).lpNorm<Eigen::Infinity>() <= 1e-10 * sc, "not reversible" );
    }
    for( int i = 0; i < n; ++i ) if( s.bodies[i].fixed ) CHECK( st.v().segment<3>( 3 * i ) == vs.segment<3>( 3 * i ), "a kinematic body was accelerated" );
  }
  VectorXs q1( 3 * n );
  FS( *sim ).linearInertialConfigurationUpdate( qs, vs, h, q1 );
  CHECK( closeVec( q1, qs + h * vs, 1e-13 ), "inertial update" );
}

namespace
{
// Springs on every coordinate, the angles included: a force of a user's own, with a torque and a dependence on the configuration
struct Springs final : public RigidBody2DForce
{
  VectorXs k, a;
  Springs( const VectorXs& kk, const VectorXs& aa ) : k( kk ), a( aa ) {}
  virtual scalar computePotential( const VectorXs& q, const SparseMatrixsc& ) const override { return 0.5 * ( k.array() * ( q - a ).array().square() ).sum(); }
  virtual void computeForce( const VectorXs& q, const VectorXs&, const SparseMatrixsc&, VectorXs& result ) const override { result.array() -= k.array() * ( q - a ).array(); }
  virtual std::unique_ptr<RigidBody2DForce> clone() const override { return std::unique_ptr<RigidBody2DForce>( new Springs( k, a ) ); }
  virtual void serialize( std::ostream& ) const override {}
};
}
SUBCHECK( "C14", "rb2d_spring_forces", "1..10 steps of both integrators under gravity and a configuration dependent force with torques; compared with independently computed reference updates, reversed for Verlet; non-trivial with springs on moving bodies", 20000, 300000 )
{
  Scene s;
  genBodies( g, s, genMode( g ), SceneOpts{} );
  genGrav( g, s, 0.5 );
  if( g.b( 0.3 ) ) for( auto& b : s.bodies ) if( g.b( 0.3 ) ) b.fixed = true;
  const int n = s.n(), steps = g.i( 1, 10 );
  VectorXs k( 3 * n ), a( 3 * n );
  for( int i = 0; i < 3 * n; ++i ) { const Body& b = s.bodies[i / 3]; k( i ) = g.u( 0.0, 30.0 ) * ( i % 3 == 2 ? b.I : b.m ); a( i ) = g.s( 3.0 ); if( !b.fixed ) c.nontrivial( true ); }
  s.extra.reset( new Springs( k, a ) );
  auto sim = simOf( s );
  RigidBody2DState& st = sim->state();
  const Rational<std::intmax_t> dtr( g.i( 1, 5 ), g.pick( { 100, 250, 1000 } ) );
  const double h = scalar( dtr );
  const bool verlet = g.b();
  std::unique_ptr<UnconstrainedMap> map;
  if( verlet ) map.reset( new VerletMap ); else map.reset( new SymplecticEulerMap );
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " h " << h << " verlet " << verlet << " springs " << k.transpose() << " at " << a.transpose(); } );
  const auto acc = [&]( const VectorXs& q )
  {
    VectorXs r = VectorXs::Zero( 3 * n );
    for( int i = 0; i < n; ++i ) if( !s.bodies[i].fixed )
    {
      const Body& b = s.bodies[i];
      r.segment<2>( 3 * i ) = s.grav;
      for( int j = 0; j < 3; ++j ) r( 3 * i + j ) -= k( 3 * i + j ) * ( q( 3 * i + j ) - a( 3 * i + j ) ) / ( j == 2 ? b.I : b.m );
    }
    return r;
  };
  const VectorXs vs = st.v();
  PythonScripting cb;
  for( int it = 1; it <= steps; ++it )
  {
    const VectorXs qb = st.q(), vb = st.v();
    VectorXs q = qb, v = vb;
    if( verlet ) { const VectorXs a0 = acc( q ); q += h * ( v + 0.5 * h * a0 ); v += 0.5 * h * ( a0 + acc( q ) ); }
    else { v += h * acc( q ); q += h * v; }
    const int kind = g.w( { 3, 1 } );
    if( kind == 0 ) sim->flow( cb, unsigned( it ), dtr, *map );
    else { VectorXs q1( 3 * n ), v1( 3 * n ); map->flow( qb, vb, FS( *sim ), unsigned( it ), h, q1, v1 ); CHECK( st.q() == qb && st.v() == vb, "the integrator changed its inputs" ); st.q() = q1; st.v() = v1; }
    const double sc = 1.0 + vmax( q ) + vmax( v );
    CHECK( ( st.q() - q ).lpNorm<Eigen::Infinity>() <= 1e-11 * sc, "positions " << st.q().transpose() << " expected " << q.transpose() );
    CHECK( ( st.v() - v ).lpNorm<Eigen::Infinity>() <= 1e-11 * sc, "velocities " << st.v().transpose() << " expected " << v.transpose() );
    if( verlet )
    {
      VectorXs q2( 3 * n ), v2( 3 * n );
      map->flow( st.q(), -st.v(), FS( *sim ), 1, h, q2, v2 );
      CHECK( ( q2 - qb ).lpNorm<Eigen::Infinity>() <= 1e-10 * sc && ( v2 + vb ).lpNorm<Eigen::Infinity>() <= 1e-10 * sc, "not reversible" );
    }
    for( int i = 0; i < n; ++i ) if( s.bodies[i].fixed ) CHECK( st.v().segment<3>( 3 * i ) == vs.segment<3>( 3 * i ), "a kinematic body was accelerated" );
  }
}

SUBCHECK( "C16", "rb2d_forces", "gravity on generated scenes; force against the independent formula and the derivative of the reported potential; non-trivial with gravity", 40000, 400000 )
{
  Scene s;
  genBodies( g, s, genMode( g ), SceneOpts{} );
  genGrav( g, s, 0.9 );
  auto sim = simOf( s );
  RigidBody2DState& st = sim->state();
  c.nontrivial( s.grav.norm() > 0.0 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  const int n = s.n();
  VectorXs F = VectorXs::Constant( 3 * n, 5.0 ), want = VectorXs::Zero( 3 * n );
  double U = 0.0;
  for( int i = 0; i < n; ++i ) { want.segment<2>( 3 * i ) = s.bodies[i].m * s.grav; U -= s.bodies[i].m * s.grav.dot( s.bodies[i].x ); }
  FS( *sim ).computeForce( st.q(), st.v(), 0.0, F );
  const double sc = 1.0 + vmax( want );
  CHECK( ( F - want ).lpNorm<Eigen::Infinity>() <= 1e-11 * sc, "force " << F.transpose() << " expected " << want.transpose() );
  CHECK( near( sim->computePotentialEnergy(), U, 1e-11, sc * ( 1 + vmax( st.q() ) ) * n ), "potential energy " << sim->computePotentialEnergy() << " expected " << U );
  CHECK( near( sim->computeKineticEnergy(), energy( s, st.v() ), 1e-12, energy( s, st.v() ) ), "kinetic energy" );
  CHECK( near( sim->computeTotalEnergy(), U + energy( s, st.v() ), 1e-11, sc * ( 1 + vmax( st.q() ) ) * n + energy( s, st.v() ) ), "total energy" );
  if( s.grav.norm() > 0.0 )
  {
    CHECK( st.forces().size() == 1, "number of forces" );
    VectorXs acc = VectorXs::LinSpaced( 3 * n, -3.0, 3.0 );
    const VectorXs before = acc;
    st.forces()[0]->computeForce( st.q(), st.v(), st.M(), acc );
    CHECK( ( acc - before - want ).lpNorm<Eigen::Infinity>() <= 1e-11 * sc, "accumulated force" );
    const double h = 1e-4;
    for( int i = 0; i < 3 * n; ++i )
    {
      VectorXs q = st.q();
      q( i ) += h;
      const double a = st.forces()[0]->computePotential( q, st.M() );
      q( i ) -= 2 * h;
      const double b = st.forces()[0]->computePotential( q, st.M() );
      CHECK( near( -( a - b ) / ( 2 * h ), F( i ), 1e-6, sc + std::fabs( a ) ), "force component " << i );
    }
  }
}

static void genPortals( Gen& g, RigidBody2DState& st )
{
  for( int i = g.i( 0, 2 ); i > 0; --i )
  {
    const Vector2s n = dir2( g );
    const Vector2s x( g.s( 2 ), g.s( 2 ) );
    const double Ln = g.u( 10, 20 );
    const bool le = g.b( 0.4 );
    const RigidBody2DStaticPlane A( x - Ln * n, n ), B( x + Ln * n, -n );
    if( !le && g.b() ) st.planarPortals().emplace_back( A, B );
    else st.planarPortals().emplace_back( A, B, le ? g.u( 0.1, 2 ) : 0.0, le ? g.u( 5, 20 ) : 0.0 );
    if( g.b() ) st.planarPortals().back().updateMovingPortals( g.u( 0, 30 ) );
  }
}
static void genFull( Gen& g, Scene& s )
{
  SceneOpts o; o.nmax = 5;
  genBodies( g, s, genMode( g ), o );
  for( auto& b : s.bodies ) if( g.b( 0.15 ) ) b.fixed = true;
  genScenePlanes( g, s, 3, true );
  genGrav( g, s, 0.6 );
}

SUBCHECK( "C03", "rb2d_states", "2D rigid body simulations with circles, boxes, flags, moving planes, portals, gravity and cached impulses; saved, loaded, saved again and inspected; non-trivial with at least one body", 60000, 600000 )
{
  Scene s;
  genFull( g, s );
  auto sp = simOf( s );
  RigidBody2DSim& sim = *sp;
  RigidBody2DState& st = sim.state();
  genPortals( g, st );
  c.nontrivial( s.n() > 0 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  if( s.n() >= 2 && g.b() )
  {
    CircleCircleConstraint k( 0, 1, Vector2s( 0, 1 ), Vector2s( 0, 0 ), 1.0, 1.0 );
    CS( sim ).cacheConstraint( k, VectorXs::Constant( g.i( 1, 2 ), g.s( 4.0 ) ) );
    KinematicObjectCircleConstraint k2( 1, 0.6, Vector2s( 1, 0 ), 0, Vector2s( 0, 0 ), Vector2s( 0, 0 ), 0.0 );
    if( g.b() ) CS( sim ).cacheConstraint( k2, VectorXs::Constant( 1, g.s( 4.0 ) ) );
  }
  const std::string b = bytesOf( sim );
  std::istringstream is( b + "tail" );
  RigidBody2DSim re;
  if( g.b() ) { Scene o; genFull( g, o ); re.state() = o.build(); genPortals( g, re.state() ); }
  re.deserialize( is );
  CHECK( size_t( is.tellg() ) == b.size(), "loading consumed " << is.tellg() << " of " << b.size() << " bytes" );
  CHECK( bytesOf( re ) == b, "saving the loaded simulation gives other bytes" );
  const RigidBody2DState& r = re.state();
  CHECK( r.nbodies() == st.nbodies() && r.q() == st.q() && r.v() == st.v() && r.geometryIndices() == st.geometryIndices() && r.geometry().size() == st.geometry().size(), "bodies changed" );
  CHECK( ( MatrixXXsc( r.M() ) - MatrixXXsc( st.M() ) ).isZero( 0 ) && ( MatrixXXsc( r.Minv() ) - MatrixXXsc( st.Minv() ) ).isZero( 0 ), "mass changed" );
  for( int i = 0; i < s.n(); ++i )
  {
    CHECK( r.fixed( i ) == s.bodies[i].fixed && r.m( i ) == s.bodies[i].m && r.I( i ) == s.bodies[i].I, "body " << i );
    CHECK( ( r.bodyGeometry( i )->type() == RigidBody2DGeometryType::BOX ) == s.geo( i ).box, "shape of body " << i );
    if( s.geo( i ).box ) CHECK( static_cast<const BoxGeometry&>( *r.bodyGeometry( i ) ).r() == s.geo( i ).h, "box of body " << i );
    else CHECK( static_cast<const CircleGeometry&>( *r.bodyGeometry( i ) ).r() == s.geo( i ).r, "circle of body " << i );
  }
  CHECK( r.planes().size() == s.planes.size() && r.planarPortals().size() == st.planarPortals().size() && r.forces().size() == st.forces().size(), "counts" );
  for( size_t i = 0; i < s.planes.size(); ++i ) CHECK( r.planes()[i].x() == st.planes()[i].x() && r.planes()[i].n() == st.planes()[i].n() && r.planes()[i].v() == s.planes[i].v && r.planes()[i].omega() == s.planes[i].w, "plane " << i );
  for( size_t i = 0; i < st.planarPortals().size(); ++i )
  {
    const PlanarPortal &a = r.planarPortals()[i], &e = st.planarPortals()[i];
    CHECK( a.planeA().x() == e.planeA().x() && a.planeB().x() == e.planeB().x() && a.planeA().n() == e.planeA().n() && a.bounds() == e.bounds() && a.isLeesEdwards() == e.isLeesEdwards() && a.transformedAx() == e.transformedAx() && a.transformedBx() == e.transformedBx() && a.v() == e.v() && a.delta() == e.delta(), "portal " << i );
  }
  if( s.n() )
  {
    VectorXs F( st.q().size() ), G( st.q().size() );
    FS( sim ).computeForce( st.q(), st.v(), 0.0, F );
    FS( re ).computeForce( st.q(), st.v(), 0.0, G );
    CHECK( F == G, "forces changed" );
  }
  {
    const std::unique_ptr<UnconstrainedMap> m = genMap( g );
    std::ostringstream os;
    RigidBody2DUtilities::serialize( m, os );
    std::istringstream ms( os.str() );
    const std::unique_ptr<UnconstrainedMap> l = RigidBody2DUtilities::deserializeUnconstrainedMap( ms );
    CHECK( l != nullptr && l->name() == m->name() && size_t( ms.tellg() ) == os.str().size(), "integrator " << m->name() );
  }
}

SUBCHECK( "C21", "rb2d_kinematic", "scenes with kinematic circles and boxes and planes stepped 1..5 times with gravity, impacts or friction; kinematic bodies compared with uniform motion, others with the same scene in which kinematic circles are very heavy; non-trivial when a kinematic body is touched", 15000, 200000 )
{
  Scene s;
  SceneOpts o; o.nmin = 2; o.nmax = 5;
  genBodies( g, s, KINEMATIC, o );
  if( g.b( 0.3 ) ) genScenePlanes( g, s, 2, false );
  bool moving = false;
  calm( g, s, moving );
  genGrav( g, s, 0.5 );
  if( !s.anyFixed() ) throw Discard{};
  auto sp = simOf( s );
  const double CoR = g.pick( { 0.0, 1.0, g.u() } ), mu = g.u();
  const Rational<std::intmax_t> dtr( 1, g.pick( { 10, 100, 1000 } ) );
  const double dt = scalar( dtr );
  const bool friction = g.b();
  const std::unique_ptr<UnconstrainedMap> umap = genMap( g );
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << ( friction ? " friction " : " impact " ) << CoR << " " << mu << " dt " << dt << " " << umap->name(); } );
  const std::string planes0 = [&] { std::ostringstream os; for( auto& p : sp->state().planes() ) p.serialize( os ); return os.str(); }();
  const VectorXs qs = sp->state().q(), vs = sp->state().v();
  bool touched = false;
  PythonScripting cb;
  Sobogus so( SobogusSolverType::RigidBody2D, 10 );
  LCPOperatorAPGD lcp( 1e-12, 20000 );
  ImpactMap im( g.b() );
  const bool stab = g.b( 0.3 );
  const auto mkmap = [&]() { return stab ? std::unique_ptr<ImpactFrictionMap>( new StabilizedImpactFrictionMap( 1e-10, 1000, false, false ) ) : std::unique_ptr<ImpactFrictionMap>( new GeometricImpactFrictionMap( 1e-10, 1000, ImpulsesToCache::NONE ) ); };
  auto fm = mkmap();
  const int steps = g.i( 1, 5 );
  for( int it = 1; it <= steps; ++it )
  {
    RigidBody2DState& st = sp->state();
    sync( s, st );
    VectorXs qp( st.q().size() ), vp( st.q().size() );
    umap->flow( st.q(), st.v(), FS( *sp ), unsigned( it ), dt, qp, vp );
    Cons A;
    CS( *sp ).computeActiveSet( st.q(), qp, st.v(), A );
    if( A.size() > 8 ) throw Discard{};
    for( auto& k : A ) if( k->name() == "kinematic_object_circle" ) touched = true;
    // The same scene with heavy bodies instead: same response while gravity is off and the contact sets agree
    std::unique_ptr<RigidBody2DSim> heavy;
    bool kinbox = false;
    for( int i = 0; i < s.n(); ++i ) if( s.bodies[i].fixed && s.geo( i ).box ) kinbox = true;
    if( s.grav.norm() == 0.0 && !kinbox && !A.empty() )
    {
      Scene h = s;
      for( auto& b : h.bodies ) if( b.fixed ) { b.fixed = false; b.m *= 1e9; b.I *= 1e9; }
      heavy = simOf( h );
      Cons B;
      CS( *heavy ).computeActiveSet( st.q(), qp, st.v(), B );
      if( B.size() != A.size() ) heavy.reset();
      else
      {
        MatrixXXsc bases;
        CS( *sp ).computeContactBases( st.q(), st.v(), A, bases );
        SparseMatrixsc N, D;
        contactMatrices( FS( *sp ), A, st.q(), bases, N, D );
        const MatrixXXsc Q( N.transpose() * FS( *sp ).Minv() * N );
        if( !wellConditioned( Q ) || ( friction && A.size() > 1 ) ) heavy.reset();
        // Normals of the two descriptions agree up to the end of the step
        for( size_t k = 0; heavy && k < A.size(); ++k )
        {
          bool same = false;
          VectorXs na, nb;
          A[k]->getWorldSpaceContactNormal( st.q(), na );
          std::pair<int, int> ia, ib;
          A[k]->getBodyIndices( ia );
          for( auto& e : B )
          {
            e->getBodyIndices( ib );
            e->getWorldSpaceContactNormal( st.q(), nb );
            if( ia == ib && ( na - nb ).norm() < 1e-9 ) same = true;
            if( ia.first == ib.second && ia.second == ib.first && ( na + nb ).norm() < 1e-9 ) same = true;
          }
          if( !same ) heavy.reset();
          // The arms of interpenetrating circles differ between the two contact kinds
          if( heavy && friction && ia.second >= 0 && std::fabs( ( st.q().segment<2>( 3 * ia.first ) - st.q().segment<2>( 3 * ia.second ) ).norm() - s.geo( ia.first ).r - s.geo( ia.second ).r ) > 1e-7 ) heavy.reset();
        }
      }
    }
    if( friction ) sp->flow( cb, unsigned( it ), dtr, *umap, CoR, mu, so, *fm );
    else sp->flow( cb, unsigned( it ), dtr, *umap, lcp, CoR, im );
    if( heavy )
    {
      c.label( "heavy" );
      if( friction ) { auto f2 = mkmap(); heavy->flow( cb, unsigned( it ), dtr, *umap, CoR, mu, so, *f2 ); }
      else { ImpactMap i2; heavy->flow( cb, unsigned( it ), dtr, *umap, lcp, CoR, i2 ); }
      for( int i = 0; i < s.n(); ++i ) if( !s.bodies[i].fixed )
        CHECK( ( heavy->state().v().segment<3>( 3 * i ) - sp->state().v().segment<3>( 3 * i ) ).norm() <= 1e-5 * ( 1 + vmax( vs ) ), "body " << i << " leaves with " << sp->state().v().segment<3>( 3 * i ).transpose() << " but against heavy bodies with " << heavy->state().v().segment<3>( 3 * i ).transpose() );
    }
    for( int i = 0; i < s.n(); ++i ) if( s.bodies[i].fixed )
    {
      CHECK( sp->state().v().segment<3>( 3 * i ) == vs.segment<3>( 3 * i ), "kinematic body " << i << " now moves with " << sp->state().v().segment<3>( 3 * i ).transpose() );
      CHECK( ( sp->state().q().segment<3>( 3 * i ) - qs.segment<3>( 3 * i ) - it * dt * vs.segment<3>( 3 * i ) ).norm() <= 1e-12 * ( 1 + vmax( qs ) + vmax( vs ) ), "kinematic body " << i << " strayed" );
    }
    std::ostringstream os;
    for( auto& p : sp->state().planes() ) p.serialize( os );
    CHECK( os.str() == planes0, "a plane changed" );
    if( vmax( sp->state().v() ) > 1e4 ) break;
  }
  c.nontrivial( touched );
}

SUBCHECK( "C22", "rb2d_edits", "sequences of adding and removing bodies and circle geometry, adding obstacles and stepping, compared with a list model and a directly built scene; non-trivial with at least three edits", 15000, 150000 )
{
  Scene s;
  SceneOpts so; so.nmin = 1; so.nmax = 4;
  genBodies( g, s, genMode( g ), so );
  genGrav( g, s, 0.5 );
  auto sp = simOf( s );
  RigidBody2DSim& sim = *sp;
  const int ops = g.i( 1, 12 );
  c.nontrivial( ops >= 3 );
  const Rational<std::intmax_t> dt( 1, 100 );
  PythonScripting cb;
  VerletMap map;
  std::ostringstream log;
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << log.str(); } );
  for( int o = 0; o < ops; ++o )
  {
    RigidBody2DState& st = sim.state();
    const int what = g.w( { 5, 3, 2, 2, 2, 1 } );
    if( what == 0 && !s.geos.empty() )
    {
      Body b;
      b.geo = g.i( 0, int( s.geos.size() ) - 1 );
      b.x = Vector2s( g.s( 5 ), g.s( 5 ) ); b.v = Vector2s( g.s( 5 ), g.s( 5 ) ); b.th = g.s( 3 ); b.w = g.s( 3 ); b.fixed = g.b( 0.3 );
      const double rho = g.u( 0.1, 4 );
      massOfGeo( s.geos[b.geo], rho, b.m, b.I );
      st.addBody( b.x, b.th, b.v, b.w, rho, unsigned( b.geo ), b.fixed );
      s.add( b );
      log << " add";
    }
    else if( what == 1 && s.n() > 0 )
    {
      std::vector<unsigned> idx;
      for( int i = 0; i < s.n(); ++i ) if( g.b( 0.35 ) ) idx.push_back( unsigned( i ) );
      if( idx.empty() ) continue;
      // The order of the indices must not matter
      std::vector<unsigned> order = idx;
      for( int i = int( order.size() ) - 1; i > 0; --i ) std::swap( order[i], order[g.i( 0, i )] );
      VectorXu e( order.size() );
      for( size_t i = 0; i < order.size(); ++i ) e( i ) = order[i];
      st.removeBodies( e );
      for( int i = int( idx.size() ) - 1; i >= 0; --i ) s.bodies.erase( s.bodies.begin() + idx[i] );
      log << " remove " << e.transpose();
    }
    else if( what == 2 ) { Geo e; e.r = g.u( 0.1, 2 ); s.geos.push_back( e ); st.addCircleGeometry( e.r ); log << " circle"; }
    else if( what == 3 )
    {
      // Shapes no body uses
      std::vector<unsigned> idx;
      for( size_t k = 0; k < s.geos.size(); ++k ) { bool used = false; for( auto& b : s.bodies ) if( b.geo == int( k ) ) used = true; if( !used && g.b( 0.7 ) ) idx.push_back( unsigned( k ) ); }
      if( idx.empty() ) continue;
      VectorXu e( idx.size() );
      for( size_t i = 0; i < idx.size(); ++i ) e( i ) = idx[i];
      st.removeGeometry( e );
      for( int i = int( idx.size() ) - 1; i >= 0; --i ) { s.geos.erase( s.geos.begin() + idx[i] ); for( auto& b : s.bodies ) if( b.geo > int( idx[i] ) ) --b.geo; }
      log << " drop shapes " << e.transpose();
    }
    else if( what == 4 && s.n() > 0 )
    {
      RigidBody2DSim direct;
      direct.state() = s.build();
      sim.flow( cb, unsigned( o + 1 ), dt, map );
      direct.flow( cb, unsigned( o + 1 ), dt, map );
      CHECK( closeVec( sim.state().q(), direct.state().q(), 1e-12 ) && closeVec( sim.state().v(), direct.state().v(), 1e-12 ), "edited scene steps differently from a directly built one" );
      sync( s, sim.state() );
    }
    else if( what == 5 )
    {
      Scene::Plane p; p.n = dir2( g ); p.x = Vector2s( g.s( 5 ), g.s( 5 ) ); p.v.setZero(); p.w = 0;
      s.planes.push_back( p );
      st.planes().emplace_back( p.x, p.n );
    }
    const int n = s.n();
    CHECK( int( st.nbodies() ) == n && st.q().size() == 3 * n && st.v().size() == 3 * n && st.geometryIndices().size() == n && st.geometry().size() == s.geos.size(), "sizes: " << st.nbodies() << " bodies, expected " << n );
    CHECK( st.M().rows() == 3 * n && st.M().cols() == 3 * n && st.Minv().rows() == 3 * n && st.Minv().cols() == 3 * n && st.M().nonZeros() == 3 * n && st.Minv().nonZeros() == 3 * n, "mass matrix size" );
    CHECK( FS( sim ).nqdofs() == 3 * n && FS( sim ).nvdofs() == 3 * n && FS( sim ).numBodies() == unsigned( n ), "degrees of freedom" );
    for( int i = 0; i < n; ++i )
    {
      const Body& b = s.bodies[i];
      CHECK( Vector2s( st.q().segment<2>( 3 * i ) ) == b.x && st.q()( 3 * i + 2 ) == b.th && Vector2s( st.v().segment<2>( 3 * i ) ) == b.v && st.v()( 3 * i + 2 ) == b.w, "motion of body " << i );
      CHECK( st.fixed( i ) == b.fixed && FS( sim ).isKinematicallyScripted( i ) == b.fixed, "flag of body " << i );
      CHECK( int( st.geometryIndex( i ) ) == b.geo, "shape index of body " << i << " is " << st.geometryIndex( i ) << " expected " << b.geo );
      CHECK( ( st.bodyGeometry( i )->type() == RigidBody2DGeometryType::BOX ) == s.geo( i ).box, "shape of body " << i );
      if( s.geo( i ).box ) CHECK( static_cast<const BoxGeometry&>( *st.bodyGeometry( i ) ).r() == s.geo( i ).h, "box of body " << i );
      else CHECK( static_cast<const CircleGeometry&>( *st.bodyGeometry( i ) ).r() == s.geo( i ).r, "circle of body " << i );
      const double md[3] = { b.m, b.m, b.I };
      for( int k = 0; k < 3; ++k ) CHECK( near( st.M().coeff( 3 * i + k, 3 * i + k ) / md[k], 1.0, 1e-12 ) && near( st.Minv().coeff( 3 * i + k, 3 * i + k ) * md[k], 1.0, 1e-12 ), "mass of body " << i );
      CHECK( near( st.m( i ), b.m, 1e-12, b.m ) && near( st.I( i ), b.I, 1e-12, b.I ), "reported mass of body " << i );
    }
  }
}

SUBCHECK( "C26", "rb2d_state_file", "full 2D rigid body states written to an output file; every member compared with the state; non-trivial with at least one body", 30000, 300000 )
{
  Scene s;
  genFull( g, s );
  auto sp = simOf( s );
  RigidBody2DSim& sim = *sp;
  RigidBody2DState& st = sim.state();
  genPortals( g, st );
  c.nontrivial( s.n() > 0 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  const std::string fn = scratchFile( "state" );
  { HDF5File f( fn, HDF5AccessType::READ_WRITE ); sim.writeBinaryState( f ); }
  fakeh5::Tree t;
  CHECK( fakeh5::load( fn, t ), "unreadable" );
  unlink( fn.c_str() );
  const auto vec = [&]( const char* k, const VectorXs& want )
  {
    CHECK( t.sets.count( k ), "no " << k );
    const auto v = fakeh5::values( t.sets[k] );
    CHECK( int( v.size() ) == want.size(), k << " has " << v.size() << " values" );
    for( int i = 0; i < want.size(); ++i ) CHECK( v[i] == want( i ), k << "[" << i << "] = " << v[i] << " expected " << want( i ) );
  };
  const int n = s.n();
  vec( "/q", st.q() );
  vec( "/v", st.v() );
  VectorXs m( 3 * n ), fx( n );
  for( int i = 0; i < n; ++i ) { m.segment<3>( 3 * i ) << s.bodies[i].m, s.bodies[i].m, s.bodies[i].I; fx( i ) = s.bodies[i].fixed; }
  vec( "/m", m );
  vec( "/kinematically_scripted", fx );
  std::vector<int> local;
  std::vector<Geo> circles, boxes;
  for( auto& e : s.geos ) { auto& l = e.box ? boxes : circles; local.push_back( int( l.size() ) ); l.push_back( e ); }
  {
    const char* k = "/geometry/geometry_indices";
    CHECK( t.sets.count( k ) && t.sets[k].dims.size() == 2 && int( t.sets[k].dims[0] ) == 2 && int( t.sets[k].dims[1] ) == n, "geometry indices" );
    for( int i = 0; i < n; ++i ) CHECK( h5At( t.sets[k], 0, i ) == ( s.geo( i ).box ? 1 : 0 ) && h5At( t.sets[k], 1, i ) == local[s.bodies[i].geo], "geometry index of body " << i );
  }
  const auto mem = [&]( const char* k, const char* field, size_t count, const std::function<double( size_t, size_t )>& want, size_t width )
  {
    CHECK( t.sets.count( k ), "no " << k );
    CHECK( t.sets[k].dims.size() == 1 && t.sets[k].dims[0] == count, k << " has the wrong number of records" );
    std::vector<double> v;
    for( size_t i = 0; i < count; ++i ) for( double x : fakeh5::member( t.sets[k], i, field ) ) v.push_back( x );
    CHECK( v.size() == count * width, k << "." << field << " has " << v.size() << " values" );
    for( size_t i = 0; i < count; ++i ) for( size_t j = 0; j < width; ++j ) CHECK( v[i * width + j] == want( i, j ), k << "." << field << "[" << i << "][" << j << "] = " << v[i * width + j] << " expected " << want( i, j ) );
  };
  if( !circles.empty() ) mem( "/geometry/circles", "r", circles.size(), [&]( size_t i, size_t ) { return circles[i].r; }, 1 );
  if( !boxes.empty() ) mem( "/geometry/boxes", "r", boxes.size(), [&]( size_t i, size_t j ) { return boxes[i].h( int( j ) ); }, 2 );
  CHECK( bool( t.sets.count( "/geometry/circles" ) ) == !circles.empty() && bool( t.sets.count( "/geometry/boxes" ) ) == !boxes.empty(), "shape lists" );
  const auto& P = st.planes();
  CHECK( bool( t.sets.count( "/static_geometry/static_planes" ) ) == !P.empty(), "plane list" );
  if( !P.empty() )
  {
    mem( "/static_geometry/static_planes", "x", P.size(), [&]( size_t i, size_t j ) { return P[i].x()( int( j ) ); }, 2 );
    mem( "/static_geometry/static_planes", "n", P.size(), [&]( size_t i, size_t j ) { return P[i].n()( int( j ) ); }, 2 );
  }
  const auto& W = st.planarPortals();
  CHECK( bool( t.sets.count( "/static_geometry/planar_portals" ) ) == !W.empty(), "portal list" );
  if( !W.empty() )
  {
    const char* k = "/static_geometry/planar_portals";
    mem( k, "x0", W.size(), [&]( size_t i, size_t j ) { return W[i].planeA().x()( int( j ) ); }, 2 );
    mem( k, "n0", W.size(), [&]( size_t i, size_t j ) { return W[i].planeA().n()( int( j ) ); }, 2 );
    mem( k, "x1", W.size(), [&]( size_t i, size_t j ) { return W[i].planeB().x()( int( j ) ); }, 2 );
    mem( k, "n1", W.size(), [&]( size_t i, size_t j ) { return W[i].planeB().n()( int( j ) ); }, 2 );
    mem( k, "v", W.size(), [&]( size_t i, size_t ) { return W[i].v(); }, 1 );
    mem( k, "width", W.size(), [&]( size_t i, size_t ) { return W[i].bounds(); }, 1 );
    mem( k, "delta", W.size(), [&]( size_t i, size_t ) { return W[i].delta(); }, 1 );
  }
}

SUBCHECK( "C30", "rb2d_frames", "scenes and the same scenes translated, rotated, boosted or reordered, stepped once with frictionless impacts or (single contact) friction; configurations near a detection threshold are discarded; non-trivial when the step has contacts", 20000, 200000 )
{
  Scene s;
  const SceneMode mode = genMode( g );
  genBodies( g, s, mode, SceneOpts{} );
  const int n = s.n();
  const bool boost = g.b( 0.25 );
  if( !boost ) genScenePlanes( g, s, 2, false );
  if( mode != BOXES ) { bool moving = false; calm( g, s, moving ); }
  genGrav( g, s, 0.5 );
  const double th = boost ? 0.0 : g.mix( 0.0, 6.283185307179586, 8 );
  const Eigen::Matrix2d R = rot2( th );
  const Vector2s T( g.s( 5 ), g.s( 5 ) );
  const Vector2s W = boost ? Vector2s( g.s( 3 ), g.s( 3 ) ) : Vector2s( 0, 0 );
  std::vector<int> perm( n );
  for( int i = 0; i < n; ++i ) perm[i] = i;
  if( g.b() ) for( int i = n - 1; i > 0; --i ) std::swap( perm[i], perm[g.i( 0, i )] );
  Scene sb = s;
  for( int i = 0; i < n; ++i )
  {
    Body b = s.bodies[perm[i]];
    b.x = R * b.x + T; b.v = R * b.v + W; b.th += th;
    sb.bodies[i] = b;
  }
  for( auto& p : sb.planes ) { p.x = R * p.x + T; p.n = R * p.n; p.v = R * p.v; }
  sb.grav = R * s.grav;
  auto a = simOf( s ), b = simOf( sb );
  const Rational<std::intmax_t> dtr( 1, g.pick( { 10, 100 } ) );
  const double dt = scalar( dtr );
  const std::unique_ptr<UnconstrainedMap> map = genMap( g );
  const VectorXs q0 = a->state().q(), v0 = a->state().v();
  VectorXs q1( 3 * n ), v1( 3 * n );
  map->flow( q0, v0, FS( *a ), 1, dt, q1, v1 );
  const double band = 1e-6;
  const auto X = []( const VectorXs& q, int i ) -> Vector2s { return q.segment<2>( 3 * i ); };
  for( int i = 0; i < n; ++i )
  {
    for( int j = i + 1; j < n; ++j )
    {
      const Geo &A = s.geo( i ), &B = s.geo( j );
      if( !A.box && !B.box )
      {
        const Vector2s p = X( q0, i ) - X( q0, j ), e = X( q1, i ) - X( q1, j ), d = e - p;
        double t = d.squaredNorm() > 0 ? -p.dot( d ) / d.squaredNorm() : 0.0;
        t = std::min( 1.0, std::max( 0.0, t ) );
        const double rr = A.r + B.r;
        if( std::fabs( ( p + t * d ).norm() - rr ) < band || std::fabs( p.norm() - rr ) < band || std::fabs( e.norm() - rr ) < band ) throw Discard{};
      }
      else if( A.box && B.box )
      {
        // Ties between faces or features make the contact description ambiguous
        if( std::fabs( boxBoxGap( X( q1, i ), q1( 3 * i + 2 ), A.h, X( q1, j ), q1( 3 * j + 2 ), B.h ) ) < band ) throw Discard{};
        if( boxBoxGap( X( q1, i ), q1( 3 * i + 2 ), A.h, X( q1, j ), q1( 3 * j + 2 ), B.h ) < 0 ) throw Discard{};
      }
      else
      {
        const int ci = A.box ? j : i, bi = A.box ? i : j;
        const Vector2s h = s.geo( bi ).h;
        const Vector2s u = ( rot2( q1( 3 * bi + 2 ) ).transpose() * ( X( q1, ci ) - X( q1, bi ) ) ).cwiseAbs();
        if( std::fabs( circleBoxGap( X( q1, ci ), s.geo( ci ).r, X( q1, bi ), q1( 3 * bi + 2 ), h ) ) < band ) throw Discard{};
        if( std::fabs( h.x() * u.y() - h.y() * u.x() ) < 1e-5 || std::fabs( u.x() - h.x() ) < band || std::fabs( u.y() - h.y() ) < band || u.minCoeff() < band ) throw Discard{};
      }
    }
    for( auto& P : s.planes )
    {
      if( !s.geo( i ).box ) { if( std::fabs( P.n.dot( X( q1, i ) - P.x ) - s.geo( i ).r ) < band ) throw Discard{}; }
      else for( int k = 0; k < 4; ++k )
      {
        const Vector2s co( k & 1 ? s.geo( i ).h.x() : -s.geo( i ).h.x(), k & 2 ? s.geo( i ).h.y() : -s.geo( i ).h.y() );
        if( std::fabs( P.n.dot( X( q1, i ) + rot2( q1( 3 * i + 2 ) ) * co - P.x ) ) < band ) throw Discard{};
      }
    }
  }
  Cons A;
  CS( *a ).computeActiveSet( q0, q1, v0, A );
  c.nontrivial( !A.empty() );
  bool boxc = false;
  for( auto& k : A ) if( k->name() == "body_body" || k->name() == "static_plane_body" ) boxc = true;
  // Box contacts are placed where the bodies will be but act on where they are: a convention that knows a frame at rest
  if( boxc && boost ) throw Discard{};
  const double CoR = g.pick( { 0.0, 1.0, g.u() } );
  PythonScripting cb;
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " rot " << th << " shift " << T.transpose() << " boost " << W.transpose() << " CoR " << CoR << " dt " << dt; for( int p : perm ) os << " " << p; } );
  if( A.size() == 1 && ( boxc || g.b() ) )
  {
    c.label( "friction" );
    const double mu = g.u();
    Sobogus sa( SobogusSolverType::RigidBody2D, 10 ), sb2( SobogusSolverType::RigidBody2D, 10 );
    GeometricImpactFrictionMap ma( 1e-10, 1000, ImpulsesToCache::NONE ), mb( 1e-10, 1000, ImpulsesToCache::NONE );
    a->flow( cb, 1, dtr, *map, CoR, mu, sa, ma );
    b->flow( cb, 1, dtr, *map, CoR, mu, sb2, mb );
  }
  else if( A.empty() || ( !boxc && wellConditioned( MatrixXXsc( normalMatrix( FS( *a ), A, q0 ).transpose() * FS( *a ).Minv() * normalMatrix( FS( *a ), A, q0 ) ) ) ) )
  {
    c.label( "impact" );
    LCPOperatorAPGD lcp( 1e-11, 20000 );
    ImpactMap ia, ib;
    a->flow( cb, 1, dtr, *map, lcp, CoR, ia );
    b->flow( cb, 1, dtr, *map, lcp, CoR, ib );
  }
  else throw Discard{};
  const double sc = 1.0 + vmax( v0 ) + W.norm(), tol = 1e-5 * sc;
  for( int i = 0; i < n; ++i )
  {
    const int k = perm[i];
    const VectorXs &va = a->state().v(), &vb = b->state().v(), &qa = a->state().q(), &qb = b->state().q();
    const Vector2s ve = R * X( va, k ) + W, qe = R * X( qa, k ) + T + dt * W;
    CHECK( ( X( vb, i ) - ve ).norm() <= tol && near( vb( 3 * i + 2 ), va( 3 * k + 2 ), 1e-5, sc ), "velocity of body " << k << " is " << vb.segment<3>( 3 * i ).transpose() << " in the transformed scene, expected " << ve.transpose() << " " << va( 3 * k + 2 ) );
    CHECK( ( X( qb, i ) - qe ).norm() <= tol && near( qb( 3 * i + 2 ), qa( 3 * k + 2 ) + th, 1e-5, sc ), "position of body " << k << " is " << qb.segment<3>( 3 * i ).transpose() << " in the transformed scene, expected " << qe.transpose() );
  }
  if( W.norm() == 0.0 ) CHECK( near( a->computeKineticEnergy(), b->computeKineticEnergy(), 1e-4, sc * sc * massScale( s ) ), "energy depends on the frame" );
}

SUBCHECK( "C31", "rb2d_copies", "interleaved steps and edits on a simulation and its copies; every object compared with an independent replay; non-trivial with at least one body", 6000, 60000 )
{
  Scene s;
  SceneOpts o; o.nmax = 5;
  genBodies( g, s, g.b() ? CIRCLES : KINEMATIC, o );
  genScenePlanes( g, s, 2, true );
  genGrav( g, s, 0.6 );
  c.nontrivial( s.n() > 0 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  auto sp = simOf( s );
  RigidBody2DSim& a = *sp;
  const std::string b0 = bytesOf( a );
  PythonScripting cb;
  LCPOperatorAPGD lcp( 1e-8, 5000 );
  const Rational<std::intmax_t> dt( 1, 100 );
  VerletMap map;
  const auto step = [&]( RigidBody2DSim& x, unsigned it ) { ImpactMap im( true ); x.flow( cb, it, dt, map, lcp, 0.5, im ); };
  RigidBody2DSim copy( a );
  CHECK( bytesOf( copy ) == b0, "a copy differs" );
  step( copy, 1 );
  const std::string c1 = bytesOf( copy );
  CHECK( bytesOf( a ) == b0, "stepping a copy changed the original" );
  RigidBody2DSim assigned;
  if( g.b() ) { Scene s2; genFull( g, s2 ); assigned.state() = s2.build(); genPortals( g, assigned.state() ); }
  assigned = a;
  CHECK( bytesOf( assigned ) == b0, "an assigned copy differs" );
  a.state().addCircleGeometry( 0.7 );
  a.state().addBody( Vector2s( 50, 50 ), 0.1, Vector2s( 1, 1 ), 0.0, 1.0, 0, false );
  a.state().planes().emplace_back( Vector2s( -90, 0 ), Vector2s( 1, 0 ) );
  if( g.b() ) { VectorXu k( 1 ); k( 0 ) = 0; a.state().removeBodies( k ); }
  CHECK( bytesOf( assigned ) == b0 && bytesOf( copy ) == c1, "editing the original changed a copy" );
  step( assigned, 1 );
  CHECK( bytesOf( assigned ) == c1, "copies evolve differently" );
  RigidBody2DSim moved( std::move( assigned ) );
  CHECK( bytesOf( moved ) == c1, "moving changed the simulation" );
  RigidBody2DState s1 = moved.state();
  RigidBody2DState s2;
  s2 = s1;
  CHECK( bytesOf( s1 ) == bytesOf( moved.state() ) && bytesOf( s2 ) == bytesOf( s1 ), "state copies differ" );
  s1.q()( 0 ) += 1.0;
  CHECK( bytesOf( s2 ) == bytesOf( moved.state() ) && bytesOf( s1 ) != bytesOf( s2 ), "state copies share storage" );
  s2 = *&s2;
  CHECK( bytesOf( s2 ) == bytesOf( moved.state() ), "self assignment" );
  {
    std::unique_ptr<RigidBody2DSim> tmp( new RigidBody2DSim( moved ) );
    RigidBody2DSim keep( *tmp );
    tmp.reset();
    step( keep, 2 );
    step( moved, 2 );
    CHECK( bytesOf( keep ) == bytesOf( moved ), "runs are not deterministic" );
  }
}

// ---------------------------------------------------------------------------------------------------- reported quantities
SUBCHECK( "C34", "rb2d_reports", "scenes of circles and boxes with planes and gravity, fresh or after steps; energies, momenta, extent and the listed contact points and normals recomputed from the state; non-trivial when something moves", 20000, 300000 )
{
  Scene s;
  genBodies( g, s, genMode( g ), SceneOpts{} );
  genGrav( g, s, 0.7 );
  auto sim = simOf( s );
  const int steps = g.w( { 3, 1, 1 } );
  PythonScripting cb;
  for( int k = 1; k <= steps; ++k ) { VerletMap map; sim->flow( cb, unsigned( k ), Rational<std::intmax_t>( 1, 100 ), map ); }
  RigidBody2DState& st = sim->state();
  const int n = s.n();
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " after " << steps << " steps"; } );
  long double ke = 0, L = 0, px = 0, py = 0, sc = 1, U = 0, lo[2] = { 1e30L, 1e30L }, hi[2] = { -1e30L, -1e30L };
  const VectorXs q = st.q(), v = st.v();
  VectorXs v2 = v;
  for( int i = 0; i < v2.size(); ++i ) v2( i ) = 0.75 - 2.0 * v( i );
  long double L2 = 0, p2x = 0, p2y = 0;
  for( int i = 0; i < n; ++i )
  {
    const Body& b = s.bodies[i];
    const long double m = b.m, I = b.I, x = q( 3 * i ), y = q( 3 * i + 1 ), th = q( 3 * i + 2 ), u = v( 3 * i ), w = v( 3 * i + 1 ), om = v( 3 * i + 2 );
    ke += m * ( u * u + w * w ) / 2 + I * om * om / 2; px += m * u; py += m * w; L += m * ( x * w - y * u ) + I * om;
    p2x += m * v2( 3 * i ); p2y += m * v2( 3 * i + 1 ); L2 += m * ( x * v2( 3 * i + 1 ) - y * v2( 3 * i ) ) + I * v2( 3 * i + 2 );
    U -= m * ( s.grav.x() * x + s.grav.y() * y );
    sc += ( m + I ) * ( 1 + std::fabs( x ) + std::fabs( y ) ) * ( 1 + std::fabs( u ) + std::fabs( w ) + std::fabs( om ) );
    const Geo& e = s.geos[b.geo];
    long double ex = e.r, ey = e.r;
    if( e.box ) { const long double C = std::fabs( std::cos( th ) ), S = std::fabs( std::sin( th ) ); ex = C * e.h.x() + S * e.h.y(); ey = S * e.h.x() + C * e.h.y(); }
    lo[0] = std::min( lo[0], x - ex ); hi[0] = std::max( hi[0], x + ex ); lo[1] = std::min( lo[1], y - ey ); hi[1] = std::max( hi[1], y + ey );
  }
  const double S = double( sc );
  CHECK( near( sim->computeKineticEnergy(), double( ke ), 1e-12, double( ke ) ), "kinetic energy " << sim->computeKineticEnergy() << " expected " << double( ke ) );
  CHECK( near( sim->computePotentialEnergy(), double( U ), 1e-11, S * 10 ), "potential energy " << sim->computePotentialEnergy() << " expected " << double( U ) );
  CHECK( near( sim->computeTotalEnergy(), double( U + ke ), 1e-11, S * 10 + double( ke ) ), "total energy" );
  CHECK( ( sim->computeTotalMomentum() - Vector2s( double( px ), double( py ) ) ).norm() <= 1e-12 * S, "momentum " << sim->computeTotalMomentum().transpose() );
  CHECK( near( sim->computeTotalAngularMomentum(), double( L ), 1e-12, S ), "angular momentum " << sim->computeTotalAngularMomentum() << " expected " << double( L ) );
  VectorXs P, A;
  FS( *sim ).computeMomentum( v2, P );
  FS( *sim ).computeAngularMomentum( v2, A );
  CHECK( P.size() == 2 && ( Vector2s( P ) - Vector2s( double( p2x ), double( p2y ) ) ).norm() <= 1e-11 * S, "momentum of a velocity" );
  CHECK( A.size() == 1 && near( A( 0 ), double( L2 ), 1e-11, S ), "angular momentum of a velocity" );
  const Array4s bb = st.computeBoundingBox();
  CHECK( near( bb( 0 ), double( lo[0] ), 1e-11, S ) && near( bb( 2 ), double( hi[0] ), 1e-11, S ) && near( bb( 1 ), double( lo[1] ), 1e-11, S ) && near( bb( 3 ), double( hi[1] ), 1e-11, S ), "extent " << bb.transpose() );
  // Contact points and normals of the state against itself, in the order of the contacts
  std::vector<Vector2s> pts( 2, Vector2s( 7, 7 ) ), nrm( 1, Vector2s( 7, 7 ) );
  const std::string before = bytesOf( *sim );
  sim->computeContactPoints( pts, nrm );
  Cons self;
  CS( *sim ).computeActiveSet( q, q, v, self );
  CHECK( pts.size() == self.size() && nrm.size() == self.size(), "number of contact points" );
  for( size_t i = 0; i < self.size(); ++i )
  {
    VectorXs p, nn;
    self[i]->getWorldSpaceContactPoint( q, p );
    self[i]->getWorldSpaceContactNormal( q, nn );
    CHECK( pts[i] == Vector2s( p ) && nrm[i] == Vector2s( nn ), "contact " << i );
  }
  CHECK( bytesOf( *sim ) == before, "asking for reports changed the simulation" );
  c.nontrivial( ke > 0 );
}
