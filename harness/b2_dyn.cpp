// Ball simulator dynamics: C03 states, C11 impact operators, C12 impact steps, C13 friction steps, C14 integrators,
// C16 forces, C20 warm starting, C22 scene edits, C26 output, C30 frames, C31 copies
#include "b2_scene.h"
#include "step_common.h"

namespace
{
struct Forces
{
  Vector2s grav = Vector2s::Zero();
  double k = 0.0, p = 2.0;
  void addTo( Ball2DState& st ) const
  {
    if( grav.norm() > 0.0 ) st.forces().emplace_back( new Ball2DGravityForce( grav ) );
    if( k > 0.0 ) st.forces().emplace_back( new PenaltyForce( k, p ) );
  }
  double potential( const Ball2DState& st, const VectorXs& q ) const
  {
    const int n = int( st.nballs() );
    double U = 0.0;
    for( int i = 0; i < n; ++i ) U -= st.M().coeff( 2 * i, 2 * i ) * grav.dot( q.segment<2>( 2 * i ) );
    if( k > 0.0 ) for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j )
    {
      const double pen = st.r()( i ) + st.r()( j ) - ( q.segment<2>( 2 * i ) - q.segment<2>( 2 * j ) ).norm();
      if( pen > 0.0 ) U += 0.5 * k * std::pow( pen, p );
    }
    return U;
  }
  VectorXs force( const Ball2DState& st, const VectorXs& q ) const
  {
    const int n = int( st.nballs() );
    VectorXs F = VectorXs::Zero( 2 * n );
    for( int i = 0; i < n; ++i ) F.segment<2>( 2 * i ) += st.M().coeff( 2 * i, 2 * i ) * grav;
    if( k > 0.0 ) for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j )
    {
      const Vector2s d = q.segment<2>( 2 * j ) - q.segment<2>( 2 * i );
      const double pen = st.r()( i ) + st.r()( j ) - d.norm();
      if( pen <= 0.0 ) continue;
      const Vector2s f = 0.5 * k * p * std::pow( pen, p - 1.0 ) * d.normalized();
      F.segment<2>( 2 * j ) += f;
      F.segment<2>( 2 * i ) -= f;
    }
    return F;
  }
};
Forces genForces( Gen& g, bool penalty )
{
  Forces f;
  if( g.b( 0.7 ) ) f.grav = Vector2s( g.s( 10.0 ), g.s( 10.0 ) );
  if( penalty && g.b( 0.5 ) ) { f.k = g.logu( 1.0, 1000.0 ); f.p = g.pick( { 2.0, 2.5, g.u( 1.5, 3.0 ) } ); }
  return f;
}
double massOf( const Ball2DState& s, int i ) { return s.M().coeff( 2 * i, 2 * i ); }
Vector2s momentum( const Ball2DState& s, const VectorXs& v ) { Vector2s p = Vector2s::Zero(); for( unsigned i = 0; i < s.nballs(); ++i ) p += massOf( s, i ) * v.segment<2>( 2 * i ); return p; }
double angular( const Ball2DState& s, const VectorXs& q, const VectorXs& v ) { double a = 0; for( unsigned i = 0; i < s.nballs(); ++i ) a += massOf( s, i ) * ( q( 2 * i ) * v( 2 * i + 1 ) - q( 2 * i + 1 ) * v( 2 * i ) ); return a; }
double energy( const Ball2DState& s, const VectorXs& v ) { double a = 0; for( unsigned i = 0; i < s.nballs(); ++i ) a += 0.5 * massOf( s, i ) * v.segment<2>( 2 * i ).squaredNorm(); return a; }

// Obstacles that can all be satisfied at once: planes share one velocity
void genObstacles( Gen& g, Ball2DState& st, bool moving, bool& any_moving )
{
  any_moving = false;
  const bool mv = moving && g.b( 0.3 );
  genPlanes( g, st, 2, false );
  if( mv ) { const Vector2s w( g.s( 2.0 ), g.s( 2.0 ) ); for( auto& p : st.staticPlanes() ) { p.v() = w; any_moving = true; } }
  else genDrums( g, st, 1 );
}
std::unique_ptr<ImpactOperator> genImpactOp( Gen& g, bool ball_only, double vtol )
{
  BudgetLCP lcp;
  switch( g.w( { 3, ball_only ? 2 : 0, 2, 2 } ) )
  {
    case 0: return lcp.clone();
    case 1: return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator( vtol ) );
    case 2: return std::unique_ptr<ImpactOperator>( new GROperator( vtol, lcp ) );
    default: { GROperator el( vtol, lcp ); return std::unique_ptr<ImpactOperator>( new GRROperator( el, lcp ) ); }
  }
}
std::unique_ptr<FrictionSolver> genSolver( Gen& g, bool allow_sp, bool& exact )
{
  if( !allow_sp || g.b( 0.6 ) ) { exact = true; return std::unique_ptr<FrictionSolver>( new Sobogus( SobogusSolverType::Balls2D, 10 ) ); }
  exact = true;
  LCPOperatorAPGD lcp( 1e-11, 5000 );
  DiscMDP mdp( 1 );
  return std::unique_ptr<FrictionSolver>( new StaggeredProjections( g.b(), g.b(), lcp, mdp ) );
}
FrictionSetup genSetup( Gen& g, bool stab_ok )
{
  FrictionSetup s;
  s.map = g.pick( { FMap::Geometric, FMap::Stabilized, FMap::SymplecticEuler } );
  s.cache = g.pick( { ImpulsesToCache::NONE, ImpulsesToCache::NORMAL, ImpulsesToCache::NORMAL_AND_FRICTION } );
  if( s.map == FMap::SymplecticEuler && stab_ok && g.b( 0.4 ) ) { s.stabilize = true; s.threshold = g.pick( { 0.0, 0.01, 0.1 } ); }
  return s;
}
}

SUBCHECK( "C11", "ball2d_impact_operators", "contact sets of generated ball scenes (balls, planes with a common velocity, drums), every operator; non-trivial with an approaching contact", 20000, 300000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  BallOpts o;
  genBalls( g, st, o );
  bool moving = false;
  if( g.b( 0.6 ) ) genObstacles( g, st, true, moving );
  Cons cons;
  CS( sim ).computeActiveSet( st.q(), st.q(), st.v(), cons );
  if( cons.empty() || cons.size() > 9 ) throw Discard{};
  c.note( [&]( std::ostream& os ) { describe( os, st ); } );
  bool gs = true, app = false;
  for( auto& k : cons ) { if( k->name() != "ball_ball" ) gs = false; if( k->evalNdotV( st.q(), st.v() ) < 0.0 ) app = true; }
  c.nontrivial( app );
  checkImpactOperator( g, c, FS( sim ), st.q(), st.v(), cons, gs );
}

static void b2ImpactHistory( Gen& g, Ctx& c, int aspects )
{
  std::unique_ptr<Ball2DSim> sp( new Ball2DSim );
  BallOpts o; o.nmax = 6;
  genBalls( g, sp->state(), o );
  bool moving = false;
  const bool obstacles = g.b( 0.4 );
  if( obstacles ) genObstacles( g, sp->state(), aspects & DYN, moving );
  Forces f;
  if( g.b( 0.4 ) ) f = genForces( g, false );
  f.addTo( sp->state() );
  const bool free = sp->state().staticPlanes().empty() && sp->state().staticDrums().empty();
  const double vtol = 1e-6;
  const std::unique_ptr<ImpactOperator> op = genImpactOp( g, free, vtol );
  const bool warm = g.b();
  ImpactMap imap( warm );
  const double CoR = g.pick( { 0.0, 1.0, g.u(), g.u() } );
  const Rational<std::intmax_t> dtr( 1, g.pick( { 10, 100, 1000 } ) );
  const double dt = scalar( dtr );
  const std::unique_ptr<UnconstrainedMap> umap = genMap( g );
  CoefCallback cb;
  const bool percontact = ( op->name() == "lcp_apgd" || op->name() == "gauss_seidel" ) && g.b( 0.3 );
  // (with different coefficients the law can be infeasible; the structure of the step is judged all the same)
  const uint64_t salt = g.bits();
  if( percontact ) cb.cor = [salt]( const Constraint& k ) { const ContactId id = idOf( k ); uint64_t h = salt + uint64_t( id.b0 ) * 7919u + uint64_t( id.b1 + 1 ) * 104729u + uint64_t( id.st + 1 ) * 1299709u; return double( h % 101 ) / 100.0; };
  c.note( [&]( std::ostream& os ) { describe( os, sp->state() ); os << " op " << op->name() << " CoR " << CoR << " dt " << dt << " warm " << warm << " map " << umap->name() << " g " << f.grav.transpose(); } );
  CacheModel model;
  const int steps = g.i( 1, 5 );
  for( int it = 1; it <= steps; ++it )
  {
    Ball2DState& st = sp->state();
    const VectorXs q0 = st.q(), v0 = st.v();
    VectorXs q1, v1, v2;
    bool well = true;
    Ball2DSim twin = *sp;
    const int n = impactStep( c, aspects, FS( *sp ), CS( *sp ), *umap, imap, warm, *op, cb, unsigned( it ), dt, CoR, q0, v0, q1, v1, v2, model, &well );
    if( n > 9 ) throw Discard{};
    c.nontrivial( n > 0 );
    if( aspects & CONSERVE )
    {
      const double vs = 1.0 + vmax( v0 ), ms = 5.0 * double( st.nballs() ), qs = 1.0 + vmax( q0 );
      if( free )
      {
        CHECK( ( momentum( st, v2 ) - momentum( st, v0 ) ).norm() <= 1e-8 * vs * ms, "momentum " << momentum( st, v0 ).transpose() << " became " << momentum( st, v2 ).transpose() );
        CHECK( std::fabs( angular( st, q0, v2 ) - angular( st, q0, v0 ) ) <= 1e-8 * vs * ms * qs, "angular momentum " << angular( st, q0, v0 ) << " became " << angular( st, q0, v2 ) );
      }
      const double K0 = energy( st, v0 ), K2 = energy( st, v2 );
      if( !moving && !percontact && well )
      {
        CHECK( K2 <= K0 + 1e-6 * ( 1 + K0 ), "kinetic energy grew from " << K0 << " to " << K2 );
        if( CoR == 1.0 && op->name() != "gauss_seidel" ) CHECK( std::fabs( K2 - K0 ) <= 1e-5 * ( 1 + K0 ), "elastic impacts changed kinetic energy from " << K0 << " to " << K2 );
        // No contact response is needed for bodies without contacts
      }
      // The reported quantities are those of the state
      Ball2DState tmp = st;
      tmp.v() = v2;
      CHECK( near( tmp.computeKineticEnergy(), K2, 1e-10, K2 ), "reported kinetic energy" );
      CHECK( ( tmp.computeMomentum() - momentum( st, v2 ) ).norm() <= 1e-10 * vs * ms, "reported momentum" );
      CHECK( near( tmp.computeAngularMomentum(), angular( st, q0, v2 ), 1e-10, vs * ms * qs ), "reported angular momentum" );
      VectorXs P, A;
      FS( *sp ).computeMomentum( v2, P );
      FS( *sp ).computeAngularMomentum( v2, A );
      CHECK( ( P - momentum( st, v2 ) ).norm() <= 1e-10 * vs * ms && near( A( 0 ), angular( st, q0, v2 ), 1e-10, vs * ms * qs ), "momentum of a velocity" );
      if( n == 1 && !percontact )
      {
        Cons A1;
        VectorXs qp( q0.size() ), vp( v0.size() );
        umap->flow( q0, v0, FS( *sp ), unsigned( it ), dt, qp, vp );
        CS( *sp ).computeActiveSet( q0, qp, v0, A1 );
        const double u0 = A1[0]->evalNdotV( q0, v0 ), u2 = A1[0]->evalNdotV( q0, v2 );
        if( u0 < -10 * vtol ) CHECK( near( u2, -CoR * u0, 1e-6, u0 ), "an isolated contact arriving with " << u0 << " leaves with " << u2 << " at restitution " << CoR );
        else if( u0 > 1e-9 ) CHECK( near( u2, u0, 1e-6, u0 ), "a separating contact was changed from " << u0 << " to " << u2 );
      }
    }
    if( ( aspects & DYN ) && !percontact )
    {
      // The simulator's own step is this step
      PythonScripting ps;
      ImpactMap imap2( warm );
      twin.flow( ps, unsigned( it ), dtr, *umap, *op, CoR, imap2 );
      CHECK( closeVec( twin.state().q(), q1, 1e-13 ) && closeVec( twin.state().v(), v1, 1e-13 ), "the simulator's step differs from its impact map" );
    }
    st.q() = q1;
    st.v() = v1;
    if( ( aspects & WARM ) && g.b( 0.3 ) )
    {
      // The cache survives saving and loading
      const std::string b = bytesOf( *sp );
      std::istringstream is( b );
      sp.reset( new Ball2DSim );
      sp->deserialize( is );
      CHECK( bytesOf( *sp ) == b && size_t( is.tellg() ) == b.size(), "saved simulation changed on loading" );
    }
  }
}

SUBCHECK( "C12", "ball2d_impact_steps", "1..5 impact steps of generated ball scenes with every operator, optional gravity, obstacles and per-contact restitution; non-trivial when a step has contacts", 12000, 150000 ) { b2ImpactHistory( g, c, DYN | COEF | CONSERVE ); }
SUBCHECK( "C20", "ball2d_impact_warm_start", "impact step histories with saving and loading in between; the cache is compared with a map keyed by contact identity; non-trivial when a step has contacts", 8000, 100000 ) { b2ImpactHistory( g, c, WARM ); }
SUBCHECK( "C26", "ball2d_impact_forces", "impact steps with force export; file members compared with the recorded solve; non-trivial when a step has contacts", 3000, 40000 ) { b2ImpactHistory( g, c, FILES ); }

static void b2FrictionHistory( Gen& g, Ctx& c, int aspects )
{
  std::unique_ptr<Ball2DSim> sp( new Ball2DSim );
  BallOpts o; o.nmax = 5;
  genBalls( g, sp->state(), o );
  bool moving = false;
  if( g.b( 0.5 ) ) genObstacles( g, sp->state(), true, moving );
  Forces f;
  if( g.b( 0.6 ) ) f = genForces( g, false );
  f.addTo( sp->state() );
  const bool free = sp->state().staticPlanes().empty() && sp->state().staticDrums().empty();
  FrictionSetup su = genSetup( g, sp->state().staticDrums().empty() );
  bool exact = true;
  const std::unique_ptr<FrictionSolver> solver = genSolver( g, su.map != FMap::SymplecticEuler, exact );
  if( solver->name() == "staggered_projections" ) su.iters = 60; // each iteration is two inner solves
  const double CoR = su.map == FMap::SymplecticEuler ? 0.0 : g.pick( { 0.0, 0.0, 1.0, g.u() } );
  const double mu = g.pick( { 0.0, g.u(), g.u( 0.0, 0.5 ), g.u( 0.0, 2.0 ) } );
  const Rational<std::intmax_t> dtr( 1, g.pick( { 10, 100, 1000 } ) );
  const double dt = scalar( dtr );
  const std::unique_ptr<UnconstrainedMap> umap = genMap( g );
  CoefCallback cb;
  const bool percontact = g.b( 0.3 );
  const uint64_t salt = g.bits();
  const auto hash = [salt]( const Constraint& k, uint64_t m ) { const ContactId id = idOf( k ); uint64_t h = salt + m + uint64_t( id.b0 ) * 7919u + uint64_t( id.b1 + 1 ) * 104729u + uint64_t( id.st + 1 ) * 1299709u; return double( h % 101 ) / 100.0; };
  if( percontact ) { cb.mu = [hash]( const Constraint& k ) { return hash( k, 5 ); }; if( su.map != FMap::SymplecticEuler ) cb.cor = [hash]( const Constraint& k ) { return hash( k, 77 ); }; }
  c.note( [&]( std::ostream& os ) { describe( os, sp->state() ); os << " map " << int( su.map ) << " cache " << int( su.cache ) << " stab " << su.stabilize << " " << su.threshold << " solver " << solver->name() << " CoR " << CoR << " mu " << mu << " dt " << dt << " percontact " << percontact << " umap " << umap->name() << " g " << f.grav.transpose(); } );
  c.label( solver->name() );
  std::unique_ptr<ImpactFrictionMap> fmap = su.make();
  JudgedSolver js( *solver, c, exact, 1e-5 );
  CacheModel model;
  const int steps = g.i( 1, 4 );
  for( int it = 1; it <= steps; ++it )
  {
    Ball2DState& st = sp->state();
    const VectorXs q0 = st.q(), v0 = st.v();
    VectorXs q1, v1;
    Ball2DSim twin = *sp;
    const int n = frictionStep( c, aspects, FS( *sp ), CS( *sp ), *umap, *fmap, su, js, cb, unsigned( it ), dt, CoR, mu, q0, v0, q1, v1, model );
    if( n > 8 ) throw Discard{};
    c.nontrivial( n > 0 );
    c.label( !n ? "no contact" : js.converged ? "converged" : "not converged" );
    if( ( aspects & CONSERVE ) && n > 0 )
    {
      const double vs = 1.0 + vmax( js.v0 ), ms = 5.0 * double( st.nballs() ), qs = 1.0 + vmax( q0 );
      if( free ) CHECK( ( momentum( st, js.v2 ) - momentum( st, js.v0 ) ).norm() <= 1e-8 * vs * ms, "momentum " << momentum( st, js.v0 ).transpose() << " became " << momentum( st, js.v2 ).transpose() );
      const double K0 = energy( st, js.v0 ), K2 = energy( st, js.v2 );
      if( js.nrel_kin == 0.0 && vmax( js.CoR ) == 0.0 && js.nrel_extra.size() == 0 && js.converged ) CHECK( K2 <= K0 + 1e-5 * ( 1 + K0 ), "kinetic energy grew from " << K0 << " to " << K2 );
      (void) qs;
    }
    if( ( aspects & DYN ) && !percontact )
    {
      PythonScripting ps;
      std::unique_ptr<ImpactFrictionMap> fm2;
      {
        // A map with the same memory
        std::ostringstream os;
        fmap->serialize( os );
      }
      if( it == 1 )
      {
        fm2 = su.make();
        twin.flow( ps, unsigned( it ), dtr, *umap, CoR, mu, *solver, *fm2 );
        CHECK( closeVec( twin.state().q(), q1, 1e-12 ) && closeVec( twin.state().v(), v1, 1e-12 ), "the simulator's step differs from its impact-friction map" );
      }
    }
    st.q() = q1;
    st.v() = v1;
    if( ( aspects & WARM ) && g.b( 0.3 ) )
    {
      const std::string b = bytesOf( *sp );
      std::istringstream is( b );
      sp.reset( new Ball2DSim );
      sp->deserialize( is );
      CHECK( bytesOf( *sp ) == b, "saved simulation changed on loading" );
    }
    if( vmax( v1 ) > 1e4 ) break;
  }
  if( aspects & WARM )
  {
    std::ostringstream used, fresh;
    fmap->resetCachedData();
    fmap->serialize( used );
    su.make()->serialize( fresh );
    CHECK( used.str() == fresh.str(), "a step map whose cached data was reset differs from a new one" );
  }
}
SUBCHECK( "C13", "ball2d_friction_steps", "1..4 friction steps of generated ball scenes over all maps and both solver families, default and per-contact coefficients; non-trivial when a step has contacts", 12000, 150000 ) { b2FrictionHistory( g, c, DYN | COEF | CONSERVE ); }
SUBCHECK( "C20", "ball2d_friction_warm_start", "friction step histories under every caching mode with saving and loading in between; non-trivial when a step has contacts", 8000, 100000 ) { b2FrictionHistory( g, c, WARM ); }
SUBCHECK( "C26", "ball2d_friction_forces", "friction steps with force export; file members compared with the recorded solve; non-trivial when a step has contacts", 3000, 40000 ) { b2FrictionHistory( g, c, FILES ); }

SUBCHECK( "C20", "ball2d_cache_model", "random sequences of caching, querying, clearing, saving and loading on contacts of every cached kind; compared with a map keyed by kind and bodies; non-trivial when a query hits", 200000, 2000000 )
{
  std::unique_ptr<ConstraintCache> cache( new ConstraintCache );
  const int nb = g.i( 2, 5 ), ns = g.i( 1, 3 );
  Ball2DState st;
  for( int i = 0; i < nb; ++i ) st.pushBallBack( Vector2s( i, 0 ), Vector2s( 0, 0 ), 0.6, 1.0, false );
  std::vector<StaticPlane> planes( ns, StaticPlane( Vector2s( 0, 0 ), Vector2s( 0, 1 ) ) );
  const auto mk = [&]() -> std::unique_ptr<Constraint>
  {
    const int k = g.i( 0, 2 );
    if( k == 0 ) { int a = g.i( 0, nb - 2 ), b = g.i( a + 1, nb - 1 ); return std::unique_ptr<Constraint>( new BallBallConstraint( unsigned( a ), unsigned( b ), st.q(), 0.6, 0.6, false ) ); }
    const int b = g.i( 0, nb - 1 ), s = g.i( 0, ns - 1 );
    if( k == 1 ) return std::unique_ptr<Constraint>( new StaticPlaneConstraint( unsigned( b ), 0.6, planes[0], unsigned( s ) ) );
    return std::unique_ptr<Constraint>( new StaticDrumConstraint( unsigned( b ), st.q(), 0.6, Vector2s( 0.1 + nb, 1.0 ), unsigned( s ) ) );
  };
  CacheModel model;
  const int ops = g.i( 1, 25 ), sz = g.i( 1, 2 );
  bool hit = false;
  for( int o = 0; o < ops; ++o )
  {
    const int what = g.w( { 5, 6, 1, 1 } );
    if( what == 0 )
    {
      auto k = mk();
      const ContactId id = idOf( *k );
      if( model.count( id ) ) continue;
      VectorXs r( sz );
      for( int i = 0; i < sz; ++i ) r( i ) = g.s( 5.0 );
      cache->cacheConstraint( *k, r );
      model[id] = r;
    }
    else if( what == 1 )
    {
      auto k = mk();
      VectorXs r = VectorXs::Constant( sz, 9.0 );
      cache->getCachedConstraint( *k, r );
      auto m = model.find( idOf( *k ) );
      if( m != model.end() ) hit = true;
      CHECK( r == ( m != model.end() ? m->second : VectorXs( VectorXs::Zero( sz ) ) ), "query for " << idOf( *k ) << " returned " << r.transpose() );
    }
    else if( what == 2 ) { cache->clear(); model.clear(); }
    else
    {
      std::ostringstream os;
      cache->serialize( os );
      std::istringstream is( os.str() );
      if( g.b() ) cache.reset( new ConstraintCache );
      cache->deserialize( is );
      CHECK( size_t( is.tellg() ) == os.str().size(), "cache did not consume its bytes" );
    }
    CHECK( cache->empty() == model.empty(), "emptiness" );
  }
  c.nontrivial( hit );
}

SUBCHECK( "C14", "ball2d_integrators", "1..10 steps of both integrators under gravity and penalty forces; compared with independently computed reference updates, reversed for Verlet; non-trivial with at least one force", 20000, 300000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  BallOpts o; o.nmax = 5;
  genBalls( g, st, o );
  const Forces f = genForces( g, true );
  f.addTo( st );
  c.nontrivial( f.grav.norm() > 0.0 || f.k > 0.0 );
  const Rational<std::intmax_t> dtr( g.i( 1, 5 ), g.pick( { 100, 250, 1000 } ) );
  const double h = scalar( dtr );
  const bool verlet = g.b();
  std::unique_ptr<UnconstrainedMap> map;
  if( verlet ) map.reset( new VerletMap ); else map.reset( new SymplecticEulerMap );
  CHECK( map->name() == ( verlet ? "verlet" : "symplectic_euler" ), "integrator name" );
  c.note( [&]( std::ostream& os ) { describe( os, st ); os << " g " << f.grav.transpose() << " k " << f.k << " p " << f.p << " h " << h << " verlet " << verlet; } );
  const int n = int( st.nballs() ), steps = g.i( 1, 10 );
  VectorXs q = st.q(), v = st.v(), im( 2 * n );
  for( int i = 0; i < n; ++i ) im.segment<2>( 2 * i ).setConstant( 1.0 / massOf( st, i ) );
  const VectorXs qs = q, vs = v;
  PythonScripting cb;
  for( int s = 1; s <= steps; ++s )
  {
    const VectorXs qb = st.q(), vb = st.v();
    q = qb; v = vb;
    if( verlet )
    {
      v += 0.5 * h * ( im.array() * f.force( st, q ).array() ).matrix();
      q += h * v;
      v += 0.5 * h * ( im.array() * f.force( st, q ).array() ).matrix();
    }
    else
    {
      v += h * ( im.array() * f.force( st, q ).array() ).matrix();
      q += h * v;
    }
    sim.flow( cb, unsigned( s ), dtr, *map );
    const double sc = 1.0 + vmax( q ) + vmax( v );
    if( !( sc < 1e6 ) ) return;
    CHECK( ( st.q() - q ).lpNorm<Eigen::Infinity>() <= 1e-10 * sc, "positions " << st.q().transpose() << " expected " << q.transpose() );
    CHECK( ( st.v() - v ).lpNorm<Eigen::Infinity>() <= 1e-9 * sc, "velocities " << st.v().transpose() << " expected " << v.transpose() );
    if( f.k == 0.0 && verlet )
    {
      // Exact for constant acceleration
      const double t = s * h;
      for( int i = 0; i < n; ++i ) CHECK( ( st.q().segment<2>( 2 * i ) - ( qs.segment<2>( 2 * i ) + t * vs.segment<2>( 2 * i ) + 0.5 * t * t * f.grav ) ).norm() <= 1e-9 * sc, "ballistic flight of ball " << i );
    }
    if( verlet && f.k < 100.0 )
    {
      // Running the step backwards returns to the start
      VectorXs q2( 2 * n ), v2( 2 * n );
      map->flow( st.q(), -st.v(), FS( sim ), 1, h, q2, v2 );
      CHECK( ( q2 - qb ).lpNorm<Eigen::Infinity>() <= 1e-7 * sc && ( v2 + vb ).lpNorm<Eigen::Infinity>() <= 1e-7 * sc, "not reversible" );
    }
    if( f.grav.norm() == 0.0 )
    {
      CHECK( ( momentum( st, st.v() ) - momentum( st, vb ) ).norm() <= 1e-8 * sc * 25, "internal forces changed momentum" );
      CHECK( near( angular( st, st.q(), st.v() ), angular( st, qb, vb ), 1e-7, sc * sc * 25 ), "internal forces changed angular momentum" );
    }
  }
}

SUBCHECK( "C16", "ball2d_forces", "gravity and penalty forces at generated configurations; force against the independent formula and the derivative of the reported potential; non-trivial with a force acting", 40000, 400000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  BallOpts o; o.overlap = 0.4;
  genBalls( g, st, o );
  const Forces f = genForces( g, true );
  f.addTo( st );
  const int n = int( st.nballs() );
  const VectorXs q = st.q();
  c.note( [&]( std::ostream& os ) { describe( os, st ); os << " g " << f.grav.transpose() << " k " << f.k << " p " << f.p; } );
  for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j ) if( std::fabs( ( q.segment<2>( 2 * i ) - q.segment<2>( 2 * j ) ).norm() - st.r()( i ) - st.r()( j ) ) < 1e-3 ) throw Discard{};
  VectorXs F = VectorXs::Constant( 2 * n, 5.0 );
  FS( sim ).computeForce( q, st.v(), 0.0, F );
  const VectorXs want = f.force( st, q );
  const double sc = 1.0 + vmax( want );
  CHECK( ( F - want ).lpNorm<Eigen::Infinity>() <= 1e-10 * sc, "force " << F.transpose() << " expected " << want.transpose() );
  c.nontrivial( vmax( want ) > 0.0 );
  CHECK( near( st.computePotentialEnergy(), f.potential( st, q ), 1e-10, f.potential( st, q ) ), "potential energy " << st.computePotentialEnergy() << " expected " << f.potential( st, q ) );
  CHECK( near( st.computeTotalEnergy(), st.computePotentialEnergy() + energy( st, st.v() ), 1e-10, std::fabs( st.computePotentialEnergy() ) + energy( st, st.v() ) ), "total energy" );
  // Accumulates
  VectorXs acc = VectorXs::LinSpaced( 2 * n, -3.0, 3.0 );
  const VectorXs before = acc;
  st.accumulateForce( q, st.v(), acc );
  CHECK( ( acc - before - want ).lpNorm<Eigen::Infinity>() <= 1e-10 * sc, "accumulated force" );
  const double h = 1e-5;
  for( int i = 0; i < 2 * n; ++i )
  {
    VectorXs keep = st.q();
    st.q()( i ) = keep( i ) + h;
    const double a = st.computePotentialEnergy();
    st.q()( i ) = keep( i ) - h;
    const double b = st.computePotentialEnergy();
    st.q() = keep;
    CHECK( near( -( a - b ) / ( 2 * h ), F( i ), 1e-4, sc + std::fabs( a ) + f.k ), "force component " << i << " is " << F( i ) << " but the potential falls by " << -( a - b ) / ( 2 * h ) );
  }
  // Internal forces
  VectorXs Fi = F;
  for( int i = 0; i < n; ++i ) Fi.segment<2>( 2 * i ) -= massOf( st, i ) * f.grav;
  Vector2s net = Vector2s::Zero();
  double tq = 0.0;
  for( int i = 0; i < n; ++i ) { net += Fi.segment<2>( 2 * i ); tq += q( 2 * i ) * Fi( 2 * i + 1 ) - q( 2 * i + 1 ) * Fi( 2 * i ); }
  CHECK( net.norm() <= 1e-9 * sc * n && std::fabs( tq ) <= 1e-8 * sc * n * ( 1 + vmax( q ) ), "internal forces have a resultant" );
  // Bounding box of the scene
  const Vector4s bb = st.computeBoundingBox();
  Vector4s e( 1e300, -1e300, 1e300, -1e300 );
  for( int i = 0; i < n; ++i ) { e( 0 ) = std::min( e( 0 ), q( 2 * i ) - st.r()( i ) ); e( 1 ) = std::max( e( 1 ), q( 2 * i ) + st.r()( i ) ); e( 2 ) = std::min( e( 2 ), q( 2 * i + 1 ) - st.r()( i ) ); e( 3 ) = std::max( e( 3 ), q( 2 * i + 1 ) + st.r()( i ) ); }
  CHECK( ( bb - e ).lpNorm<Eigen::Infinity>() <= 1e-12 * ( 1 + vmax( q ) ), "bounding box" );
}

static void genFullState( Gen& g, Ball2DState& st, bool portals )
{
  BallOpts o; o.nmin = 0; o.nmax = 5;
  genBalls( g, st, o );
  for( unsigned i = 0; i < st.nballs(); ++i ) if( g.b( 0.2 ) ) st.fixed()[i] = true;
  genPlanes( g, st, 3, true );
  if( st.nballs() ) genDrums( g, st, 2 ); else if( g.b() ) st.staticDrums().emplace_back( Vector2s( g.s( 3 ), g.s( 3 ) ), g.u( 1, 5 ) );
  genForces( g, true ).addTo( st );
  if( portals ) for( int i = g.i( 0, 2 ); i > 0; --i )
  {
    const Vector2s n = dir2( g );
    const Vector2s x( g.s( 2 ), g.s( 2 ) );
    const double L = g.u( 10, 20 );
    const bool le = g.b( 0.4 );
    st.planarPortals().emplace_back( StaticPlane( x - L * n, n ), StaticPlane( x + L * n, -n ), le ? g.u( 0.1, 2 ) : 0.0, le ? g.u( 5, 20 ) : 0.0 );
    if( g.b() ) st.planarPortals().back().updateMovingPortals( g.u( 0, 30 ) );
  }
}

SUBCHECK( "C03", "ball2d_states", "ball simulations with balls, flags, planes, drums, portals, forces and cached impulses; saved, loaded, saved again, inspected and stepped; non-trivial with at least one ball", 100000, 1000000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  genFullState( g, st, true );
  c.nontrivial( st.nballs() > 0 );
  c.note( [&]( std::ostream& os ) { describe( os, st ); } );
  if( st.nballs() >= 2 && g.b() ) { BallBallConstraint k( 0, 1, st.q(), 1.0, 1.0, false ); CS( sim ).cacheConstraint( k, VectorXs::Constant( g.i( 1, 2 ), g.s( 4.0 ) ) ); }
  const std::string b = bytesOf( sim );
  std::istringstream is( b + "tail" );
  Ball2DSim re;
  if( g.b() ) genFullState( g, re.state(), true ); // loading replaces whatever was there
  re.deserialize( is );
  CHECK( size_t( is.tellg() ) == b.size(), "loading consumed " << is.tellg() << " of " << b.size() << " bytes" );
  CHECK( bytesOf( re ) == b, "saving the loaded simulation gives other bytes" );
  const Ball2DState& r = re.state();
  CHECK( r.nballs() == st.nballs() && r.q() == st.q() && r.v() == st.v() && r.r() == st.r() && const_cast<Ball2DState&>( r ).fixed() == st.fixed(), "balls changed" );
  CHECK( ( MatrixXXsc( r.M() ) - MatrixXXsc( st.M() ) ).isZero( 0 ) && ( MatrixXXsc( r.Minv() ) - MatrixXXsc( st.Minv() ) ).isZero( 0 ), "mass changed" );
  CHECK( r.staticPlanes().size() == st.staticPlanes().size() && r.staticDrums().size() == st.staticDrums().size() && r.planarPortals().size() == st.planarPortals().size(), "counts" );
  for( size_t i = 0; i < st.staticPlanes().size(); ++i ) CHECK( r.staticPlanes()[i].x() == st.staticPlanes()[i].x() && r.staticPlanes()[i].n() == st.staticPlanes()[i].n() && r.staticPlanes()[i].v() == st.staticPlanes()[i].v(), "plane " << i );
  for( size_t i = 0; i < st.staticDrums().size(); ++i ) CHECK( r.staticDrums()[i].x() == st.staticDrums()[i].x() && r.staticDrums()[i].r() == st.staticDrums()[i].r(), "drum " << i );
  for( size_t i = 0; i < st.planarPortals().size(); ++i )
  {
    const PlanarPortal &a = r.planarPortals()[i], &e = st.planarPortals()[i];
    CHECK( a.planeA().x() == e.planeA().x() && a.planeB().x() == e.planeB().x() && a.bounds() == e.bounds() && a.isLeesEdwards() == e.isLeesEdwards() && a.transformedAx() == e.transformedAx() && a.transformedBx() == e.transformedBx(), "portal " << i );
  }
  // Same forces
  if( st.nballs() )
  {
    VectorXs F( st.q().size() ), G( st.q().size() );
    FS( sim ).computeForce( st.q(), st.v(), 0.0, F );
    FS( re ).computeForce( st.q(), st.v(), 0.0, G );
    CHECK( F == G, "forces changed" );
  }
  // Integrators
  {
    const std::unique_ptr<UnconstrainedMap> m = genMap( g );
    std::ostringstream os;
    Ball2DUtilities::serialize( m, os );
    std::istringstream ms( os.str() );
    const std::unique_ptr<UnconstrainedMap> l = Ball2DUtilities::deserializeUnconstrainedMap( ms );
    CHECK( l != nullptr && l->name() == m->name() && size_t( ms.tellg() ) == os.str().size(), "integrator " << m->name() );
  }
}

SUBCHECK( "C22", "ball2d_edits", "sequences of adding balls, changing masses and obstacles and stepping, compared with a list model and a directly built scene; non-trivial with at least three edits", 15000, 150000 )
{
  struct B { Vector2s q, v; double r, m; bool fixed; };
  std::vector<B> model;
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  Forces f = genForces( g, false );
  f.addTo( st );
  const int ops = g.i( 1, 15 );
  c.nontrivial( ops >= 3 );
  const Rational<std::intmax_t> dt( 1, 100 );
  PythonScripting cb;
  VerletMap map;
  for( int o = 0; o < ops; ++o )
  {
    const int what = g.w( { 5, 1, 2 } );
    if( what == 0 )
    {
      B b{ Vector2s( g.s( 5 ), g.s( 5 ) ), Vector2s( g.s( 5 ), g.s( 5 ) ), g.u( 0.1, 2 ), g.u( 0.1, 4 ), g.b( 0.3 ) };
      st.pushBallBack( b.q, b.v, b.r, b.m, b.fixed );
      model.push_back( b );
    }
    else if( what == 1 && !model.empty() )
    {
      VectorXs m( 2 * model.size() );
      for( size_t i = 0; i < model.size(); ++i ) { model[i].m = g.u( 0.1, 4 ); m( 2 * i ) = m( 2 * i + 1 ) = model[i].m; }
      st.setMass( m );
    }
    else if( what == 2 && !model.empty() )
    {
      // A scene built directly steps the same way
      Ball2DSim direct;
      for( auto& b : model ) direct.state().pushBallBack( b.q, b.v, b.r, b.m, b.fixed );
      f.addTo( direct.state() );
      sim.flow( cb, unsigned( o + 1 ), dt, map );
      direct.flow( cb, unsigned( o + 1 ), dt, map );
      CHECK( sim.state().q() == direct.state().q() && sim.state().v() == direct.state().v(), "edited scene steps differently from a directly built one" );
      CHECK( bytesOf( sim ) == bytesOf( direct ), "edited scene saves differently from a directly built one" );
      for( size_t i = 0; i < model.size(); ++i ) { model[i].q = st.q().segment<2>( 2 * i ); model[i].v = st.v().segment<2>( 2 * i ); }
    }
    const int n = int( model.size() );
    CHECK( int( st.nballs() ) == n && st.q().size() == 2 * n && st.v().size() == 2 * n && st.r().size() == n && int( st.fixed().size() ) == n, "sizes" );
    CHECK( st.M().rows() == 2 * n && st.M().cols() == 2 * n && st.Minv().rows() == 2 * n && st.M().nonZeros() == 2 * n && st.Minv().nonZeros() == 2 * n, "mass matrix size" );
    CHECK( FS( sim ).nqdofs() == 2 * n && FS( sim ).nvdofs() == 2 * n && FS( sim ).numBodies() == unsigned( n ), "degrees of freedom" );
    for( int i = 0; i < n; ++i )
    {
      CHECK( st.q().segment<2>( 2 * i ) == model[i].q && st.v().segment<2>( 2 * i ) == model[i].v && st.r()( i ) == model[i].r && bool( st.fixed()[i] ) == model[i].fixed, "ball " << i );
      for( int k = 0; k < 2; ++k ) CHECK( st.M().coeff( 2 * i + k, 2 * i + k ) == model[i].m && near( st.Minv().coeff( 2 * i + k, 2 * i + k ) * model[i].m, 1.0, 1e-14 ), "mass of ball " << i );
    }
  }
}

SUBCHECK( "C26", "ball2d_state_file", "full ball states written to an output file; every member compared with the state; non-trivial with at least one ball", 30000, 300000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  genFullState( g, st, true );
  c.nontrivial( st.nballs() > 0 );
  const std::string fn = scratchFile( "state" );
  { HDF5File f( fn, HDF5AccessType::READ_WRITE ); sim.writeBinaryState( f ); }
  fakeh5::Tree t;
  CHECK( fakeh5::load( fn, t ), "unreadable" );
  unlink( fn.c_str() );
  const auto vec = [&]( const char* k, const VectorXs& want )
  {
    if( want.size() == 0 ) return;
    CHECK( t.sets.count( k ), "no " << k );
    const auto v = fakeh5::values( t.sets[k] );
    CHECK( int( v.size() ) == want.size(), k << " has " << v.size() << " values" );
    for( int i = 0; i < want.size(); ++i ) CHECK( v[i] == want( i ), k << "[" << i << "] = " << v[i] << " expected " << want( i ) );
  };
  vec( "/q", st.q() );
  vec( "/v", st.v() );
  vec( "/r", st.r() );
  VectorXs m( st.q().size() );
  for( int i = 0; i < m.size(); ++i ) m( i ) = st.M().coeff( i, i );
  vec( "/m", m );
  const int np = int( st.staticPlanes().size() );
  if( np ) for( const char* k : { "/static_plane_centers", "/static_plane_normals" } )
  {
    CHECK( t.sets.count( k ) && t.sets[k].dims.size() == 2 && int( t.sets[k].dims[0] ) == 2 && int( t.sets[k].dims[1] ) == np, "shape of " << k );
    for( int i = 0; i < np; ++i ) for( int r = 0; r < 2; ++r ) CHECK( h5At( t.sets[k], r, i ) == ( std::string( k ) == "/static_plane_centers" ? st.staticPlanes()[i].x()( r ) : st.staticPlanes()[i].n()( r ) ), k );
  }
}

SUBCHECK( "C30", "ball2d_frames", "scenes and the same scenes translated, rotated, boosted or reordered, stepped once with frictionless impacts or (single contact) friction; configurations near a detection threshold are discarded; non-trivial when the step has contacts", 20000, 200000 )
{
  Ball2DSim a;
  BallOpts o;
  genBalls( g, a.state(), o );
  const int n = int( a.state().nballs() );
  const bool boost = g.b( 0.25 );
  if( !boost ) { genPlanes( g, a.state(), 2, false ); if( g.b( 0.3 ) ) genDrums( g, a.state(), 1 ); }
  const Forces f = genForces( g, false );
  f.addTo( a.state() );
  const double th = boost ? 0.0 : g.mix( 0.0, 6.283185307179586, 8 );
  Eigen::Matrix2d R;
  R << std::cos( th ), -std::sin( th ), std::sin( th ), std::cos( th );
  const Vector2s T( g.s( 5 ), g.s( 5 ) );
  Vector2s W = boost ? Vector2s( g.s( 3 ), g.s( 3 ) ) : Vector2s( 0, 0 );
  std::vector<int> perm( n );
  for( int i = 0; i < n; ++i ) perm[i] = i;
  if( g.b() ) for( int i = n - 1; i > 0; --i ) std::swap( perm[i], perm[g.i( 0, i )] );
  Ball2DSim b;
  for( int i = 0; i < n; ++i )
  {
    const int s = perm[i];
    b.state().pushBallBack( R * a.state().q().segment<2>( 2 * s ) + T, R * a.state().v().segment<2>( 2 * s ) + W, a.state().r()( s ), massOf( a.state(), s ), false );
  }
  for( auto& p : a.state().staticPlanes() ) b.state().staticPlanes().emplace_back( R * p.x() + T, R * p.n() );
  for( auto& d : a.state().staticDrums() ) b.state().staticDrums().emplace_back( R * d.x() + T, d.r() );
  Forces fb = f;
  fb.grav = R * f.grav;
  fb.addTo( b.state() );
  const Rational<std::intmax_t> dtr( 1, g.pick( { 10, 100 } ) );
  const double dt = scalar( dtr );
  const std::unique_ptr<UnconstrainedMap> map = genMap( g );
  const VectorXs q0 = a.state().q(), v0 = a.state().v();
  VectorXs q1( 2 * n ), v1( 2 * n );
  map->flow( q0, v0, FS( a ), 1, dt, q1, v1 );
  // Thresholds
  const double band = 1e-6;
  for( int i = 0; i < n; ++i )
  {
    for( int j = i + 1; j < n; ++j )
    {
      const Vector2s p = q0.segment<2>( 2 * i ) - q0.segment<2>( 2 * j ), e = q1.segment<2>( 2 * i ) - q1.segment<2>( 2 * j ), d = e - p;
      double t = d.squaredNorm() > 0 ? -p.dot( d ) / d.squaredNorm() : 0.0;
      t = std::min( 1.0, std::max( 0.0, t ) );
      const double rr = a.state().r()( i ) + a.state().r()( j );
      if( std::fabs( ( p + t * d ).norm() - rr ) < band || std::fabs( p.norm() - rr ) < band ) throw Discard{};
    }
    for( auto& P : a.state().staticPlanes() ) if( std::fabs( P.n().dot( q1.segment<2>( 2 * i ) - P.x() ) - a.state().r()( i ) ) < band ) throw Discard{};
    for( auto& D : a.state().staticDrums() ) if( std::fabs( D.r() - a.state().r()( i ) - ( D.x() - q1.segment<2>( 2 * i ) ).norm() ) < band ) throw Discard{};
  }
  Cons A;
  CS( a ).computeActiveSet( q0, q1, v0, A );
  c.nontrivial( !A.empty() );
  const double CoR = g.pick( { 0.0, 1.0, g.u() } );
  PythonScripting cb;
  c.note( [&]( std::ostream& os ) { describe( os, a.state() ); os << " rot " << th << " shift " << T.transpose() << " boost " << W.transpose() << " CoR " << CoR << " dt " << dt; } );
  double vtl = 1e-5;
  if( A.size() == 1 && g.b() )
  {
    c.label( "friction" );
    const double mu = g.u();
    Sobogus sa( SobogusSolverType::Balls2D, 10 ), sb( SobogusSolverType::Balls2D, 10 );
    GeometricImpactFrictionMap ma( 1e-10, 1000, ImpulsesToCache::NONE ), mb( 1e-10, 1000, ImpulsesToCache::NONE );
    a.flow( cb, 1, dtr, *map, CoR, mu, sa, ma );
    b.flow( cb, 1, dtr, *map, CoR, mu, sb, mb );
  }
  else if( A.empty() || wellConditioned( MatrixXXsc( normalMatrix( FS( a ), A, q0 ).transpose() * FS( a ).Minv() * normalMatrix( FS( a ), A, q0 ) ) ) )
  {
    c.label( "impact" );
    LCPOperatorAPGD lcp( 1e-11, 20000 );
    ImpactMap ia, ib;
    a.flow( cb, 1, dtr, *map, lcp, CoR, ia );
    b.flow( cb, 1, dtr, *map, lcp, CoR, ib );
  }
  else throw Discard{};
  const double sc = 1.0 + vmax( v0 ) + W.norm();
  for( int i = 0; i < n; ++i )
  {
    const int s = perm[i];
    const Vector2s ve = R * a.state().v().segment<2>( 2 * s ) + W, qe = R * a.state().q().segment<2>( 2 * s ) + T + dt * W;
    CHECK( ( b.state().v().segment<2>( 2 * i ) - ve ).norm() <= vtl * sc, "velocity of ball " << s << " is " << b.state().v().segment<2>( 2 * i ).transpose() << " in the transformed scene, expected " << ve.transpose() );
    CHECK( ( b.state().q().segment<2>( 2 * i ) - qe ).norm() <= vtl * sc, "position of ball " << s << " is " << b.state().q().segment<2>( 2 * i ).transpose() << " in the transformed scene, expected " << qe.transpose() );
  }
  CHECK( near( a.state().computeKineticEnergy(), W.norm() > 0 ? a.state().computeKineticEnergy() : b.state().computeKineticEnergy(), 1e-4, sc * sc * 30 ), "energy depends on the frame" );
}

SUBCHECK( "C31", "ball2d_copies", "interleaved steps and edits on a simulation and its copies; every object compared with an independent replay; non-trivial with at least one ball", 6000, 60000 )
{
  Ball2DSim a;
  genFullState( g, a.state(), false );
  c.nontrivial( a.state().nballs() > 0 );
  const std::string b0 = bytesOf( a );
  PythonScripting cb;
  LCPOperatorAPGD lcp( 1e-8, 5000 );
  const Rational<std::intmax_t> dt( 1, 100 );
  VerletMap map;
  const auto step = [&]( Ball2DSim& s, unsigned it ) { if( s.state().nballs() == 0 ) return; ImpactMap im( true ); s.flow( cb, it, dt, map, lcp, 0.5, im ); };
  Ball2DSim copy( a );
  CHECK( bytesOf( copy ) == b0, "a copy differs" );
  step( copy, 1 );
  const std::string c1 = bytesOf( copy );
  CHECK( bytesOf( a ) == b0, "stepping a copy changed the original" );
  Ball2DSim assigned;
  if( g.b() ) genFullState( g, assigned.state(), false );
  assigned = a;
  CHECK( bytesOf( assigned ) == b0, "an assigned copy differs" );
  // Editing the original leaves copies alone
  a.state().pushBallBack( Vector2s( 50, 50 ), Vector2s( 1, 1 ), 1.0, 1.0, false );
  a.state().forces().emplace_back( new Ball2DGravityForce( Vector2s( 0, 3 ) ) );
  a.state().staticPlanes().emplace_back( Vector2s( -90, 0 ), Vector2s( 1, 0 ) );
  CHECK( bytesOf( assigned ) == b0 && bytesOf( copy ) == c1, "editing the original changed a copy" );
  step( assigned, 1 );
  CHECK( bytesOf( assigned ) == c1, "copies evolve differently" );
  Ball2DSim moved( std::move( assigned ) );
  CHECK( bytesOf( moved ) == c1, "moving changed the simulation" );
  // The state alone
  Ball2DState s1 = moved.state();
  Ball2DState s2;
  s2 = s1;
  CHECK( bytesOf( s1 ) == bytesOf( moved.state() ) && bytesOf( s2 ) == bytesOf( s1 ), "state copies differ" );
  if( s1.nballs() ) { s1.q()( 0 ) += 1.0; CHECK( bytesOf( s2 ) == bytesOf( moved.state() ) && bytesOf( s1 ) != bytesOf( s2 ), "state copies share storage" ); }
  s2 = *&s2;
  CHECK( bytesOf( s2 ) == bytesOf( moved.state() ), "self assignment" );
  // Forces of a copy outlive the original
  VectorXs F;
  {
    std::unique_ptr<Ball2DSim> tmp( new Ball2DSim( moved ) );
    Ball2DSim keep( *tmp );
    tmp.reset();
    step( keep, 2 );
    step( moved, 2 );
    CHECK( bytesOf( keep ) == bytesOf( moved ), "runs are not deterministic" );
  }
}

// ---------------------------------------------------------------------------------------------------- reported quantities
SUBCHECK( "C34", "ball2d_reports", "scenes of balls with planes, drums, gravity and penalty forces, fresh or after steps; energies, momenta, extent, contact counts and depths recomputed from positions, velocities, radii and masses; non-trivial when something moves and touches", 20000, 300000 )
{
  Ball2DSim sim;
  Ball2DState& st = sim.state();
  BallOpts o; o.overlap = 0.4;
  genBalls( g, st, o );
  genPlanes( g, st, 2, true );
  if( g.b( 0.4 ) ) genDrums( g, st, 1 );
  const Forces f = genForces( g, true );
  f.addTo( st );
  const int steps = g.w( { 3, 1, 1 } );
  PythonScripting cb;
  for( int k = 1; k <= steps; ++k )
  {
    SymplecticEulerMap map;
    sim.flow( cb, unsigned( k ), Rational<std::intmax_t>( 1, 500 ), map );
  }
  if( !( vmax( st.q() ) < 1e3 && vmax( st.v() ) < 1e4 ) ) throw Discard{};
  const int n = int( st.nballs() );
  c.note( [&]( std::ostream& os ) { describe( os, st ); os << " g " << f.grav.transpose() << " k " << f.k << " p " << f.p << " after " << steps << " steps"; } );
  long double ke = 0, L = 0, px = 0, py = 0, sc = 1, lo[2] = { 1e30L, 1e30L }, hi[2] = { -1e30L, -1e30L };
  for( int i = 0; i < n; ++i )
  {
    const long double m = massOf( st, i ), x = st.q()( 2 * i ), y = st.q()( 2 * i + 1 ), u = st.v()( 2 * i ), w = st.v()( 2 * i + 1 ), r = st.r()( i );
    ke += m * ( u * u + w * w ) / 2; px += m * u; py += m * w; L += m * ( x * w - y * u );
    sc += m * ( 1 + std::fabs( x ) + std::fabs( y ) ) * ( 1 + std::fabs( u ) + std::fabs( w ) );
    lo[0] = std::min( lo[0], x - r ); hi[0] = std::max( hi[0], x + r ); lo[1] = std::min( lo[1], y - r ); hi[1] = std::max( hi[1], y + r );
  }
  for( auto& d : st.staticDrums() ) for( int k = 0; k < 2; ++k ) { lo[k] = std::min<long double>( lo[k], d.x()( k ) - d.r() ); hi[k] = std::max<long double>( hi[k], d.x()( k ) + d.r() ); }
  const double U = f.potential( st, st.q() ), s = double( sc );
  CHECK( near( st.computeKineticEnergy(), double( ke ), 1e-12, double( ke ) ), "kinetic energy " << st.computeKineticEnergy() << " expected " << double( ke ) );
  CHECK( near( st.computePotentialEnergy(), U, 1e-10, std::fabs( U ) + s * 10 ), "potential energy " << st.computePotentialEnergy() << " expected " << U );
  CHECK( near( st.computeTotalEnergy(), U + double( ke ), 1e-10, std::fabs( U ) + s * 10 + double( ke ) ), "total energy" );
  CHECK( ( st.computeMomentum() - Vector2s( double( px ), double( py ) ) ).norm() <= 1e-12 * s, "momentum " << st.computeMomentum().transpose() );
  CHECK( near( st.computeAngularMomentum(), double( L ), 1e-12, s ), "angular momentum " << st.computeAngularMomentum() << " expected " << double( L ) );
  // The same quantities for another velocity
  VectorXs v = st.v(), P, A;
  for( int i = 0; i < v.size(); ++i ) v( i ) = 2.0 * v( i ) - 0.25;
  FS( sim ).computeMomentum( v, P );
  FS( sim ).computeAngularMomentum( v, A );
  CHECK( P.size() == 2 && ( Vector2s( P ) - momentum( st, v ) ).norm() <= 1e-11 * s, "momentum of a velocity" );
  CHECK( A.size() == 1 && near( A( 0 ), angular( st, st.q(), v ), 1e-11, s ), "angular momentum of a velocity" );
  const Vector4s bb = st.computeBoundingBox();
  CHECK( near( bb( 0 ), double( lo[0] ), 1e-12, s ) && near( bb( 1 ), double( hi[0] ), 1e-12, s ) && near( bb( 2 ), double( lo[1] ), 1e-12, s ) && near( bb( 3 ), double( hi[1] ), 1e-12, s ), "extent " << bb.transpose() );
  // Contacts
  std::map<std::string, unsigned> cnt, wc;
  std::map<std::string, scalar> dep, wd;
  const auto touch = [&]( const char* kind, double gap ) { if( std::fabs( gap ) < 1e-9 ) throw Discard{}; if( gap < 0.0 ) { ++wc[kind]; wd[kind] += gap; } };
  for( int i = 0; i < n; ++i )
  {
    const Vector2s x = st.q().segment<2>( 2 * i );
    for( int j = i + 1; j < n; ++j ) touch( "ball_ball", ( x - st.q().segment<2>( 2 * j ) ).norm() - st.r()( i ) - st.r()( j ) );
    for( auto& p : st.staticPlanes() ) touch( "static_plane_constraint", p.n().dot( x - p.x() ) - st.r()( i ) );
    for( auto& d : st.staticDrums() ) touch( "static_drum_constraint", d.r() - st.r()( i ) - ( x - d.x() ).norm() );
  }
  const std::string before = bytesOf( sim );
  if( g.b( 0.3 ) ) { cnt["stale"] = 3; dep["stale"] = 1.0; }
  sim.computeNumberOfCollisions( cnt, dep );
  CHECK( cnt == wc, "contact counts" );
  for( auto& e : wd ) CHECK( ( e.first == "static_drum_constraint" && std::isnan( dep[e.first] ) ) || near( dep[e.first], e.second, 1e-9, s ), "total depth of " << e.first << " is " << dep[e.first] << " expected " << e.second );
  CHECK( dep.size() == wd.size(), "kinds of depths" );
  CHECK( bytesOf( sim ) == before, "asking for statistics changed the simulation" );
  c.nontrivial( ke > 0 && !wc.empty() );
}
