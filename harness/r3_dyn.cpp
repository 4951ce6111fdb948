// 3D rigid body dynamics: C03 states, C11 impact operators, C12 impact steps, C13 friction steps, C15 rotational integrators,
// C16 forces, C20 warm starting, C21 kinematic bodies, C22 scene edits, C26 output, C30 frames, C31 copies
#include "r3_scene.h"
#include "step_common.h"

namespace
{
Vector3s momentum( const Scene& s, const VectorXs& v ) { Vector3s p = Vector3s::Zero(); for( int i = 0; i < s.n(); ++i ) p += s.bodies[i].m * v.segment<3>( 3 * i ); return p; }
Vector3s spinOf( const Scene& s, const VectorXs& q, const VectorXs& v, int i ) { const M3 R = Rof( q, i ); return R * ( s.bodies[i].I.asDiagonal() * ( R.transpose() * Wof( v, i ) ) ); }
Vector3s angular( const Scene& s, const VectorXs& q, const VectorXs& v )
{
  Vector3s a = Vector3s::Zero();
  for( int i = 0; i < s.n(); ++i ) a += s.bodies[i].m * Xof( q, i ).cross( Vector3s( v.segment<3>( 3 * i ) ) ) + spinOf( s, q, v, i );
  return a;
}
double energy( const Scene& s, const VectorXs& q, const VectorXs& v )
{
  double a = 0;
  for( int i = 0; i < s.n(); ++i ) a += 0.5 * s.bodies[i].m * v.segment<3>( 3 * i ).squaredNorm() + 0.5 * Wof( v, i ).dot( spinOf( s, q, v, i ) );
  return a;
}
double massScale( const Scene& s ) { double a = 1.0; for( auto& b : s.bodies ) a += b.m + b.I.maxCoeff(); return a; }
void genGrav( Gen& g, Scene& s, double p ) { if( g.b( p ) ) s.grav = vec3( g, 10.0 ); }
std::unique_ptr<ImpactOperator> genImpactOp( Gen& g, double vtol )
{
  BudgetLCP lcp;
  switch( g.w( { 3, 2, 2 } ) )
  {
    case 0: return lcp.clone();
    case 1: return std::unique_ptr<ImpactOperator>( new GROperator( vtol, lcp ) );
    default: { GROperator el( vtol, lcp ); return std::unique_ptr<ImpactOperator>( new GRROperator( el, lcp ) ); }
  }
}
// Obstacles at rest, or planes that share one velocity (kinematic bodies are at rest in 3D)
void calm( Gen& g, Scene& s, bool& moving )
{
  moving = !s.planes.empty() && s.cyls.empty() && !s.anyFixed() && g.b( 0.35 );
  for( auto& b : s.bodies ) if( b.geo >= 0 && s.geos[b.geo].type != SPHERE3 ) moving = false; // contacts of boxes and meshes take planes to be at rest
  const Vector3s w = moving ? vec3( g, 2.0 ) : Vector3s( 0, 0, 0 );
  for( auto& p : s.planes ) { p.v = w; p.w.setZero(); }
}
SceneMode genMode( Gen& g ) { return g.pick( { SPHERES, SPHERES, BOXES, MESHES } ); }
bool allSpheres( const Scene& s ) { for( int i = 0; i < s.n(); ++i ) if( s.geo( i ).type != SPHERE3 ) return false; return true; }
bool dupIds( const std::vector<ContactId>& ids ) { std::map<ContactId, int> m; for( auto& i : ids ) if( ++m[i] > 1 ) return true; return false; }
void place( RigidBody3DState& st, const VectorXs& q, const VectorXs& v ) { st.q() = q; st.v() = v; st.updateMandMinv(); }
double percontactHash( uint64_t salt, const Constraint& k, uint64_t m ) { const ContactId id = idOf( k ); const uint64_t h = salt + m + uint64_t( id.b0 ) * 7919u + uint64_t( id.b1 + 1 ) * 104729u + uint64_t( id.st + 1 ) * 1299709u; return double( h % 101 ) / 100.0; }
}

SUBCHECK( "C11", "rb3d_impact_operators", "contact sets of generated scenes of spheres, boxes or meshes with kinematic bodies, planes and cylinders, every operator those contacts support; non-trivial with an approaching contact", 12000, 200000 )
{
  Scene s;
  const SceneMode mode = genMode( g );
  SceneOpts o; o.nmax = mode == SPHERES ? 6 : 3;
  genBodies( g, s, mode, o );
  if( g.b( 0.5 ) ) genObstacles( g, s, 2, mode == SPHERES ? 1 : 0, mode == SPHERES );
  bool moving = false;
  calm( g, s, moving );
  auto sim = simOf( s );
  const RigidBody3DState& st = sim->state();
  Cons cons;
  CS( *sim ).computeActiveSet( st.q(), st.q(), st.v(), cons );
  if( cons.empty() || cons.size() > 9 ) throw Discard{};
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  bool app = false, gs = true;
  for( auto& k : cons ) { if( k->evalNdotV( st.q(), st.v() ) < 0.0 ) app = true; if( k->name() != "sphere_sphere" && k->name() != "static_plane_sphere" ) gs = false; }
  c.nontrivial( app );
  checkImpactOperator( g, c, FS( *sim ), st.q(), st.v(), cons, gs );
}

// The inertia tensors and their inverses are the body's own moments carried by its present rotation
static void inertiaIsCurrent( Ctx& c, const Scene& s, const RigidBody3DState& st )
{
  const int n = s.n();
  const MatrixXXsc M{ st.M() }, Mi{ st.Minv() };
  for( int i = 0; i < n; ++i )
  {
    const Vector3s& I0 = s.bodies[i].I;
    const M3 R = Rof( st.q(), i ), I = R * I0.asDiagonal() * R.transpose(), J = R * I0.cwiseInverse().asDiagonal() * R.transpose();
    const int k = 3 * n + 3 * i;
    CHECK( ( M.block<3, 3>( k, k ) - I ).norm() <= 1e-11 * I0.maxCoeff() && ( Mi.block<3, 3>( k, k ) - J ).norm() <= 1e-11 / I0.minCoeff(), "the inertia of body " << i << " is not the one its rotation gives" );
  }
}

static void r3ImpactHistory( Gen& g, Ctx& c, int aspects )
{
  Scene s;
  const SceneMode mode = ( aspects & ( WARM | FILES | POST ) ) ? SPHERES : genMode( g );
  SceneOpts o; o.nmax = mode == SPHERES ? 5 : 3;
  genBodies( g, s, mode, o );
  if( g.b( 0.4 ) ) genObstacles( g, s, 2, mode == SPHERES ? 1 : 0, mode == SPHERES );
  bool moving = false;
  calm( g, s, moving );
  genGrav( g, s, 0.4 );
  auto sp = simOf( s );
  const bool free = s.planes.empty() && s.cyls.empty() && !s.anyFixed();
  const double vtol = 1e-6;
  const std::unique_ptr<ImpactOperator> op = genImpactOp( g, vtol );
  const bool warm = mode == SPHERES && g.b();
  ImpactMap imap( warm );
  const double CoR = g.pick( { 0.0, 1.0, g.u(), g.u() } );
  const Rational<std::intmax_t> dtr( 1, g.pick( { 20, 100, 1000 } ) );
  const double dt = scalar( dtr );
  const std::unique_ptr<UnconstrainedMap> umap = genMap( g, s.anyFixed() );
  CoefCallback cb;
  const bool percontact = op->name() == "lcp_apgd" && g.b( 0.3 );
  const uint64_t salt = g.bits();
  if( percontact ) cb.cor = [salt]( const Constraint& k ) { return percontactHash( salt, k, 0 ); };
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " op " << op->name() << " CoR " << CoR << " dt " << dt << " warm " << warm << " map " << umap->name(); } );
  CacheModel model;
  const int steps = g.i( 1, 4 );
  for( int it = 1; it <= steps; ++it )
  {
    RigidBody3DState& st = sp->state();
    const VectorXs q0 = st.q(), v0 = st.v();
    VectorXs q1, v1, v2;
    bool well = true;
    {
      VectorXs qp( q0.size() ), vp( v0.size() );
      umap->flow( q0, v0, FS( *sp ), unsigned( it ), dt, qp, vp );
      Cons A;
      CS( *sp ).computeActiveSet( q0, qp, v0, A );
      if( A.size() > 9 ) throw Discard{};
    }
    RigidBody3DSim twin = *sp;
    const int n = impactStep( c, aspects, FS( *sp ), CS( *sp ), *umap, imap, warm, *op, cb, unsigned( it ), dt, CoR, q0, v0, q1, v1, v2, model, &well );
    c.nontrivial( n > 0 );
    if( aspects & CONSERVE )
    {
      const double vs = 1.0 + vmax( v0 ) + vmax( v2 ), ms = massScale( s ), qs = 1.0 + vmax( q0 );
      if( free )
      {
        CHECK( ( momentum( s, v2 ) - momentum( s, v0 ) ).norm() <= 1e-8 * vs * ms, "momentum " << momentum( s, v0 ).transpose() << " became " << momentum( s, v2 ).transpose() );
        CHECK( ( angular( s, q0, v2 ) - angular( s, q0, v0 ) ).norm() <= 1e-8 * vs * ms * qs, "angular momentum " << angular( s, q0, v0 ).transpose() << " became " << angular( s, q0, v2 ).transpose() );
      }
      const double K0 = energy( s, q0, v0 ), K2 = energy( s, q0, v2 );
      if( !moving && !percontact && well )
      {
        CHECK( K2 <= K0 + 1e-6 * ( 1 + K0 ), "kinetic energy grew from " << K0 << " to " << K2 );
        if( CoR == 1.0 ) CHECK( std::fabs( K2 - K0 ) <= 1e-5 * ( 1 + K0 ), "elastic impacts changed kinetic energy from " << K0 << " to " << K2 );
      }
      // The reported quantities are those of the state
      RigidBody3DSim tmp = *sp;
      tmp.state().v() = v2;
      CHECK( near( tmp.computeKineticEnergy(), K2, 1e-9, K2 ), "reported kinetic energy" );
      CHECK( ( tmp.computeTotalMomentum() - momentum( s, v2 ) ).norm() <= 1e-10 * vs * ms, "reported momentum" );
      CHECK( ( tmp.computeTotalAngularMomentum() - angular( s, q0, v2 ) ).norm() <= 1e-9 * vs * ms * qs, "reported angular momentum" );
      VectorXs P, A;
      FS( *sp ).computeMomentum( v2, P );
      FS( *sp ).computeAngularMomentum( v2, A );
      CHECK( ( P - momentum( s, v2 ) ).norm() <= 1e-10 * vs * ms && ( A - angular( s, q0, v2 ) ).norm() <= 1e-9 * vs * ms * qs, "momentum of a velocity" );
      // Frictionless contacts exert no torque on spheres
      if( mode == SPHERES ) for( int i = 0; i < s.n(); ++i ) CHECK( ( Wof( v2, i ) - Wof( v0, i ) ).norm() <= 1e-10 * vs, "a frictionless impact changed the spin of sphere " << i );
      if( n == 1 && !percontact )
      {
        Cons A1;
        VectorXs qp( q0.size() ), vp( v0.size() );
        umap->flow( q0, v0, FS( *sp ), unsigned( it ), dt, qp, vp );
        CS( *sp ).computeActiveSet( q0, qp, v0, A1 );
        const double u0 = A1[0]->evalNdotV( q0, v0 ), u2 = A1[0]->evalNdotV( q0, v2 );
        if( !moving && u0 < -10 * vtol ) CHECK( near( u2, -CoR * u0, 1e-6, u0 ), "an isolated contact arriving with " << u0 << " leaves with " << u2 << " at restitution " << CoR );
        else if( u0 > 1e-9 && !moving ) CHECK( near( u2, u0, 1e-6, u0 ), "a separating contact was changed from " << u0 << " to " << u2 );
      }
    }
    if( ( aspects & DYN ) && !percontact )
    {
      PythonScripting ps;
      twin.impactMap() = ImpactMap( warm );
      twin.flow( ps, unsigned( it ), dtr, *umap, *op, CoR );
      CHECK( closeVec( twin.state().q(), q1, 1e-13 ) && closeVec( twin.state().v(), v1, 1e-13 ), "the simulator's step differs from its impact map" );
      inertiaIsCurrent( c, s, twin.state() );
    }
    place( st, q1, v1 );
    if( ( aspects & WARM ) && g.b( 0.3 ) )
    {
      const std::string b = bytesOf( *sp );
      std::istringstream is( b );
      sp.reset( new RigidBody3DSim );
      sp->deserialize( is );
      CHECK( bytesOf( *sp ) == b && size_t( is.tellg() ) == b.size(), "saved simulation changed on loading" );
    }
    if( vmax( v1 ) > 1e3 ) break;
  }
}
SUBCHECK( "C12", "rb3d_impact_steps", "1..4 impact steps of generated scenes of spheres, boxes or meshes with kinematic bodies, planes, cylinders and optional gravity, every operator, per-contact restitution; non-trivial when a step has contacts", 8000, 100000 ) { r3ImpactHistory( g, c, DYN | COEF | CONSERVE ); }
SUBCHECK( "C20", "rb3d_impact_warm_start", "impact step histories of spheres with saving and loading in between; the cache is compared with a map keyed by contact identity; non-trivial when a step has contacts", 6000, 80000 ) { r3ImpactHistory( g, c, WARM ); }
SUBCHECK( "C26", "rb3d_impact_forces", "impact steps with force export; file members compared with the recorded solve; non-trivial when a step has contacts", 3000, 40000 ) { r3ImpactHistory( g, c, FILES ); }

SUBCHECK( "C36", "impact_force_reports", "force files of 1..4 impact steps read by the post-processing tools; every contact they report compared with the recorded solve; non-trivial when a step has contacts", 5000, 60000 ) { if( !post::available() ) return; r3ImpactHistory( g, c, POST ); }

static void r3FrictionHistory( Gen& g, Ctx& c, int aspects )
{
  Scene s;
  const SceneMode mode = ( aspects & WARM ) ? SPHERES : genMode( g );
  SceneOpts o; o.nmax = mode == SPHERES ? 4 : 2; o.overlap = 0.08;
  genBodies( g, s, mode, o );
  if( g.b( 0.5 ) ) genObstacles( g, s, 2, mode == SPHERES ? 1 : 0, mode == SPHERES );
  bool moving = false;
  calm( g, s, moving );
  for( auto& k : s.cyls ) if( k.spin != 0.0 ) moving = true;
  genGrav( g, s, 0.6 );
  auto sp = simOf( s );
  const bool free = s.planes.empty() && s.cyls.empty() && !s.anyFixed();
  FrictionSetup su;
  su.map = g.pick( { FMap::Geometric, FMap::Stabilized, FMap::SymplecticEuler } );
  su.cache = ImpulsesToCache::NONE;
  if( mode == SPHERES ) su.cache = g.pick( { ImpulsesToCache::NONE, ImpulsesToCache::NORMAL, su.map == FMap::SymplecticEuler ? ImpulsesToCache::NORMAL_AND_FRICTION : ImpulsesToCache::NORMAL } );
  if( mode == SPHERES && su.map == FMap::SymplecticEuler && !s.anyFixed() && g.b() ) { su.stabilize = true; su.threshold = g.pick( { 0.0, 0.01, 0.05 } ); }
  std::unique_ptr<FrictionSolver> solver;
  if( free && mode == SPHERES && su.map != FMap::SymplecticEuler && g.b( 0.3 ) )
  {
    LCPOperatorAPGD lcp( 1e-11, 5000 );
    DiscMDP mdp( 2 );
    solver.reset( new StaggeredProjections( g.b(), g.b(), lcp, mdp ) );
    su.iters = 60;
  }
  else solver.reset( new Sobogus( SobogusSolverType::RigidBodies3D, 10 ) );
  const double CoR = su.map == FMap::SymplecticEuler ? 0.0 : g.pick( { 0.0, 0.0, 1.0, g.u() } );
  const double mu = g.pick( { 0.0, g.u(), g.u( 0.0, 0.5 ), g.u( 0.0, 2.0 ) } );
  const Rational<std::intmax_t> dtr( 1, g.pick( { 20, 100, 1000 } ) );
  const double dt = scalar( dtr );
  const std::unique_ptr<UnconstrainedMap> umap = genMap( g, s.anyFixed() );
  CoefCallback cb;
  const bool percontact = g.b( 0.3 );
  const uint64_t salt = g.bits();
  if( percontact ) { cb.mu = [salt]( const Constraint& k ) { return percontactHash( salt, k, 5 ); }; if( su.map != FMap::SymplecticEuler ) cb.cor = [salt]( const Constraint& k ) { return percontactHash( salt, k, 77 ); }; }
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " map " << int( su.map ) << " cache " << int( su.cache ) << " stabilize " << su.stabilize << " " << su.threshold << " solver " << solver->name() << " CoR " << CoR << " mu " << mu << " dt " << dt << " percontact " << percontact << " umap " << umap->name(); } );
  c.label( solver->name() );
  std::unique_ptr<ImpactFrictionMap> fmap = su.make();
  JudgedSolver js( *solver, c, true, 1e-5 );
  CacheModel model;
  const int steps = g.i( 1, 4 );
  for( int it = 1; it <= steps; ++it )
  {
    RigidBody3DState& st = sp->state();
    const VectorXs q0 = st.q(), v0 = st.v();
    VectorXs q1, v1;
    RigidBody3DSim twin = *sp;
    const int n = frictionStep( c, aspects, FS( *sp ), CS( *sp ), *umap, *fmap, su, js, cb, unsigned( it ), dt, CoR, mu, q0, v0, q1, v1, model );
    if( n > 8 ) throw Discard{};
    c.nontrivial( n > 0 );
    c.label( !n ? "no contact" : js.converged ? "converged" : "not converged" );
    if( ( aspects & CONSERVE ) && n > 0 )
    {
      const double vs = 1.0 + vmax( js.v0 ) + vmax( js.v2 ), ms = massScale( s ), qs = 1.0 + vmax( q0 );
      if( free ) CHECK( ( momentum( s, js.v2 ) - momentum( s, js.v0 ) ).norm() <= 1e-8 * vs * ms, "momentum " << momentum( s, js.v0 ).transpose() << " became " << momentum( s, js.v2 ).transpose() );
      bool all_body = true;
      for( auto& nm : js.names ) if( nm != "body_body" ) all_body = false;
      if( free && all_body ) CHECK( ( angular( s, q0, js.v2 ) - angular( s, q0, js.v0 ) ).norm() <= 1e-8 * vs * ms * qs, "angular momentum " << angular( s, q0, js.v0 ).transpose() << " became " << angular( s, q0, js.v2 ).transpose() );
      const double K0 = energy( s, q0, js.v0 ), K2 = energy( s, q0, js.v2 );
      if( js.nrel_kin == 0.0 && !moving && vmax( js.CoR ) == 0.0 && js.converged && su.map != FMap::SymplecticEuler ) CHECK( K2 <= K0 + 1e-5 * ( 1 + K0 ), "kinetic energy grew from " << K0 << " to " << K2 );
    }
    if( ( aspects & DYN ) && !percontact && it == 1 )
    {
      PythonScripting ps;
      std::unique_ptr<ImpactFrictionMap> fm2 = su.make();
      twin.flow( ps, unsigned( it ), dtr, *umap, CoR, mu, *solver, *fm2 );
      CHECK( closeVec( twin.state().q(), q1, 1e-12 ) && closeVec( twin.state().v(), v1, 1e-12 ), "the simulator's step differs from its impact-friction map" );
      inertiaIsCurrent( c, s, twin.state() );
    }
    place( st, q1, v1 );
    if( ( aspects & WARM ) && g.b( 0.3 ) )
    {
      const std::string b = bytesOf( *sp );
      std::istringstream is( b );
      sp.reset( new RigidBody3DSim );
      sp->deserialize( is );
      CHECK( bytesOf( *sp ) == b, "saved simulation changed on loading" );
    }
    if( vmax( v1 ) > 1e3 ) break;
  }
  if( aspects & WARM )
  {
    std::ostringstream used, fresh;
    fmap->resetCachedData();
    fmap->serialize( used );
    su.make()->serialize( fresh );
    CHECK( used.str() == fresh.str(), "a step map whose cached data was reset differs from a new one" );
  }
}
SUBCHECK( "C13", "rb3d_friction_steps", "1..4 friction steps of generated scenes of spheres, boxes or meshes with kinematic bodies, planes and cylinders, both solver families and all three step maps, default and per-contact coefficients; non-trivial when a step has contacts", 6000, 80000 ) { r3FrictionHistory( g, c, DYN | COEF | CONSERVE ); }
SUBCHECK( "C20", "rb3d_friction_warm_start", "friction step histories of spheres under every caching mode with saving and loading in between; non-trivial when a step has contacts", 4000, 60000 ) { r3FrictionHistory( g, c, WARM ); }
SUBCHECK( "C26", "rb3d_friction_forces", "friction steps with force export; file members compared with the recorded solve; non-trivial when a step has contacts", 2500, 30000 ) { r3FrictionHistory( g, c, FILES ); }

SUBCHECK( "C36", "friction_force_reports", "force files of 1..4 friction steps read by the post-processing tools; every contact they report compared with the recorded solve; non-trivial when a step has contacts", 4000, 40000 ) { if( !post::available() ) return; r3FrictionHistory( g, c, POST ); }

SUBCHECK( "C13", "rb3d_sequential_friction", "one solve of the impact-then-friction solver on generated contact sets; normal impulses compared with the impact law, friction with maximal dissipation given them; non-trivial with an approaching contact", 5000, 60000 )
{
  Scene s;
  const SceneMode mode = genMode( g );
  SceneOpts o; o.nmax = mode == SPHERES ? 4 : 2;
  genBodies( g, s, mode, o );
  if( g.b( 0.5 ) ) genObstacles( g, s, 2, mode == SPHERES ? 1 : 0, mode == SPHERES );
  bool moving = false;
  calm( g, s, moving );
  auto sp = simOf( s );
  const VectorXs q0 = sp->state().q(), v0 = sp->state().v();
  Cons A;
  CS( *sp ).computeActiveSet( q0, q0, v0, A );
  const int n = int( A.size() );
  if( n == 0 || n > 7 ) throw Discard{};
  MatrixXXsc bases;
  CS( *sp ).computeContactBases( q0, v0, A, bases );
  const SparseMatrixsc &M = FS( *sp ).M(), &Minv = FS( *sp ).Minv();
  SparseMatrixsc N, D;
  contactMatrices( FS( *sp ), A, q0, bases, N, D );
  const double cor = g.pick( { 0.0, 1.0, g.u() } );
  VectorXs CoR = VectorXs::Constant( n, cor ), mu( n );
  for( int i = 0; i < n; ++i ) mu( i ) = g.pick( { 0.0, g.u(), g.u( 0.0, 2.0 ) } );
  VectorXs nk( n ), dk( 2 * n );
  Constraint::evalKinematicRelVelGivenBases( q0, v0, A, bases, nk, dk );
  LCPOperatorAPGD lcp( 1e-11, 20000 );
  DiscMDP mdp( 2 );
  GRRFriction solver( lcp, mdp );
  CHECK( solver.numFrictionImpulsesPerNormal( 3 ) == 2, "friction impulses per contact" );
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " CoR " << cor << " mu " << mu.transpose(); } );
  VectorXs f = VectorXs::Zero( v0.size() ), a = VectorXs::Constant( n, g.b() ? 0.0 : 2.0 ), b = VectorXs::Constant( 2 * n, g.b() ? 0.0 : -1.0 ), vout( v0.size() );
  bool ok = false;
  double err = -1;
  solver.solve( 1, 0.01, FS( *sp ), M, Minv, CoR, mu, q0, v0, A, bases, VectorXs(), VectorXs(), 100, 1e-9, f, a, b, vout, ok, err );
  CHECK( ok, "no success" );
  const double vs = 1.0 + vmax( v0 ) + vmax( nk ) + vmax( dk ), as = 1.0 + vmax( a );
  CHECK( closeVec( vout, v0 + Minv * ( N * a + D * b ), 1e-9 ), "velocity is not what the impulses produce" );
  const VectorXs u0 = N.transpose() * v0 + nk, u1 = N.transpose() * ( v0 + Minv * ( N * a ) ) + nk, t = D.transpose() * vout + dk;
  c.nontrivial( u0.minCoeff() < 0.0 );
  for( int i = 0; i < n; ++i )
  {
    const double w = u1( i ) + cor * u0( i );
    CHECK( a( i ) >= 0.0 && w >= -1e-6 * vs && std::min( a( i ) / as, w / vs ) <= 1e-5, A[i]->name() << " normal impulse " << a( i ) << " velocity " << u0( i ) << " -> " << u1( i ) );
    const VectorXs bi = b.segment( 2 * i, 2 ), ti = t.segment( 2 * i, 2 );
    CHECK( bi.norm() <= mu( i ) * a( i ) + 1e-8 * as, A[i]->name() << " friction impulse " << bi.norm() << " exceeds " << mu( i ) << " * " << a( i ) );
    if( ti.norm() > 2e-3 * vs ) CHECK( bi.dot( ti ) <= -mu( i ) * a( i ) * ti.norm() + 1e-3 * as * ti.norm(), A[i]->name() << " slides with " << ti.transpose() << " but friction is " << bi.transpose() << " with bound " << mu( i ) * a( i ) );
  }
}

SUBCHECK( "C20", "rb3d_cache_model", "random sequences of caching, querying, clearing, saving and loading on contacts of every cached kind; compared with a map keyed by kind and bodies; non-trivial when a query hits", 100000, 1000000 )
{
  std::unique_ptr<ConstraintCache> cache( new ConstraintCache );
  const int nb = g.i( 2, 5 ), ns = g.i( 1, 3 );
  VectorXs q( 12 * nb );
  for( int i = 0; i < nb; ++i ) { q.segment<3>( 3 * i ) << i, 0.0, 0.0; setR( q, i, M3::Identity() ); }
  const StaticPlane plane( Vector3s( 0, 0, 0 ), Vector3s( 0, 1, 0 ) );
  const StaticCylinder cyl( Vector3s( 0, 0, 0 ), Vector3s( 1, 0, 0 ), 1.0 );
  struct Key { int kind, a, b; bool operator<( const Key& o ) const { return std::tie( kind, a, b ) < std::tie( o.kind, o.a, o.b ); } };
  Key key{};
  const auto mk = [&]() -> std::unique_ptr<Constraint>
  {
    const int k = g.i( 0, 3 );
    int a = g.i( 0, nb - 2 ), b = g.i( a + 1, nb - 1 );
    key = Key{ k, a, b };
    if( k == 0 ) return std::unique_ptr<Constraint>( new SphereSphereConstraint( unsigned( a ), unsigned( b ), Vector3s( -1, 0, 0 ), Vector3s( 0.5 * ( a + b ), 0, 0 ), 0.6, 0.6 ) );
    if( k == 1 ) { if( g.b() ) std::swap( a, b ); key = Key{ k, a, b }; return std::unique_ptr<Constraint>( new KinematicSphereSphereConstraint( unsigned( a ), 0.6, Vector3s( 1, 0, 0 ), unsigned( b ), Vector3s( b, 0, 0 ), Vector3s( 0, 0, 0 ), Vector3s( 0, 0, 0 ), 0.6 ) ); }
    a = g.i( 0, nb - 1 ); b = g.i( 0, ns - 1 );
    key = Key{ k, a, b };
    if( k == 2 ) return std::unique_ptr<Constraint>( new StaticPlaneSphereConstraint( unsigned( a ), 0.6, plane, unsigned( b ) ) );
    return std::unique_ptr<Constraint>( new StaticCylinderSphereConstraint( unsigned( a ), 0.6, cyl, unsigned( b ) ) );
  };
  std::map<Key, VectorXs> model;
  const int ops = g.i( 1, 25 ), sz = g.pick( { 1, 3, 6 } );
  bool hit = false;
  for( int o = 0; o < ops; ++o )
  {
    const int what = g.w( { 5, 6, 1, 1 } );
    if( what == 0 )
    {
      auto k = mk();
      if( model.count( key ) ) continue;
      VectorXs r( sz );
      for( int i = 0; i < sz; ++i ) r( i ) = g.s( 5.0 );
      cache->cacheConstraint( *k, r );
      model[key] = r;
    }
    else if( what == 1 )
    {
      auto k = mk();
      VectorXs r = VectorXs::Constant( sz, 9.0 );
      cache->getCachedConstraint( *k, r );
      auto m = model.find( key );
      if( m != model.end() ) hit = true;
      CHECK( r == ( m != model.end() ? m->second : VectorXs( VectorXs::Zero( sz ) ) ), "query for " << k->name() << " " << key.a << "," << key.b << " returned " << r.transpose() );
    }
    else if( what == 2 ) { cache->clear(); model.clear(); }
    else
    {
      std::ostringstream os;
      cache->serialize( os );
      std::istringstream is( os.str() );
      if( g.b() ) cache.reset( new ConstraintCache );
      cache->deserialize( is );
      CHECK( size_t( is.tellg() ) == os.str().size(), "cache did not consume its bytes" );
    }
    CHECK( cache->empty() == model.empty(), "emptiness" );
  }
  c.nontrivial( hit );
}

// Torque-free rotation from R0 with spatial angular momentum Lw over time h, by many small classical Runge-Kutta steps
static M3 freeRotation( const M3& R0, const Vector3s& I, const Vector3s& Lw, double h, int sub )
{
  Eigen::Quaterniond q( R0 );
  const auto rate = [&]( const Eigen::Vector4d& c4 )
  {
    Eigen::Quaterniond u( c4( 3 ), c4( 0 ), c4( 1 ), c4( 2 ) );
    u.normalize();
    const M3 R = u.toRotationMatrix();
    const Vector3s w = R * ( ( R.transpose() * Lw ).array() / I.array() ).matrix();
    const Eigen::Quaterniond d = Eigen::Quaterniond( 0.0, 0.5 * w.x(), 0.5 * w.y(), 0.5 * w.z() ) * u;
    return Eigen::Vector4d( d.coeffs() );
  };
  const double k = h / sub;
  for( int i = 0; i < sub; ++i )
  {
    const Eigen::Vector4d y = q.coeffs(), a = rate( y ), b = rate( y + 0.5 * k * a ), cc = rate( y + 0.5 * k * b ), d = rate( y + k * cc );
    q.coeffs() = y + k / 6.0 * ( a + 2.0 * b + 2.0 * cc + d );
    q.normalize();
  }
  return q.toRotationMatrix();
}
static void genSpinners( Gen& g, Scene& s, double& h, bool fixed )
{
  SceneOpts o; o.nmin = 1; o.nmax = 4; o.anyI = 0.6; o.pfixed = fixed ? 0.25 : 0.0;
  const SceneMode mode = g.pick( { SPHERES, BOXES, BOXES } );
  genBodies( g, s, mode, o );
  genGrav( g, s, 0.5 );
  // The rotation a body can make in one step stays within the range the implicit scheme can solve
  double rate = 0.0;
  for( auto& b : s.bodies )
  {
    if( b.fixed ) continue;
    if( g.b( 0.3 ) ) { Vector3s e = Vector3s::Zero(); e( g.i( 0, 2 ) ) = 1.0; b.w = b.R * ( e + ( g.b() ? 1e-3 : 0.0 ) * vec3( g, 1.0 ) ) * g.u( 0.1, 6.0 ); }
    const Vector3s Lb = b.I.asDiagonal() * ( b.R.transpose() * b.w );
    rate = std::max( rate, Lb.norm() / b.I.minCoeff() );
  }
  h = 0.0;
  h = g.pick( { 0.4, 0.2, 0.1, 0.01 } ) * g.u( 0.5, 1.0 ) / std::max( 0.1, rate );
}
SUBCHECK( "C15", "rb3d_rotation_step", "1..12 steps of every 3D integrator with gravity, any inertia and orientation, some bodies kinematic; straight-line motion, rigidity, momentum, reversibility and the distance to a finely resolved reference; non-trivial when a body of unequal inertia tumbles", 15000, 200000 )
{
  Scene s;
  double h = 0.1;
  const int kind = g.w( { 3, 3, 2 } );
  genSpinners( g, s, h, kind != 2 );
  std::unique_ptr<UnconstrainedMap> map;
  if( kind == 0 ) map.reset( new SplitHamMap ); else if( kind == 1 ) map.reset( new DMVMap ); else map.reset( new ExponentialEulerMap );
  static const char* names[] = { "split_ham", "dmv", "exponential_euler" };
  CHECK( map->name() == names[kind], "integrator name " << map->name() );
  auto sp = simOf( s );
  RigidBody3DState& st = sp->state();
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " map " << map->name() << " h " << h; } );
  const int n = s.n(), steps = g.i( 1, 12 );
  const VectorXs qs = st.q(), vs = st.v();
  for( int i = 0; i < n; ++i ) if( !s.bodies[i].fixed && s.bodies[i].I.maxCoeff() - s.bodies[i].I.minCoeff() > 1e-3 && s.bodies[i].w.norm() > 0.01 ) c.nontrivial( true );
  for( int k = 1; k <= steps; ++k )
  {
    const VectorXs q0 = st.q(), v0 = st.v();
    VectorXs q1 = VectorXs::Constant( 12 * n, 7.5 ), v1 = VectorXs::Constant( 6 * n, -7.5 );
    map->flow( q0, v0, FS( *sp ), unsigned( k ), h, q1, v1 );
    CHECK( st.q() == q0 && st.v() == v0, "the integrator changed its inputs" );
    for( int i = 0; i < n; ++i )
    {
      const Body& b = s.bodies[i];
      if( b.fixed )
      {
        CHECK( Xof( q1, i ) == Xof( q0, i ) && Rof( q1, i ) == Rof( q0, i ) && Xof( v1, i ) == Xof( v0, i ) && Wof( v1, i ) == Wof( v0, i ), "kinematic body " << i << " moved" );
        continue;
      }
      const double sc = 1.0 + Xof( q0, i ).norm() + Xof( v0, i ).norm() + s.grav.norm();
      const Vector3s xe = Xof( q0, i ) + h * Xof( v0, i ) + ( kind == 2 ? 0.0 : 0.5 * h * h ) * s.grav;
      CHECK( ( Xof( q1, i ) - xe ).norm() <= 1e-12 * sc, "center of body " << i << " is " << Xof( q1, i ).transpose() << " expected " << xe.transpose() );
      CHECK( ( Xof( v1, i ) - Xof( v0, i ) - h * s.grav ).norm() <= 1e-12 * sc, "velocity of body " << i << " is " << Xof( v1, i ).transpose() );
      const M3 R0 = Rof( q0, i ), R1 = Rof( q1, i );
      CHECK( ( R1 * R1.transpose() - M3::Identity() ).norm() <= 1e-11 * ( 10 + k ) && R1.determinant() > 0.0, "orientation of body " << i << " is no rotation: " << R1 );
      const Vector3s L0 = spinOf( s, q0, v0, i ), L1 = spinOf( s, q1, v1, i );
      if( kind != 2 )
      {
        const double lb = L0.norm() / b.I.minCoeff(), a = h * lb;
        CHECK( ( L1 - L0 ).norm() <= 1e-10 * ( 1e-3 + L0.norm() ), "angular momentum of body " << i << " went from " << L0.transpose() << " to " << L1.transpose() );
        const M3 E = freeRotation( R0, b.I, L0, h, 24 );
        CHECK( ( R1 - E ).norm() <= 1.0 * a * a * a + 1e-9, "body " << i << " turned " << ( R1 - E ).norm() << " away from free rotation in a step of " << a << " rad" );
        // A body with equal moments spins about a constant axis
        if( b.I.maxCoeff() - b.I.minCoeff() < 1e-14 ) CHECK( ( Wof( v1, i ) - Wof( v0, i ) ).norm() <= 1e-11 * ( 1 + lb ), "spin of a symmetric body changed" );
      }
      else
      {
        const double a = h * Wof( v0, i ).norm();
        CHECK( ( Wof( v1, i ) - Wof( v0, i ) ).norm() <= 1e-12 * ( 1.0 + Wof( v0, i ).norm() ), "angular velocity of body " << i << " went from " << Wof( v0, i ).transpose() << " to " << Wof( v1, i ).transpose() );
        CHECK( ( R1 - expm( h * Wof( v0, i ) ) * R0 ).norm() <= 1.0 * a * a * a + 1e-10, "body " << i << " did not turn with its angular velocity" );
      }
    }
    if( kind != 2 )
    {
      // Time reversal
      RigidBody3DSim back = *sp;
      VectorXs vr = -v1;
      place( back.state(), q1, vr );
      VectorXs q2( 12 * n ), v2( 6 * n );
      map->flow( q1, vr, FS( back ), 1, h, q2, v2 );
      const double sc = 1.0 + vmax( q0 ) + vmax( v0 );
      CHECK( ( q2 - q0 ).lpNorm<Eigen::Infinity>() <= 1e-9 * sc && ( v2 + v0 ).lpNorm<Eigen::Infinity>() <= 1e-9 * sc, "stepping back does not return: " << ( q2 - q0 ).lpNorm<Eigen::Infinity>() << " " << ( v2 + v0 ).lpNorm<Eigen::Infinity>() );
    }
    place( st, q1, v1 );
  }
}
SUBCHECK( "C15", "rb3d_long_runs", "100..600 simulator steps of the momentum-conserving integrators, plain or through the impact and friction solvers with bodies that stay apart; spatial angular momentum, energy band, rigidity and the ballistic path at the end; non-trivial when a body of unequal inertia tumbles", 700, 10000 )
{
  Scene s;
  double h = 0.1;
  genSpinners( g, s, h, true );
  std::unique_ptr<UnconstrainedMap> map;
  if( g.b() ) map.reset( new SplitHamMap ); else map.reset( new DMVMap );
  // A rational step near the wanted one
  const Rational<std::intmax_t> dtr( 1, std::max<std::intmax_t>( 2, std::intmax_t( std::ceil( 1.0 / h ) ) ) );
  h = scalar( dtr );
  const int solvers = g.w( { 2, 1, 1, 1 } ); // none, impact, friction, all in turn
  if( solvers ) for( int i = 0; i < s.n(); ++i ) s.bodies[i].x.x() += 1e4 * i;
  auto sp = simOf( s );
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " map " << map->name() << " h " << h << " solvers " << solvers; } );
  const int n = s.n(), steps = g.i( 100, 600 );
  GaussSeidelOperator gs( 1e-10 );
  Sobogus sob( SobogusSolverType::RigidBodies3D, 10 );
  GeometricImpactFrictionMap fmap( 1e-10, 100, ImpulsesToCache::NONE );
  const VectorXs q0 = sp->state().q(), v0 = sp->state().v();
  PythonScripting ps;
  std::vector<double> worst( n, 0.0 );
  for( int k = 1; k <= steps; ++k )
  {
    switch( solvers == 3 ? k % 3 : solvers )
    {
      case 0: sp->flow( ps, unsigned( k ), dtr, *map ); break;
      case 1: sp->flow( ps, unsigned( k ), dtr, *map, gs, 0.5 ); break;
      default: sp->flow( ps, unsigned( k ), dtr, *map, 0.5, 0.3, sob, fmap ); break;
    }
    const RigidBody3DState& st = sp->state();
    if( k < 4 ) inertiaIsCurrent( c, s, st );
    for( int i = 0; i < n; ++i ) if( !s.bodies[i].fixed )
    {
      const double E0 = Wof( v0, i ).dot( spinOf( s, q0, v0, i ) ), E = Wof( st.v(), i ).dot( spinOf( s, st.q(), st.v(), i ) );
      worst[i] = std::max( worst[i], std::fabs( E - E0 ) );
    }
  }
  const VectorXs q1 = sp->state().q(), v1 = sp->state().v();
  const double t = steps * h;
  for( int i = 0; i < n; ++i )
  {
    const Body& b = s.bodies[i];
    if( b.fixed ) { CHECK( Xof( q1, i ) == Xof( q0, i ) && Rof( q1, i ) == Rof( q0, i ), "kinematic body " << i << " moved" ); continue; }
    const double sc = 1.0 + Xof( q0, i ).norm() + t * ( b.v.norm() + t * s.grav.norm() );
    CHECK( ( Xof( q1, i ) - Xof( q0, i ) - t * b.v - 0.5 * t * t * s.grav ).norm() <= 1e-9 * sc, "body " << i << " left its ballistic path" );
    const M3 R1 = Rof( q1, i );
    CHECK( ( R1 * R1.transpose() - M3::Identity() ).norm() <= 1e-10 && R1.determinant() > 0.0, "orientation of body " << i << " is no rotation after " << steps << " steps" );
    const Vector3s L0 = spinOf( s, q0, v0, i ), L1 = spinOf( s, q1, v1, i );
    CHECK( ( L1 - L0 ).norm() <= 1e-9 * ( 1e-3 + L0.norm() ), "angular momentum of body " << i << " drifted from " << L0.transpose() << " to " << L1.transpose() );
    const double a = h * L0.norm() / b.I.minCoeff(), Emax = L0.squaredNorm() / b.I.minCoeff();
    CHECK( worst[i] <= 0.5 * a * a * Emax + 1e-9 * ( 1 + Emax ), "rotational energy of body " << i << " strayed by " << worst[i] << " of " << Emax << " with " << a << " rad per step" );
    if( b.I.maxCoeff() - b.I.minCoeff() > 1e-3 && L0.norm() > 1e-3 ) c.nontrivial( true );
  }
}
namespace
{
// Constant forces and world space torques: a force of a user's own
struct Pushes final : public Force
{
  VectorXs f;
  Pushes( const VectorXs& ff ) : f( ff ) {}
  virtual scalar computePotential( const VectorXs& q, const SparseMatrixsc& ) const override { return -f.head( q.size() / 4 ).dot( q.head( q.size() / 4 ) ); }
  virtual void computeForce( const VectorXs&, const VectorXs&, const SparseMatrixsc&, VectorXs& result ) const override { result += f; }
  virtual std::string name() const override { return "pushes"; }
  virtual std::unique_ptr<Force> clone() const override { return std::unique_ptr<Force>( new Pushes( f ) ); }
  virtual void serialize( std::ostream& ) const override {}
};
}
SUBCHECK( "C15", "rb3d_torques", "1..12 steps of every 3D integrator under gravity and constant forces and torques of a user-defined force; ballistic motion, the angular momentum a torque supplies and the resulting rotation; non-trivial when a torque acts on a moving body", 10000, 150000 )
{
  Scene s;
  double h = 0.1;
  const int kind = g.w( { 3, 3, 2 } );
  genSpinners( g, s, h, kind != 2 );
  std::unique_ptr<UnconstrainedMap> map;
  if( kind == 0 ) map.reset( new SplitHamMap ); else if( kind == 1 ) map.reset( new DMVMap ); else map.reset( new ExponentialEulerMap );
  const int n = s.n(), steps = g.i( 1, 12 );
  VectorXs f = VectorXs::Zero( 6 * n );
  for( int i = 0; i < n; ++i )
  {
    const Body& b = s.bodies[i];
    f.segment<3>( 3 * i ) = vec3( g, 5.0 ) * b.m;
    // A step's torque adds at most a fraction of the rotation the scheme can resolve
    f.segment<3>( 3 * n + 3 * i ) = vec3( g, 0.01 ) * b.I.minCoeff() / ( h * h );
    if( !b.fixed && f.segment<3>( 3 * n + 3 * i ).norm() > 0.0 ) c.nontrivial( true );
  }
  auto sp = simOf( s );
  sp->state().addForce( Pushes( f ) );
  RigidBody3DState& st = sp->state();
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " map " << map->name() << " h " << h << " steps " << steps << " pushes " << f.transpose(); } );
  for( int k = 1; k <= steps; ++k )
  {
    const VectorXs q0 = st.q(), v0 = st.v();
    VectorXs q1 = VectorXs::Constant( 12 * n, 7.5 ), v1 = VectorXs::Constant( 6 * n, -7.5 );
    map->flow( q0, v0, FS( *sp ), unsigned( k ), h, q1, v1 );
    for( int i = 0; i < n; ++i )
    {
      const Body& b = s.bodies[i];
      if( b.fixed )
      {
        CHECK( Xof( q1, i ) == Xof( q0, i ) && Rof( q1, i ) == Rof( q0, i ) && Xof( v1, i ) == Xof( v0, i ) && Wof( v1, i ) == Wof( v0, i ), "kinematic body " << i << " moved" );
        continue;
      }
      const Vector3s a = s.grav + f.segment<3>( 3 * i ) / b.m, tau = f.segment<3>( 3 * n + 3 * i );
      const double sc = 1.0 + Xof( q0, i ).norm() + Xof( v0, i ).norm() + a.norm();
      const Vector3s xe = Xof( q0, i ) + h * Xof( v0, i ) + ( kind == 2 ? 0.0 : 0.5 * h * h ) * a;
      CHECK( ( Xof( q1, i ) - xe ).norm() <= 1e-12 * sc, "center of body " << i << " is " << Xof( q1, i ).transpose() << " expected " << xe.transpose() );
      CHECK( ( Xof( v1, i ) - Xof( v0, i ) - h * a ).norm() <= 1e-12 * sc, "velocity of body " << i << " is " << Xof( v1, i ).transpose() );
      const M3 R0 = Rof( q0, i ), R1 = Rof( q1, i );
      CHECK( ( R1 * R1.transpose() - M3::Identity() ).norm() <= 1e-11 * ( 10 + k ) && R1.determinant() > 0.0, "orientation of body " << i << " is no rotation: " << R1 );
      const Vector3s L0 = spinOf( s, q0, v0, i ), L1 = spinOf( s, q1, v1, i );
      if( kind != 2 )
      {
        CHECK( ( L1 - L0 - h * tau ).norm() <= 1e-10 * ( 1e-3 + L0.norm() + h * tau.norm() ), "angular momentum of body " << i << " went from " << L0.transpose() << " to " << L1.transpose() << " under the torque " << tau.transpose() );
        // Half of the step's torque acts before the rotation
        const Vector3s Lm = L0 + 0.5 * h * tau;
        const double r = h * Lm.norm() / b.I.minCoeff();
        CHECK( ( R1 - freeRotation( R0, b.I, Lm, h, 24 ) ).norm() <= 1.0 * r * r * r + 1e-9, "body " << i << " did not turn with its angular momentum" );
      }
      else
      {
        const Vector3s dw = R0 * ( b.I.cwiseInverse().asDiagonal() * ( R0.transpose() * tau ) ) * h;
        CHECK( ( Wof( v1, i ) - Wof( v0, i ) - dw ).norm() <= 1e-11 * ( 1.0 + Wof( v0, i ).norm() + dw.norm() ), "angular velocity of body " << i << " went from " << Wof( v0, i ).transpose() << " to " << Wof( v1, i ).transpose() << " under the torque " << tau.transpose() );
      }
    }
    place( st, q1, v1 );
  }
}
SUBCHECK( "C15", "rb3d_inertial_update", "configuration updates along a given velocity for any velocity and step; compared with exact rotation; non-trivial when a body rotates", 30000, 400000 )
{
  Scene s;
  SceneOpts o; o.pfixed = 0.3;
  genBodies( g, s, g.b() ? SPHERES : BOXES, o );
  auto sp = simOf( s );
  const double h = g.pick( { 0.01, g.u( 0.0, 1.0 ), g.u( 0.0, 5.0 ) } ) + 1e-6;
  VectorXs v = sp->state().v();
  for( int i = 0; i < s.n(); ++i ) if( g.b( 0.2 ) ) { const Vector3s w = dir3( g ) * g.pick( { 0.0, 1e-9, 1e-4, 20.0 } ); v.segment<3>( 3 * s.n() + 3 * i ) = w; }
  const VectorXs q0 = sp->state().q();
  VectorXs q1 = VectorXs::Constant( q0.size(), 3.5 );
  FS( *sp ).linearInertialConfigurationUpdate( q0, v, h, q1 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " v " << v.transpose() << " h " << h; } );
  for( int i = 0; i < s.n(); ++i )
  {
    if( s.bodies[i].fixed ) { CHECK( Xof( q1, i ) == Xof( q0, i ) && Rof( q1, i ) == Rof( q0, i ), "kinematic body " << i << " moved" ); continue; }
    c.nontrivial( Wof( v, i ).norm() > 0.0 );
    CHECK( ( Xof( q1, i ) - Xof( q0, i ) - h * Xof( v, i ) ).norm() <= 1e-12 * ( 1 + vmax( q0 ) + h * vmax( v ) ), "center of body " << i );
    CHECK( ( Rof( q1, i ) - expm( h * Wof( v, i ) ) * Rof( q0, i ) ).norm() <= 1e-12 * ( 1.0 + h * Wof( v, i ).norm() ), "orientation of body " << i );
  }
}

SUBCHECK( "C16", "rb3d_forces", "gravity on generated scenes; force against the independent formula and the derivative of the reported potential; non-trivial with gravity", 30000, 300000 )
{
  Scene s;
  genBodies( g, s, g.pick( { SPHERES, BOXES } ), SceneOpts{} );
  genGrav( g, s, 0.9 );
  auto sim = simOf( s );
  RigidBody3DState& st = sim->state();
  c.nontrivial( s.grav.norm() > 0.0 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  const int n = s.n();
  VectorXs F = VectorXs::Constant( 6 * n, 5.0 ), want = VectorXs::Zero( 6 * n );
  double U = 0.0;
  for( int i = 0; i < n; ++i ) { want.segment<3>( 3 * i ) = s.bodies[i].m * s.grav; U -= s.bodies[i].m * s.grav.dot( s.bodies[i].x ); }
  FS( *sim ).computeForce( st.q(), st.v(), 0.0, F );
  const double sc = 1.0 + vmax( want ), E = energy( s, st.q(), st.v() );
  CHECK( ( F - want ).lpNorm<Eigen::Infinity>() <= 1e-11 * sc, "force " << F.transpose() << " expected " << want.transpose() );
  CHECK( near( sim->computePotentialEnergy(), U, 1e-11, sc * ( 1 + vmax( st.q() ) ) * n ), "potential energy " << sim->computePotentialEnergy() << " expected " << U );
  CHECK( near( sim->computeKineticEnergy(), E, 1e-11, E ), "kinetic energy" );
  CHECK( near( sim->computeTotalEnergy(), U + E, 1e-11, sc * ( 1 + vmax( st.q() ) ) * n + E ), "total energy" );
  VectorXs Z = F;
  FS( *sim ).zeroOutForcesOnFixedBodies( Z );
  for( int i = 0; i < n; ++i ) CHECK( Vector3s( Z.segment<3>( 3 * i ) ) == ( s.bodies[i].fixed ? Vector3s( 0, 0, 0 ) : Vector3s( F.segment<3>( 3 * i ) ) ) && Wof( Z, i ) == Wof( F, i ), "forces on kinematic bodies" );
  if( s.grav.norm() > 0.0 )
  {
    CHECK( st.forces().size() == 1, "number of forces" );
    VectorXs acc = VectorXs::LinSpaced( 6 * n, -3.0, 3.0 );
    const VectorXs before = acc;
    st.forces()[0]->computeForce( st.q(), st.v(), st.M(), acc );
    CHECK( ( acc - before - want ).lpNorm<Eigen::Infinity>() <= 1e-11 * sc, "accumulated force" );
    const double h = 1e-4;
    for( int i = 0; i < 3 * n; ++i )
    {
      VectorXs q = st.q();
      q( i ) += h;
      const double a = st.forces()[0]->computePotential( q, st.M() );
      q( i ) -= 2 * h;
      const double b = st.forces()[0]->computePotential( q, st.M() );
      CHECK( near( -( a - b ) / ( 2 * h ), F( i ), 1e-6, sc + std::fabs( a ) ), "force component " << i );
    }
  }
}

static void genPortals( Gen& g, RigidBody3DState& st )
{
  for( int i = g.i( 0, 2 ); i > 0; --i )
  {
    const int ax = g.i( 0, 2 );
    Vector3s n = Vector3s::Zero();
    n( ax ) = 1.0;
    const Vector3s x = vec3( g, 2.0 );
    const double Ln = g.u( 10, 20 );
    const Array3i mult( g.i( 0, 1 ) ? 1 : -1, g.i( 0, 1 ) ? 1 : -1, g.i( 0, 1 ) ? 1 : -1 );
    st.addPlanarPortal( PlanarPortal( StaticPlane( x - Ln * n, n ), StaticPlane( x + Ln * n, -n ), mult ) );
  }
}
static std::string bytesOf( const PlanarPortal& p ) { std::ostringstream o; p.serialize( o ); return o.str(); }
static std::string bytesOf( const StaticPlane& p ) { std::ostringstream o; p.serialize( o ); return o.str(); }
static std::string bytesOf( const StaticCylinder& p ) { std::ostringstream o; p.serialize( o ); return o.str(); }
static void genFull( Gen& g, Scene& s )
{
  SceneOpts o; o.nmax = 4;
  genBodies( g, s, g.pick( { SPHERES, BOXES, BOXES, MESHES } ), o );
  if( s.geos[0].type == BOX3 && g.b( 0.4 ) ) { Geo e; e.type = SPHERE3; e.r = g.u( 0.2, 1.0 ); s.geos.push_back( e ); Body b = s.bodies.back(); b.geo = int( s.geos.size() ) - 1; b.x += Vector3s( 20, 20, 20 ); s.bodies.push_back( b ); }
  genObstacles( g, s, 3, 2, true );
  genGrav( g, s, 0.6 );
}

SUBCHECK( "C03", "rb3d_states", "3D rigid body simulations with spheres, boxes, meshes, flags, moving planes, cylinders, portals, boundaries, gravity and cached impulses; saved, loaded, saved again and inspected; non-trivial with at least two bodies", 30000, 300000 )
{
  Scene s;
  genFull( g, s );
  auto sp = simOf( s );
  RigidBody3DSim& sim = *sp;
  RigidBody3DState& st = sim.state();
  genPortals( g, st );
  if( g.b() ) { st.setBoundaryBehavior( SimBoundaryBehavior::EXIT ); st.setBoundaryMin( -50.0 * Vector3s::Ones() + vec3( g, 1.0 ) ); st.setBoundaryMax( 50.0 * Vector3s::Ones() + vec3( g, 1.0 ) ); }
  for( unsigned i = 0; i < st.numStaticCylinders(); ++i ) if( g.b() ) st.staticCylinder( i ).setOrientation( dir3( g ), g.s( 3.0 ) );
  c.nontrivial( s.n() > 1 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  if( s.n() >= 2 && g.b() )
  {
    SphereSphereConstraint k( 0, 1, Vector3s( 0, 1, 0 ), Vector3s( 0, 0, 0 ), 1.0, 1.0 );
    CS( sim ).cacheConstraint( k, VectorXs::Constant( g.pick( { 1, 3, 6 } ), g.s( 4.0 ) ) );
    KinematicSphereSphereConstraint k2( 1, 0.6, Vector3s( 1, 0, 0 ), 0, Vector3s( 0, 0, 0 ), Vector3s( 0, 0, 0 ), Vector3s( 0, 0, 0 ), 0.6 );
    if( g.b() ) CS( sim ).cacheConstraint( k2, VectorXs::Constant( 1, g.s( 4.0 ) ) );
  }
  const std::string b = bytesOf( sim );
  std::istringstream is( b + "tail" );
  RigidBody3DSim re;
  if( g.b() ) { Scene o; genFull( g, o ); re.state() = o.build(); genPortals( g, re.state() ); re.state().setBoundaryBehavior( SimBoundaryBehavior::EXIT ); }
  re.deserialize( is );
  CHECK( size_t( is.tellg() ) == b.size(), "loading consumed " << is.tellg() << " of " << b.size() << " bytes" );
  CHECK( bytesOf( re ) == b, "saving the loaded simulation gives other bytes" );
  const RigidBody3DState& r = re.state();
  CHECK( r.nbodies() == st.nbodies() && r.q() == st.q() && r.v() == st.v() && r.indices() == st.indices() && r.geometry().size() == st.geometry().size() && r.fixed() == st.fixed(), "bodies changed" );
  CHECK( ( MatrixXXsc( r.M() ) - MatrixXXsc( st.M() ) ).isZero( 0 ) && ( MatrixXXsc( r.Minv() ) - MatrixXXsc( st.Minv() ) ).isZero( 0 ) && ( MatrixXXsc( r.M0() ) - MatrixXXsc( st.M0() ) ).isZero( 0 ) && ( MatrixXXsc( r.Minv0() ) - MatrixXXsc( st.Minv0() ) ).isZero( 0 ), "mass changed" );
  for( int i = 0; i < s.n(); ++i )
  {
    CHECK( r.isKinematicallyScripted( unsigned( i ) ) == s.bodies[i].fixed && r.getTotalMass( unsigned( i ) ) == s.bodies[i].m, "body " << i );
    const RigidBodyGeometry& e = r.getGeometryOfBody( unsigned( i ) );
    const Geo& w = s.geo( i );
    CHECK( e.getType() == ( w.type == SPHERE3 ? RigidBodyGeometryType::SPHERE : w.type == BOX3 ? RigidBodyGeometryType::BOX : RigidBodyGeometryType::TRIANGLE_MESH ), "shape of body " << i );
    if( w.type == SPHERE3 ) CHECK( static_cast<const RigidBodySphere&>( e ).r() == w.r, "sphere of body " << i );
    if( w.type == BOX3 ) CHECK( static_cast<const RigidBodyBox&>( e ).halfWidths() == w.h, "box of body " << i );
    if( w.type == MESH3 )
    {
      const RigidBodyTriangleMesh& m = static_cast<const RigidBodyTriangleMesh&>( e );
      CHECK( m.vertices() == w.mesh.verts && m.faces() == w.mesh.faces && m.samples() == w.mesh.samples && m.inputFileName() == w.mesh.name, "mesh of body " << i );
    }
  }
  CHECK( r.numStaticPlanes() == st.numStaticPlanes() && r.numStaticCylinders() == st.numStaticCylinders() && r.numPlanarPortals() == st.numPlanarPortals() && r.forces().size() == st.forces().size(), "counts" );
  for( unsigned i = 0; i < st.numStaticPlanes(); ++i ) CHECK( r.staticPlane( i ).x() == st.staticPlane( i ).x() && r.staticPlane( i ).n() == st.staticPlane( i ).n() && r.staticPlane( i ).v() == st.staticPlane( i ).v() && r.staticPlane( i ).omega() == st.staticPlane( i ).omega(), "plane " << i );
  for( unsigned i = 0; i < st.numStaticCylinders(); ++i ) CHECK( r.staticCylinder( i ).x() == st.staticCylinder( i ).x() && r.staticCylinder( i ).axis() == st.staticCylinder( i ).axis() && r.staticCylinder( i ).r() == st.staticCylinder( i ).r() && r.staticCylinder( i ).omega() == st.staticCylinder( i ).omega() && r.staticCylinder( i ).R().coeffs() == st.staticCylinder( i ).R().coeffs(), "cylinder " << i );
  for( unsigned i = 0; i < st.numPlanarPortals(); ++i ) CHECK( bytesOf( r.planarPortal( i ) ) == bytesOf( st.planarPortal( i ) ), "portal " << i );
  CHECK( r.boundaryBehavior() == st.boundaryBehavior() && r.boundaryMin() == st.boundaryMin() && r.boundaryMax() == st.boundaryMax(), "boundary" );
  VectorXs F( st.v().size() ), G( st.v().size() );
  FS( sim ).computeForce( st.q(), st.v(), 0.0, F );
  FS( re ).computeForce( st.q(), st.v(), 0.0, G );
  CHECK( F == G, "forces changed" );
  {
    const std::unique_ptr<UnconstrainedMap> m = genMap( g, false );
    std::ostringstream os;
    RigidBody3DUtilities::serialize( m, os );
    std::istringstream ms( os.str() );
    const std::unique_ptr<UnconstrainedMap> l = RigidBody3DUtilities::deserializeUnconstrainedMap( ms );
    CHECK( l != nullptr && l->name() == m->name() && size_t( ms.tellg() ) == os.str().size(), "integrator " << m->name() );
  }
  // The loaded simulation continues as the saved one
  if( allSpheres( s ) && g.b( 0.3 ) )
  {
    re.state().setBoundaryBehavior( SimBoundaryBehavior::NONE );
    st.setBoundaryBehavior( SimBoundaryBehavior::NONE );
    PythonScripting ps;
    SplitHamMap um;
    LCPOperatorAPGD lcp( 1e-6, 300 );
    sim.clearConstraintCache(); re.clearConstraintCache();
    sim.impactMap() = ImpactMap( false ); re.impactMap() = ImpactMap( false );
    const Rational<std::intmax_t> dt( 1, 100 );
    sim.flow( ps, 1, dt, um, lcp, 0.5 );
    re.flow( ps, 1, dt, um, lcp, 0.5 );
    CHECK( bytesOf( sim ) == bytesOf( re ), "the loaded simulation steps differently" );
  }
}

SUBCHECK( "C21", "rb3d_kinematic", "scenes with kinematic bodies and obstacles stepped 1..5 times with gravity, impacts or friction; kinematic bodies must not move, others respond as to very heavy spheres; non-trivial when a kinematic body is touched", 6000, 80000 )
{
  Scene s;
  const SceneMode mode = g.pick( { SPHERES, SPHERES, BOXES, MESHES } );
  SceneOpts o; o.nmin = 2; o.nmax = mode == SPHERES ? 5 : 3; o.pfixed = 0.3;
  genBodies( g, s, mode, o );
  if( g.b( 0.3 ) ) genObstacles( g, s, 2, mode == SPHERES ? 1 : 0, false );
  genGrav( g, s, 0.5 );
  if( !s.anyFixed() ) { s.bodies[0].fixed = true; s.bodies[0].v.setZero(); s.bodies[0].w.setZero(); }
  auto sp = simOf( s );
  const double CoR = g.pick( { 0.0, 1.0, g.u() } ), mu = g.u();
  const Rational<std::intmax_t> dtr( 1, g.pick( { 20, 100, 1000 } ) );
  const double dt = scalar( dtr );
  const int how = g.w( { 3, 3, 1 } ); // impact, friction, free flight
  const bool friction = how == 1;
  const std::unique_ptr<UnconstrainedMap> umap = genMap( g, true );
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << ( friction ? " friction " : " impact " ) << CoR << " " << mu << " dt " << dt << " " << umap->name(); } );
  const auto obstacles = [&]() { std::string r; for( auto& p : sp->state().staticPlanes() ) r += bytesOf( p ); for( auto& p : sp->state().staticCylinders() ) r += bytesOf( p ); return r; };
  const std::string obs0 = obstacles();
  const VectorXs qs = sp->state().q(), vs = sp->state().v();
  bool touched = false;
  PythonScripting cb;
  Sobogus so( SobogusSolverType::RigidBodies3D, 10 );
  LCPOperatorAPGD lcp( 1e-12, 20000 );
  const int fm_kind = g.w( { 3, 2, CoR == 0.0 ? 2 : 0 } );
  const auto mkmap = [&]()
  {
    if( fm_kind == 1 ) return std::unique_ptr<ImpactFrictionMap>( new StabilizedImpactFrictionMap( 1e-10, 1000, false, false ) );
    if( fm_kind == 2 ) return std::unique_ptr<ImpactFrictionMap>( new SymplecticEulerImpactFrictionMap( 1e-10, 1000, ImpulsesToCache::NONE, false, 0.0 ) );
    return std::unique_ptr<ImpactFrictionMap>( new GeometricImpactFrictionMap( 1e-10, 1000, ImpulsesToCache::NONE ) );
  };
  auto fm = mkmap();
  const int steps = g.i( 1, 5 );
  for( int it = 1; it <= steps; ++it )
  {
    RigidBody3DState& st = sp->state();
    sync( s, st );
    VectorXs qp( st.q().size() ), vp( st.v().size() );
    umap->flow( st.q(), st.v(), FS( *sp ), unsigned( it ), dt, qp, vp );
    Cons A;
    CS( *sp ).computeActiveSet( st.q(), qp, st.v(), A );
    if( A.size() > 8 ) throw Discard{};
    for( auto& k : A ) if( k->name().find( "kinematic" ) == 0 ) touched = true;
    // The same scene with heavy bodies instead: same response while gravity is off and the contact sets agree
    std::unique_ptr<RigidBody3DSim> heavy;
    if( s.grav.norm() == 0.0 && mode == SPHERES && !A.empty() && how != 2 )
    {
      Scene h = s;
      for( auto& b : h.bodies ) if( b.fixed ) { b.fixed = false; b.m *= 1e9; b.I *= 1e9; }
      heavy = simOf( h );
      Cons B;
      CS( *heavy ).computeActiveSet( st.q(), qp, st.v(), B );
      if( B.size() != A.size() ) heavy.reset();
      else
      {
        MatrixXXsc bases;
        CS( *sp ).computeContactBases( st.q(), st.v(), A, bases );
        SparseMatrixsc N, D;
        contactMatrices( FS( *sp ), A, st.q(), bases, N, D );
        const MatrixXXsc Q( N.transpose() * FS( *sp ).Minv() * N );
        if( !wellConditioned( Q ) || ( friction && A.size() > 1 ) ) heavy.reset();
        // Normals of the two descriptions agree, and so do the arms of contacts that just touch
        for( size_t k = 0; heavy && k < A.size(); ++k )
        {
          bool same = false;
          VectorXs na, nb;
          A[k]->getWorldSpaceContactNormal( st.q(), na );
          std::pair<int, int> ia, ib;
          A[k]->getBodyIndices( ia );
          for( auto& e : B )
          {
            e->getBodyIndices( ib );
            e->getWorldSpaceContactNormal( st.q(), nb );
            if( ia == ib && ( na - nb ).norm() < 1e-9 ) same = true;
            if( ia.first == ib.second && ia.second == ib.first && ( na + nb ).norm() < 1e-9 ) same = true;
          }
          if( !same ) heavy.reset();
          if( heavy && friction && ia.second >= 0 && std::fabs( ( Xof( st.q(), ia.first ) - Xof( st.q(), ia.second ) ).norm() - s.geo( ia.first ).r - s.geo( ia.second ).r ) > 1e-7 ) heavy.reset();
        }
      }
    }
    const auto step = [&]( RigidBody3DSim& x, ImpactFrictionMap& f )
    {
      if( how == 1 ) x.flow( cb, unsigned( it ), dtr, *umap, CoR, mu, so, f );
      else if( how == 0 ) x.flow( cb, unsigned( it ), dtr, *umap, lcp, CoR );
      else x.flow( cb, unsigned( it ), dtr, *umap );
    };
    sp->impactMap() = ImpactMap( false );
    step( *sp, *fm );
    if( heavy )
    {
      c.label( "heavy" );
      heavy->impactMap() = ImpactMap( false );
      auto f2 = mkmap();
      step( *heavy, *f2 );
      for( int i = 0; i < s.n(); ++i ) if( !s.bodies[i].fixed )
        CHECK( ( Xof( heavy->state().v(), i ) - Xof( sp->state().v(), i ) ).norm() + ( Wof( heavy->state().v(), i ) - Wof( sp->state().v(), i ) ).norm() <= 1e-5 * ( 1 + vmax( vs ) ), "body " << i << " leaves with " << Xof( sp->state().v(), i ).transpose() << " | " << Wof( sp->state().v(), i ).transpose() << " but against heavy bodies with " << Xof( heavy->state().v(), i ).transpose() << " | " << Wof( heavy->state().v(), i ).transpose() );
    }
    for( int i = 0; i < s.n(); ++i ) if( s.bodies[i].fixed )
    {
      const RigidBody3DState& e = sp->state();
      CHECK( Xof( e.v(), i ).isZero( 0 ) && Wof( e.v(), i ).isZero( 0 ), "kinematic body " << i << " now moves with " << Xof( e.v(), i ).transpose() << " | " << Wof( e.v(), i ).transpose() );
      CHECK( Xof( e.q(), i ) == Xof( qs, i ) && Rof( e.q(), i ) == Rof( qs, i ), "kinematic body " << i << " strayed" );
    }
    CHECK( obstacles() == obs0, "an obstacle changed" );
    if( vmax( sp->state().v() ) > 1e3 ) break;
  }
  c.nontrivial( touched );
}

SUBCHECK( "C22", "rb3d_edits", "sequences of setting bodies, adding and deleting planes, adding cylinders, portals and forces and stepping, compared with a list model and a directly built scene; non-trivial with at least three edits", 8000, 80000 )
{
  Scene s;
  SceneOpts so; so.nmin = 1; so.nmax = 4;
  genBodies( g, s, SPHERES, so );
  auto sp = simOf( s );
  RigidBody3DSim& sim = *sp;
  const int ops = g.i( 1, 12 );
  c.nontrivial( ops >= 3 );
  const Rational<std::intmax_t> dt( 1, 100 );
  PythonScripting cb;
  SplitHamMap map;
  std::ostringstream log;
  std::vector<Vector3s> gravs;
  std::vector<std::string> planes, cyls, portals;
  std::vector<StaticPlane> P;
  std::vector<StaticCylinder> C;
  std::vector<PlanarPortal> T;
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << log.str(); } );
  for( int o = 0; o < ops; ++o )
  {
    RigidBody3DState& st = sim.state();
    const int what = g.w( { 4, 3, 2, 1, 1, 2, 3 } );
    if( what == 0 )
    {
      Scene t; t.bodies = s.bodies; t.geos = s.geos;
      genObstacles( g, t, 1, 0, false );
      for( auto& p : t.planes ) { StaticPlane e( p.x, p.n ); if( g.b() ) e.v() = vec3( g, 2.0 ); st.addStaticPlane( e ); P.push_back( e ); log << " plane"; }
    }
    else if( what == 1 && !P.empty() )
    {
      const int k = g.i( 0, int( P.size() ) - 1 );
      st.deleteStaticPlane( size_t( k ) );
      std::vector<StaticPlane> R;
      for( int i = 0; i < int( P.size() ); ++i ) if( i != k ) R.push_back( P[i] );
      P = R;
      log << " drop plane " << k;
    }
    else if( what == 2 ) { StaticCylinder e( vec3( g, 2.0 ), dir3( g ), g.u( 8.0, 12.0 ) ); st.addStaticCylinder( e ); C.push_back( e ); log << " cylinder"; }
    else if( what == 3 )
    {
      Vector3s n = Vector3s::Zero();
      n( g.i( 0, 2 ) ) = 1.0;
      PlanarPortal e( StaticPlane( -40.0 * n, n ), StaticPlane( 40.0 * n, -n ), Array3i( 1, 1, 1 ) );
      st.addPlanarPortal( e );
      T.push_back( e );
      log << " portal";
    }
    else if( what == 4 ) { const Vector3s a = vec3( g, 5.0 ); st.addForce( NearEarthGravityForce( a ) ); gravs.push_back( a ); log << " gravity"; }
    else if( what == 5 )
    {
      // Replace the bodies, keeping everything else
      Scene t;
      genBodies( g, t, g.b( 0.7 ) ? SPHERES : BOXES, so );
      const RigidBody3DState built = t.build();
      std::vector<Vector3s> X, V, W, I0; std::vector<double> M; std::vector<VectorXs> R; std::vector<bool> fx; std::vector<unsigned> gi;
      for( auto& b : t.bodies )
      {
        X.push_back( b.x ); V.push_back( b.v ); W.push_back( b.w ); I0.push_back( b.I ); M.push_back( b.m ); fx.push_back( b.fixed ); gi.push_back( unsigned( b.geo ) );
        VectorXs r( 9 );
        for( int i = 0; i < 9; ++i ) r( i ) = b.R( i / 3, i % 3 );
        R.push_back( r );
      }
      st.setState( X, V, M, R, W, I0, fx, gi, built.geometry() );
      s.bodies = t.bodies; s.geos = t.geos;
      sim.clearConstraintCache();
      log << " new bodies";
    }
    else if( what == 6 )
    {
      RigidBody3DSim direct;
      direct.state() = s.build();
      for( auto& e : P ) direct.state().addStaticPlane( e );
      for( auto& e : C ) direct.state().addStaticCylinder( e );
      for( auto& e : T ) direct.state().addPlanarPortal( e );
      for( auto& e : gravs ) direct.state().addForce( NearEarthGravityForce( e ) );
      // Box contacts are judged elsewhere
      if( allSpheres( s ) )
      {
        LCPOperatorAPGD lcp( 1e-6, 200 );
        sim.impactMap() = ImpactMap( false ); direct.impactMap() = ImpactMap( false );
        sim.flow( cb, unsigned( o + 1 ), dt, map, lcp, 0.5 );
        direct.flow( cb, unsigned( o + 1 ), dt, map, lcp, 0.5 );
      }
      else { sim.flow( cb, unsigned( o + 1 ), dt, map ); direct.flow( cb, unsigned( o + 1 ), dt, map ); }
      CHECK( closeVec( sim.state().q(), direct.state().q(), 1e-12 ) && closeVec( sim.state().v(), direct.state().v(), 1e-12 ), "edited scene steps differently from a directly built one" );
      sync( s, sim.state() );
      if( vmax( sim.state().v() ) > 1e3 ) return;
    }
    const int n = s.n();
    CHECK( int( st.nbodies() ) == n && st.q().size() == 12 * n && st.v().size() == 6 * n && int( st.indices().size() ) == n && st.geometry().size() == s.geos.size() && int( st.fixed().size() ) == n && st.ngeo() == s.geos.size(), "sizes" );
    CHECK( st.M().rows() == 6 * n && st.Minv().rows() == 6 * n && st.M0().nonZeros() == 6 * n && st.Minv0().nonZeros() == 6 * n && st.M().nonZeros() == 12 * n && st.Minv().nonZeros() == 12 * n, "mass matrix size" );
    CHECK( FS( sim ).nqdofs() == 12 * n && FS( sim ).nvdofs() == 6 * n && FS( sim ).numBodies() == unsigned( n ) && sim.empty() == ( n == 0 ), "degrees of freedom" );
    for( int i = 0; i < n; ++i )
    {
      const Body& b = s.bodies[i];
      CHECK( Xof( st.q(), i ) == b.x && Rof( st.q(), i ) == b.R && Xof( st.v(), i ) == b.v && Wof( st.v(), i ) == b.w, "motion of body " << i );
      CHECK( st.isKinematicallyScripted( unsigned( i ) ) == b.fixed && st.fixed()[size_t( i )] == b.fixed && FS( sim ).isKinematicallyScripted( i ) == b.fixed, "flag of body " << i );
      CHECK( int( st.getGeometryIndexOfBody( unsigned( i ) ) ) == b.geo, "shape index of body " << i );
      CHECK( st.getTotalMass( unsigned( i ) ) == b.m, "mass of body " << i );
      const M3 Iw = b.R * b.I.asDiagonal() * b.R.transpose();
      CHECK( ( M3( st.getInertia( unsigned( i ) ) ) - Iw ).norm() <= 1e-10 * ( 1 + Iw.norm() ), "inertia of body " << i );
    }
    CHECK( st.numStaticPlanes() == P.size() && st.staticPlanes().size() == P.size() && st.numStaticCylinders() == C.size() && st.staticCylinders().size() == C.size() && st.numPlanarPortals() == T.size() && st.forces().size() == gravs.size(), "obstacle counts" );
    for( size_t i = 0; i < P.size(); ++i ) CHECK( bytesOf( st.staticPlane( i ) ) == bytesOf( P[i] ) && bytesOf( st.staticPlanes()[i] ) == bytesOf( P[i] ), "plane " << i );
    for( size_t i = 0; i < C.size(); ++i ) CHECK( bytesOf( st.staticCylinder( i ) ) == bytesOf( C[i] ), "cylinder " << i );
    for( size_t i = 0; i < T.size(); ++i ) CHECK( bytesOf( st.planarPortal( i ) ) == bytesOf( T[i] ), "portal " << i );
  }
}

SUBCHECK( "C26", "rb3d_state_file", "full 3D rigid body states written to an output file; every member compared with the state; non-trivial with at least two bodies", 15000, 150000 )
{
  Scene s;
  genFull( g, s );
  auto sp = simOf( s );
  RigidBody3DSim& sim = *sp;
  RigidBody3DState& st = sim.state();
  for( unsigned i = 0; i < st.numStaticCylinders(); ++i ) if( g.b() ) st.staticCylinder( i ).setOrientation( dir3( g ), g.s( 3.0 ) );
  c.nontrivial( s.n() > 1 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  const std::string fn = scratchFile( "state" );
  { HDF5File f( fn, HDF5AccessType::READ_WRITE ); sim.writeBinaryState( f ); }
  fakeh5::Tree t;
  CHECK( fakeh5::load( fn, t ), "unreadable" );
  unlink( fn.c_str() );
  const auto vec = [&]( const char* k, const VectorXs& want )
  {
    CHECK( t.sets.count( k ), "no " << k );
    const auto v = fakeh5::values( t.sets[k] );
    CHECK( int( v.size() ) == want.size(), k << " has " << v.size() << " values" );
    for( int i = 0; i < want.size(); ++i ) CHECK( v[i] == want( i ), k << "[" << i << "] = " << v[i] << " expected " << want( i ) );
  };
  const int n = s.n();
  vec( "/state/q", st.q() );
  vec( "/state/v", st.v() );
  VectorXs m( 6 * n ), fx( n );
  for( int i = 0; i < n; ++i ) { m.segment<3>( 3 * i ).setConstant( s.bodies[i].m ); m.segment<3>( 3 * n + 3 * i ) = s.bodies[i].I; fx( i ) = s.bodies[i].fixed; }
  vec( "/state/M0", m );
  vec( "/state/kinematically_scripted", fx );
  std::vector<int> local;
  std::vector<Geo> lists[4];
  const auto code = []( const Geo& e ) { return e.type == BOX3 ? 0 : e.type == SPHERE3 ? 1 : e.type == STAPLE3 ? 2 : 3; };
  for( auto& e : s.geos ) { auto& l = lists[code( e )]; local.push_back( int( l.size() ) ); l.push_back( e ); }
  {
    const char* k = "/geometry/geometry_indices";
    CHECK( t.sets.count( k ) && t.sets[k].dims.size() == 2 && int( t.sets[k].dims[0] ) == 2 && int( t.sets[k].dims[1] ) == n, "geometry indices" );
    for( int i = 0; i < n; ++i ) CHECK( h5At( t.sets[k], 0, i ) == code( s.geo( i ) ) && h5At( t.sets[k], 1, i ) == local[s.bodies[i].geo], "geometry index of body " << i );
  }
  const auto mem = [&]( const char* k, const char* field, size_t count, const std::function<double( size_t, size_t )>& want, size_t width )
  {
    CHECK( t.sets.count( k ), "no " << k );
    CHECK( t.sets[k].dims.size() == 1 && t.sets[k].dims[0] == count, k << " has the wrong number of records" );
    std::vector<double> v;
    for( size_t i = 0; i < count; ++i ) for( double x : fakeh5::member( t.sets[k], i, field ) ) v.push_back( x );
    CHECK( v.size() == count * width, k << "." << field << " has " << v.size() << " values" );
    for( size_t i = 0; i < count; ++i ) for( size_t j = 0; j < width; ++j ) CHECK( v[i * width + j] == want( i, j ), k << "." << field << "[" << i << "][" << j << "] = " << v[i * width + j] << " expected " << want( i, j ) );
  };
  if( !lists[0].empty() ) mem( "/geometry/boxes", "r", lists[0].size(), [&]( size_t i, size_t j ) { return lists[0][i].h( int( j ) ); }, 3 );
  if( !lists[1].empty() ) mem( "/geometry/spheres", "r", lists[1].size(), [&]( size_t i, size_t ) { return lists[1][i].r; }, 1 );
  if( !lists[3].empty() )
  {
    CHECK( t.sets.count( "/geometry/meshes" ) && t.sets["/geometry/meshes"].strs.size() == lists[3].size(), "mesh list" );
    for( size_t i = 0; i < lists[3].size(); ++i ) CHECK( t.sets["/geometry/meshes"].strs[i] == lists[3][i].mesh.name, "mesh file " << i << " is '" << t.sets["/geometry/meshes"].strs[i] << "'" );
  }
  CHECK( bool( t.sets.count( "/geometry/boxes" ) ) == !lists[0].empty() && bool( t.sets.count( "/geometry/spheres" ) ) == !lists[1].empty() && bool( t.sets.count( "/geometry/meshes" ) ) == !lists[3].empty(), "shape lists" );
  const auto& P = st.staticPlanes();
  CHECK( bool( t.sets.count( "/static_geometry/static_planes" ) ) == !P.empty(), "plane list" );
  if( !P.empty() )
  {
    const char* k = "/static_geometry/static_planes";
    mem( k, "x", P.size(), [&]( size_t i, size_t j ) { return P[i].x()( int( j ) ); }, 3 );
    mem( k, "n", P.size(), [&]( size_t i, size_t j ) { return P[i].n()( int( j ) ); }, 3 );
    mem( k, "v", P.size(), [&]( size_t i, size_t j ) { return s.planes[i].v( int( j ) ); }, 3 );
    mem( k, "omega", P.size(), [&]( size_t i, size_t j ) { return s.planes[i].w( int( j ) ); }, 3 );
  }
  const auto& C = st.staticCylinders();
  CHECK( bool( t.sets.count( "/static_geometry/static_cylinders" ) ) == !C.empty(), "cylinder list" );
  if( !C.empty() )
  {
    const char* k = "/static_geometry/static_cylinders";
    mem( k, "x", C.size(), [&]( size_t i, size_t j ) { return s.cyls[i].x( int( j ) ); }, 3 );
    mem( k, "R", C.size(), [&]( size_t i, size_t j ) { return C[i].R().coeffs()( int( j ) ); }, 4 );
    mem( k, "v", C.size(), [&]( size_t i, size_t j ) { return C[i].v()( int( j ) ); }, 3 );
    mem( k, "omega", C.size(), [&]( size_t i, size_t j ) { return C[i].omega()( int( j ) ); }, 3 );
    mem( k, "r", C.size(), [&]( size_t i, size_t ) { return s.cyls[i].r; }, 1 );
    for( size_t i = 0; i < C.size(); ++i )
    {
      // The written orientation turns the reference axis onto the cylinder's axis
      const auto r = fakeh5::member( t.sets[k], i, "R" );
      const Eigen::Quaterniond q( r[3], r[0], r[1], r[2] );
      CHECK( near( q.norm(), 1.0, 1e-9 ), "orientation of cylinder " << i );
    }
  }
}

SUBCHECK( "C30", "rb3d_frames", "scenes and the same scenes translated, rotated, boosted or reordered, stepped once with frictionless impacts or (single contact) friction; configurations near a detection threshold are discarded; non-trivial when the step has contacts", 8000, 100000 )
{
  Scene s;
  const SceneMode mode = g.pick( { SPHERES, SPHERES, SPHERES, BOXES } );
  genBodies( g, s, mode, SceneOpts{} );
  const int n = s.n();
  const bool boost = !s.anyFixed() && g.b( 0.25 );
  if( !boost ) genObstacles( g, s, 2, mode == SPHERES ? 1 : 0, mode == SPHERES );
  bool moving = false;
  calm( g, s, moving );
  genGrav( g, s, 0.5 );
  const M3 R = boost ? M3( M3::Identity() ) : rot3( g );
  const Vector3s T = vec3( g, 5.0 );
  const Vector3s W = boost ? vec3( g, 3.0 ) : Vector3s( 0, 0, 0 );
  std::vector<int> perm( n );
  for( int i = 0; i < n; ++i ) perm[i] = i;
  if( g.b() ) for( int i = n - 1; i > 0; --i ) std::swap( perm[i], perm[g.i( 0, i )] );
  Scene sb = s;
  for( int i = 0; i < n; ++i )
  {
    Body b = s.bodies[perm[i]];
    b.x = R * b.x + T; b.v = R * b.v + W; b.w = R * b.w; b.R = R * b.R;
    sb.bodies[i] = b;
  }
  for( auto& p : sb.planes ) { p.x = R * p.x + T; p.n = R * p.n; p.v = R * p.v; }
  for( auto& p : sb.cyls ) { p.x = R * p.x + T; p.axis = R * p.axis; }
  sb.grav = R * s.grav;
  auto a = simOf( s ), b = simOf( sb );
  const Rational<std::intmax_t> dtr( 1, g.pick( { 20, 100 } ) );
  const double dt = scalar( dtr );
  const std::unique_ptr<UnconstrainedMap> map = genMap( g, s.anyFixed() );
  const VectorXs q0 = a->state().q(), v0 = a->state().v();
  VectorXs q1( 12 * n ), v1( 6 * n );
  map->flow( q0, v0, FS( *a ), 1, dt, q1, v1 );
  const double band = 1e-6;
  for( int i = 0; i < n; ++i )
  {
    for( int j = i + 1; j < n; ++j )
    {
      const double d = ( Xof( q1, i ) - Xof( q1, j ) ).norm(), rr = s.geo( i ).reach() + s.geo( j ).reach();
      if( std::fabs( d - rr ) < band ) throw Discard{};
      if( mode == BOXES && d < rr ) throw Discard{}; // ties between features make the description of box contacts ambiguous
    }
    for( auto& P : s.planes )
    {
      if( mode == SPHERES ) { if( std::fabs( P.n.dot( Xof( q1, i ) - P.x ) - s.geo( i ).r ) < band ) throw Discard{}; }
      else for( int k = 0; k < 8; ++k )
      {
        const Vector3s h = s.geo( i ).h, co( k & 1 ? h.x() : -h.x(), k & 2 ? h.y() : -h.y(), k & 4 ? h.z() : -h.z() );
        if( std::fabs( P.n.dot( Xof( q1, i ) + Rof( q1, i ) * co - P.x ) ) < band ) throw Discard{};
      }
    }
    for( auto& P : s.cyls )
    {
      const Vector3s u = P.axis.normalized();
      const auto rad = [&]( const VectorXs& q ) { const Vector3s d = Xof( q, i ) - P.x; return ( d - u * u.dot( d ) ).norm(); };
      if( std::fabs( rad( q1 ) + s.geo( i ).r - P.r ) < band || rad( q0 ) < 1e-3 || rad( q1 ) < 1e-3 ) throw Discard{};
    }
  }
  Cons A;
  CS( *a ).computeActiveSet( q0, q1, v0, A );
  c.nontrivial( !A.empty() );
  if( A.size() > 8 ) throw Discard{};
  bool boxc = false;
  for( auto& k : A ) if( k->name() == "static_plane_body" || k->name() == "static_plane_box" ) boxc = true;
  const double CoR = g.pick( { 0.0, 1.0, g.u() } );
  PythonScripting cb;
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " rot " << R << " shift " << T.transpose() << " boost " << W.transpose() << " CoR " << CoR << " dt " << dt << " " << map->name(); for( int p : perm ) os << " " << p; } );
  a->impactMap() = ImpactMap( false ); b->impactMap() = ImpactMap( false );
  if( A.size() == 1 && g.b() )
  {
    c.label( "friction" );
    const double mu = g.u();
    Sobogus sa( SobogusSolverType::RigidBodies3D, 10 ), sb2( SobogusSolverType::RigidBodies3D, 10 );
    GeometricImpactFrictionMap ma( 1e-10, 1000, ImpulsesToCache::NONE ), mb( 1e-10, 1000, ImpulsesToCache::NONE );
    a->flow( cb, 1, dtr, *map, CoR, mu, sa, ma );
    b->flow( cb, 1, dtr, *map, CoR, mu, sb2, mb );
  }
  else if( A.empty() || wellConditioned( MatrixXXsc( normalMatrix( FS( *a ), A, q0 ).transpose() * FS( *a ).Minv() * normalMatrix( FS( *a ), A, q0 ) ) ) )
  {
    c.label( boxc ? "box impact" : "impact" );
    LCPOperatorAPGD lcp( 1e-11, 20000 );
    a->flow( cb, 1, dtr, *map, lcp, CoR );
    b->flow( cb, 1, dtr, *map, lcp, CoR );
  }
  else throw Discard{};
  const VectorXs &va = a->state().v(), &vb = b->state().v(), &qa = a->state().q(), &qb = b->state().q();
  const double sc = 1.0 + vmax( v0 ) + vmax( va ) + W.norm(), tol = 1e-5 * sc;
  for( int i = 0; i < n; ++i )
  {
    const int k = perm[i];
    const Vector3s ve = R * Xof( va, k ) + W, we = R * Wof( va, k ), qe = R * Xof( qa, k ) + T + dt * W;
    CHECK( ( Xof( vb, i ) - ve ).norm() <= tol && ( Wof( vb, i ) - we ).norm() <= tol, "velocity of body " << k << " is " << Xof( vb, i ).transpose() << " | " << Wof( vb, i ).transpose() << " in the transformed scene, expected " << ve.transpose() << " | " << we.transpose() );
    CHECK( ( Xof( qb, i ) - qe ).norm() <= tol && ( Rof( qb, i ) - R * Rof( qa, k ) ).norm() <= tol, "placement of body " << k << " in the transformed scene" );
  }
  if( W.norm() == 0.0 ) CHECK( near( a->computeKineticEnergy(), b->computeKineticEnergy(), 1e-4, sc * sc * massScale( s ) ), "energy depends on the frame" );
}

SUBCHECK( "C31", "rb3d_copies", "interleaved steps and edits on a simulation and its copies; every object compared with an independent replay; non-trivial with at least two bodies", 4000, 40000 )
{
  Scene s;
  SceneOpts o; o.nmax = 5;
  genBodies( g, s, SPHERES, o );
  genObstacles( g, s, 2, 1, true );
  genGrav( g, s, 0.6 );
  c.nontrivial( s.n() > 1 );
  c.note( [&]( std::ostream& os ) { describe( os, s ); } );
  auto sp = simOf( s );
  RigidBody3DSim& a = *sp;
  genPortals( g, a.state() );
  const std::string b0 = bytesOf( a );
  PythonScripting cb;
  LCPOperatorAPGD lcp( 1e-8, 1000 );
  const Rational<std::intmax_t> dt( 1, 100 );
  SplitHamMap map;
  const auto step = [&]( RigidBody3DSim& x, unsigned it ) { x.impactMap() = ImpactMap( x.state().numPlanarPortals() == 0 ); x.flow( cb, it, dt, map, lcp, 0.5 ); }; // no cache for contacts through portals
  RigidBody3DSim copy( a );
  CHECK( bytesOf( copy ) == b0, "a copy differs" );
  step( copy, 1 );
  const std::string c1 = bytesOf( copy );
  CHECK( bytesOf( a ) == b0, "stepping a copy changed the original" );
  RigidBody3DSim assigned;
  if( g.b() ) { Scene s2; genFull( g, s2 ); assigned.state() = s2.build(); genPortals( g, assigned.state() ); }
  assigned = a;
  CHECK( bytesOf( assigned ) == b0, "an assigned copy differs" );
  a.state().addStaticPlane( StaticPlane( Vector3s( -90, 0, 0 ), Vector3s( 1, 0, 0 ) ) );
  a.state().addForce( NearEarthGravityForce( Vector3s( 0, 1, 0 ) ) );
  a.state().v()( 0 ) += 1.0;
  a.state().q()( 0 ) += 1.0;
  a.state().M()  *= 2.0;
  a.state().setBoundaryBehavior( SimBoundaryBehavior::EXIT );
  for( unsigned i = 0; i < a.state().numStaticPlanes(); ++i ) a.state().staticPlane( i ).v() = Vector3s( 1, 2, 3 );
  CHECK( bytesOf( assigned ) == b0 && bytesOf( copy ) == c1, "editing the original changed a copy" );
  step( assigned, 1 );
  CHECK( bytesOf( assigned ) == c1, "copies evolve differently" );
  RigidBody3DSim moved( std::move( assigned ) );
  CHECK( bytesOf( moved ) == c1, "moving changed the simulation" );
  RigidBody3DState s1 = moved.state();
  RigidBody3DState s2;
  s2 = s1;
  CHECK( bytesOf( s1 ) == bytesOf( moved.state() ) && bytesOf( s2 ) == bytesOf( s1 ), "state copies differ" );
  s1.q()( 0 ) += 1.0;
  CHECK( bytesOf( s2 ) == bytesOf( moved.state() ) && bytesOf( s1 ) != bytesOf( s2 ), "state copies share storage" );
  s2 = *&s2;
  CHECK( bytesOf( s2 ) == bytesOf( moved.state() ), "self assignment" );
  if( vmax( moved.state().v() ) < 1e3 )
  {
    std::unique_ptr<RigidBody3DSim> tmp( new RigidBody3DSim( moved ) );
    RigidBody3DSim keep( *tmp );
    tmp.reset();
    step( keep, 2 );
    step( moved, 2 );
    CHECK( bytesOf( keep ) == bytesOf( moved ), "runs are not deterministic" );
  }
}

SUBCHECK( "C32", "rb3d_boundary", "scenes of spheres, boxes or meshes stepped 1..4 times by every kind of step inside a boundary box placed around, through and inside the bodies' extents; with the exit behaviour the process must end with a failure exactly when a step leaves a body's extent beyond the box, otherwise the step must be the same as without a boundary; non-trivial when the box decides", 3000, 40000 )
{
  Scene s;
  SceneOpts o; o.nmax = 4; o.vel = 2.0;
  const SceneMode mode = g.pick( { SPHERES, BOXES, MESHES } );
  genBodies( g, s, mode, o );
  genGrav( g, s, 0.4 );
  if( mode != MESHES ) genObstacles( g, s, 1, 0, false );
  auto base = simOf( s );
  if( mode == SPHERES && g.b( 0.3 ) ) genPortals( g, base->state() );
  const std::unique_ptr<UnconstrainedMap> map = genMap( g, s.anyFixed() );
  const Rational<std::intmax_t> dt( 1, g.pick( { 10, 50 } ) );
  const int kind = g.i( 0, 2 );
  const int steps = g.i( 1, 4 );
  PythonScripting cb;
  const auto step = [&]( RigidBody3DSim& x, unsigned it )
  {
    if( kind == 0 ) x.flow( cb, it, dt, *map );
    else if( kind == 1 ) { LCPOperatorAPGD lcp( 1e-8, 200 ); x.flow( cb, it, dt, *map, lcp, 0.5 ); }
    else { Sobogus so( SobogusSolverType::RigidBodies3D, 10 ); GeometricImpactFrictionMap gm( 1e-8, 100, ImpulsesToCache::NONE ); x.flow( cb, it, dt, *map, 0.5, 0.3, so, gm ); }
  };
  std::vector<std::pair<Vector3s, Vector3s>> ext;
  std::vector<std::string> bytes;
  RigidBody3DSim free( *base );
  free.impactMap() = ImpactMap( false );
  const bool inert = g.b( 0.2 ); // a boundary without a behaviour is never enforced
  if( inert ) { free.state().setBoundaryMin( Vector3s::Constant( -0.01 ) ); free.state().setBoundaryMax( Vector3s::Constant( 0.01 ) ); }
  for( int k = 0; k < steps; ++k )
  {
    step( free, unsigned( k + 1 ) );
    Vector3s lo = Vector3s::Constant( 1e300 ), hi = -lo;
    for( int i = 0; i < s.n(); ++i )
    {
      const Vector3s x = Xof( free.state().q(), i );
      const M3 R = Rof( free.state().q(), i );
      Vector3s e;
      if( s.geo( i ).type == SPHERE3 ) e = Vector3s::Constant( s.geo( i ).r );
      else e = R.cwiseAbs() * s.geo( i ).h;
      lo = lo.cwiseMin( x - e ); hi = hi.cwiseMax( x + e );
    }
    if( !( lo.allFinite() && hi.allFinite() ) || vmax( free.state().v() ) > 100.0 ) throw Discard{};
    ext.push_back( { lo, hi } );
    bytes.push_back( bytesOf( free.state() ) );
  }
  // The box: around everything that happens, then one face moved
  Vector3s lo = ext[0].first, hi = ext[0].second;
  for( auto& e : ext ) { lo = lo.cwiseMin( e.first ); hi = hi.cwiseMax( e.second ); }
  lo.array() -= g.u( 0.01, 2.0 ); hi.array() += g.u( 0.01, 2.0 );
  if( g.b( 0.75 ) )
  {
    const int ax = g.i( 0, 2 ), k = g.i( 0, steps - 1 );
    const double off = g.pick( { g.s( 0.01 ), g.s( 0.3 ), g.s( 3.0 ) } );
    if( g.b() ) lo( ax ) = ext[k].first( ax ) + off; else hi( ax ) = ext[k].second( ax ) + off;
  }
  if( !( lo.array() < hi.array() ).all() ) throw Discard{};
  const bool unset = g.b( 0.1 ); // no box was ever set: nothing can leave it
  int expect = 0; // first step that leaves the box
  for( int k = 0; k < steps && !expect && !unset; ++k )
  {
    const double in = std::min( ( ext[k].first - lo ).minCoeff(), ( hi - ext[k].second ).minCoeff() );
    if( std::fabs( in ) < 1e-9 ) throw Discard{};
    if( in < 0.0 ) expect = k + 1;
  }
  c.nontrivial( expect > 0 );
  c.label( expect ? "leaves" : "stays" );
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " kind " << kind << " map " << map->name() << " dt " << dt << " steps " << steps << " box " << lo.transpose() << " .. " << hi.transpose() << " expect exit at step " << expect; } );
  base->state().setBoundaryBehavior( SimBoundaryBehavior::EXIT );
  if( !unset ) { base->state().setBoundaryMin( lo ); base->state().setBoundaryMax( hi ); }
  if( g.b() ) { RigidBody3DSim x; std::stringstream st; base->serialize( st ); x.deserialize( st ); *base = x; }
  const auto run = [&]( std::ostream& out )
  {
    RigidBody3DSim x( *base );
    x.impactMap() = ImpactMap( false );
    for( int k = 0; k < steps; ++k )
    {
      out << "+" << std::flush;
      step( x, unsigned( k + 1 ) );
      if( x.state().q() != free.state().q() && k == steps - 1 ) return 7;
    }
    return 0;
  };
  if( expect )
  {
    const ForkResult r = inFork( run );
    CHECK( r.exited && r.code == EXIT_FAILURE, "a body leaves the boundary in step " << expect << " but the run ended with " << ( r.exited ? "status " : "signal " ) << ( r.exited ? r.code : r.signal ) );
  }
  else
  {
    // Must not exit: an exit here ends the case and is reported as such
    std::ostringstream out;
    CHECK( run( out ) == 0, "a boundary that nothing reaches changed the motion" );
  }
  // The exit must come in the very step that leaves
  if( expect > 1 )
  {
    RigidBody3DSim x( *base );
    x.impactMap() = ImpactMap( false );
    for( int k = 0; k + 1 < expect; ++k ) step( x, unsigned( k + 1 ) );
    const ForkResult r = inFork( [&]( std::ostream& ) { step( x, unsigned( expect ) ); return 0; } );
    CHECK( r.exited && r.code == EXIT_FAILURE, "no exit in the step in which a body leaves the boundary" );
  }
}

// ---------------------------------------------------------------------------------------------------- reported quantities
SUBCHECK( "C34", "rb3d_reports", "scenes of spheres, boxes or meshes with gravity, planes and cylinders, fresh or after steps; energies, momenta, contact counts, depths and overlap volumes recomputed from the state; non-trivial when something moves", 15000, 200000 )
{
  Scene s;
  const SceneMode mode = g.pick( { SPHERES, SPHERES, BOXES, MESHES } );
  SceneOpts o;
  genBodies( g, s, mode, o );
  genGrav( g, s, 0.7 );
  if( g.b( 0.5 ) ) genObstacles( g, s, 2, mode == SPHERES ? 1 : 0, mode == SPHERES );
  auto sim = simOf( s );
  const int steps = g.w( { 3, 1, 1 } );
  PythonScripting cb;
  for( int k = 1; k <= steps; ++k ) { SplitHamMap map; sim->flow( cb, unsigned( k ), Rational<std::intmax_t>( 1, 200 ), map ); }
  RigidBody3DState& st = sim->state();
  const int n = s.n();
  const VectorXs q = st.q(), v = st.v();
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " after " << steps << " steps"; } );
  double ke = 0, U = 0, S = 1;
  Vector3s p = Vector3s::Zero(), L = Vector3s::Zero();
  for( int i = 0; i < n; ++i )
  {
    const Body& b = s.bodies[i];
    const Vector3s x = Xof( q, i ), u = Xof( v, i ), w = Wof( v, i ), wb = Rof( q, i ).transpose() * w;
    ke += 0.5 * b.m * u.squaredNorm() + 0.5 * ( b.I.array() * wb.array().square() ).sum();
    U -= b.m * s.grav.dot( x );
    p += b.m * u;
    L += b.m * x.cross( u ) + Rof( q, i ) * Vector3s( b.I.array() * wb.array() );
    S += ( b.m + b.I.sum() ) * ( 1 + x.norm() ) * ( 1 + u.norm() + w.norm() );
  }
  if( steps > 0 ) st.updateMandMinv();
  CHECK( near( sim->computeKineticEnergy(), ke, 1e-10, ke ), "kinetic energy " << sim->computeKineticEnergy() << " expected " << ke );
  CHECK( near( sim->computePotentialEnergy(), U, 1e-11, S * 10 ), "potential energy " << sim->computePotentialEnergy() << " expected " << U );
  CHECK( near( sim->computeTotalEnergy(), U + ke, 1e-10, S * 10 + ke ), "total energy" );
  CHECK( ( sim->computeTotalMomentum() - p ).norm() <= 1e-12 * S, "momentum " << sim->computeTotalMomentum().transpose() << " expected " << p.transpose() );
  CHECK( ( sim->computeTotalAngularMomentum() - L ).norm() <= 1e-10 * S, "angular momentum " << sim->computeTotalAngularMomentum().transpose() << " expected " << L.transpose() );
  c.nontrivial( ke > 0 );
  const std::string before = bytesOf( st );
  if( mode == SPHERES )
  {
    std::map<std::string, unsigned> cnt, wc;
    std::map<std::string, scalar> dep, vol, wd, wv;
    const auto touch = [&]( const char* kind, double gap, double volume )
    {
      if( std::fabs( gap ) < 1e-9 ) throw Discard{};
      if( gap < 0.0 ) { ++wc[kind]; wd[kind] += gap; wv[kind] += volume; }
    };
    for( int i = 0; i < n; ++i )
    {
      const Body& b = s.bodies[i];
      const Vector3s x = Xof( q, i );
      const double r = s.geo( i ).r;
      for( int j = i + 1; j < n; ++j ) if( !b.fixed || !s.bodies[j].fixed )
      {
        const double R = s.geo( j ).r, d = ( x - Xof( q, j ) ).norm();
        // Lens of two spheres, or the smaller of two nested ones
        double lens = 0.0;
        if( d < std::fabs( r - R ) ) lens = 4.0 / 3.0 * M_PI * std::pow( std::min( r, R ), 3.0 );
        else if( d < r + R ) lens = M_PI * ( r + R - d ) * ( r + R - d ) * ( d * d + 2.0 * d * ( r + R ) - 3.0 * ( r - R ) * ( r - R ) ) / ( 12.0 * d );
        touch( b.fixed || s.bodies[j].fixed ? "kinematic_sphere_sphere" : "sphere_sphere", d - r - R, lens );
      }
      if( b.fixed ) continue;
      for( auto& pl : s.planes ) touch( "static_plane_sphere", pl.n.normalized().dot( x - pl.x ) - r, 0.0 );
      for( auto& cy : s.cyls ) { const Vector3s a = cy.axis.normalized(), y = x - cy.x; touch( "static_cylinder_sphere", cy.r - r - ( y - a.dot( y ) * a ).norm(), 0.0 ); }
    }
    if( g.b( 0.3 ) ) { cnt["stale"] = 3; dep["stale"] = 1.0; vol["stale"] = 1.0; }
    sim->computeNumberOfCollisions( cnt, dep, vol );
    CHECK( cnt == wc, "contact counts" );
    for( auto& e : wd ) CHECK( near( dep[e.first], e.second, 1e-9, S ), "total depth of " << e.first << " is " << dep[e.first] << " expected " << e.second );
    for( auto& e : wv ) CHECK( std::isnan( vol[e.first] ) || near( vol[e.first], e.second, 1e-9, S ), "total overlap volume of " << e.first << " is " << vol[e.first] << " expected " << e.second );
    if( wc.count( "sphere_sphere" ) ) CHECK( !std::isnan( dep["sphere_sphere"] ) && !std::isnan( vol["sphere_sphere"] ), "no depth or volume" );
    CHECK( dep.size() == wd.size() && vol.size() == wv.size(), "kinds of depths" );
  }
  CHECK( bytesOf( st ) == before, "asking for reports changed the simulation" );
}

SUBCHECK( "C36", "state_reports", "full 3D rigid body states written as the program writes them and read by the post-processing tools; every mesh body they report compared with the state, and files lacking a member are refused; non-trivial with at least two bodies, one of them a mesh", 12000, 150000 )
{
  if( !post::available() ) return;
  Scene s;
  genFull( g, s );
  auto sp = simOf( s );
  RigidBody3DState& st = sp->state();
  const double dt = g.pick( { 0.001, 0.01, 0.125, 1.0 / 3.0 } );
  const unsigned it = unsigned( g.i( 0, 100000 ) );
  const FileHead head{ dt, dt * it, it, std::string( "c0ffee" ) + std::to_string( g.i( 0, 9 ) ) };
  const int n = s.n();
  std::vector<int> mesh;
  for( int i = 0; i < n; ++i ) if( s.geo( i ).type != BOX3 && s.geo( i ).type != SPHERE3 && s.geo( i ).type != STAPLE3 ) mesh.push_back( i );
  c.nontrivial( n > 1 && !mesh.empty() );
  c.note( [&]( std::ostream& os ) { describe( os, s ); os << " dt " << dt << " iteration " << it; } );
  const std::string fn = scratchFile( "poststate" );
  { HDF5File f( fn, HDF5AccessType::READ_WRITE ); head.write( f ); sp->writeBinaryState( f ); }
  struct Remove { std::string f; ~Remove() { unlink( f.c_str() ); } } remove{ fn };
  const auto vec = [&]( const std::vector<double>& got, const VectorXs& want, double tol, double scale )
  {
    if( int( got.size() ) != want.size() ) return false;
    for( int k = 0; k < want.size(); ++k ) if( !near( got[size_t( k )], want( k ), tol, scale ) ) return false;
    return true;
  };
  struct Want { VectorXs x, R, v, w, I; double m, fixed, is; std::string name; };
  std::vector<Want> want;
  for( int i : mesh )
  {
    Want k;
    k.x = st.q().segment<3>( 3 * i );
    k.R = st.q().segment<9>( 3 * n + 9 * i );
    k.v = st.v().segment<3>( 3 * i );
    k.w = st.v().segment<3>( 3 * n + 3 * i );
    k.m = s.bodies[i].m;
    const M3 R = Rof( st.q(), i ), I = R * s.bodies[i].I.asDiagonal() * R.transpose();
    k.I.resize( 9 );
    for( int r = 0; r < 3; ++r ) for( int l = 0; l < 3; ++l ) k.I( 3 * r + l ) = I( r, l );
    k.is = s.bodies[i].I.maxCoeff();
    k.fixed = s.bodies[i].fixed;
    k.name = s.geo( i ).mesh.name;
    want.push_back( k );
  }
  {
    const post::Answer a = post::ask( "state " + fn );
    CHECK( a.status == "ok", "DiscreteState refuses a state with " << n << " bodies: " << a.status );
    checkPostHead( c, a.lines, head, "DiscreteState" );
    CHECK( a.lines[4] == "bodies " + std::to_string( n ), "DiscreteState: '" << a.lines[4] << "' for " << n << " bodies" );
    CHECK( a.lines.size() == 5 + want.size(), "DiscreteState lists " << a.lines.size() - 5 << " of " << want.size() << " mesh bodies" );
    for( size_t k = 0; k < want.size(); ++k )
    {
      const auto f = post::fields( a.lines[5 + k].substr( 5 ) );
      const Want& w = want[k];
      CHECK( f.size() == 8, "DiscreteState: " << a.lines[5 + k] );
      CHECK( vec( post::numbers( f[0] ), w.x, 0.0, 1.0 ), "body " << mesh[k] << " at " << w.x.transpose() << " reported at " << f[0] );
      CHECK( vec( post::numbers( f[1] ), w.R, 0.0, 1.0 ), "body " << mesh[k] << " turned by " << w.R.transpose() << " reported by " << f[1] );
      CHECK( vec( post::numbers( f[2] ), w.v, 0.0, 1.0 ), "body " << mesh[k] << " moving by " << w.v.transpose() << " reported by " << f[2] );
      CHECK( vec( post::numbers( f[3] ), w.w, 0.0, 1.0 ), "body " << mesh[k] << " spinning by " << w.w.transpose() << " reported by " << f[3] );
      CHECK( vec( post::numbers( f[4] ), VectorXs::Constant( 1, w.m ), 0.0, 1.0 ), "body " << mesh[k] << " of mass " << w.m << " reported with " << f[4] );
      CHECK( vec( post::numbers( f[5] ), w.I, 1e-12, w.is ), "body " << mesh[k] << " of inertia " << w.I.transpose() << " reported with " << f[5] );
      CHECK( vec( post::numbers( f[6] ), VectorXs::Constant( 1, w.fixed ), 0.0, 1.0 ), "body " << mesh[k] << " fixed " << w.fixed << " reported as " << f[6] );
      CHECK( f[7] == w.name, "body " << mesh[k] << " has mesh " << w.name << " but '" << f[7] << "' is reported" );
    }
  }
  if( g.b( 0.5 ) )
  {
    const post::Answer a = post::ask( "print_meshes " + fn );
    CHECK( a.status == "ok", "print_meshes refuses a state with " << n << " bodies: " << a.status );
    checkPostPrintedHead( c, a.lines, head, "print_meshes" );
    const size_t per = 13;
    CHECK( a.lines.size() == 4 + per * want.size(), "print_meshes prints " << a.lines.size() << " lines for " << want.size() << " meshes" );
    for( size_t k = 0; k < want.size(); ++k )
    {
      const std::string* l = &a.lines[4 + per * k];
      const Want& w = want[k];
      CHECK( l[0] == "Body: " + std::to_string( k ), "print_meshes: " << l[0] );
      const auto tail = [&]( int line, const char* key, int rows )
      {
        const std::string p = std::string( "  " ) + key + ":";
        std::vector<double> v;
        if( !post::startsWith( l[line], p ) ) return v;
        for( int r = 0; r < rows; ++r ) for( double x : post::numbers( r ? l[line + r] : l[line].substr( p.size() ) ) ) v.push_back( x );
        return v;
      };
      CHECK( vec( tail( 1, "x", 1 ), w.x, 1e-15, vmax( w.x ) ), "print_meshes: '" << l[1] << "' for " << w.x.transpose() );
      CHECK( vec( tail( 2, "R", 3 ), w.R, 1e-15, 1.0 ), "print_meshes: '" << l[2] << l[3] << l[4] << "' for " << w.R.transpose() );
      CHECK( vec( tail( 5, "v", 1 ), w.v, 1e-15, vmax( w.v ) ), "print_meshes: '" << l[5] << "' for " << w.v.transpose() );
      CHECK( vec( tail( 6, "omega", 1 ), w.w, 1e-15, vmax( w.w ) ), "print_meshes: '" << l[6] << "' for " << w.w.transpose() );
      CHECK( vec( tail( 7, "M", 1 ), VectorXs::Constant( 1, w.m ), 1e-15, w.m ), "print_meshes: '" << l[7] << "' for mass " << w.m );
      CHECK( vec( tail( 8, "I", 3 ), w.I, 1e-12, w.is ), "print_meshes: '" << l[8] << l[9] << l[10] << "' for " << w.I.transpose() );
      CHECK( post::startsWith( l[11], "  fixed: " ) && post::numbers( l[11] ) == std::vector<double>{ w.fixed }, "print_meshes: '" << l[11] << "' for " << w.fixed );
      CHECK( l[12] == "  mesh_name: " + w.name, "print_meshes: '" << l[12] << "' for " << w.name );
    }
  }
  if( g.b( 0.2 ) )
  {
    const char* k = g.pick( { "/state/q", "/state/v", "/state/M0", "/geometry/geometry_indices", "/state/kinematically_scripted", "/git_hash", "/iteration", "/time", "/timestep" } );
    const post::Answer a = post::ask( "print_meshes " + fn + " drop=" + k );
    CHECK( post::startsWith( a.status, "exit" ) && a.lines.empty(), "print_meshes accepts a file without " << k << ": " << a.status );
    const post::Answer b = post::ask( "print_meshes " + fn + ".missing" );
    CHECK( post::startsWith( b.status, "exit" ) && b.lines.empty(), "print_meshes accepts a missing file: " << b.status );
  }
}
