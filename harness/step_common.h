// Whole-step oracles shared by the simulators: impact steps, friction steps, impulse caches, exported forces.
#ifndef VERIF_STEP_COMMON_H
#define VERIF_STEP_COMMON_H
#include <cstring>
#include <memory>
#include <new>
#include "sim_common.h"
#include "post_reader.h"
#include <unistd.h>
#include <tuple>
#include <map>

inline std::string scratchFile( const char* what )
{
  const char* d = getenv( "VERIF_SCRATCH" );
  return std::string( d ? d : "/tmp" ) + "/" + what + "_" + std::to_string( getpid() ) + ".h5";
}

struct ContactId
{
  std::string name;
  int b0 = -1, b1 = -1, st = -1;
  bool operator<( const ContactId& o ) const { return std::tie( name, b0, b1, st ) < std::tie( o.name, o.b0, o.b1, o.st ); }
  bool operator==( const ContactId& o ) const { return name == o.name && b0 == o.b0 && b1 == o.b1 && st == o.st; }
  // Index convention of the output files
  int second() const { return b1 == -1 ? -st - 2 : b1; }
};
inline std::ostream& operator<<( std::ostream& o, const ContactId& k ) { return o << k.name << "(" << k.b0 << "," << k.b1 << "," << k.st << ")"; }
inline ContactId idOf( const Constraint& k )
{
  ContactId r;
  r.name = k.name();
  std::pair<int, int> p;
  k.getBodyIndices( p );
  r.b0 = p.first;
  r.b1 = p.second;
  if( p.second == -1 ) r.st = int( k.getStaticObjectIndex() );
  return r;
}
inline std::vector<ContactId> idsOf( const Cons& cons ) { std::vector<ContactId> r; for( auto& k : cons ) r.push_back( idOf( *k ) ); return r; }

// What the warm-starting cache has to contain
using CacheModel = std::map<ContactId, VectorXs>;

// Which aspects of a step a check judges
enum StepAspect { DYN = 1, COEF = 2, WARM = 4, FILES = 8, CONSERVE = 16, POST = 32 };

struct RecImpact final : public ImpactOperator
{
  ImpactOperator& inner;
  int calls = 0;
  std::vector<ContactId> ids;
  VectorXs CoR, alpha_in, alpha, q0, v0, v0F, nrel;
  MatrixXXsc N, Q, points, normals;
  explicit RecImpact( ImpactOperator& o ) : inner( o ) {}
  void flow( const Cons& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q, const VectorXs& v, const VectorXs& vF, const SparseMatrixsc& Nn, const SparseMatrixsc& Qn, const VectorXs& nr, const VectorXs& cor, VectorXs& a ) override
  {
    ++calls;
    ids = idsOf( cons );
    CoR = cor; alpha_in = a; q0 = q; v0 = v; v0F = vF; nrel = nr; N = MatrixXXsc( Nn ); Q = MatrixXXsc( Qn );
    inner.flow( cons, M, Minv, q, v, vF, Nn, Qn, nr, cor, a );
    alpha = a;
  }
  std::string name() const override { return inner.name(); }
  std::unique_ptr<ImpactOperator> clone() const override { return inner.clone(); }
  void serialize( std::ostream& o ) const override { inner.serialize( o ); }
};

inline bool closeVec( const VectorXs& a, const VectorXs& b, double tol ) { return a.size() == b.size() && ( a.size() == 0 || ( a - b ).lpNorm<Eigen::Infinity>() <= tol * ( 1.0 + vmax( b ) ) ); }

inline double h5At( const fakeh5::Dataset& d, int r, int cc ) { const auto v = fakeh5::values( d ); return v[ size_t( r ) * size_t( d.dims.size() > 1 ? d.dims[1] : 1 ) + size_t( cc ) ]; }

// What a recorded file says about the step it belongs to, as the command line programs write it
struct FileHead
{
  double timestep, time;
  unsigned iteration;
  std::string hash;
  void write( HDF5File& f ) const { f.write( "timestep", timestep ); f.write( "iteration", iteration ); f.write( "time", time ); f.write( "git_hash", hash ); }
};
// The answer of the post-processing readers about that step
inline void checkPostHead( pbt::Ctx& c, const std::vector<std::string>& lines, const FileHead& h, const char* what )
{
  CHECK( lines.size() >= 5, what << " printed " << lines.size() << " lines" );
  CHECK( lines[0] == "hash " + h.hash, what << ": '" << lines[0] << "' for git hash " << h.hash );
  CHECK( post::numbers( lines[1] ) == std::vector<double>{ double( h.iteration ) }, what << ": '" << lines[1] << "' for iteration " << h.iteration );
  CHECK( post::numbers( lines[2] ) == std::vector<double>{ h.time }, what << ": '" << lines[2] << "' for time " << h.time );
  CHECK( post::numbers( lines[3] ) == std::vector<double>{ h.timestep }, what << ": '" << lines[3] << "' for timestep " << h.timestep );
}
inline void checkPostPrintedHead( pbt::Ctx& c, const std::vector<std::string>& lines, const FileHead& h, const char* what )
{
  CHECK( lines.size() >= 4, what << " printed " << lines.size() << " lines" );
  CHECK( lines[0] == "Git hash: " + h.hash, what << ": '" << lines[0] << "'" );
  CHECK( post::startsWith( lines[1], "Iteration: " ) && post::numbers( lines[1] ) == std::vector<double>{ double( h.iteration ) }, what << ": '" << lines[1] << "' for iteration " << h.iteration );
  CHECK( post::startsWith( lines[2], "Timestep: " ) && post::numbers( lines[2] ) == std::vector<double>{ h.timestep }, what << ": '" << lines[2] << "' for timestep " << h.timestep );
  CHECK( post::startsWith( lines[3], "Time: " ) && post::numbers( lines[3] ) == std::vector<double>{ h.time }, what << ": '" << lines[3] << "' for time " << h.time );
}
inline void checkPostCollisions( pbt::Ctx& c, const std::string& file, const FileHead& h, const std::vector<ContactId>& ids, const MatrixXXsc& points, const MatrixXXsc& normals, const MatrixXXsc& forces )
{
  const int n = int( ids.size() );
  const auto same = [&]( const std::vector<double>& got, const MatrixXXsc& want, int i, double tol, double scale )
  {
    if( got.size() != 3 ) return false;
    for( int r = 0; r < 3; ++r ) if( !near( got[size_t( r )], want( r, i ), tol, scale ) ) return false;
    return true;
  };
  const auto pair = [&]( const std::vector<double>& got, int i ) { return got == std::vector<double>{ double( ids[size_t( i )].b0 ), double( ids[size_t( i )].second() ) }; };
  {
    const post::Answer a = post::ask( "collisions " + file );
    CHECK( a.status == "ok", "CollisionState refuses a force file with " << n << " contacts: " << a.status );
    checkPostHead( c, a.lines, h, "CollisionState" );
    CHECK( a.lines[4] == "count " + std::to_string( n ), "CollisionState: '" << a.lines[4] << "' for " << n << " contacts" );
    CHECK( int( a.lines.size() ) == 5 + n, "CollisionState lists " << a.lines.size() - 5 << " of " << n << " contacts" );
    for( int i = 0; i < n; ++i )
    {
      const auto f = post::fields( a.lines[size_t( 5 + i )].substr( std::string( "collision " ).size() ) );
      CHECK( f.size() == 4, "CollisionState: " << a.lines[size_t( 5 + i )] );
      CHECK( same( post::numbers( f[0] ), forces, i, 1e-10, vmax( forces.col( i ) ) ), "CollisionState gives impulse " << f[0] << " for " << ids[i] << ", which had " << forces.col( i ).transpose() );
      CHECK( pair( post::numbers( f[1] ), i ), "CollisionState gives bodies " << f[1] << " for " << ids[i] );
      CHECK( same( post::numbers( f[2] ), normals, i, 1e-12, 0.0 ), "CollisionState gives normal " << f[2] << " for " << ids[i] << ", which had " << normals.col( i ).transpose() );
      CHECK( same( post::numbers( f[3] ), points, i, 1e-12, vmax( points.col( i ) ) ), "CollisionState gives point " << f[3] << " for " << ids[i] << ", which had " << points.col( i ).transpose() );
    }
  }
  {
    const post::Answer a = post::ask( "print_collisions " + file );
    CHECK( a.status == "ok", "print_collisions refuses a force file with " << n << " contacts: " << a.status );
    checkPostPrintedHead( c, a.lines, h, "print_collisions" );
    CHECK( int( a.lines.size() ) == 4 + 5 * n, "print_collisions prints " << a.lines.size() << " lines for " << n << " contacts" );
    for( int i = 0; i < n; ++i )
    {
      const std::string* l = &a.lines[size_t( 4 + 5 * i )];
      CHECK( l[0] == "Collision: " + std::to_string( i ), "print_collisions: " << l[0] );
      const auto tail = [&]( int k, const char* key ) { const std::string p = std::string( "  " ) + key + ": "; return post::startsWith( l[k], p ) ? post::numbers( l[k].substr( p.size() ) ) : std::vector<double>(); };
      CHECK( same( tail( 1, "impulse" ), forces, i, 1e-10, vmax( forces.col( i ) ) ), "print_collisions: '" << l[1] << "' for " << forces.col( i ).transpose() );
      CHECK( pair( tail( 2, "indices" ), i ), "print_collisions: '" << l[2] << "' for " << ids[i] );
      CHECK( same( tail( 3, "normal" ), normals, i, 1e-12, 0.0 ), "print_collisions: '" << l[3] << "' for " << normals.col( i ).transpose() );
      CHECK( same( tail( 4, "point" ), points, i, 1e-12, vmax( points.col( i ) ) ), "print_collisions: '" << l[4] << "' for " << points.col( i ).transpose() );
    }
  }
}

inline void checkForceFile( pbt::Ctx& c, int aspects, const FileHead& h, const std::string& file, const std::vector<ContactId>& ids, const MatrixXXsc& points, const MatrixXXsc& normals, const MatrixXXsc& forces )
{
  if( aspects & POST ) { checkPostCollisions( c, file, h, ids, points, normals, forces ); unlink( file.c_str() ); return; }
  fakeh5::Tree t;
  CHECK( fakeh5::load( file, t ), "force file is unreadable" );
  unlink( file.c_str() );
  const int n = int( ids.size() ), d = int( points.rows() );
  CHECK( t.sets.count( "/collision_count" ), "no collision_count" );
  CHECK( fakeh5::values( t.sets["/collision_count"] )[0] == n, "collision_count " << fakeh5::values( t.sets["/collision_count"] )[0] << " for " << n << " contacts" );
  if( n == 0 ) return;
  for( const char* k : { "/collision_indices", "/collision_points", "/collision_normals", "/collision_forces" } )
  {
    CHECK( t.sets.count( k ), "no " << k );
    const auto& s = t.sets[k];
    const int rows = std::string( k ) == "/collision_indices" ? 2 : d;
    CHECK( s.dims.size() == 2 && int( s.dims[0] ) == rows && int( s.dims[1] ) == n, k << " has the wrong shape" );
  }
  for( int i = 0; i < n; ++i )
  {
    CHECK( h5At( t.sets["/collision_indices"], 0, i ) == ids[i].b0 && h5At( t.sets["/collision_indices"], 1, i ) == ids[i].second(), "indices of " << ids[i] << ": " << h5At( t.sets["/collision_indices"], 0, i ) << " " << h5At( t.sets["/collision_indices"], 1, i ) );
    for( int r = 0; r < d; ++r )
    {
      CHECK( near( h5At( t.sets["/collision_points"], r, i ), points( r, i ), 1e-12, points( r, i ) ), "point of " << ids[i] );
      CHECK( near( h5At( t.sets["/collision_normals"], r, i ), normals( r, i ), 1e-12 ), "normal of " << ids[i] );
      CHECK( near( h5At( t.sets["/collision_forces"], r, i ), forces( r, i ), 1e-10, vmax( forces.col( i ) ) ), "force on " << ids[i] << ": " << h5At( t.sets["/collision_forces"], r, i ) << " expected " << forces( r, i ) );
    }
  }
}

// One impact step through ImpactMap, judged piece by piece. Returns the number of contacts; v2 is the post-impact velocity.
inline int impactStep( pbt::Ctx& c, int aspects, FlowableSystem& fs, ConstrainedSystem& cs, UnconstrainedMap& umap, ImpactMap& imap, bool warm, ImpactOperator& op, CoefCallback& cb, unsigned it, double dt, double CoR, const VectorXs& q0, const VectorXs& v0, VectorXs& q1, VectorXs& v1, VectorXs& v2, CacheModel& model, bool* well = nullptr )
{
  if( well ) *well = true;
  VectorXs qp( q0.size() ), vp( v0.size() );
  umap.flow( q0, v0, fs, it, dt, qp, vp );
  Cons A;
  cs.computeActiveSet( q0, qp, v0, A );
  const auto ids = idsOf( A );
  const int n = int( A.size() ), d = int( fs.ambientSpaceDimensions() );
  MatrixXXsc points( d, n ), normals( d, n );
  VectorXs wantcor = VectorXs::Constant( n, CoR );
  for( int i = 0; i < n; ++i )
  {
    VectorXs p, nn;
    A[i]->getWorldSpaceContactPoint( q0, p );
    A[i]->getWorldSpaceContactNormal( q0, nn );
    points.col( i ) = p;
    normals.col( i ) = nn;
    if( cb.cor ) wantcor( i ) = cb.cor( *A[i] );
  }
  RecImpact rec( op );
  alignas( ImpactSolution ) unsigned char room[sizeof( ImpactSolution )];
  ImpactSolution& sol = *new( room ) ImpactSolution;
  const bool files = aspects & ( FILES | POST );
  const FileHead head{ dt, dt * it, it, "0123abcd" + std::to_string( it ) };
  if( files ) imap.exportForcesNextStep( sol );
  q1 = VectorXs::Constant( q0.size(), 7.5 );
  v1 = VectorXs::Constant( v0.size(), -7.5 );
  imap.flow( cb, fs, cs, umap, rec, it, dt, CoR, q0, v0, q1, v1 );
  v2 = v0;
  if( n == 0 )
  {
    if( aspects & DYN )
    {
      CHECK( closeVec( q1, qp, 1e-13 ) && closeVec( v1, vp, 1e-13 ), "without contacts the step differs from the unconstrained step" );
    }
    model.clear();
  }
  else
  {
    CHECK( rec.calls == 1, "impact operator called " << rec.calls << " times" );
    CHECK( rec.ids == ids, "the impact operator saw other contacts than the predicted step has" );
    if( aspects & COEF ) CHECK( rec.CoR == wantcor, "coefficients of restitution " << rec.CoR.transpose() << " expected " << wantcor.transpose() );
    if( aspects & WARM )
    {
      VectorXs wa = VectorXs::Zero( n );
      if( warm ) for( int i = 0; i < n; ++i ) { auto m = model.find( ids[i] ); if( m != model.end() ) wa( i ) = m->second( 0 ); }
      CHECK( rec.alpha_in == wa, "warm start " << rec.alpha_in.transpose() << " expected " << wa.transpose() );
    }
    const SparseMatrixsc N = normalMatrix( fs, A, q0 );
    v2 = v0 + fs.Minv() * ( N * rec.alpha );
    if( well ) *well = wellConditioned( rec.Q );
    if( aspects & DYN )
    {
      VectorXs nrel;
      ImpactOperatorUtilities::evalKinematicRelativeVelocityN( q0, A, nrel );
      CHECK( rec.q0 == q0 && rec.v0 == v0 && rec.v0F == v0, "operator was given other velocities" );
      CHECK( closeVec( rec.nrel, nrel, 1e-12 ), "kinematic velocities" );
      CHECK( ( rec.N - MatrixXXsc( N ) ).lpNorm<Eigen::Infinity>() <= 1e-12, "normal matrix" );
      CHECK( ( rec.Q - MatrixXXsc( N.transpose() * fs.Minv() * N ) ).lpNorm<Eigen::Infinity>() <= 1e-9 * ( 1 + rec.Q.lpNorm<Eigen::Infinity>() ), "Delassus matrix" );
      VectorXs qe( q0.size() ), ve( v0.size() );
      umap.flow( q0, v2, fs, it, dt, qe, ve );
      CHECK( closeVec( q1, qe, 1e-10 ) && closeVec( v1, ve, 1e-10 ), "the step does not continue from the post-impact velocity" );
    }
    model.clear();
    if( warm ) for( int i = 0; i < n; ++i ) model[ids[i]] = VectorXs::Constant( 1, rec.alpha( i ) );
    if( aspects & WARM )
    {
      CHECK( cs.constraintCacheEmpty() == model.empty(), "cache emptiness" );
      if( warm ) for( int i = 0; i < n; ++i ) { VectorXs r( 1 ); r( 0 ) = -3; cs.getCachedConstraintImpulse( *A[i], r ); CHECK( r( 0 ) == rec.alpha( i ), "cached impulse of " << ids[i] ); }
    }
  }
  if( ( aspects & WARM ) && n == 0 ) CHECK( cs.constraintCacheEmpty(), "cache survives a step without contacts" );
  if( files )
  {
    const std::string fn = scratchFile( "force" );
    { HDF5File f( fn, HDF5AccessType::READ_WRITE ); head.write( f ); sol.writeSolution( f ); }
    MatrixXXsc forces( d, n );
    for( int i = 0; i < n; ++i ) forces.col( i ) = rec.alpha( i ) * normals.col( i );
    checkForceFile( c, aspects, head, fn, ids, points, normals, forces );
    // An export covers one step: the next one touches nothing that belonged to it
    sol.~ImpactSolution();
    std::memset( room, 0xA5, sizeof( room ) );
    VectorXs qx( q0.size() ), vx( v0.size() );
    imap.flow( cb, fs, cs, umap, rec, it, dt, CoR, q0, v0, qx, vx );
  }
  else sol.~ImpactSolution();
  return n;
}

enum class FMap { Geometric, Stabilized, SymplecticEuler };
struct FrictionSetup
{
  FMap map = FMap::Geometric;
  ImpulsesToCache cache = ImpulsesToCache::NONE;
  bool stabilize = false;
  double threshold = 0.0;
  double tol = 1e-9;
  unsigned iters = 2000;
  std::unique_ptr<ImpactFrictionMap> make() const
  {
    if( map == FMap::Geometric ) return std::unique_ptr<ImpactFrictionMap>( new GeometricImpactFrictionMap( tol, iters, cache ) );
    if( map == FMap::Stabilized ) return std::unique_ptr<ImpactFrictionMap>( new StabilizedImpactFrictionMap( tol, iters, false, false ) );
    return std::unique_ptr<ImpactFrictionMap>( new SymplecticEulerImpactFrictionMap( tol, iters, cache, stabilize, threshold ) );
  }
};

// One friction step, judged piece by piece. ncontacts returned.
inline int frictionStep( pbt::Ctx& c, int aspects, FlowableSystem& fs, ConstrainedSystem& cs, UnconstrainedMap& umap, ImpactFrictionMap& fmap, const FrictionSetup& su, JudgedSolver& js, CoefCallback& cb, unsigned it, double dt, double CoR, double mu, const VectorXs& q0, const VectorXs& v0, VectorXs& q1, VectorXs& v1, CacheModel& model )
{
  const int d = int( fs.ambientSpaceDimensions() ), s = d - 1;
  VectorXs qp( q0.size() ), vp( v0.size() ), vdelta = VectorXs::Zero( v0.size() );
  if( su.map == FMap::SymplecticEuler )
  {
    VectorXs F( v0.size() );
    fs.computeForce( q0, v0, it * dt, F );
    fs.zeroOutForcesOnFixedBodies( F );
    vdelta = dt * ( fs.Minv() * F );
    vp = v0 + vdelta;
    fs.linearInertialConfigurationUpdate( q0, vp, dt, qp );
  }
  else umap.flow( q0, v0, fs, it, dt, qp, vp );
  const VectorXs vin = su.map == FMap::Stabilized ? vp : v0;
  Cons A;
  cs.computeActiveSet( q0, qp, vin, A );
  const auto ids = idsOf( A );
  const int n = int( A.size() );
  MatrixXXsc points( d, n ), bases;
  cs.computeContactBases( q0, vin, A, bases );
  CHECK( bases.rows() == d && bases.cols() == d * n, "contact bases have the wrong shape" );
  VectorXs wantcor = VectorXs::Constant( n, CoR ), wantmu = VectorXs::Constant( n, mu );
  for( int i = 0; i < n; ++i )
  {
    VectorXs p, nn;
    A[i]->getWorldSpaceContactPoint( q0, p );
    A[i]->getWorldSpaceContactNormal( q0, nn );
    points.col( i ) = p;
    CHECK( ( nn - bases.col( d * i ) ).lpNorm<Eigen::Infinity>() <= 1e-9, "contact basis " << i << " does not start with the normal of " << ids[i] );
    if( cb.cor ) wantcor( i ) = cb.cor( *A[i] );
    if( cb.mu ) wantmu( i ) = cb.mu( *A[i] );
  }
  const int calls0 = js.calls;
  const bool files = aspects & ( FILES | POST );
  const FileHead head{ dt, dt * it, it, "0123abcd" + std::to_string( it ) };
  const std::string fn = scratchFile( "fforce" );
  q1 = VectorXs::Constant( q0.size(), 7.5 );
  v1 = VectorXs::Constant( v0.size(), -7.5 );
  std::unique_ptr<HDF5File> out;
  if( files )
  {
    out.reset( new HDF5File( fn, HDF5AccessType::READ_WRITE ) );
    head.write( *out );
    fmap.exportForcesNextStep( *out );
  }
  fmap.flow( cb, fs, cs, umap, js, it, dt, CoR, mu, q0, v0, q1, v1 );
  const bool caching = su.map != FMap::Stabilized && su.cache != ImpulsesToCache::NONE;
  if( n == 0 )
  {
    if( aspects & DYN )
    {
      CHECK( closeVec( q1, qp, 1e-13 ) && closeVec( v1, vp, 1e-13 ), "without contacts the step differs from the unconstrained step" );
    }
    model.clear();
    if( aspects & WARM ) CHECK( cs.constraintCacheEmpty(), "cache survives a step without contacts" );
  }
  else
  {
    CHECK( js.calls == calls0 + 1, "friction solver called " << js.calls - calls0 << " times" );
    CHECK( int( js.names.size() ) == n, "the friction solver saw other contacts" );
    for( int i = 0; i < n; ++i ) CHECK( js.names[i] == ids[i].name && js.bodies[i].first == ids[i].b0 && js.bodies[i].second == ids[i].b1 && js.statics[i] == ids[i].st, "the friction solver saw other contacts" );
    if( aspects & COEF )
    {
      CHECK( js.CoR == wantcor, "coefficients of restitution " << js.CoR.transpose() << " expected " << wantcor.transpose() );
      CHECK( js.mu == wantmu, "coefficients of friction " << js.mu.transpose() << " expected " << wantmu.transpose() );
    }
    if( aspects & DYN )
    {
      CHECK( js.q0 == q0 && closeVec( js.v0, vin, 1e-13 ), "the friction solver was given other velocities" );
      CHECK( ( js.bases - bases ).lpNorm<Eigen::Infinity>() <= 1e-12, "contact bases" );
      if( su.map == FMap::SymplecticEuler )
      {
        SparseMatrixsc N, D;
        contactMatrices( fs, A, q0, bases, N, D );
        VectorXs ne = N.transpose() * vdelta;
        if( su.stabilize ) for( int i = 0; i < n; ++i )
        {
          const double gap = A[i]->evaluateGapFunction( q0 );
          if( gap < 0.0 && -gap >= su.threshold ) ne( i ) += gap / dt;
        }
        CHECK( closeVec( js.nrel_extra, ne, 1e-9 ), "normal velocity from forces and drift " << js.nrel_extra.transpose() << " expected " << ne.transpose() );
        CHECK( closeVec( js.drel_extra, D.transpose() * vdelta, 1e-9 ), "tangential velocity from forces" );
        const VectorXs ve = js.v2 + vdelta;
        VectorXs qe( q0.size() );
        fs.linearInertialConfigurationUpdate( q0, ve, dt, qe );
        CHECK( closeVec( v1, ve, 1e-10 ) && closeVec( q1, qe, 1e-10 ), "the step does not continue from the solver's velocity" );
      }
      else
      {
        CHECK( js.nrel_extra.size() == 0 && js.drel_extra.size() == 0, "unexpected extra velocities" );
        VectorXs qe( q0.size() ), ve( v0.size() );
        if( su.map == FMap::Geometric ) umap.flow( q0, js.v2, fs, it, dt, qe, ve );
        else { ve = js.v2; fs.linearInertialConfigurationUpdate( q0, ve, dt, qe ); }
        CHECK( closeVec( v1, ve, 1e-10 ) && closeVec( q1, qe, 1e-10 ), "the step does not continue from the solver's velocity: q " << ( q1 - qe ).transpose() << " v " << ( v1 - ve ).transpose() );
      }
    }
    if( aspects & WARM )
    {
      for( int i = 0; i < n; ++i )
      {
        VectorXs want;
        if( caching ) { auto m = model.find( ids[i] ); if( m != model.end() ) want = m->second; }
        const VectorXs bi = js.beta_in.segment( s * i, s );
        if( want.size() == 0 ) CHECK( js.alpha_in( i ) == 0.0 && vmax( bi ) == 0.0, ids[i] << " starts from an impulse although nothing was cached for it" );
        else if( su.cache == ImpulsesToCache::NORMAL ) CHECK( js.alpha_in( i ) == want( 0 ) && vmax( bi ) == 0.0, ids[i] << " starts from " << js.alpha_in( i ) << " but " << want( 0 ) << " was cached" );
        else if( d == 2 ) CHECK( js.alpha_in( i ) == want( 0 ) && bi( 0 ) == want( 1 ), ids[i] << " starts from " << js.alpha_in( i ) << "," << bi << " but " << want.transpose() << " was cached" );
        else
        {
          // World force, carried along with the normal
          const Vector3s n0 = want.segment<3>( 0 ), f0 = want.segment<3>( 3 );
          const double fs_ = f0.norm();
          const Vector3s f1 = bases.block( 0, 3 * i, 3, 3 ) * Vector3s( js.alpha_in( i ), bi( 0 ), bi( 1 ) );
          CHECK( near( js.alpha_in( i ), f0.dot( n0 ), 1e-9, fs_ ), ids[i] << " warm normal impulse " << js.alpha_in( i ) << " cached " << f0.dot( n0 ) );
          CHECK( near( bi.norm(), ( f0 - n0 * f0.dot( n0 ) ).norm(), 1e-7, fs_ ), ids[i] << " warm friction impulse " << bi.norm() );
          const Vector3s n1 = bases.col( 3 * i );
          if( n0.dot( n1 ) > -0.99 )
          {
            const Vector3s ax = n0.cross( n1 );
            const double sn = ax.norm(), cn = n0.dot( n1 );
            Vector3s e = f0;
            if( sn > 1e-14 ) e = Eigen::AngleAxis<double>( std::atan2( sn, cn ), ax / sn ) * f0;
            CHECK( ( f1 - e ).norm() <= 1e-6 * ( 1 + fs_ ), ids[i] << " warm force " << f1.transpose() << " expected " << e.transpose() );
          }
        }
      }
    }
    model.clear();
    if( caching ) for( int i = 0; i < n; ++i )
    {
      VectorXs r;
      if( su.cache == ImpulsesToCache::NORMAL ) r = VectorXs::Constant( 1, js.alpha( i ) );
      else if( d == 2 ) { r.resize( 2 ); r << js.alpha( i ), js.beta( i ); }
      else
      {
        r.resize( 6 );
        r.segment<3>( 0 ) = bases.col( 3 * i );
        r.segment<3>( 3 ) = bases.block( 0, 3 * i, 3, 3 ) * Vector3s( js.alpha( i ), js.beta( 2 * i ), js.beta( 2 * i + 1 ) );
      }
      model[ids[i]] = r;
    }
    if( aspects & WARM )
    {
      CHECK( cs.constraintCacheEmpty() == model.empty(), "cache emptiness after a step" );
      if( caching ) for( int i = 0; i < n; ++i )
      {
        VectorXs r = VectorXs::Constant( model[ids[i]].size(), -3.0 );
        cs.getCachedConstraintImpulse( *A[i], r );
        CHECK( closeVec( r, model[ids[i]], 1e-12 ), "cached impulse of " << ids[i] );
      }
    }
  }
  if( files )
  {
    MatrixXXsc forces( d, n ), normals( d, n );
    for( int i = 0; i < n; ++i )
    {
      VectorXs w( d );
      w( 0 ) = js.alpha( i );
      w.tail( s ) = js.beta.segment( s * i, s );
      forces.col( i ) = bases.block( 0, d * i, d, d ) * w;
      normals.col( i ) = bases.col( d * i );
    }
    // An export covers one step: the next one writes nothing
    VectorXs qx( q0.size() ), vx( v0.size() );
    fmap.flow( cb, fs, cs, umap, js, it, dt, CoR, mu, q0, v0, qx, vx );
    out.reset();
    checkForceFile( c, aspects, head, fn, ids, points, normals, forces );
  }
  return n;
}
#endif
