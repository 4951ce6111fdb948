// Scene files and the command line program of the 3D rigid body simulator: what the generic checks need to know
#ifndef VERIF_R3_TRAIT_H
#define VERIF_R3_TRAIT_H
#include "scene_cli.h"
#include "scene_py.h"
#include "r3_scene.h"
#include "rigidbody3dutils/RigidBody3DSceneParser.h"
#include "rigidbody3dutils/RenderingState.h"

namespace
{
using sf::Node; using sf::At; using sf::Num; using sf::Parsed; using sf::Break; using sf::real; using sf::positive; using sf::nonneg; using sf::integer; using sf::boolean; using sf::numText; using sf::val;
struct V3 { Num a, b, c; std::string t() const { return a.t + " " + b.t + " " + c.t; } Vector3s v() const { return Vector3s( a.v, b.v, c.v ); } };
inline V3 real3( Gen& g, double m ) { V3 r; r.a = real( g, m ); r.b = real( g, m ); r.c = real( g, m ); return r; }
inline std::string plain( const Num& n ) { return n.t[0] == '+' ? n.t.substr( 1 ) : n.t; }

struct R3
{
  using Sim = RigidBody3DSim;
  static const char* key() { return "VERIF_BIN_R3"; }
  static unsigned magic() { return 90210; }
  static std::string& where() { static std::string s; return s; }
  static void enter( const std::string& d ) { where() = d; }
  // Staples cannot be serialized: the expected state is kept as it is
  static RigidBody3DState& expected() { static RigidBody3DState s; return s; }
  static std::string inDir( const std::string& f ) { return f; }
  // What the program does before the first step
  static void begin( Sim& s ) { std::map<std::string, unsigned> a; std::map<std::string, scalar> b, d; s.computeNumberOfCollisions( a, b, d ); }
  static void finish( Parsed& ) {}

  static void writeMesh( const std::string& file, const MeshData& m )
  {
    HDF5File f( file, HDF5AccessType::READ_WRITE );
    f.write( "mesh/vertices", m.verts );
    f.write( "mesh/faces", m.faces );
    f.write( "moments/volume", scalar( m.volume ) );
    f.write( "moments/I_on_rho", m.I_on_rho );
    f.write( "moments/x", m.cm );
    f.write( "moments/R", Matrix3s( m.R ) );
    f.write( "surface_samples/samples", m.samples );
    f.write( "convex_hull/vertices", m.hull );
    f.write( "sdf/cell_delta", m.delta );
    f.write( "sdf/grid_dimensions", m.dims );
    f.write( "sdf/grid_origin", m.origin );
    f.write( "sdf/signed_distance", m.sdf );
  }
  static std::unique_ptr<RigidBodyGeometry> genGeometry( Gen& g, Node& n, int shape, bool tame, int serial )
  {
    const double hi = tame ? 0.6 : 5.0;
    if( shape == SPHERE3 )
    {
      const Num r = positive( g, 0.2, hi );
      n.add( "type", "sphere", sf::ENUM );
      n.add( "r", r.t, sf::POS );
      return std::unique_ptr<RigidBodyGeometry>( new RigidBodySphere( r.v ) );
    }
    if( shape == BOX3 )
    {
      V3 h;
      h.a = positive( g, 0.2, hi ); h.b = positive( g, 0.2, hi ); h.c = positive( g, 0.2, hi );
      n.add( "type", "box", sf::ENUM );
      n.add( "r", h.t(), sf::LISTPOS, 3 );
      return std::unique_ptr<RigidBodyGeometry>( new RigidBodyBox( h.v() ) );
    }
    if( shape == STAPLE3 )
    {
      const Num w = positive( g, 1.0, hi ), l = positive( g, 1.0, hi ), D = positive( g, 0.1, 0.9 );
      n.add( "type", "staple", sf::ENUM );
      n.add( "w", w.t, sf::POS ); n.add( "l", l.t, sf::POS );
      if( D.v >= w.v || D.v >= l.v ) throw Discard{};
      At& d = n.add( "D", D.t, sf::POS );
      d.reject.push_back( std::to_string( int( std::min( w.v, l.v ) ) + 2 ) );
      d.reject.push_back( w.v < l.v ? w.t : l.t );
      return std::unique_ptr<RigidBodyGeometry>( new RigidBodyStaple( w.v, l.v, D.v ) );
    }
    MeshData m = boxMesh( g, Vector3s( g.u( 0.2, hi ), g.u( 0.2, hi ), g.u( 0.2, hi ) ) );
    if( !tame ) { m.cm = vec3( g, 2.0 ); m.R = rot3( g ); }
    m.name = where() + "/mesh" + std::to_string( serial ) + ".h5";
    writeMesh( m.name, m );
    n.add( "type", "mesh", sf::ENUM );
    At& f = n.add( "filename", m.name, sf::TEXT );
    (void) f;
    return m.make();
  }
  static std::string lookOf( const RenderingState& r )
  {
    std::ostringstream o;
    o.precision( 17 );
    if( r.cameraSettingsInitialized() )
    {
      if( r.perspectiveCameraSelected() ) o << "perspective " << r.cameraTheta() << " " << r.cameraPhi() << " " << r.cameraRho() << " " << r.cameraLookAt().transpose() << " " << r.cameraUp().transpose();
      if( r.orthographicCameraSelected() ) o << "orthographic " << r.orthographicProjectionPlane() << " " << r.orthographicX().transpose() << " " << r.orthographicScale();
      o << " fps " << r.FPS() << " " << r.renderAtFPS() << " " << r.locked();
    }
    for( unsigned i = 0; i < r.numPlaneRenderers(); ++i ) o << " plane " << r.planeRenderer( i ).index() << " " << r.planeRenderer( i ).r().transpose();
    for( unsigned i = 0; i < r.numCylinderRenderers(); ++i ) o << " cylinder " << r.cylinderRenderer( i ).index() << " " << r.cylinderRenderer( i ).L();
    for( unsigned i = 0; i < r.numPlanarPortalRenderers(); ++i ) o << " portal " << r.portalRenderer( i ).portalIndex() << " " << r.portalRenderer( i ).halfWidth0().transpose() << " " << r.portalRenderer( i ).halfWidth1().transpose();
    return o.str();
  }
  static Node gen( Gen& g, Parsed& e, bool tame, std::vector<Break>& br )
  {
    Node root( "rigidbody3d_scene" );
    RigidBody3DState st;
    sf::SceneOpts o;
    o.tame = tame; o.cache_attr = false; o.type = SobogusSolverType::RigidBodies3D;
    const bool portals = g.b( tame ? 0.2 : 0.4 );
    const bool spheres = tame && g.b( 0.6 );
    o.cacheable = spheres && !portals;
    genCommon( g, root, e, o, portals, br );
    const int in = g.i( 0, 2 );
    genIntegrator( g, root, e, tame, in == 0 ? "split_ham" : in == 1 ? "dmv" : "exponential_euler", true );
    if( in == 0 ) e.umap.reset( new SplitHamMap ); else if( in == 1 ) e.umap.reset( new DMVMap ); else e.umap.reset( new ExponentialEulerMap );
    const double sp = tame ? 3.0 : 50.0;
    for( int i = g.i( 0, 2 ); i > 0; --i )
    {
      Node n( "near_earth_gravity" );
      const V3 f = real3( g, 10.0 );
      n.add( "f", f.t(), sf::LIST, 3 );
      st.addForce( NearEarthGravityForce( f.v() ) );
      root.kids.push_back( n );
    }
    std::ostringstream look;
    look.precision( 17 );
    if( !tame && g.b( 0.4 ) )
    {
      const bool persp = g.b();
      Node n( persp ? "camera_perspective" : "camera_orthographic" );
      const Num fps = integer( g, 0, 200 ), rf = boolean( g ), lk = boolean( g );
      if( persp )
      {
        const Num th = real( g ), ph = real( g ), rho = positive( g, 0.1, 50.0 );
        const V3 la = real3( g, 10.0 ), up = real3( g, 1.0 );
        n.add( "theta", th.t, sf::REAL ); n.add( "phi", ph.t, sf::REAL ); n.add( "rho", rho.t, sf::POS ); n.add( "lookat", la.t(), sf::LIST, 3 ); n.add( "up", up.t(), sf::LIST, 3 );
        look << "perspective " << th.v << " " << ph.v << " " << rho.v << " " << la.v().transpose() << " " << up.v().transpose();
      }
      else
      {
        const V3 x = real3( g, 10.0 );
        const Num sc = positive( g, 0.01, 100.0 );
        const std::string pp = g.pick( { std::string( "xy" ), std::string( "zy" ), std::string( "zx" ) } );
        n.add( "projection_plane", pp, sf::ENUM ); n.add( "x", x.t(), sf::LIST, 3 ); n.add( "scale", sc.t, sf::POS );
        look << "orthographic " << pp << " " << x.v().transpose() << " " << sc.v;
      }
      n.add( "fps", fps.t, sf::UINT ); n.add( "render_at_fps", rf.t, sf::BOOL ); n.add( "locked", lk.t, sf::BOOL );
      look << " fps " << unsigned( fps.v ) << " " << ( rf.v != 0.0 ) << " " << ( lk.v != 0.0 );
      root.kids.push_back( n );
    }
    if( g.b( 0.3 ) )
    {
      Node n( "simulation_boundary" );
      const bool ex = g.b();
      V3 lo, hi;
      lo.a = real( g, 20.0 ); lo.b = real( g, 20.0 ); lo.c = real( g, 20.0 );
      if( tame ) { lo.a = lo.b = lo.c = Num{ "-30.0", -30.0 }; hi.a = hi.b = hi.c = Num{ "30.0", 30.0 }; }
      else
      {
        const auto above = [&]( const Num& l ) { Num r; r.t = numText( g, l.v + g.u( 0.5, 30.0 ) ); r.v = val( r.t ); if( !( r.v > l.v ) ) { r.t = "100.0"; r.v = 100.0; } return r; };
        hi.a = above( lo.a ); hi.b = above( lo.b ); hi.c = above( lo.c );
      }
      n.add( "violation_behavior", ex ? "exit" : "none", sf::ENUM );
      n.add( "min", lo.t(), sf::LIST, 3 );
      At& mx = n.add( "max", hi.t(), sf::LIST, 3 );
      mx.reject.push_back( lo.t() );
      mx.reject.push_back( hi.a.t + " " + hi.b.t + " " + lo.c.t );
      st.setBoundaryBehavior( ex ? SimBoundaryBehavior::EXIT : SimBoundaryBehavior::NONE );
      st.setBoundaryMin( lo.v() ); st.setBoundaryMax( hi.v() );
      root.kids.push_back( n );
    }
    // Planes; some of them pairwise become portals
    struct Pl { V3 x, n; };
    std::vector<Pl> pl;
    std::vector<std::pair<unsigned, unsigned>> pairs;
    int np = g.i( 0, 3 );
    if( portals && tame )
    {
      const int ax = g.i( 0, 2 );
      const Num Lp = positive( g, 3.0, 6.0 ), z{ "0", 0.0 }, one{ "1", 1.0 }, mone{ "-1", -1.0 }, L{ plain( Lp ), Lp.v }, mL{ "-" + plain( Lp ), -Lp.v };
      Pl p{ { z, z, z }, { z, z, z } }, q = p;
      Num* px[] = { &p.x.a, &p.x.b, &p.x.c }; Num* pn[] = { &p.n.a, &p.n.b, &p.n.c }; Num* qx[] = { &q.x.a, &q.x.b, &q.x.c }; Num* qn[] = { &q.n.a, &q.n.b, &q.n.c };
      *px[ax] = mL; *pn[ax] = one; *qx[ax] = L; *qn[ax] = mone;
      pl.push_back( p ); pl.push_back( q );
      pairs.emplace_back( 0, 1 );
      np = 0;
    }
    else if( portals ) np = g.i( 2, 6 );
    for( int i = 0; i < np; ++i )
    {
      Pl q{ real3( g, sp ), real3( g, 10.0 ) };
      if( q.n.v().norm() < 1.0e-3 ) q.n.a = Num{ "1.5", 1.5 };
      if( tame ) { q.x.b.t = numText( g, -g.u( 1.0, 4.0 ) ); q.x.b.v = val( q.x.b.t ); q.x.a = real( g, 1.0 ); q.x.c = real( g, 1.0 ); q.n.b = Num{ "1.0", 1.0 }; q.n.a = g.b() ? Num{ "0", 0.0 } : real( g, 0.3 ); q.n.c = Num{ "0", 0.0 }; }
      pl.push_back( q );
    }
    if( portals && !tame )
    {
      std::vector<unsigned> ids;
      for( unsigned i = 0; i < pl.size(); ++i ) ids.insert( ids.begin() + long( g.raw( ids.size() + 1 ) ), i );
      const int k = g.i( 1, int( ids.size() ) / 2 );
      for( int i = 0; i < k; ++i ) pairs.emplace_back( ids[2 * size_t( i )], ids[2 * size_t( i ) + 1] );
    }
    std::vector<StaticPlane> planes;
    for( const Pl& q : pl )
    {
      Node n( "static_plane" );
      n.add( "x", q.x.t(), sf::LIST, 3 );
      n.add( "n", q.n.t(), sf::LIST, 3 );
      planes.emplace_back( q.x.v(), q.n.v() );
      root.kids.push_back( n );
    }
    // Renderers of planes, in any order
    std::map<unsigned, Array2s> half;
    if( !tame )
    {
      std::vector<unsigned> ids;
      for( unsigned i = 0; i < planes.size(); ++i ) if( g.b( 0.6 ) ) ids.insert( ids.begin() + long( g.raw( ids.size() + 1 ) ), i );
      for( unsigned i : ids )
      {
        Node n( "static_plane_renderer" );
        const Num a = nonneg( g, 20.0 ), b = nonneg( g, 20.0 );
        n.add( "plane", std::to_string( i ), sf::INDEX, int( planes.size() ) );
        n.add( "r", a.t + " " + b.t, sf::LISTNONNEG, 2 );
        half[i] = Array2s( a.v, b.v );
        root.kids.push_back( n );
      }
    }
    std::set<unsigned> used;
    std::ostringstream prend;
    prend.precision( 17 );
    unsigned pidx = 0;
    for( auto& pr : pairs )
    {
      Node n( "planar_portal" );
      At& a = n.add( "planeA", std::to_string( pr.first ), sf::INDEX, int( planes.size() ) );
      a.reject.push_back( std::to_string( pr.second ) );
      At& b = n.add( "planeB", std::to_string( pr.second ), sf::INDEX, int( planes.size() ) );
      for( auto& other : pairs ) if( other != pr ) { b.reject.push_back( std::to_string( other.first ) ); b.reject.push_back( std::to_string( other.second ) ); n.at( "planeA" ).reject.push_back( std::to_string( other.first ) ); }
      Array3i mul;
      for( int k = 0; k < 3; ++k ) mul( k ) = tame || g.b( 0.7 ) ? 1 : -1;
      n.add( "multiplier", std::to_string( mul( 0 ) ) + " " + std::to_string( mul( 1 ) ) + " " + std::to_string( mul( 2 ) ), sf::LISTSIGN, 3 );
      st.addPlanarPortal( PlanarPortal( planes[pr.first], planes[pr.second], mul ) );
      used.insert( pr.first ); used.insert( pr.second );
      const Array2s h0 = half.count( pr.first ) ? half[pr.first] : Array2s( 0, 0 ), h1 = half.count( pr.second ) ? half[pr.second] : Array2s( 0, 0 );
      if( ( h0 != 0.0 ).any() || ( h1 != 0.0 ).any() ) prend << " portal " << pidx << " " << h0.transpose() << " " << h1.transpose();
      ++pidx;
      root.kids.push_back( n );
    }
    unsigned kept = 0;
    for( unsigned i = 0; i < planes.size(); ++i ) if( !used.count( i ) )
    {
      st.addStaticPlane( planes[i] );
      if( half.count( i ) ) look << " plane " << kept << " " << half[i].transpose();
      ++kept;
    }
    if( !pairs.empty() ) br.emplace_back( "portals without planes", []( Gen&, Node& r )
    {
      std::vector<Node> keep;
      bool one = false;
      for( Node& k : r.kids ) if( k.tag != "static_plane" || !one ) { one = one || k.tag == "static_plane"; keep.push_back( k ); }
      r.kids = keep;
    } );
    const int nc = g.b( 0.3 ) ? g.i( 1, 3 ) : 0;
    for( int i = 0; i < nc; ++i )
    {
      Node n( "static_cylinder" );
      const V3 x = real3( g, tame ? 1.0 : sp );
      V3 ax = real3( g, 5.0 );
      if( ax.v().norm() < 1.0e-3 ) ax.b = Num{ "1.5", 1.5 };
      const Num R = tame ? positive( g, 10.0, 20.0 ) : positive( g, 1.0, 50.0 );
      n.add( "x", x.t(), sf::LIST, 3 ); n.add( "axis", ax.t(), sf::LIST, 3 ); n.add( "R", R.t, sf::POS );
      st.addStaticCylinder( StaticCylinder( x.v(), ax.v(), R.v ) );
      root.kids.push_back( n );
    }
    if( !tame && nc ) for( int i = g.i( 0, 3 ); i > 0; --i )
    {
      Node n( "static_cylinder_renderer" );
      const Num len = nonneg( g, 20.0 );
      const int k = g.i( 0, nc - 1 );
      n.add( "cylinder_idx", std::to_string( k ), sf::INDEX, nc );
      n.add( "L", len.t, sf::NONNEG );
      look << " cylinder " << k << " " << len.v;
      root.kids.push_back( n );
    }
    look << prend.str();
    // Geometry and bodies
    std::vector<std::unique_ptr<RigidBodyGeometry>> gs;
    const int ng = g.i( 0, 4 );
    for( int i = 0; i < ng; ++i )
    {
      Node n( "geometry" );
      const int shape = spheres || ( tame && portals ) ? int( SPHERE3 ) : tame ? g.pick( { int( SPHERE3 ), int( BOX3 ), int( BOX3 ), int( MESH3 ) } ) : g.pick( { int( SPHERE3 ), int( BOX3 ), int( STAPLE3 ), int( MESH3 ) } );
      gs.emplace_back( genGeometry( g, n, shape, tame, i ) );
      if( shape == MESH3 ) br.emplace_back( "missing mesh file", [i]( Gen&, Node& r ) { int k = 0; for( Node& n2 : r.kids ) if( n2.tag == "geometry" && k++ == i ) n2.at( "filename" ).val += ".nosuch"; } );
      root.kids.push_back( n );
    }
    const int n = ng == 0 ? 0 : g.i( 0, 5 );
    std::vector<Vector3s> X, V, W, I0;
    std::vector<scalar> M;
    std::vector<VectorXs> R;
    std::vector<bool> fixed;
    std::vector<unsigned> gi;
    for( int i = 0; i < n; ++i )
    {
      Node b( "rigid_body_with_density" );
      const V3 x = real3( g, sp ), v = real3( g, tame ? 3.0 : 10.0 ), w = real3( g, tame ? 2.0 : 10.0 );
      const Num rho = positive( g, 0.2, 20.0 ), fx = tame && !g.b( 0.1 ) ? Num{ "0", 0.0 } : boolean( g );
      if( tame ) for( const Vector3s& o2 : X ) if( ( o2 - x.v() ).norm() < 0.6 ) throw pbt::Discard{};
      if( tame && portals && x.v().lpNorm<Eigen::Infinity>() > 3.0 ) throw pbt::Discard{};
      const int k = g.i( 0, ng - 1 );
      b.add( "x", x.t(), sf::LIST, 3 ); b.add( "v", v.t(), sf::LIST, 3 ); b.add( "omega", w.t(), sf::LIST, 3 ); b.add( "rho", rho.t, sf::REAL ); b.add( "fixed", fx.t, sf::BOOL );
      b.add( "geo_idx", std::to_string( g.b( 0.2 ) ? k - ng : k ), sf::SINDEX, ng );
      M3 R0 = M3::Identity();
      if( g.b( 0.5 ) )
      {
        const V3 r = g.b( 0.1 ) ? V3{ { "0", 0.0 }, { "0.0", 0.0 }, { "0", 0.0 } } : real3( g, 4.0 );
        b.add( "R", r.t(), sf::LIST, 3 ).req = false;
        R0 = expm( r.v() );
      }
      scalar m; Vector3s cm, I; Matrix33sr Rg;
      gs[size_t( k )]->computeMassAndInertia( rho.v, m, cm, I, Rg );
      const M3 Rt = R0 * M3( Rg );
      VectorXs rv( 9 );
      for( int a = 0; a < 3; ++a ) for( int c2 = 0; c2 < 3; ++c2 ) rv( 3 * a + c2 ) = Rt( a, c2 );
      X.push_back( x.v() + cm ); V.push_back( v.v() ); W.push_back( w.v() ); M.push_back( m ); I0.push_back( I ); R.push_back( rv ); fixed.push_back( fx.v != 0.0 ); gi.push_back( unsigned( k ) );
      root.kids.push_back( b );
    }
    st.setState( X, V, M, R, W, I0, fixed, gi, gs );
    e.look = look.str();
    expected() = std::move( st );
    return root;
  }
  static bool parse( const std::string& file, Parsed& p, Sim* sim )
  {
    RigidBody3DState st;
    RenderingState rs;
    if( !RigidBody3DSceneParser::parseXMLSceneFile( file, p.callback, st, p.umap, p.dt_string, p.dt, p.end, p.op, p.CoR, p.fs, p.mu, p.ifm, rs ) ) return false;
    p.look = lookOf( rs );
    sim->state() = std::move( st );
    return true;
  }
  static void compareSparse( pbt::Ctx& c, const SparseMatrixsc& a, const SparseMatrixsc& b, const char* what )
  {
    CHECK( a.rows() == b.rows() && a.cols() == b.cols(), what << " has another size" );
    for( int k = 0; k < b.outerSize(); ++k ) for( SparseMatrixsc::InnerIterator it( b, k ); it; ++it )
      CHECK( std::fabs( a.coeff( it.row(), it.col() ) - it.value() ) <= 1.0e-10 * std::max( std::fabs( it.value() ), b.norm() * 1.0e-3 ), what << " entry " << it.row() << "," << it.col() << " is " << a.coeff( it.row(), it.col() ) << " instead of " << it.value() );
  }
  static void compareState( pbt::Ctx& c, const Sim& s, const Parsed& want )
  {
    (void) want;
    const RigidBody3DState& w = expected();
    const RigidBody3DState& g = s.getState();
    CHECK( g.nbodies() == w.nbodies(), g.nbodies() << " bodies instead of " << w.nbodies() );
    CHECK( g.q().size() == w.q().size(), "size of the configuration" );
    for( int i = 0; i < int( g.q().size() ); ++i ) CHECK( std::fabs( g.q()( i ) - w.q()( i ) ) <= 1.0e-13 * std::max( 1.0, std::fabs( w.q()( i ) ) ), "configuration entry " << i << " is " << g.q()( i ) << " instead of " << w.q()( i ) );
    CHECK( g.v() == w.v(), "velocities differ" );
    if( g.nbodies() > 0 ) { compareSparse( c, g.M0(), w.M0(), "body space mass matrix" ); compareSparse( c, g.M(), w.M(), "mass matrix" ); }
    CHECK( g.fixed() == w.fixed(), "fixed flags differ" );
    CHECK( g.indices() == w.indices(), "geometry indices differ" );
    CHECK( g.geometry().size() == w.geometry().size(), "geometry differs in number" );
    for( size_t i = 0; i < g.geometry().size(); ++i )
    {
      CHECK( g.geometry()[i]->getType() == w.geometry()[i]->getType(), "type of geometry " << i );
      if( g.geometry()[i]->getType() == RigidBodyGeometryType::STAPLE )
      {
        const RigidBodyStaple& x = static_cast<const RigidBodyStaple&>( *g.geometry()[i] ); const RigidBodyStaple& y = static_cast<const RigidBodyStaple&>( *w.geometry()[i] );
        CHECK( x.points() == y.points() && x.r() == y.r(), "staple " << i << " differs" );
        continue;
      }
      std::ostringstream a, b;
      g.geometry()[i]->serialize( a ); w.geometry()[i]->serialize( b );
      CHECK( a.str() == b.str(), "geometry " << i << " differs" );
    }
    const auto text = []( const RigidBody3DState& st )
    {
      std::ostringstream o;
      o.precision( 17 );
      for( auto& p : st.staticPlanes() ) p.serialize( o );
      o << "|";
      for( auto& p : st.staticCylinders() ) p.serialize( o );
      o << "|";
      for( unsigned i = 0; i < st.numPlanarPortals(); ++i ) st.planarPortal( i ).serialize( o );
      o << "|";
      for( auto& f : st.forces() ) f->serialize( o );
      o << "|" << int( st.boundaryBehavior() );
      if( st.boundaryBehavior() != SimBoundaryBehavior::NONE ) o << " " << st.boundaryMin().transpose() << " " << st.boundaryMax().transpose();
      return o.str();
    };
    CHECK( g.numStaticPlanes() == w.numStaticPlanes(), "planes differ in number" );
    CHECK( g.numStaticCylinders() == w.numStaticCylinders(), "cylinders differ in number" );
    CHECK( g.numPlanarPortals() == w.numPlanarPortals(), "portals differ in number" );
    CHECK( g.forces().size() == w.forces().size(), "forces differ in number" );
    CHECK( text( g ) == text( w ), "planes, cylinders, portals, forces or the boundary differ" );
  }
  using Scripting = PythonScripting;
  static PythonScripting*& attached() { static PythonScripting* p = nullptr; return p; }
  static void step( Sim& sim, Parsed& e, unsigned it, HDF5File* f )
  {
    PythonScripting none;
    PythonScripting& ps = attached() ? *attached() : none;
    if( e.op )
    {
      ImpactSolution sol;
      if( f ) sim.impactMap().exportForcesNextStep( sol );
      sim.flow( ps, it, e.dt, *e.umap, *e.op, e.CoR );
      if( f ) sol.writeSolution( *f );
    }
    else if( e.fs )
    {
      if( f ) e.ifm->exportForcesNextStep( *f );
      sim.flow( ps, it, e.dt, *e.umap, e.CoR, e.mu, *e.fs, *e.ifm );
    }
    else sim.flow( ps, it, e.dt, *e.umap );
  }

  #ifdef USE_PYTHON
  struct Py
  {
    static const char* module() { return "rigidbody3d"; }
    static bool coefficients() { return true; }
    static bool startsAnywhere() { return true; } // whether a script can set the first iteration
    static void ready( PythonScripting& ps ) { static unsigned first; ps.setInitialIterate( first ); }
    static std::string lookPy() { return "'%d %d %d %s|%s|%s' % ( m.numStaticPlanes(), m.numStaticCylinders(), m.numForces(), ' '.join( m.forceType( i ) for i in range( m.numForces() ) ), numbers( m.configuration() ), numbers( m.velocity() ) )"; }
    static std::string look( Sim& s )
    {
      std::ostringstream o;
      RigidBody3DState& st = s.state();
      o << st.staticPlanes().size() << " " << st.staticCylinders().size() << " " << st.forces().size() << " ";
      for( size_t i = 0; i < st.forces().size(); ++i ) o << ( i ? " " : "" ) << st.forces()[i]->name();
      o << "|" << sf::g17( st.q() ) << "|" << sf::g17( st.v() );
      return o.str();
    }
    static std::string op( Gen& g, Sim& s )
    {
      RigidBody3DState& st = s.state();
      const int n = int( st.nbodies() ), np = int( st.staticPlanes().size() ), nc = int( st.staticCylinders().size() ), nf = int( st.forces().size() );
      const int b = n ? g.i( 0, n - 1 ) : 0, p = np ? g.i( 0, np - 1 ) : 0, cy = nc ? g.i( 0, nc - 1 ) : 0, f = nf ? g.i( 0, nf - 1 ) : 0;
      const Vector3s x( g.s( 1.0 ), g.s( 1.0 ), g.s( 1.0 ) );
      std::ostringstream o;
      o.precision( 17 );
      const auto v3 = [&]( const Vector3s& v ) { o << v.x() << ", " << v.y() << ", " << v.z(); };
      switch( g.i( 0, 6 ) )
      {
        case 0:
          if( !np ) return "";
          st.staticPlane( p ).x() += 0.05 * x;
          o << "m.setStaticPlanePosition( " << p << ", "; v3( st.staticPlane( p ).x() ); o << " )";
          break;
        case 1:
          if( !np ) return "";
          st.staticPlane( p ).v() = 2.0 * x;
          o << "m.setStaticPlaneVelocity( " << p << ", "; v3( st.staticPlane( p ).v() ); o << " )";
          break;
        case 2:
        {
          if( !nc || x.norm() < 1.0e-3 ) return "";
          const double th = g.s( 0.3 );
          const Vector3s a = x.normalized();
          st.staticCylinder( cy ).setOrientation( a, th );
          o << "m.setStaticCylinderOrientation( " << cy << ", "; v3( a ); o << ", " << th << " )";
          break;
        }
        case 3:
          if( !nc ) return "";
          st.staticCylinder( cy ).omega() = 2.0 * x;
          o << "m.setStaticCylinderAngularVelocity( " << cy << ", "; v3( st.staticCylinder( cy ).omega() ); o << " )";
          break;
        case 4:
        {
          if( !nf || st.forces()[f]->name() != "near_earth_gravity" ) return "";
          const Vector3s gr = 10.0 * x;
          static_cast<NearEarthGravityForce&>( *st.forces()[f] ).setForce( gr );
          o << "m.setGravityForce( " << f << ", "; v3( gr ); o << " )";
          break;
        }
        case 5:
        {
          if( !n || st.isKinematicallyScripted( b ) ) return "";
          const int k = ( g.b() ? 0 : 3 * n ) + 3 * b + g.i( 0, 2 );
          st.v()( k ) = g.s( 3.0 );
          o << "m.velocity()[" << k << "] = " << st.v()( k );
          break;
        }
        default:
        {
          if( !n || st.isKinematicallyScripted( b ) ) return "";
          const int k = 3 * b + g.i( 0, 2 );
          st.q()( k ) += g.s( 0.05 );
          o << "m.configuration()[" << k << "] = " << st.q()( k );
          break;
        }
      }
      return o.str();
    }
    static std::string bad( Gen& g, Sim&, Sim& )
    {
      const std::string which = g.pick( { std::string( "StaticPlanes" ), std::string( "StaticCylinders" ), std::string( "Forces" ) } );
      const std::string num = "m.num" + which + "()";
      const std::string idx = g.pick( { num, num, num + " + " + std::to_string( g.i( 1, 1000 ) ), std::string( "-1" ), std::string( "'0'" ), std::string( "0.5" ), std::string( "None" ) } );
      if( g.b( 0.15 ) ) return g.pick( { std::string( "m.setStaticPlanePosition( 0, 1.0, 2.0 )" ), std::string( "m.setStaticPlaneVelocity( 0, 1.0, 2.0, 'x' )" ), std::string( "m.setStaticCylinderOrientation( 0, 1.0, 0.0, 0.0 )" ), std::string( "m.forceType()" ), std::string( "m.setGravityForce( 0 )" ), std::string( "m.setInitialIterate( 'x' )" ), std::string( "m.setInitialIterate()" ), std::string( "m.setInitialIterate( 1.5 )" ) } );
      if( g.b( 0.1 ) ) return "m.numStaticCylinders() == 0 and undefined_; m.setStaticCylinderOrientation( 0, " + g.pick( { std::string( "0.0, 0.0, 0.0" ), std::string( "1.0, 1.0, 0.0" ), std::string( "2.0, 0.0, 0.0" ), std::string( "0.0, 0.0, 0.9" ) } ) + ", 0.5 )";
      if( which == "StaticPlanes" ) return ( g.b() ? "m.setStaticPlanePosition( " : "m.setStaticPlaneVelocity( " ) + idx + ", 0.0, 0.0, 0.0 )";
      if( which == "StaticCylinders" ) return g.b() ? "m.setStaticCylinderOrientation( " + idx + ", 0.0, 0.0, 1.0, 0.5 )" : "m.setStaticCylinderAngularVelocity( " + idx + ", 0.0, 0.0, 1.0 )";
      return g.b() ? "m.forceType( " + idx + " )" : "m.setGravityForce( " + idx + ", 0.0, 0.0, 1.0 )";
    }
    // Statements that depend on the iteration k and the state alone
    static std::string stateless( Gen& g, const std::string& in )
    {
      std::string r;
      for( int i = g.i( 0, 2 ); i > 0; --i ) switch( g.i( 0, 4 ) )
      {
        case 0: r += in + "if k % " + std::to_string( g.i( 1, 4 ) ) + " == 0: m.velocity()[:] *= " + sf::g17( g.u( 0.8, 1.1 ) ) + "\n"; break;
        case 1: r += in + "for f in range( m.numForces() ): m.setGravityForce( f, 0.1 * k, " + sf::g17( g.s( 5.0 ) ) + ", -1.0 )\n"; break;
        case 2: r += in + "for p in range( m.numStaticPlanes() ): m.setStaticPlaneVelocity( p, 0.01 * k, " + sf::g17( g.s( 0.5 ) ) + ", 0.25 )\n"; break;
        case 3: r += in + "for p in range( m.numStaticCylinders() ): m.setStaticCylinderAngularVelocity( p, 0.01 * k, " + sf::g17( g.s( 0.5 ) ) + ", 0.25 )\n"; break;
        default: r += in + "if m.numStaticPlanes() > 0: m.setStaticPlanePosition( 0, " + sf::g17( g.s( 0.5 ) ) + ", -30.0 + 0.001 * k, 0.5 )\n"; break;
      }
      return r;
    }
  };
  #endif
};
}
#endif
