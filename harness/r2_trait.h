// Scene files and the command line program of the 2D rigid body simulator: what the generic checks need to know
#ifndef VERIF_R2_TRAIT_H
#define VERIF_R2_TRAIT_H
#include "scene_cli.h"
#include "scene_py.h"
#include "r2_scene.h"
#include "rigidbody2dutils/RigidBody2DSceneParser.h"
#include "rigidbody2dutils/CameraSettings2D.h"

namespace
{
using sf::Node; using sf::At; using sf::Num; using sf::Parsed; using sf::Break; using sf::real; using sf::positive; using sf::nonneg; using sf::integer; using sf::boolean; using sf::numText; using sf::val;
struct R2
{
  using Sim = RigidBody2DSim;
  static const char* key() { return "VERIF_BIN_R2"; }
  static unsigned magic() { return 1337; }
  static void enter( const std::string& ) {}
  static std::string inDir( const std::string& f ) { return f; }
  // What the program does before the first step
  static void begin( Sim& ) {}
  static void finish( Parsed& ) {}

  static Node gen( Gen& g, Parsed& e, bool tame, std::vector<Break>& br )
  {
    Node root( "rigidbody2d_scene" );
    sf::SceneOpts o;
    o.tame = tame; o.type = SobogusSolverType::RigidBody2D;
    const bool portals = g.b( tame ? 0.2 : 0.35 );
    const bool circles = tame && g.b( 0.5 );
    o.cacheable = circles && !portals;
    genCommon( g, root, e, o, portals, br );
    const bool verlet = g.b();
    if( tame || g.b( 0.9 ) )
    {
      genIntegrator( g, root, e, tame, verlet ? "verlet" : "symplectic_euler", false );
      if( verlet ) e.umap.reset( new VerletMap ); else e.umap.reset( new SymplecticEulerMap );
    }
    else { e.dt_string = "0"; e.dt = Rational<std::intmax_t>( 0, 1 ); }
    const double sp = tame ? 3.0 : 50.0;
    std::vector<std::unique_ptr<RigidBody2DForce>> forces;
    for( int i = g.i( 0, 2 ); i > 0; --i )
    {
      Node n( "near_earth_gravity" );
      const Num x = real( g ), y = real( g );
      n.add( "f", x.t + " " + y.t, sf::LIST, 2 );
      forces.emplace_back( new NearEarthGravityForce{ Vector2s( x.v, y.v ) } );
      root.kids.push_back( n );
    }
    // Planes; some of them pairwise become portals
    struct Pl { Num x, y, nx, ny; };
    std::vector<Pl> pl;
    std::vector<std::pair<unsigned, unsigned>> pairs;
    int np = g.i( 0, 3 );
    if( portals && tame )
    {
      const bool horizontal = g.b();
      Num L = positive( g, 3.0, 6.0 );
      if( L.t[0] == '+' ) L.t = L.t.substr( 1 );
      const Num z{ "0", 0.0 }, one{ "1", 1.0 }, mone{ "-1", -1.0 }, mL{ "-" + L.t, -L.v };
      if( horizontal ) { pl.push_back( { mL, z, one, z } ); pl.push_back( { L, z, mone, z } ); }
      else { pl.push_back( { z, mL, z, one } ); pl.push_back( { z, L, z, mone } ); }
      pairs.emplace_back( 0, 1 );
      np = 0;
    }
    else if( portals ) np = g.i( 2, 6 );
    for( int i = 0; i < np; ++i )
    {
      Pl q{ real( g, sp ), real( g, sp ), real( g ), real( g ) };
      if( std::hypot( q.nx.v, q.ny.v ) < 1.0e-3 ) q.nx = Num{ "1.5", 1.5 };
      if( tame ) { q.x = real( g, 1.0 ); q.y = Num{ numText( g, -g.u( 1.0, 4.0 ) ), 0.0 }; q.y.v = val( q.y.t ); q.ny = Num{ "1.0", 1.0 }; q.nx = g.b() ? Num{ "0", 0.0 } : real( g, 0.3 ); }
      pl.push_back( q );
    }
    if( portals && !tame )
    {
      std::vector<unsigned> ids;
      for( unsigned i = 0; i < pl.size(); ++i ) ids.insert( ids.begin() + long( g.raw( ids.size() + 1 ) ), i );
      const int k = g.i( 1, int( ids.size() ) / 2 );
      for( int i = 0; i < k; ++i ) pairs.emplace_back( ids[2 * size_t( i )], ids[2 * size_t( i ) + 1] );
    }
    std::vector<RigidBody2DStaticPlane> planes;
    for( const Pl& q : pl )
    {
      Node n( "static_plane" );
      n.add( "x", q.x.t + " " + q.y.t, sf::LIST, 2 );
      n.add( "n", q.nx.t + " " + q.ny.t, sf::LIST, 2 ).reject.push_back( "0 0" );
      planes.emplace_back( Vector2s( q.x.v, q.y.v ), Vector2s( q.nx.v, q.ny.v ).normalized() );
      root.kids.push_back( n );
    }
    std::vector<PlanarPortal> plain, moving;
    std::set<unsigned> used;
    for( auto& pr : pairs )
    {
      const bool le = g.b( 0.4 );
      Node n( le ? "lees_edwards_portal" : "planar_portal" );
      At& a = n.add( "planeA", std::to_string( pr.first ), sf::INDEX, int( planes.size() ) );
      a.reject.push_back( std::to_string( pr.second ) );
      At& b = n.add( "planeB", std::to_string( pr.second ), sf::INDEX, int( planes.size() ) );
      for( auto& other : pairs ) if( other != pr ) { b.reject.push_back( std::to_string( other.first ) ); b.reject.push_back( std::to_string( other.second ) ); n.at( "planeA" ).reject.push_back( std::to_string( other.first ) ); }
      if( le )
      {
        const Num v = real( g, 2.0 ), bd = tame ? Num{ "4.0", 4.0 } : nonneg( g, 10.0 );
        n.add( "v", v.t, sf::REAL ); n.add( "bounds", bd.t, sf::NONNEG );
        moving.emplace_back( planes[pr.first], planes[pr.second], v.v, bd.v );
      }
      else plain.emplace_back( planes[pr.first], planes[pr.second], 0.0, 0.0 );
      used.insert( pr.first ); used.insert( pr.second );
      root.kids.push_back( n );
    }
    std::vector<RigidBody2DStaticPlane> left;
    for( unsigned i = 0; i < planes.size(); ++i ) if( !used.count( i ) ) left.push_back( planes[i] );
    std::vector<PlanarPortal> ports;
    for( auto& p : plain ) ports.push_back( p );
    for( auto& p : moving ) ports.push_back( p );
    if( !pairs.empty() ) br.emplace_back( "portals without planes", []( Gen&, Node& r )
    {
      std::vector<Node> keep;
      bool one = false;
      for( Node& k : r.kids ) if( k.tag != "static_plane" || !one ) { one = one || k.tag == "static_plane"; keep.push_back( k ); }
      r.kids = keep;
    } );
    // Geometry and bodies
    std::vector<Geo> geos;
    std::vector<std::unique_ptr<RigidBody2DGeometry>> gs;
    const int ng = g.i( 0, 4 );
    for( int i = 0; i < ng; ++i )
    {
      Node n( "geometry" );
      Geo e2;
      e2.box = !circles && !portals && g.b();
      n.add( "type", e2.box ? "box" : "circle", sf::ENUM );
      if( e2.box )
      {
        const Num x = positive( g, 0.2, tame ? 0.6 : 5.0 ), y = positive( g, 0.2, tame ? 0.6 : 5.0 );
        n.add( "r", x.t + " " + y.t, sf::LISTPOS, 2 );
        e2.h = Vector2s( x.v, y.v );
        gs.emplace_back( new BoxGeometry{ e2.h } );
      }
      else
      {
        const Num r = positive( g, 0.2, tame ? 0.6 : 5.0 );
        n.add( "r", r.t, sf::POS );
        e2.r = r.v;
        gs.emplace_back( new CircleGeometry{ e2.r } );
      }
      geos.push_back( e2 );
      root.kids.push_back( n );
    }
    const int n = ng == 0 ? 0 : g.i( 0, 5 );
    VectorXs q( 3 * n ), v( 3 * n ), m( 3 * n );
    VectorXu idx( n );
    std::vector<bool> fixed;
    std::vector<Vector2s> xs;
    for( int i = 0; i < n; ++i )
    {
      Node b( "rigid_body" );
      const Num x = real( g, sp ), y = real( g, sp ), th = real( g, 7.0 ), vx = real( g, tame ? 3.0 : 10.0 ), vy = real( g, tame ? 3.0 : 10.0 ), w = real( g, tame ? 2.0 : 10.0 ), rho = positive( g, 0.2, 20.0 );
      if( tame ) for( const Vector2s& o2 : xs ) if( ( o2 - Vector2s( x.v, y.v ) ).norm() < 0.5 ) throw pbt::Discard{};
      if( tame && portals && ( std::fabs( x.v ) > 3.0 || std::fabs( y.v ) > 3.0 ) ) throw pbt::Discard{};
      xs.emplace_back( x.v, y.v );
      const int gi = g.i( 0, ng - 1 );
      b.add( "x", x.t + " " + y.t, sf::LIST, 2 ); b.add( "theta", th.t, sf::REAL ); b.add( "v", vx.t + " " + vy.t, sf::LIST, 2 ); b.add( "omega", w.t, sf::REAL );
      b.add( "rho", rho.t, sf::POS );
      At& ga = b.add( "geo_idx", std::to_string( gi ), sf::INDEX, ng );
      ga.reject.push_back( "-1" );
      bool fx = false;
      if( g.b( 0.5 ) )
      {
        const Num f = tame && ( circles || !g.b( 0.2 ) ) ? Num{ "0", 0.0 } : boolean( g );
        fx = f.v != 0.0;
        b.add( "fixed", f.t, sf::BOOL ).req = false;
      }
      root.kids.push_back( b );
      double mass, inertia;
      massOfGeo( geos[size_t( gi )], rho.v, mass, inertia );
      q.segment<3>( 3 * i ) << x.v, y.v, th.v;
      v.segment<3>( 3 * i ) << vx.v, vy.v, w.v;
      m.segment<3>( 3 * i ) << mass, mass, inertia;
      idx( i ) = unsigned( gi );
      fixed.push_back( fx );
    }
    std::ostringstream look;
    look.precision( 17 );
    if( !tame && g.b( 0.4 ) )
    {
      Node cn( "camera" );
      const Num cx = real( g ), cy = real( g ), sc = positive( g, 0.01, 100.0 ), fps = integer( g, 1, 200 ), rf = boolean( g ), lk = boolean( g );
      cn.add( "center", cx.t + " " + cy.t, sf::LIST, 2 ); cn.add( "scale", sc.t, sf::POS ); cn.add( "fps", fps.t, sf::PINT ); cn.add( "render_at_fps", rf.t, sf::BOOL ); cn.add( "locked", lk.t, sf::BOOL );
      root.kids.push_back( cn );
      look << "camera " << cx.v << " " << cy.v << " " << sc.v << " " << unsigned( fps.v ) << " " << ( rf.v != 0 ) << " " << ( lk.v != 0 );
    }
    e.look = look.str();
    const RigidBody2DState st( q, v, m, fixed, idx, gs, forces, left, ports );
    e.state = bytesOf( st );
    return root;
  }
  static bool parse( const std::string& file, Parsed& p, Sim* sim )
  {
    RigidBody2DState st;
    CameraSettings2D cs;
    const bool ok = RigidBody2DSceneParser::parseXMLSceneFile( file, p.callback, st, p.umap, p.dt_string, p.dt, p.end, p.op, p.imap, p.CoR, p.fs, p.mu, p.ifm, cs );
    if( !ok ) return false;
    std::ostringstream look;
    look.precision( 17 );
    if( cs.set ) look << "camera " << cs.center.x() << " " << cs.center.y() << " " << cs.scale << " " << cs.fps << " " << cs.render_at_fps << " " << cs.locked;
    p.look = look.str();
    p.state = bytesOf( st );
    sim->state() = std::move( st );
    return true;
  }
  static void compareState( pbt::Ctx& c, const Sim& s, const Parsed& want )
  {
    RigidBody2DState w;
    std::istringstream in( want.state );
    w.deserialize( in );
    RigidBody2DState& g = const_cast<Sim&>( s ).state();
    CHECK( g.nbodies() == w.nbodies(), g.nbodies() << " bodies instead of " << w.nbodies() );
    CHECK( g.q() == w.q(), "positions or rotations differ" );
    CHECK( g.v() == w.v(), "velocities differ" );
    // Mass and inertia are computed by formulas of the program: up to rounding
    if( g.nbodies() > 0 )
    {
      const VectorXs mg = VectorXs( g.M().diagonal() ), mw = VectorXs( w.M().diagonal() );
      for( int i = 0; i < int( mg.size() ); ++i ) CHECK( std::fabs( mg( i ) - mw( i ) ) <= 1.0e-13 * std::fabs( mw( i ) ), "mass matrix entry " << i << " is " << mg( i ) << " instead of " << mw( i ) );
    }
    CHECK( g.geometry().size() == w.geometry().size(), "geometry differs in number" );
    for( size_t i = 0; i < g.geometry().size(); ++i )
    {
      std::ostringstream a, b;
      g.geometry()[i]->serialize( a ); w.geometry()[i]->serialize( b );
      CHECK( a.str() == b.str(), "geometry " << i << " differs" );
    }
    for( unsigned i = 0; i < g.nbodies(); ++i )
    {
      CHECK( g.fixed( i ) == w.fixed( i ), "fixed flag of body " << i );
      CHECK( g.geometryIndices()( i ) == w.geometryIndices()( i ), "geometry of body " << i );
    }
    const auto text = [&]( RigidBody2DState& st )
    {
      std::ostringstream o;
      for( auto& p : st.planes() ) p.serialize( o );
      o << "|";
      for( auto& p : st.planarPortals() ) p.serialize( o );
      o << "|";
      for( auto& f : st.forces() ) f->serialize( o );
      return o.str();
    };
    CHECK( g.planes().size() == w.planes().size(), "planes differ in number" );
    CHECK( g.planarPortals().size() == w.planarPortals().size(), "portals differ in number" );
    CHECK( g.forces().size() == w.forces().size(), "forces differ in number" );
    CHECK( text( g ) == text( w ), "planes, portals or forces differ" );
  }
  using Scripting = PythonScripting;
  static PythonScripting*& attached() { static PythonScripting* p = nullptr; return p; }
  static void step( Sim& sim, Parsed& e, unsigned it, HDF5File* f )
  {
    PythonScripting none;
    PythonScripting& ps = attached() ? *attached() : none;
    if( e.op )
    {
      ImpactSolution sol;
      if( f ) e.imap->exportForcesNextStep( sol );
      sim.flow( ps, it, e.dt, *e.umap, *e.op, e.CoR, *e.imap );
      if( f ) sol.writeSolution( *f );
    }
    else if( e.fs )
    {
      if( f ) e.ifm->exportForcesNextStep( *f );
      sim.flow( ps, it, e.dt, *e.umap, e.CoR, e.mu, *e.fs, *e.ifm );
    }
    else sim.flow( ps, it, e.dt, *e.umap );
  }

  #ifdef USE_PYTHON
  struct Py
  {
    static const char* module() { return "rigidbody2d"; }
    static bool coefficients() { return false; }
    static bool startsAnywhere() { return false; } // whether a script can set the first iteration
    static void ready( PythonScripting& ps ) { (void) ps; }
    static std::string lookPy() { return "'%d %d %d %d' % ( m.numStaticPlanes(), m.numGeometryInstances(), m.num_bodies(), m.num_geometry() )"; }
    static std::string look( Sim& s )
    {
      std::ostringstream o;
      RigidBody2DState& st = s.state();
      o << st.planes().size() << " " << st.geometry().size() << " " << st.nbodies() << " " << st.geometry().size();
      return o.str();
    }
    static std::string indexArray( Gen& g, const std::vector<unsigned>& v )
    {
      std::ostringstream o;
      const auto list = [&]( int every ) { std::string r; for( size_t i = 0; i < v.size(); ++i ) { r += ( i ? ", " : "" ) + std::to_string( v[i] ); for( int k = 1; k < every; ++k ) r += ", 0"; } return r; };
      switch( g.w( { 5, 1, 1, 1 } ) )
      {
        case 0: o << "numpy.array( [" << list( 1 ) << "], dtype = numpy.uint32 )"; break;
        case 1: o << "numpy.array( [" << list( 2 ) << "], dtype = numpy.uint32 )[::2]"; break; // elements apart from each other
        case 2: { std::string r; for( size_t i = v.size(); i-- > 0; ) r += std::to_string( v[i] ) + ", "; o << "numpy.array( [" << r << "], dtype = numpy.uint32 )[::-1]"; break; } // stored backwards
        default: o << "numpy.array( [" << list( 1 ) << "], dtype = '>u4' )"; break; // stored in the other byte order
      }
      return o.str();
    }
    static std::string op( Gen& g, Sim& s )
    {
      RigidBody2DState& st = s.state();
      const int n = int( st.nbodies() ), np = int( st.planes().size() ), ng = int( st.geometry().size() );
      const int p = np ? g.i( 0, np - 1 ) : 0;
      std::ostringstream o;
      o.precision( 17 );
      const int kind = g.i( 0, 8 );
      if( kind < 5 && !np ) return "";
      switch( kind )
      {
        case 0:
        {
          const Vector2s x = st.planes()[p].x() + Vector2s( g.s( 0.1 ), g.s( 0.1 ) );
          st.planes()[p].setX( x );
          o << "m.setStaticPlanePosition( " << p << ", " << x.x() << ", " << x.y() << " )";
          break;
        }
        case 1:
        {
          const Vector2s x( g.s( 2.0 ), g.s( 2.0 ) );
          st.planes()[p].setV( x );
          o << "m.setStaticPlaneVelocity( " << p << ", " << x.x() << ", " << x.y() << " )";
          break;
        }
        case 2:
        {
          const double a = std::atan2( st.planes()[p].n().y(), st.planes()[p].n().x() ) + g.s( 0.1 );
          const Vector2s x( std::cos( a ), std::sin( a ) );
          st.planes()[p].setN( x );
          o << "m.setStaticPlaneNormal( " << p << ", " << x.x() << ", " << x.y() << " )";
          break;
        }
        case 3:
        {
          const double w = g.s( 2.0 );
          st.planes()[p].setOmega( w );
          o << "m.setStaticPlaneAngularVelocity( " << p << ", " << w << " )";
          break;
        }
        case 4:
        {
          st.planes().erase( st.planes().begin() + p );
          o << "m.deleteStaticPlane( " << p << " )";
          break;
        }
        case 5:
        {
          if( ng > 8 ) return "";
          const double r = g.u( 0.2, 1.0 );
          st.addCircleGeometry( r );
          o << "m.addCircleGeometry( " << r << " )";
          break;
        }
        case 6:
        {
          if( n > 10 || !ng ) return "";
          const Vector2s x( g.s( 12.0 ), g.s( 12.0 ) ), v( g.s( 2.0 ), g.s( 2.0 ) );
          const double th = g.s( 3.0 ), w = g.s( 2.0 ), rho = g.u( 0.5, 3.0 );
          const int k = g.i( 0, ng - 1 );
          const bool f = g.b( 0.15 );
          for( int i = 0; i < n; ++i ) if( ( st.q().segment<2>( 3 * i ) - x ).norm() < 2.0 ) return "";
          st.addBody( x, th, v, w, rho, unsigned( k ), f );
          o << "m.addBody( " << x.x() << ", " << x.y() << ", " << th << ", " << v.x() << ", " << v.y() << ", " << w << ", " << rho << ", " << k << ", " << int( f ) << " )";
          break;
        }
        case 7:
        {
          std::vector<unsigned> del;
          for( int i = 0; i < n; ++i ) if( g.b( 0.35 ) ) del.push_back( unsigned( i ) );
          if( int( del.size() ) >= n ) return "";
          for( size_t i = del.size(); i > 1; --i ) std::swap( del[i - 1], del[size_t( g.raw( i ) )] );
          VectorXu x( long( del.size() ) );
          for( size_t i = 0; i < del.size(); ++i ) x( long( i ) ) = del[i];
          st.removeBodies( x );
          o << "m.delete_bodies( " << indexArray( g, del ) << " )";
          break;
        }
        default:
        {
          std::vector<unsigned> del;
          for( int i = 0; i < ng; ++i ) if( g.b( 0.6 ) && !( st.geometryIndices().array() == unsigned( i ) ).any() ) del.push_back( unsigned( i ) );
          if( int( del.size() ) >= ng ) return "";
          VectorXu x( long( del.size() ) );
          for( size_t i = 0; i < del.size(); ++i ) x( long( i ) ) = del[i];
          st.removeGeometry( x );
          o << "m.delete_geometry( " << indexArray( g, del ) << " )";
          break;
        }
      }
      return o.str();
    }
    static std::string bad( Gen& g, Sim& s, Sim& now )
    {
      (void) s;
      const std::string n = std::to_string( now.state().nbodies() ), ng = std::to_string( now.state().geometry().size() );
      const std::string idx = g.pick( { std::string( "m.numStaticPlanes()" ), std::string( "m.numStaticPlanes()" ), std::string( "m.numStaticPlanes() + " ) + std::to_string( g.i( 1, 1000 ) ), std::string( "-1" ), std::string( "'0'" ), std::string( "0.5" ), std::string( "None" ) } );
      switch( g.i( 0, 9 ) )
      {
        case 0: return "m.setStaticPlanePosition( " + idx + ", 0.0, 0.0 )";
        case 1: return "m.setStaticPlaneVelocity( " + idx + ", 0.0, 0.0 )";
        case 2: return "m.setStaticPlaneNormal( " + idx + ", 1.0, 0.0 )";
        case 3: return "m.setStaticPlaneAngularVelocity( " + idx + ", 1.0 )";
        case 4: return "m.deleteStaticPlane( " + idx + " )";
        case 5: return "m.addCircleGeometry( " + g.pick( { std::string( "0.0" ), std::string( "-1.0" ), std::string( "'x'" ), std::string( "" ), std::string( "1.0, 2.0" ) } ) + " )";
        case 6: return g.pick( { std::string( "m.setStaticPlanePosition( 0 )" ), std::string( "m.setStaticPlaneNormal( 0, 1.0, 'x' )" ), std::string( "m.setStaticPlaneVelocity( 0, 1.0, 2.0, 3.0 )" ), std::string( "m.setStaticPlaneAngularVelocity( 0, None )" ), std::string( "m.deleteStaticPlane()" ), std::string( "m.addBody()" ) } );
        case 7:
        {
          std::vector<std::string> a{ "50.0", "2.0", "0.0", "0.0", "0.5", "1.0", "1.5", "0", "0" };
          switch( g.i( 0, 3 ) )
          {
            case 0: a[6] = g.pick( { std::string( "0.0" ), std::string( "-1.0" ) } ); break;
            case 1: a[7] = g.pick( { ng, ng, std::string( "-1" ), ng + " + 7", std::string( "0.5" ) } ); break;
            case 2: a[8] = g.pick( { std::string( "2" ), std::string( "-1" ), std::string( "0.5" ), std::string( "None" ) } ); break;
            default: a[size_t( g.i( 0, 8 ) )] = g.pick( { std::string( "'x'" ), std::string( "None" ), std::string( "[]" ) } ); break;
          }
          std::string r = "m.addBody( ";
          for( size_t i = 0; i < a.size(); ++i ) r += ( i ? ", " : "" ) + a[i];
          return r + " )";
        }
        default:
        {
          const bool geo = g.b();
          const std::string c = geo ? ng : n;
          return std::string( "m.delete_" ) + ( geo ? "geometry" : "bodies" ) + "( " + g.pick( {
            "numpy.array( [" + c + "], dtype = numpy.uint32 )", "numpy.array( [" + c + "], dtype = numpy.uint32 )", "numpy.array( [" + c + " + 5, 0], dtype = numpy.uint32 )",
            std::string( "numpy.array( [4294967295], dtype = numpy.uint32 )" ), std::string( "numpy.array( [0], dtype = numpy.int32 )" ), std::string( "numpy.array( [0], dtype = numpy.uint64 )" ), std::string( "numpy.array( [0.0] )" ),
            std::string( "numpy.zeros( ( 1, 1 ), dtype = numpy.uint32 )" ), std::string( "numpy.uint32( 0 )" ), std::string( "[0]" ), std::string( "0" ), std::string( "None" ), std::string( "'abc'" ), std::string( "" ) } ) + " )";
        }
      }
    }
    // Statements that depend on the iteration k and the state alone
    static std::string stateless( Gen& g, const std::string& in )
    {
      std::string r;
      for( int i = g.i( 0, 2 ); i > 0; --i ) switch( g.i( 0, 5 ) )
      {
        case 0: r += in + "for p in range( m.numStaticPlanes() ): m.setStaticPlaneVelocity( p, 0.01 * k, " + sf::g17( g.s( 0.5 ) ) + " )\n"; break;
        case 1: r += in + "if m.num_geometry() > 0 and k == " + std::to_string( g.i( 0, 6 ) ) + ": m.addBody( 40.0 + 3.0 * " + std::to_string( g.i( 0, 9 ) ) + ", 30.0 + 3.0 * " + std::to_string( g.i( 0, 9 ) ) + ", " + sf::g17( g.s( 1.0 ) ) + ", 0.5, 0.5, 1.0, 1.0, m.num_geometry() - 1, 0 )\n"; break;
        case 2: r += in + "for p in range( m.numStaticPlanes() ): m.setStaticPlaneAngularVelocity( p, " + sf::g17( g.s( 0.5 ) ) + " )\n"; break;
        case 3: r += in + "if k == " + std::to_string( g.i( 0, 6 ) ) + " and m.numStaticPlanes() > 0: m.deleteStaticPlane( m.numStaticPlanes() - 1 )\n"; break;
        case 4: r += in + "if k == " + std::to_string( g.i( 0, 6 ) ) + ": m.addCircleGeometry( " + sf::g17( g.u( 0.2, 1.0 ) ) + " )\n"; break;
        default: r += in + "if m.numStaticPlanes() > 0: m.setStaticPlanePosition( 0, " + sf::g17( g.s( 0.5 ) ) + ", -30.0 + 0.001 * k )\n"; break;
      }
      return r;
    }
  };
  #endif
};
}
#endif
