// Scene files and the command line program of the ball simulator: what the generic checks need to know
#ifndef VERIF_B2_TRAIT_H
#define VERIF_B2_TRAIT_H
#include "scene_cli.h"
#include "scene_py.h"
#include "b2_scene.h"
#include "ball2dutils/Ball2DSceneParser.h"

namespace
{
using namespace sf;
struct B2
{
  using Sim = Ball2DSim;
  static const char* key() { return "VERIF_BIN_B2"; }
  static unsigned magic() { return 8675309; }
  static void enter( const std::string& ) {}
  static std::string inDir( const std::string& f ) { return f; }
  // What the program does before the first step
  static void begin( Sim& ) {}
  static void finish( Parsed& ) {}
  static bool& camera() { static bool b = true; return b; }

  static Node gen( Gen& g, Parsed& e, bool tame, std::vector<Break>& br )
  {
    Node root( "ball2d_scene" );
    Ball2DState st;
    SceneOpts o;
    o.tame = tame; o.apgd = true; o.type = SobogusSolverType::Balls2D;
    const bool portals = g.b( tame ? 0.2 : 0.35 );
    genCommon( g, root, e, o, portals, br );
    if( tame && portals )
    {
      // Cached impulses and sequential impacts know nothing of teleported contacts
      for( Node& k : root.kids ) if( k.tag == "impact_operator" ) { k.at( "cache_impulses" ).val = "0"; e.imap.reset( new ImpactMap( false ) ); }
    }
    const bool verlet = g.b();
    genIntegrator( g, root, e, tame, verlet ? "verlet" : "symplectic_euler", true );
    if( verlet ) e.umap.reset( new VerletMap ); else e.umap.reset( new SymplecticEulerMap );
    const double sp = tame ? 3.0 : 50.0;
    for( int i = g.i( 0, 2 ); i > 0; --i )
    {
      Node n( "gravity" );
      const Num x = real( g ), y = real( g );
      n.add( "fx", x.t, REAL ); n.add( "fy", y.t, REAL );
      st.forces().emplace_back( new Ball2DGravityForce{ Vector2s( x.v, y.v ) } );
      root.kids.push_back( n );
    }
    for( int i = g.b( 0.3 ) ? g.i( 1, 2 ) : 0; i > 0; --i )
    {
      Node n( "penalty" );
      const Num k = nonneg( g, tame ? 50.0 : 5000.0 ), pw = tame ? Num{ "2.5", 2.5 } : real( g );
      n.add( "stiffness", k.t, NONNEG ); n.add( "potential_power", pw.t, REAL );
      st.forces().emplace_back( new PenaltyForce{ k.v, pw.v } );
      root.kids.push_back( n );
    }
    for( int i = g.b( 0.3 ) ? g.i( 1, 2 ) : 0; i > 0; --i )
    {
      Node n( "static_drum" );
      const Num x = real( g, tame ? 1.0 : 10.0 ), y = real( g, tame ? 1.0 : 10.0 ), r = tame ? positive( g, 12.0, 20.0 ) : positive( g, 1.0, 50.0 );
      n.add( "x", x.t, REAL ); n.add( "y", y.t, REAL ); n.add( "r", r.t, REAL );
      st.staticDrums().emplace_back( Vector2s( x.v, y.v ), r.v );
      root.kids.push_back( n );
    }
    // Planes; some of them pairwise become portals
    struct Pl { Num x, y, nx, ny; };
    std::vector<Pl> pl;
    std::vector<std::pair<unsigned, unsigned>> pairs;
    int np = g.i( 0, 3 );
    if( portals && tame )
    {
      const bool horizontal = g.b();
      const Num L = positive( g, 3.0, 6.0 );
      const Num z{ "0", 0.0 }, one{ "1", 1.0 }, mone{ "-1", -1.0 }, mL{ "-" + L.t, -L.v };
      Num Lc = L; if( Lc.t[0] == '+' ) Lc.t = Lc.t.substr( 1 );
      const Num mLc{ "-" + Lc.t, -Lc.v };
      if( horizontal ) { pl.push_back( { mLc, z, one, z } ); pl.push_back( { Lc, z, mone, z } ); }
      else { pl.push_back( { z, mLc, z, one } ); pl.push_back( { z, Lc, z, mone } ); }
      pairs.emplace_back( 0, 1 );
      np = 0;
    }
    else if( portals ) np = g.i( 2, 6 );
    for( int i = 0; i < np; ++i )
    {
      Pl q{ real( g, sp ), real( g, sp ), real( g ), real( g ) };
      if( std::hypot( q.nx.v, q.ny.v ) < 1.0e-3 ) q.nx = Num{ "1.5", 1.5 };
      if( tame ) { q.x = real( g, 1.0 ); q.y = Num{ numText( g, -g.u( 1.0, 4.0 ) ), 0.0 }; q.y.v = val( q.y.t ); q.ny = Num{ "1.0", 1.0 }; q.nx = g.b() ? Num{ "0", 0.0 } : real( g, 0.3 ); }
      pl.push_back( q );
    }
    if( portals && !tame )
    {
      std::vector<unsigned> ids;
      for( unsigned i = 0; i < pl.size(); ++i ) ids.insert( ids.begin() + long( g.raw( ids.size() + 1 ) ), i );
      const int k = g.i( 1, int( ids.size() ) / 2 );
      for( int i = 0; i < k; ++i ) pairs.emplace_back( ids[2 * size_t( i )], ids[2 * size_t( i ) + 1] );
    }
    std::vector<StaticPlane> planes;
    for( const Pl& q : pl )
    {
      Node n( "static_plane" );
      n.add( "x", q.x.t + " " + q.y.t, LIST, 2 );
      n.add( "n", q.nx.t + " " + q.ny.t, LIST, 2 );
      planes.emplace_back( Vector2s( q.x.v, q.y.v ), Vector2s( q.nx.v, q.ny.v ) );
      root.kids.push_back( n );
    }
    std::vector<PlanarPortal> plain, moving;
    std::set<unsigned> used;
    for( auto& pr : pairs )
    {
      const bool le = g.b( 0.4 );
      Node n( le ? "lees_edwards_portal" : "planar_portal" );
      At& a = n.add( "planeA", std::to_string( pr.first ), INDEX, int( planes.size() ) );
      a.reject.push_back( std::to_string( pr.second ) );
      At& b = n.add( "planeB", std::to_string( pr.second ), INDEX, int( planes.size() ) );
      for( auto& other : pairs ) if( other != pr ) { b.reject.push_back( std::to_string( other.first ) ); b.reject.push_back( std::to_string( other.second ) ); n.at( "planeA" ).reject.push_back( std::to_string( other.first ) ); }
      if( le )
      {
        const Num v = real( g, 2.0 ), bd = tame ? Num{ "4.0", 4.0 } : positive( g, 0.1, 10.0 );
        n.add( "v", v.t, REAL ); n.add( "bounds", bd.t, POS );
        moving.emplace_back( planes[pr.first], planes[pr.second], v.v, bd.v );
      }
      else plain.emplace_back( planes[pr.first], planes[pr.second], 0.0, 0.0 );
      used.insert( pr.first ); used.insert( pr.second );
      root.kids.push_back( n );
    }
    for( unsigned i = 0; i < planes.size(); ++i ) if( !used.count( i ) ) st.staticPlanes().push_back( planes[i] );
    for( auto& p : plain ) st.planarPortals().push_back( p );
    for( auto& p : moving ) st.planarPortals().push_back( p );
    if( !pairs.empty() ) br.emplace_back( "portals without planes", []( Gen&, Node& r )
    {
      std::vector<Node> keep;
      bool one = false;
      for( Node& k : r.kids ) if( k.tag != "static_plane" || !one ) { one = one || k.tag == "static_plane"; keep.push_back( k ); }
      r.kids = keep;
    } );
    // Balls
    const int n = tame ? g.i( 0, 5 ) : g.i( 0, 4 );
    std::vector<Vector2s> xs;
    VectorXs q( 2 * n ), v( 2 * n ), m( 2 * n ), r( n );
    for( int i = 0; i < n; ++i )
    {
      Num x = real( g, sp ), y = real( g, sp ), rr = positive( g, 0.2, tame ? 0.6 : 5.0 ), mm = positive( g, 0.2, 20.0 ), vx = real( g, tame ? 3.0 : 10.0 ), vy = real( g, tame ? 3.0 : 10.0 );
      if( tame ) for( const Vector2s& o2 : xs ) if( ( o2 - Vector2s( x.v, y.v ) ).norm() < 0.3 ) throw pbt::Discard{};
      if( tame && portals && ( std::fabs( x.v ) > 3.0 || std::fabs( y.v ) > 3.0 ) ) throw pbt::Discard{};
      xs.emplace_back( x.v, y.v );
      const Num fx = tame ? Num{ "0", 0.0 } : boolean( g );
      Node b( "ball" );
      b.add( "x", x.t, REAL ); b.add( "y", y.t, REAL ); b.add( "vx", vx.t, REAL ); b.add( "vy", vy.t, REAL );
      b.add( "m", mm.t, REAL ); b.add( "r", rr.t, REAL ); b.add( "fixed", fx.t, BOOL );
      root.kids.push_back( b );
      q.segment<2>( 2 * i ) << x.v, y.v;
      v.segment<2>( 2 * i ) << vx.v, vy.v;
      m.segment<2>( 2 * i ).setConstant( mm.v );
      r( i ) = rr.v;
      st.fixed().push_back( fx.v != 0.0 );
    }
    st.q() = q; st.v() = v; st.r() = r;
    st.setMass( m );
    std::ostringstream look;
    look.precision( 17 );
    if( !tame && g.b( 0.4 ) )
    {
      Node cn( "camera" );
      const Num cx = real( g ), cy = real( g ), sf = real( g ), fps = integer( g, 1, 200 ), rf = boolean( g ), lk = boolean( g );
      cn.add( "cx", cx.t, REAL ); cn.add( "cy", cy.t, REAL ); cn.add( "scale_factor", sf.t, REAL ); cn.add( "fps", fps.t, UINT ); cn.add( "render_at_fps", rf.t, BOOL ); cn.add( "locked", lk.t, BOOL );
      root.kids.push_back( cn );
      look << "camera " << cx.v << " " << cy.v << " " << sf.v << " " << unsigned( fps.v ) << " " << ( rf.v != 0 ) << " " << ( lk.v != 0 );
    }
    e.look = look.str();
    e.state = bytesOf( st );
    return root;
  }
  static bool parse( const std::string& file, Parsed& p, Sim* sim )
  {
    Ball2DState st;
    bool set = false, rf = false, lk = false;
    Eigen::Vector2d ctr( 0.0, 0.0 );
    double sc = 0.0;
    unsigned fps = 0;
    const bool ok = Ball2DSceneParser::parseXMLSceneFile( file, p.callback, st, p.umap, p.dt_string, p.dt, p.end, p.op, p.imap, p.CoR, p.fs, p.mu, p.ifm, set, ctr, sc, fps, rf, lk );
    if( !ok ) return false;
    std::ostringstream look;
    look.precision( 17 );
    if( set ) look << "camera " << ctr.x() << " " << ctr.y() << " " << sc << " " << fps << " " << rf << " " << lk;
    p.look = look.str();
    p.state = bytesOf( st );
    sim->state() = std::move( st );
    return true;
  }
  static void compareState( pbt::Ctx& c, const Sim& s, const Parsed& want )
  {
    Ball2DState w;
    std::istringstream in( want.state );
    w.deserialize( in );
    const Ball2DState& g = const_cast<Sim&>( s ).state();
    CHECK( g.nballs() == w.nballs(), g.nballs() << " balls instead of " << w.nballs() );
    CHECK( g.q() == w.q(), "positions differ" );
    CHECK( g.v() == w.v(), "velocities differ" );
    CHECK( g.r() == w.r(), "radii differ" );
    CHECK( g.staticPlanes().size() == w.staticPlanes().size(), "planes differ in number" );
    CHECK( g.staticDrums().size() == w.staticDrums().size(), "drums differ in number" );
    CHECK( g.planarPortals().size() == w.planarPortals().size(), "portals differ in number" );
    CHECK( bytesOf( g ) == want.state, "masses, fixed balls, planes, drums, portals or forces differ" );
  }
  using Scripting = PythonScripting;
  static PythonScripting*& attached() { static PythonScripting* p = nullptr; return p; }
  static void step( Sim& sim, Parsed& e, unsigned it, HDF5File* f )
  {
    PythonScripting none;
    PythonScripting& ps = attached() ? *attached() : none;
    if( e.op )
    {
      ImpactSolution sol;
      if( f ) e.imap->exportForcesNextStep( sol );
      sim.flow( ps, it, e.dt, *e.umap, *e.op, e.CoR, *e.imap );
      if( f ) sol.writeSolution( *f );
    }
    else if( e.fs )
    {
      if( f ) e.ifm->exportForcesNextStep( *f );
      sim.flow( ps, it, e.dt, *e.umap, e.CoR, e.mu, *e.fs, *e.ifm );
    }
    else sim.flow( ps, it, e.dt, *e.umap );
  }

  #ifdef USE_PYTHON
  struct Py
  {
    static const char* module() { return "balls2d"; }
    static bool coefficients() { return true; }
    static bool startsAnywhere() { return false; } // whether a script can set the first iteration
    static void ready( PythonScripting& ps ) { (void) ps; }
    static std::string lookPy() { return "'%d|%s|%s' % ( m.numStaticPlanes(), numbers( m.configuration() ), numbers( m.velocity() ) )"; }
    static std::string look( Sim& s ) { return std::to_string( s.state().staticPlanes().size() ) + "|" + g17( s.state().q() ) + "|" + g17( s.state().v() ); }
    static std::string op( Gen& g, Sim& s )
    {
      Ball2DState& st = s.state();
      const int n = int( st.nballs() ), np = int( st.staticPlanes().size() );
      const int b = n ? g.i( 0, n - 1 ) : 0, p = np ? g.i( 0, np - 1 ) : 0;
      std::ostringstream o;
      o.precision( 17 );
      switch( g.i( 0, 5 ) )
      {
        case 0:
        {
          if( n > 12 ) return "";
          const Vector2s x( g.s( 8.0 ), g.s( 8.0 ) ), v( g.s( 2.0 ), g.s( 2.0 ) );
          const double r = g.u( 0.2, 1.0 ), m = g.u( 0.5, 4.0 );
          const bool f = g.b( 0.1 );
          for( int i = 0; i < n; ++i ) if( ( st.q().segment<2>( 2 * i ) - x ).norm() < 0.8 * ( r + st.r()( i ) ) ) return "";
          st.pushBallBack( x, v, r, m, f );
          o << "m.insertBall( " << x.x() << ", " << x.y() << ", " << v.x() << ", " << v.y() << ", " << r << ", " << m << ", " << int( f ) << " )";
          break;
        }
        case 1:
        {
          if( !np ) return "";
          const Vector2s x = st.staticPlanes()[p].x() + Vector2s( g.s( 0.1 ), g.s( 0.1 ) );
          st.staticPlanes()[p].x() = x;
          o << "m.setStaticPlanePosition( " << p << ", " << x.x() << ", " << x.y() << " )";
          break;
        }
        case 2:
        {
          if( !np ) return "";
          const Vector2s v( g.s( 2.0 ), g.s( 2.0 ) );
          st.staticPlanes()[p].v() = v;
          o << "m.setStaticPlaneVelocity( " << p << ", " << v.x() << ", " << v.y() << " )";
          break;
        }
        case 3:
        {
          if( !np ) return "";
          st.staticPlanes().erase( st.staticPlanes().begin() + p );
          o << "m.deleteStaticPlane( " << p << " )";
          break;
        }
        case 4:
        {
          if( !n || st.fixed()[b] ) return "";
          const int k = 2 * b + g.i( 0, 1 );
          st.v()( k ) = g.s( 3.0 );
          o << "m.velocity()[" << k << "] = " << st.v()( k );
          break;
        }
        default:
        {
          if( !n || st.fixed()[b] ) return "";
          const int k = 2 * b + g.i( 0, 1 );
          st.q()( k ) += g.s( 0.05 );
          o << "m.configuration()[" << k << "] = " << st.q()( k );
          break;
        }
      }
      return o.str();
    }
    static std::string bad( Gen& g, Sim& s, Sim& )
    {
      const std::string idx = g.pick( { std::string( "m.numStaticPlanes()" ), std::string( "m.numStaticPlanes()" ), std::string( "m.numStaticPlanes() + " ) + std::to_string( g.i( 1, 1000 ) ), std::string( "-1" ), std::string( "'0'" ), std::string( "0.5" ), std::string( "None" ) } );
      (void) s;
      switch( g.i( 0, 4 ) )
      {
        case 0: return "m.setStaticPlanePosition( " + idx + ", 0.0, 0.0 )";
        case 1: return "m.setStaticPlaneVelocity( " + idx + ", 0.0, 0.0 )";
        case 2: return "m.deleteStaticPlane( " + idx + " )";
        case 3: return g.pick( { std::string( "m.setStaticPlanePosition( 0 )" ), std::string( "m.setStaticPlanePosition( 0, 1.0, 'x' )" ), std::string( "m.setStaticPlaneVelocity( 0, 1.0, 2.0, 3.0 )" ), std::string( "m.deleteStaticPlane()" ), std::string( "m.insertBall()" ) } );
        default:
        {
          std::vector<std::string> a{ "1.0", "2.0", "0.0", "0.0", "0.5", "1.0", "0" };
          switch( g.i( 0, 3 ) )
          {
            case 0: a[4] = g.pick( { std::string( "0.0" ), std::string( "-1.0" ), std::string( "-1e-300" ) } ); break;
            case 1: a[5] = g.pick( { std::string( "0.0" ), std::string( "-1.0" ) } ); break;
            case 2: a[6] = g.pick( { std::string( "2" ), std::string( "-1" ), std::string( "0.5" ), std::string( "None" ) } ); break;
            default: a[size_t( g.i( 0, 6 ) )] = g.pick( { std::string( "'x'" ), std::string( "None" ), std::string( "[]" ) } ); break;
          }
          std::string r = "m.insertBall( ";
          for( size_t i = 0; i < a.size(); ++i ) r += ( i ? ", " : "" ) + a[i];
          return r + " )";
        }
      }
    }
    // Statements that depend on the iteration k and the state alone
    static std::string stateless( Gen& g, const std::string& in )
    {
      std::string r;
      for( int i = g.i( 0, 2 ); i > 0; --i ) switch( g.i( 0, 4 ) )
      {
        case 0: r += in + "if k % " + std::to_string( g.i( 1, 4 ) ) + " == 0: m.velocity()[:] *= " + g17( g.u( 0.8, 1.1 ) ) + "\n"; break;
        case 1: r += in + "if k == " + std::to_string( g.i( 0, 6 ) ) + ": m.insertBall( 40.0 + 3.0 * " + std::to_string( g.i( 0, 9 ) ) + ", 30.0 + 3.0 * " + std::to_string( g.i( 0, 9 ) ) + ", " + g17( g.s( 1.0 ) ) + ", 0.5, 0.5, 1.0, 0 )\n"; break;
        case 2: r += in + "for p in range( m.numStaticPlanes() ): m.setStaticPlaneVelocity( p, 0.01 * k, " + g17( g.s( 0.5 ) ) + " )\n"; break;
        case 3: r += in + "if k == " + std::to_string( g.i( 0, 6 ) ) + " and m.numStaticPlanes() > 0: m.deleteStaticPlane( m.numStaticPlanes() - 1 )\n"; break;
        default: r += in + "if m.numStaticPlanes() > 0: m.setStaticPlanePosition( 0, " + g17( g.s( 0.5 ) ) + ", -30.0 + 0.001 * k )\n"; break;
      }
      return r;
    }
  };
  #endif
};
}
#endif
