// Solver part of a scene and what a parsed scene has to contain
#ifndef VERIF_SCENE_COMMON_H
#define VERIF_SCENE_COMMON_H
#include "scene_file.h"
#include "fakeh5.h"
#include "scisim/Math/MathDefines.h"
#include "scisim/Math/Rational.h"
#include "scisim/StringUtilities.h"
#include "scisim/HDF5File.h"
#include "scisim/CompileDefinitions.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/ConstrainedMaps/ConstrainedMapUtilities.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactSolution.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/JacobiOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include <Eigen/Geometry>
#include <iomanip>

namespace sf
{
using Break = std::pair<std::string, std::function<void( Gen&, Node& )>>;
struct Parsed
{
  std::string callback, dt_string;
  std::unique_ptr<UnconstrainedMap> umap;
  Rational<std::intmax_t> dt;
  scalar end = SCALAR_INFINITY, CoR = SCALAR_NAN, mu = SCALAR_NAN;
  std::unique_ptr<ImpactOperator> op;
  std::unique_ptr<ImpactMap> imap;
  std::unique_ptr<FrictionSolver> fs;
  std::unique_ptr<ImpactFrictionMap> ifm;
  bool jacobi = false; // the Jacobi operator cannot be serialized
  std::string state, look; // bytes of the state, camera and renderer settings as text
};
struct SceneOpts { bool tame = false; bool apgd = false; bool cache_attr = true; bool cacheable = true; SobogusSolverType type = SobogusSolverType::Balls2D; };

inline const Node* find( const Node& n, const std::string& tag ) { for( const Node& k : n.kids ) if( k.tag == tag ) return &k; return nullptr; }
inline Node* find( Node& n, const std::string& tag ) { for( Node& k : n.kids ) if( k.tag == tag ) return &k; return nullptr; }
inline int countTag( const Node& n, const std::string& tag ) { int c = 0; for( const Node& k : n.kids ) c += k.tag == tag; return c; }

inline std::string textValue( Gen& g ) { return g.pick( { std::string( "callbacks" ), std::string( "my_script" ), std::string( "a b" ), std::string( "x.y-z" ) } ); }

inline std::unique_ptr<ImpactOperator> genLCP( Gen& g, Node& parent, const SceneOpts& o )
{
  Node s( "solver" );
  s.req = true;
  s.add( "name", "apgd", ENUM );
  const Num tol = o.tame ? Num{ "1.0e-12", 1.0e-12 } : positive( g, 1.0e-6, 1.0 );
  s.add( "tol", tol.t, POS );
  const Num it = o.tame ? Num{ "2000", 2000 } : integer( g, 0, 5000 );
  s.add( "max_iters", it.t, UINT );
  parent.kids.push_back( s );
  (void) o;
  return std::unique_ptr<ImpactOperator>( new LCPOperatorAPGD{ tol.v, unsigned( it.v ) } );
}
inline std::unique_ptr<ImpactOperator> genOperator( Gen& g, Node& n, const SceneOpts& o, int depth )
{
  const int kind = !o.apgd ? ( o.tame ? 0 : g.i( 0, 1 ) ) : o.tame ? g.pick( { 0, 2, 2, 3 } ) : g.i( 0, depth ? 3 : 4 );
  if( kind == 0 || kind == 1 )
  {
    n.add( "type", kind ? "jacobi" : "gauss_seidel", ENUM );
    const Num t = o.tame ? Num{ "1.0e-8", 1.0e-8 } : nonneg( g, 1.0 );
    n.add( "v_tol", t.t, NONNEG );
    if( kind ) return std::unique_ptr<ImpactOperator>( new JacobiOperator{ t.v } );
    return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator{ t.v } );
  }
  if( kind == 2 ) { n.add( "type", "lcp", ENUM ); return genLCP( g, n, o ); }
  if( kind == 3 )
  {
    n.add( "type", "gr", ENUM );
    const Num t = o.tame ? Num{ "1.0e-8", 1.0e-8 } : nonneg( g, 1.0 );
    n.add( "v_tol", t.t, NONNEG );
    const std::unique_ptr<ImpactOperator> lcp = genLCP( g, n, o );
    return std::unique_ptr<ImpactOperator>( new GROperator{ t.v, *lcp } );
  }
  n.add( "type", "grr", ENUM );
  Node e( "elastic_operator" ), i( "inelastic_operator" );
  e.req = i.req = true;
  const std::unique_ptr<ImpactOperator> eo = genOperator( g, e, o, depth + 1 ), io = genOperator( g, i, o, depth + 1 );
  n.kids.push_back( e );
  n.kids.push_back( i );
  return std::unique_ptr<ImpactOperator>( new GRROperator{ *eo, *io } );
}
inline bool hasJacobi( const Node& n ) { for( const At& a : n.ats ) if( a.name == "type" && a.val == "jacobi" ) return true; for( const Node& k : n.kids ) if( hasJacobi( k ) ) return true; return false; }
inline Node genImpact( Gen& g, Parsed& e, const SceneOpts& o )
{
  Node n( "impact_operator" );
  const Num cor = unit( g );
  n.add( "CoR", cor.t, UNIT );
  e.CoR = cor.v;
  if( o.cache_attr )
  {
    const Num c = o.tame && !o.cacheable ? Num{ "0", 0 } : boolean( g );
    n.add( "cache_impulses", c.t, BOOL );
    e.imap.reset( new ImpactMap( c.v != 0.0 ) );
  }
  e.op = genOperator( g, n, o, 0 );
  e.jacobi = hasJacobi( n );
  return n;
}
inline Node genSobogus( Gen& g, Parsed& e, const SceneOpts& o, bool portals )
{
  Node n( "sobogus_friction_solver" );
  const Num mu = nonneg( g, 1.5 );
  n.add( "mu", mu.t, NONNEG );
  e.mu = mu.v;
  const Num it = o.tame ? Num{ "200", 200 } : integer( g, 1, 5000 );
  n.add( "max_iters", it.t, PINT );
  const Num ev = integer( g, 1, std::min( 30, int( it.v ) ) );
  At& ea = n.add( "eval_every", ev.t, PINT );
  ea.reject.push_back( std::to_string( int( it.v ) + 1 ) );
  ea.reject.push_back( std::to_string( int( it.v ) * 2 + 7 ) );
  const Num tol = o.tame ? Num{ "1.0e-10", 1.0e-10 } : nonneg( g, 1.0 );
  n.add( "tol", tol.t, NONNEG );
  const bool b2 = o.type == SobogusSolverType::Balls2D, r2 = o.type == SobogusSolverType::RigidBody2D;
  const int stag = r2 ? g.pick( { 0, 0, 2 } ) : g.i( 0, 2 );
  const ImpulsesToCache caches[] = { ImpulsesToCache::NONE, ImpulsesToCache::NORMAL, ImpulsesToCache::NORMAL_AND_FRICTION };
  int cache = portals ? 0 : g.i( 0, 2 );
  if( stag == 2 && b2 ) cache = 0;
  // Warm starting of contacts that have no cache ends the 3D program
  if( o.tame && !o.cacheable ) cache = 0;
  const char* names[] = { "none", "normal", "normal_and_friction" };
  const bool with_cache = b2 || r2 || stag == 1;
  if( with_cache )
  {
    At& a = n.add( "cache_impulses", names[cache], ENUM );
    if( stag == 2 && b2 ) { a.reject.push_back( "normal" ); a.reject.push_back( "normal_and_friction" ); }
  }
  if( stag == 0 )
  {
    const Num cor = unit( g );
    n.add( "CoR", cor.t, UNIT );
    e.CoR = cor.v;
    n.add( "staggering", "geometric", ENUM );
    e.ifm.reset( new GeometricImpactFrictionMap{ tol.v, unsigned( it.v ), with_cache ? caches[cache] : ImpulsesToCache::NONE } );
  }
  else if( stag == 1 )
  {
    At& a = n.add( "CoR", "0.0", UNIT );
    a.reject.push_back( "0.5" );
    a.reject.push_back( "1.0" );
    e.CoR = 0.0;
    n.add( "staggering", "symplectic_euler", ENUM );
    const Num st = boolean( g ), pt = o.tame ? nonneg( g, 0.01 ) : nonneg( g, 1.0 );
    n.add( "stabilization", st.t, BOOL );
    n.add( "penetration_threshold", pt.t, NONNEG );
    e.ifm.reset( new SymplecticEulerImpactFrictionMap{ tol.v, unsigned( it.v ), caches[cache], st.v != 0.0, pt.v } );
  }
  else
  {
    const Num cor = unit( g );
    n.add( "CoR", cor.t, UNIT );
    e.CoR = cor.v;
    n.add( "staggering", "stabilized", ENUM );
    e.ifm.reset( new StabilizedImpactFrictionMap{ tol.v, unsigned( it.v ), false, false } );
  }
  e.fs.reset( new Sobogus{ o.type, unsigned( ev.v ) } );
  return n;
}
// Time step, end time, scripting callback, solver
inline void genCommon( Gen& g, Node& root, Parsed& e, const SceneOpts& o, bool portals, std::vector<Break>& br )
{
  if( !o.tame && g.b( 0.2 ) )
  {
    Node n( "scripting" );
    e.callback = textValue( g );
    n.add( "callback", e.callback, TEXT );
    root.kids.push_back( n );
  }
  if( o.tame || g.b( 0.6 ) )
  {
    Node n( "end_time" );
    const Num t = o.tame ? Num{ "1", 1 } : positive( g, 0.01, 100.0 );
    n.add( "t", t.t, POS );
    e.end = t.v;
    root.kids.push_back( n );
  }
  const int solver = g.w( { 1, 2, 3 } );
  if( solver == 1 ) root.kids.push_back( genImpact( g, e, o ) );
  if( solver == 2 ) root.kids.push_back( genSobogus( g, e, o, portals ) );
  if( solver )
    br.emplace_back( "two solvers", [o, solver]( Gen& g2, Node& r )
    {
      Parsed dummy;
      if( solver == 1 ) r.kids.push_back( genSobogus( g2, dummy, o, true ) ); else r.kids.push_back( genImpact( g2, dummy, o ) );
    } );
}
inline std::string dtText( Gen& g, bool tame )
{
  if( tame ) return g.pick( { std::string( "0.01" ), std::string( "1/100" ), std::string( "0.005" ), std::string( "1/60" ), std::string( "0.0125" ), std::string( "1/240" ), std::string( "0.02" ), std::string( "1/3000" ), std::string( "0.015" ), std::string( "7/500" ), std::string( "3/1000" ), std::string( "2/250" ) } );
  switch( g.i( 0, 2 ) )
  {
    case 0: { char b[32]; std::snprintf( b, sizeof b, "%.*f", g.i( 1, 8 ), g.u( 0.2, 2.0 ) ); return b; }
    case 1: return std::to_string( g.i( 1, 50 ) ) + "/" + std::to_string( g.i( 1, 5000 ) );
    default: return std::to_string( g.i( 1, 20 ) );
  }
}
// Exact value of the text, without the parser under test
inline Rational<std::intmax_t> dtValue( const std::string& s )
{
  std::intmax_t num, den = 1;
  const size_t sl = s.find( '/' ), dot = s.find( '.' );
  if( sl != std::string::npos ) { num = std::stoll( s.substr( 0, sl ) ); den = std::stoll( s.substr( sl + 1 ) ); }
  else if( dot != std::string::npos ) { num = std::stoll( s.substr( 0, dot ) + s.substr( dot + 1 ) ); for( size_t i = dot + 1; i < s.size(); ++i ) den *= 10; }
  else num = std::stoll( s );
  return Rational<std::intmax_t>( num, den );
}
inline void genIntegrator( Gen& g, Node& root, Parsed& e, bool tame, const std::string& type, bool req )
{
  Node n( "integrator" );
  n.req = req;
  e.dt_string = dtText( g, tame );
  e.dt = dtValue( e.dt_string );
  n.add( "dt", e.dt_string, RATIONAL );
  n.add( "type", type, ENUM );
  root.kids.push_back( n );
}
template<class T> std::string bytes( const std::unique_ptr<T>& p ) { std::ostringstream o; ConstrainedMapUtilities::serialize( p, o ); return o.str(); }
inline bool same( double a, double b ) { return ( std::isnan( a ) && std::isnan( b ) ) || a == b; }
inline void compareParsed( pbt::Ctx& c, const Parsed& got, const Parsed& want )
{
  CHECK( got.callback == want.callback, "scripting callback is '" << got.callback << "' instead of '" << want.callback << "'" );
  CHECK( got.dt_string == want.dt_string, "time step text is '" << got.dt_string << "' instead of '" << want.dt_string << "'" );
  CHECK( got.dt.numerator() == want.dt.numerator() && got.dt.denominator() == want.dt.denominator(), "time step is " << got.dt << " instead of " << want.dt );
  CHECK( same( got.end, want.end ), "end time is " << got.end << " instead of " << want.end );
  CHECK( bool( got.umap ) == bool( want.umap ) && ( !got.umap || got.umap->name() == want.umap->name() ), "integrator is " << ( got.umap ? got.umap->name() : "none" ) );
  CHECK( same( got.CoR, want.CoR ), "restitution is " << got.CoR << " instead of " << want.CoR );
  CHECK( same( got.mu, want.mu ), "friction coefficient is " << got.mu << " instead of " << want.mu );
  CHECK( bool( got.op ) == bool( want.op ) && ( !want.op || got.op->name() == want.op->name() ) && ( want.jacobi || bytes( got.op ) == bytes( want.op ) ), "impact operator differs (" << ( got.op ? got.op->name() : "none" ) << " instead of " << ( want.op ? want.op->name() : "none" ) << ", or its parameters)" );
  CHECK( bool( got.imap ) == bool( want.imap ) && bytes( got.imap ) == bytes( want.imap ), "impact map (impulse caching) differs" );
  CHECK( bool( got.fs ) == bool( want.fs ) && bytes( got.fs ) == bytes( want.fs ), "friction solver differs" );
  CHECK( bool( got.ifm ) == bool( want.ifm ) && bytes( got.ifm ) == bytes( want.ifm ), "impact and friction map differs (" << ( got.ifm ? got.ifm->name() : "none" ) << " instead of " << ( want.ifm ? want.ifm->name() : "none" ) << ", or its parameters)" );
  CHECK( got.look == want.look, "camera or renderers: got " << got.look << " instead of " << want.look );
}

// Break a scene so that it must be rejected; false when nothing can be broken
inline bool breakScene( Gen& g, Node& root, const std::vector<Break>& br, std::string& what )
{
  const int how = g.w( { 10, 2, 1, br.empty() ? 0 : 4 } );
  std::vector<Node*> nodes;
  collect( root, nodes );
  if( how == 0 )
  {
    std::vector<std::pair<Node*, size_t>> targets;
    std::set<std::string> kinds;
    // First a kind of element, then an element, so that rare kinds are broken as often as frequent ones
    for( Node* n : nodes ) if( !n->ats.empty() ) kinds.insert( n->tag );
    if( kinds.empty() ) return false;
    std::vector<std::string> ks( kinds.begin(), kinds.end() );
    const std::string tag = g.pick( ks );
    for( Node* n : nodes ) if( n->tag == tag ) for( size_t i = 0; i < n->ats.size(); ++i ) targets.emplace_back( n, i );
    const auto t = targets[size_t( g.raw( targets.size() ) )];
    what = t.first->tag + ": " + breakAttribute( g, *t.first, t.second );
    return true;
  }
  if( how == 1 )
  {
    std::vector<std::pair<Node*, size_t>> targets;
    for( Node* n : nodes ) for( size_t i = 0; i < n->kids.size(); ++i ) if( n->kids[i].req ) targets.emplace_back( n, i );
    if( targets.empty() ) return false;
    const auto t = targets[size_t( g.raw( targets.size() ) )];
    what = "element " + t.first->kids[t.second].tag + " missing";
    t.first->kids.erase( t.first->kids.begin() + long( t.second ) );
    return true;
  }
  if( how == 2 )
  {
    what = "root element renamed";
    root.tag = g.pick( { std::string( "scene" ), root.tag + "s", root.tag.substr( 1 ), std::string( "rigidbody_scene" ) } );
    return true;
  }
  const Break& b = br[size_t( g.raw( br.size() ) )];
  what = b.first;
  b.second( g, root );
  return true;
}
// Random damage to the text
inline std::string damage( Gen& g, std::string s )
{
  const int k = g.i( 1, 6 );
  for( int i = 0; i < k && !s.empty(); ++i )
  {
    const size_t p = size_t( g.raw( s.size() ) );
    switch( g.i( 0, 5 ) )
    {
      case 0: s.erase( p, size_t( g.i( 1, 8 ) ) ); break;
      case 1: s[p] = g.pick( { '<', '>', '"', '/', '-', '0', '9', ' ', 'x', '&', '\'', '=', '!', '?' } ); break;
      case 2: s.insert( p, s.substr( size_t( g.raw( s.size() ) ), size_t( g.i( 1, 40 ) ) ) ); break;
      case 3: s.resize( p ); break;
      case 4: s.insert( p, g.pick( { std::string( "<" ), std::string( "<![CDATA[" ), std::string( "<!--" ), std::string( "&#x10ffff;" ), std::string( "&#0;" ), std::string( "/>" ), std::string( "1e999" ), std::string( "-" ), std::string( "99999999999999999999" ), std::string( "<?" ) } ) ); break;
      default: s.insert( p, 1, char( g.i( 1, 255 ) ) ); break;
    }
  }
  return s;
}
inline bool sameTree( const fakeh5::Tree& a, const fakeh5::Tree& b, std::string& why )
{
  for( auto& p : a.groups ) if( !b.groups.count( p.first ) ) { why = "group " + p.first; return false; }
  for( auto& p : b.groups ) if( !a.groups.count( p.first ) ) { why = "group " + p.first; return false; }
  for( auto& p : a.sets )
  {
    const auto f = b.sets.find( p.first );
    if( f == b.sets.end() ) { why = "dataset " + p.first + " unexpected"; return false; }
    if( p.second.dims != f->second.dims || !p.second.type.equal( f->second.type ) ) { why = "shape or type of dataset " + p.first; return false; }
    if( p.second.data != f->second.data || p.second.strs != f->second.strs ) { why = "contents of dataset " + p.first; return false; }
  }
  for( auto& p : b.sets ) if( !a.sets.count( p.first ) ) { why = "dataset " + p.first + " missing"; return false; }
  return true;
}
}
#endif
