// Scene files: a tree of elements with typed attributes, rendered as XML in many equivalent ways and broken in
// many ways; scratch directories and child processes for the command line programs.
#ifndef VERIF_SCENE_FILE_H
#define VERIF_SCENE_FILE_H
#include "pbt.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <functional>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <ftw.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace sf
{
using pbt::Gen;
enum Kind { REAL, POS, NONNEG, UNIT, PINT, UINT, BOOL, RATIONAL, LIST, LISTPOS, LISTNONNEG, LISTSIGN, ENUM, INDEX, SINDEX, TEXT };
struct At { std::string name, val; Kind k; bool req = true; int n = 0; std::vector<std::string> reject; };
struct Node
{
  std::string tag;
  std::vector<At> ats;
  std::vector<Node> kids;
  bool req = false; // leaving the element out makes the scene invalid
  explicit Node( std::string t = "" ) : tag( std::move( t ) ) {}
  At& at( const std::string& n ) { for( At& a : ats ) if( a.name == n ) return a; throw std::runtime_error( "no attribute " + n ); }
  bool has( const std::string& n ) const { for( const At& a : ats ) if( a.name == n ) return true; return false; }
  At& add( const std::string& n, const std::string& v, Kind k, int cnt = 0 ) { ats.push_back( At{ n, v, k, true, cnt, {} } ); return ats.back(); }
};

// Text of a number; its value is what strtod makes of the text
inline std::string numText( Gen& g, double v )
{
  char b[64];
  switch( g.w( { 4, 3, 1, 1 } ) )
  {
    case 0: std::snprintf( b, sizeof b, "%.*f", g.i( 0, 6 ), v ); break;
    case 1: std::snprintf( b, sizeof b, "%.17g", v ); break;
    case 2: std::snprintf( b, sizeof b, "%.*e", g.i( 0, 12 ), v ); break;
    default: std::snprintf( b, sizeof b, "%s%g", v >= 0.0 ? "+" : "", v ); break;
  }
  return b;
}
inline double val( const std::string& s ) { return std::strtod( s.c_str(), nullptr ); }
struct Num { std::string t; double v; };
inline Num real( Gen& g, double mag = 10.0 ) { Num n; n.t = numText( g, g.pick( { g.s( mag ), g.s( mag ), double( g.i( -5, 5 ) ), 0.0, g.s( 1.0e-3 ) } ) ); n.v = val( n.t ); return n; }
inline Num positive( Gen& g, double lo, double hi ) { Num n; do { n.t = numText( g, g.mix( lo, hi ) ); n.v = val( n.t ); } while( !( n.v > 0.0 ) && ( n.t = "0.5", n.v = 0.5, false ) ); return n; }
inline Num nonneg( Gen& g, double hi ) { if( g.b( 0.15 ) ) return Num{ g.pick( { std::string( "0" ), std::string( "0.0" ) } ), 0.0 }; return positive( g, 0.01 * hi, hi ); }
inline Num unit( Gen& g ) { switch( g.w( { 1, 1, 3 } ) ) { case 0: return Num{ "0.0", 0.0 }; case 1: return Num{ "1.0", 1.0 }; default: { Num n; n.t = numText( g, g.u( 0.05, 0.95 ) ); n.v = val( n.t ); return n; } } }
inline Num integer( Gen& g, int lo, int hi ) { const int k = g.i( lo, hi ); return Num{ std::to_string( k ), double( k ) }; }
inline Num boolean( Gen& g ) { return g.b() ? Num{ "1", 1.0 } : Num{ "0", 0.0 }; }

// Attribute order, quotes, white space, comments and the order of unrelated elements carry no meaning
inline std::string space( Gen& g, bool needed )
{
  switch( g.w( { 6, 1, 1, 1, 1 } ) ) { case 0: return needed ? " " : ""; case 1: return "\n"; case 2: return "  \t"; case 3: return "\n\n   "; default: return needed ? "\r\n" : " "; }
}
inline void render( Gen& g, const Node& n, std::string& o )
{
  o += "<" + n.tag;
  std::vector<size_t> ord;
  for( size_t i = 0; i < n.ats.size(); ++i ) ord.insert( ord.begin() + long( g.raw( ord.size() + 1 ) ), i );
  for( size_t i : ord )
  {
    const char q = g.b( 0.15 ) ? '\'' : '"';
    o += space( g, true ) + n.ats[i].name + ( g.b( 0.1 ) ? " = " : "=" ) + q + n.ats[i].val + q;
  }
  if( n.kids.empty() && g.b( 0.85 ) ) { o += space( g, false ) + "/>"; return; }
  o += ">";
  // Keep the order of elements of the same kind, interleave the rest
  std::vector<size_t> left;
  for( size_t i = 0; i < n.kids.size(); ++i ) left.push_back( i );
  const bool shuffle = g.b( 0.5 );
  while( !left.empty() )
  {
    size_t k = shuffle ? size_t( g.raw( left.size() ) ) : 0;
    for( size_t j = 0; j < k; ++j ) if( n.kids[left[j]].tag == n.kids[left[k]].tag ) { k = j; break; }
    o += space( g, false );
    if( g.b( 0.04 ) ) o += "<!-- a comment with <tags x=\"1\"/> -->";
    render( g, n.kids[left[k]], o );
    left.erase( left.begin() + long( k ) );
  }
  o += space( g, false ) + "</" + n.tag + ">";
}
inline std::string renderDoc( Gen& g, const Node& root )
{
  std::string o;
  if( g.b( 0.2 ) ) o += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  if( g.b( 0.2 ) ) o += "<!-- generated -->\n";
  render( g, root, o );
  if( g.b( 0.5 ) ) o += "\n";
  return o;
}

// Values that the attribute must not take
inline std::string badNumber( Gen& g ) { return g.pick( { std::string( "abc" ), std::string( "" ), std::string( "x1.0" ), std::string( "--1" ), std::string( "nan" ), std::string( "." ), std::string( "e5" ), std::string( "one" ) } ); }
inline std::vector<std::string> words( const std::string& s ) { std::istringstream i( s ); std::vector<std::string> w; std::string x; while( i >> x ) w.push_back( x ); return w; }
inline std::string joined( const std::vector<std::string>& w ) { std::string s; for( size_t i = 0; i < w.size(); ++i ) s += ( i ? " " : "" ) + w[i]; return s; }
inline bool breakable( const At& a ) { return a.k != TEXT || a.req; }
// Returns a description; an empty one when the attribute is to be removed
inline std::string breakAttribute( Gen& g, Node& n, size_t idx )
{
  At& a = n.ats[idx];
  const std::string was = a.val;
  if( a.k == TEXT || ( a.req && g.b( 0.3 ) ) )
  {
    const std::string nm = a.name;
    n.ats.erase( n.ats.begin() + long( idx ) );
    return "attribute " + nm + " missing";
  }
  if( !a.reject.empty() && g.b( 0.5 ) ) a.val = g.pick( a.reject );
  else switch( a.k )
  {
    case REAL: a.val = badNumber( g ); break;
    case POS: a.val = g.b() ? badNumber( g ) : g.pick( { std::string( "0" ), std::string( "0.0" ), std::string( "-1.0" ), std::string( "-1e-9" ), "-" + ( was[0] == '+' ? was.substr( 1 ) : was ) } ); break;
    case NONNEG: a.val = g.b() ? badNumber( g ) : g.pick( { std::string( "-1.0" ), std::string( "-1e-9" ), std::string( "-0.25" ) } ); break;
    case UNIT: a.val = g.b() ? badNumber( g ) : g.pick( { std::string( "-0.1" ), std::string( "-1" ), std::string( "1.0001" ), std::string( "2.0" ), std::string( "100" ) } ); break;
    case PINT: a.val = g.b() ? badNumber( g ) : g.pick( { std::string( "0" ), std::string( "-1" ), std::string( "-20" ) } ); break;
    case UINT: a.val = badNumber( g ); break;
    case BOOL: a.val = g.pick( { std::string( "true" ), std::string( "yes" ), std::string( "2" ), std::string( "" ), std::string( "x" ) } ); break;
    case RATIONAL: a.val = g.pick( { std::string( "0" ), std::string( "-0.01" ), std::string( "abc" ), std::string( "" ), std::string( "0.0" ), std::string( "1/0" ), std::string( "-1/100" ) } ); break;
    case LIST: case LISTPOS: case LISTNONNEG: case LISTSIGN:
    {
      std::vector<std::string> w = words( was );
      const size_t k = size_t( g.raw( w.size() ) );
      const int how = g.i( 0, a.k == LIST ? 2 : 3 );
      if( how == 0 ) w.erase( w.begin() + long( k ) );
      else if( how == 1 ) w.insert( w.begin() + long( k ), "1" );
      else if( how == 2 ) w[k] = g.pick( { std::string( "abc" ), std::string( "x1" ), std::string( "--2" ), std::string( "nan" ) } );
      else w[k] = a.k == LISTPOS ? g.pick( { std::string( "0" ), std::string( "-1" ), std::string( "-0.001" ) } ) : a.k == LISTNONNEG ? g.pick( { std::string( "-1" ), std::string( "-0.001" ) } ) : g.pick( { std::string( "0" ), std::string( "2" ), std::string( "-2" ), std::string( "-7" ) } );
      a.val = joined( w );
      break;
    }
    case ENUM: a.val = g.pick( { std::string( "bogus" ), std::string( "" ), was + "x", was.substr( 0, was.size() - 1 ), std::string( 1, char( was[0] - 32 ) ) + was.substr( 1 ) } ); break;
    case INDEX: a.val = g.b( 0.4 ) ? badNumber( g ) : std::to_string( a.n + ( g.b( 0.7 ) ? 0 : g.i( 1, 5 ) ) ); break;
    case SINDEX: a.val = g.b( 0.4 ) ? badNumber( g ) : g.b() ? std::to_string( a.n + g.i( 0, 2 ) ) : std::to_string( -a.n - 1 - g.i( 0, 2 ) ); break;
    case TEXT: break;
  }
  return "attribute " + a.name + "=\"" + was + "\" became \"" + a.val + "\"";
}
inline void collect( Node& n, std::vector<Node*>& out ) { out.push_back( &n ); for( Node& k : n.kids ) collect( k, out ); }

inline std::string slurp( const std::string& f ) { std::ifstream i( f, std::ios::binary ); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void spit( const std::string& f, const std::string& s ) { std::ofstream o( f, std::ios::binary ); o << s; }
inline bool exists( const std::string& f ) { struct stat s; return ::lstat( f.c_str(), &s ) == 0; }

// A directory of its own for a case; removed with everything in it
struct Scratch
{
  std::string dir;
  Scratch()
  {
    const char* base = std::getenv( "VERIF_SCRATCH" );
    std::string t = std::string( base ? base : "/tmp" ) + "/sceneXXXXXX";
    std::vector<char> b( t.begin(), t.end() ); b.push_back( 0 );
    if( !::mkdtemp( b.data() ) ) throw std::runtime_error( "mkdtemp failed" );
    dir = b.data();
  }
  ~Scratch()
  {
    if( dir.find( "/scene" ) == std::string::npos ) return;
    ::nftw( dir.c_str(), []( const char* p, const struct stat*, int, struct FTW* ) { return ::remove( p ); }, 16, FTW_DEPTH | FTW_PHYS );
  }
  std::string operator()( const std::string& f ) const { return dir + "/" + f; }
};
inline std::set<std::string> listing( const std::string& d )
{
  std::set<std::string> s;
  if( DIR* h = ::opendir( d.c_str() ) ) { while( dirent* e = ::readdir( h ) ) { const std::string n = e->d_name; if( n != "." && n != ".." ) s.insert( n ); } ::closedir( h ); }
  return s;
}

struct Run { bool exited = false; int code = -1, signal = 0; std::string out; };
inline Run spawn( const std::string& cwd, const std::vector<std::string>& args, unsigned cpu = 20, rlim_t fsize = RLIM_INFINITY )
{
  Run r;
  const std::string log = cwd + "/.log";
  const pid_t p = ::fork();
  if( p < 0 ) throw pbt::Discard{};
  if( p == 0 )
  {
    if( ::chdir( cwd.c_str() ) != 0 ) ::_exit( 96 );
    const int fd = ::open( log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
    ::dup2( fd, 1 ); ::dup2( fd, 2 );
    const int nul = ::open( "/dev/null", O_RDONLY );
    ::dup2( nul, 0 );
    rlimit l{ cpu, cpu + 1 };
    ::setrlimit( RLIMIT_CPU, &l );
    rlimit core{ 0, 0 };
    ::setrlimit( RLIMIT_CORE, &core );
    (void) fsize;
    std::vector<char*> av;
    for( const std::string& a : args ) av.push_back( const_cast<char*>( a.c_str() ) );
    av.push_back( nullptr );
    ::execv( av[0], av.data() );
    ::_exit( 97 );
  }
  int st = 0;
  while( ::waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {}
  pbt::childDied( st );
  if( WIFEXITED( st ) ) { r.exited = true; r.code = WEXITSTATUS( st ); }
  else { r.signal = WTERMSIG( st ); }
  r.out = slurp( log );
  ::unlink( log.c_str() );
  return r;
}
}
#endif
