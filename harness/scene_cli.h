// Scene files and command line programs, generic over the simulator. A harness defines a trait T with
//   gen(g, expected, tame, breaks) -> root element;  parse(file, parsed, sim*) -> bool;
//   step(sim, parsed, iteration, force file or null);  magic()
// before including the SCENE_CHECKS of this file.
#ifndef VERIF_SCENE_CLI_H
#define VERIF_SCENE_CLI_H
#include "scene_common.h"

namespace sf
{
inline std::string program( const char* key )
{
  const char* p = std::getenv( key );
  if( !p ) throw std::runtime_error( std::string( key ) + " is not set" );
  return p;
}
struct Plan
{
  std::string text;       // scene file
  std::string dt_text;
  double dt = 0.0, end = 0.0;
  unsigned sps = 1, freq = 0, steps = 0;
  unsigned from = 0; // iteration the run starts with
  bool forces = false;
  std::vector<std::string> opts; // -e and -f
};
// Times, rates and the options to ask for them
inline Plan plan( Gen& g, const Parsed& e, Node& root, bool forces )
{
  Plan p;
  p.dt_text = e.dt_string;
  p.dt = double( e.dt.numerator() ) / double( e.dt.denominator() );
  p.forces = forces;
  // Output rates for which 1/(dt rate) is a whole number
  if( g.b( 0.7 ) )
  {
    std::vector<unsigned> fr;
    for( unsigned f = 1; f <= 6000; ++f ) if( e.dt.denominator() % ( e.dt.numerator() * std::intmax_t( f ) ) == 0 ) { const auto s = e.dt.denominator() / ( e.dt.numerator() * std::intmax_t( f ) ); if( s <= 8 ) fr.push_back( f ); }
    if( !fr.empty() )
    {
      p.freq = g.pick( fr );
      p.sps = unsigned( e.dt.denominator() / ( e.dt.numerator() * std::intmax_t( p.freq ) ) );
    }
  }
  const int want = g.i( 1, 24 );
  char b[64];
  double t = p.dt * want;
  switch( g.i( 0, 3 ) )
  {
    case 0: std::snprintf( b, sizeof b, "%.17g", t ); break;
    case 1: std::snprintf( b, sizeof b, "%.17g", p.dt * ( want - g.u( 0.05, 0.95 ) ) ); break;
    case 2: std::snprintf( b, sizeof b, "%.6g", t ); break;
    default: std::snprintf( b, sizeof b, "%.4g", t ); break;
  }
  p.end = val( b );
  if( !( p.end > 0.0 ) ) throw pbt::Discard{};
  Node* en = find( root, "end_time" );
  if( g.b( 0.4 ) ) { p.opts.push_back( g.b() ? "-e" : "--end" ); p.opts.push_back( b ); if( g.b( 0.3 ) ) { for( size_t i = 0; i < root.kids.size(); ++i ) if( root.kids[i].tag == "end_time" ) { root.kids.erase( root.kids.begin() + long( i ) ); break; } } }
  else if( en ) en->at( "t" ).val = b;
  if( p.freq ) { p.opts.push_back( g.b() ? "-f" : "--frequency" ); p.opts.push_back( std::to_string( p.freq ) ); }
  while( double( p.steps ) * p.dt < p.end ) { ++p.steps; if( p.steps > 200 ) throw pbt::Discard{}; }
  p.text = renderDoc( g, root );
  return p;
}
template<class T> Plan generatedPlan( Gen& g, Parsed& e, bool forces )
{
  std::vector<Break> br;
  Node root = T::gen( g, e, true, br );
  return plan( g, e, root, forces );
}
// Scenes that come with the simulator and need nothing that is not there
inline const std::vector<std::string>& shippedScenes( const std::string& key )
{
  static std::vector<std::string> found;
  static bool done = false;
  if( done ) return found;
  done = true;
  const char* a = std::getenv( "VERIF_ASSETS" );
  if( !a ) return found;
  std::vector<std::string> dirs{ std::string( a ) + ( key == "VERIF_BIN_B2" ? "/ball2d" : key == "VERIF_BIN_R2" ? "/rigidbody2d" : "/rigidbody3d" ) };
  while( !dirs.empty() )
  {
    const std::string d = dirs.back();
    dirs.pop_back();
    for( const std::string& f : listing( d ) )
    {
      const std::string q = d + "/" + f;
      struct stat st;
      if( ::lstat( q.c_str(), &st ) != 0 ) continue;
      if( S_ISDIR( st.st_mode ) ) { dirs.push_back( q ); continue; }
      if( q.size() < 4 || q.substr( q.size() - 4 ) != ".xml" ) continue;
      const std::string t = slurp( q );
      if( t.find( "<scripting" ) != std::string::npos || t.find( "ipopt" ) != std::string::npos || t.find( ".h5" ) != std::string::npos || t.size() > 60000 ) continue;
      found.push_back( q );
    }
  }
  std::sort( found.begin(), found.end() );
  return found;
}
// The numbers of velocities and coefficients of a scene changed a little
inline std::string perturbed( Gen& g, const std::string& text )
{
  std::string out = text;
  for( const char* attr : { " v=\"", " omega=\"", " mu=\"", " CoR=\"" } )
  {
    const std::string k = attr;
    for( size_t at = out.find( k ); at != std::string::npos; at = out.find( k, at + 1 ) )
    {
      if( !g.b( 0.3 ) ) continue;
      const size_t b = at + k.size(), e = out.find( '"', b );
      if( e == std::string::npos ) break;
      std::istringstream is( out.substr( b, e - b ) );
      std::string w, res;
      bool numbers = true;
      while( is >> w )
      {
        char* end = nullptr;
        const double x = std::strtod( w.c_str(), &end );
        if( *end ) { numbers = false; break; }
        char buf[40];
        std::snprintf( buf, sizeof buf, "%.6g", ( k == " v=\"" || k == " omega=\"" ) ? x * ( 1.0 + g.s( 0.3 ) ) : x * g.u( 0.5, 1.0 ) );
        res += ( res.empty() ? "" : " " ) + std::string( buf );
      }
      if( numbers && !res.empty() ) out.replace( b, e - b, res );
    }
  }
  return out;
}
template<class T> Plan shippedPlan( Gen& g, const Scratch& d, Parsed& e, bool forces )
{
  const auto& all = shippedScenes( T::key() );
  if( all.empty() ) throw pbt::Discard{};
  Plan p;
  const std::string original = slurp( all[ size_t( g.i( 0, int( all.size() ) - 1 ) ) ] );
  p.text = g.b( 0.6 ) ? perturbed( g, original ) : original;
  spit( d( "shipped.xml" ), p.text );
  const pbt::ForkResult r = pbt::inFork( [&]( std::ostream& ) { Parsed x; typename T::Sim sim; return T::parse( d( "shipped.xml" ), x, &sim ) ? 0 : 1; } );
  if( !r.exited || r.code != 0 ) throw pbt::Discard{};
  typename T::Sim sim;
  if( !T::parse( d( "shipped.xml" ), e, &sim ) ) throw pbt::Discard{};
  ::unlink( d( "shipped.xml" ).c_str() );
  p.dt_text = e.dt_string;
  p.dt = double( e.dt.numerator() ) / double( e.dt.denominator() );
  p.forces = forces;
  std::vector<unsigned> fr;
  for( unsigned f = 1; f <= 20000; ++f ) if( e.dt.denominator() % ( e.dt.numerator() * std::intmax_t( f ) ) == 0 ) { const auto s = e.dt.denominator() / ( e.dt.numerator() * std::intmax_t( f ) ); if( s <= 40 ) fr.push_back( f ); }
  if( !fr.empty() && g.b( 0.8 ) )
  {
    p.freq = g.pick( fr );
    p.sps = unsigned( e.dt.denominator() / ( e.dt.numerator() * std::intmax_t( p.freq ) ) );
  }
  char b[64];
  std::snprintf( b, sizeof b, "%.17g", p.dt * ( g.i( 1, p.freq ? 120 : 24 ) - 0.5 ) );
  p.end = val( b );
  p.opts = { "-e", b };
  if( p.freq ) { p.opts.push_back( "-f" ); p.opts.push_back( std::to_string( p.freq ) ); }
  while( double( p.steps ) * p.dt < p.end ) ++p.steps;
  return p;
}
// Number in "<prefix>_<digits>.<ext>", -1 otherwise
inline long frameOf( const std::string& f, const std::string& prefix, const std::string& ext )
{
  if( f.size() <= prefix.size() + 1 + ext.size() + 1 || f.compare( 0, prefix.size() + 1, prefix + "_" ) || f.compare( f.size() - ext.size() - 1, std::string::npos, "." + ext ) ) return -1;
  const std::string d = f.substr( prefix.size() + 1, f.size() - prefix.size() - ext.size() - 2 );
  if( d.empty() || d.find_first_not_of( "0123456789" ) != std::string::npos ) return -1;
  return std::atol( d.c_str() );
}
inline std::map<long, std::string> frames( pbt::Ctx& c, const std::string& dir, const std::string& prefix, const std::string& ext )
{
  std::map<long, std::string> m;
  for( const std::string& f : listing( dir ) )
  {
    const long k = frameOf( f, prefix, ext );
    if( k < 0 ) continue;
    CHECK( !m.count( k ), "two files for frame " << k << " of " << prefix );
    m[k] = f;
  }
  return m;
}
template<class T> void writeConfig( const std::string& file, const typename T::Sim& sim, double dt, unsigned it )
{
  HDF5File f{ file, HDF5AccessType::READ_WRITE };
  f.write( "timestep", scalar( dt ) );
  f.write( "iteration", it );
  f.write( "time", scalar( dt ) * it );
  f.write( "git_hash", CompileDefinitions::GitSHA1 );
  sim.writeBinaryState( f );
}
// The same simulation through the library: configurations and forces by iteration
template<class T> bool reference( const Plan& p, const std::string& scene, const std::string& dir, const std::function<void( typename T::Sim& )>& begin = {} )
{
  const pbt::ForkResult r = pbt::inFork( [&]( std::ostream& )
  {
    rlimit l{ 8, 9 };
    ::setrlimit( RLIMIT_CPU, &l );
    Parsed e;
    typename T::Sim sim;
    if( !T::parse( scene, e, &sim ) ) return 3;
    T::begin( sim );
    if( begin ) begin( sim );
    unsigned it = p.from;
    if( it % p.sps == 0 ) writeConfig<T>( dir + "/config_" + std::to_string( it ) + ".h5", sim, p.dt, it );
    for( ; it < std::max( p.from, p.steps ) + ( p.forces ? 1u : 0u ); ++it )
    {
      HDF5File f;
      const bool now = p.forces && it % p.sps == 0;
      if( now )
      {
        f.open( dir + "/forces_" + std::to_string( it ) + ".h5", HDF5AccessType::READ_WRITE );
        f.write( "timestep", scalar( p.dt ) );
        f.write( "iteration", it );
        f.write( "time", scalar( p.dt ) * it );
        f.write( "git_hash", CompileDefinitions::GitSHA1 );
      }
      T::step( sim, e, it + 1, now ? &f : nullptr );
      if( ( it + 1 ) % p.sps == 0 ) writeConfig<T>( dir + "/config_" + std::to_string( it + 1 ) + ".h5", sim, p.dt, it + 1 );
    }
    return 0;
  } );
  if( std::getenv( "VERIF_STDERR" ) ) std::fprintf( stderr, "reference: exited %d code %d signal %d %s\n", int( r.exited ), r.code, r.signal, r.out.c_str() );
  return r.exited && r.code == 0;
}

template<class T> void checkParsesScene( Gen& g, pbt::Ctx& c )
{
  Scratch d;
  T::enter( d.dir );
  Parsed want;
  std::vector<Break> br;
  Node root = T::gen( g, want, false, br );
  const std::string text = renderDoc( g, root );
  c.note( [&]( std::ostream& o ) { o << text; } );
  spit( d( "s.xml" ), text );
  Parsed got;
  typename T::Sim sim;
  const bool ok = T::parse( d( "s.xml" ), got, &sim );
  CHECK( ok, "a valid scene was rejected" );
  T::finish( want );
  compareParsed( c, got, want );
  T::compareState( c, sim, want );
  c.label( want.op ? "impact " + want.op->name() : want.ifm ? "friction " + want.ifm->name() : "no contact solver" );
  c.nontrivial( root.kids.size() >= 4 );
}
template<class T> void checkRejectsScene( Gen& g, pbt::Ctx& c )
{
  Scratch d;
  T::enter( d.dir );
  Parsed want;
  std::vector<Break> br;
  Node root = T::gen( g, want, false, br );
  std::string what;
  std::string text;
  if( g.b( 0.07 ) )
  {
    text = renderDoc( g, root );
    // Cut inside the root element
    const size_t close = text.rfind( root.kids.empty() ? "/" : "</" );
    const size_t open = text.find( "<" + root.tag );
    text.resize( open + 1 + size_t( g.raw( close - open - 1 ) ) );
    what = "file cut short";
  }
  else if( g.b( 0.03 ) ) what = "no such file";
  else
  {
    if( !breakScene( g, root, br, what ) ) throw pbt::Discard{};
    text = renderDoc( g, root );
  }
  c.note( [&]( std::ostream& o ) { o << what << " in " << text; } );
  if( what != "no such file" ) spit( d( "s.xml" ), text );
  const pbt::ForkResult r = pbt::inFork( [&]( std::ostream& )
  {
    Parsed got;
    typename T::Sim sim;
    return T::parse( d( "s.xml" ), got, &sim ) ? 0 : 1;
  } );
  CHECK( r.exited, "reading the scene (" << what << ") ended with signal " << r.signal );
  CHECK( r.code != 0, "a malformed scene was accepted: " << what );
  c.label( what.substr( 0, what.find( '=' ) ) );
  c.nontrivial( true );
}
template<class T> void checkDamagedScene( Gen& g, pbt::Ctx& c )
{
  Scratch d;
  T::enter( d.dir );
  Parsed want;
  std::vector<Break> br;
  Node root = T::gen( g, want, false, br );
  const std::string text = damage( g, renderDoc( g, root ) );
  c.note( [&]( std::ostream& o ) { o << text; } );
  spit( d( "s.xml" ), text );
  const pbt::ForkResult r = pbt::inFork( [&]( std::ostream& )
  {
    Parsed got;
    typename T::Sim sim;
    return T::parse( d( "s.xml" ), got, &sim ) ? 0 : 1;
  } );
  CHECK( r.exited, "reading the damaged scene ended with signal " << r.signal );
  c.label( r.code == 0 ? "still a scene" : "rejected" );
  c.nontrivial( true );
}

// The program writes exactly the frames asked for, with the contents the library computes
template<class T> void checkRun( Gen& g, pbt::Ctx& c, bool shipped )
{
  Scratch d;
  T::enter( d.dir );
  Parsed e;
  const bool forces = g.b( 0.5 ), snaps = g.b( 0.5 ), out = forces || g.b( 0.85 );
  const bool every = g.b();
  const Plan p = shipped ? shippedPlan<T>( g, d, e, forces ) : generatedPlan<T>( g, e, forces );
  c.note( [&]( std::ostream& o ) { o << p.text << "\noptions"; for( auto& s : p.opts ) o << " " << s; o << ( forces ? " -i" : "" ) << ( out ? " -o out" : "" ) << ( snaps ? every ? " -s 1" : " -s 0" : "" ); } );
  spit( d( "s.xml" ), p.text );
  ::mkdir( d( "out" ).c_str(), 0700 );
  ::mkdir( d( "ref" ).c_str(), 0700 );
  if( !reference<T>( p, d( "s.xml" ), d( "ref" ) ) ) throw pbt::Discard{};
  std::vector<std::string> args{ program( T::key() ) };
  std::vector<std::vector<std::string>> groups;
  for( size_t i = 0; i < p.opts.size(); i += 2 ) groups.push_back( { p.opts[i], p.opts[i + 1] } );
  if( forces ) groups.push_back( { g.b() ? "-i" : "--impulses" } );
  if( out ) groups.push_back( { g.b() ? "-o" : "--output_dir", "out" } );
  if( snaps ) groups.push_back( { g.b() ? "-s" : "--serialize_snapshots", every ? "1" : "0" } );
  groups.insert( groups.begin() + long( g.raw( groups.size() + 1 ) ), { "s.xml" } );
  for( auto& x : groups ) for( auto& s : x ) args.push_back( s );
  const std::set<std::string> before = listing( d.dir );
  const Run r = spawn( d.dir, args );
  CHECK( r.exited && r.code == 0, "the program ended with " << ( r.exited ? "code " : "signal " ) << ( r.exited ? r.code : r.signal ) << ": " << r.out.substr( 0, 400 ) );
  // Expected frames
  const unsigned last = p.steps + ( forces ? 1u : 0u );
  std::map<long, unsigned> want;
  for( unsigned it = 0; it <= last; it += p.sps ) want[long( it / p.sps )] = it;
  const auto cfg = frames( c, d( "out" ), "config", "h5" ), frc = frames( c, d( "out" ), "forces", "h5" );
  const std::string snapdir = out ? d( "out" ) : d.dir;
  const auto ser = frames( c, snapdir, "serial", "bin" );
  size_t width = 0;
  if( out )
  {
    CHECK( cfg.size() == want.size(), cfg.size() << " configurations written instead of " << want.size() << " (dt " << p.dt_text << ", end " << p.end << ", every " << p.sps << " steps)" );
    for( auto& w : want )
    {
      CHECK( cfg.count( w.first ), "no configuration file for frame " << w.first );
      const std::string& f = cfg.at( w.first );
      if( width == 0 ) width = f.size();
      CHECK( f.size() == width, "frame numbers are not padded to one width: " << f );
      fakeh5::Tree a, b;
      CHECK( fakeh5::load( d( "out/" + f ), a ), f << " cannot be read" );
      if( !fakeh5::load( d( "ref/config_" + std::to_string( w.second ) + ".h5" ), b ) ) throw std::runtime_error( "reference configuration missing" );
      std::string why;
      CHECK( sameTree( a, b, why ), f << " differs from the library's configuration at step " << w.second << ": " << why );
    }
  }
  else CHECK( cfg.empty(), "configurations written without an output directory" );
  if( forces )
  {
    size_t n = 0;
    for( auto& w : want ) if( w.second <= p.steps )
    {
      ++n;
      CHECK( frc.count( w.first ), "no forces for frame " << w.first );
      fakeh5::Tree a, b;
      CHECK( fakeh5::load( d( "out/" + frc.at( w.first ) ), a ), "forces cannot be read" );
      if( !fakeh5::load( d( "ref/forces_" + std::to_string( w.second ) + ".h5" ), b ) ) throw std::runtime_error( "reference forces missing" );
      std::string why;
      CHECK( sameTree( a, b, why ), frc.at( w.first ) << " differs from the library's forces at step " << w.second << ": " << why );
    }
    CHECK( frc.size() == n, frc.size() << " force files instead of " << n );
  }
  else CHECK( frc.empty(), "forces written without being asked for" );
  if( snaps && every )
  {
    CHECK( ser.size() == want.size(), ser.size() << " snapshots instead of " << want.size() );
    for( auto& w : want ) CHECK( ser.count( w.first ), "no snapshot for frame " << w.first );
  }
  else CHECK( ser.empty(), "numbered snapshots written without being asked for" );
  CHECK( exists( d( "serial.bin" ) ) == ( snaps && !every ), "serial.bin is " << ( exists( d( "serial.bin" ) ) ? "there" : "missing" ) );
  size_t extra = 0;
  for( const std::string& f : listing( d.dir ) ) if( !before.count( f ) && f != "serial.bin" && frameOf( f, "serial", "bin" ) < 0 ) ++extra;
  CHECK( extra == 0, "unexpected files written" );
  c.label( forces ? "forces" : out ? "configurations" : "snapshots only" );
  c.nontrivial( want.size() >= 2 );
}

// Bad requests end with a failure and write nothing
template<class T> void checkBadRequest( Gen& g, pbt::Ctx& c )
{
  Scratch d;
  T::enter( d.dir );
  Parsed e;
  std::vector<Break> br;
  Node root = T::gen( g, e, true, br );
  const Plan p = plan( g, e, root, false );
  std::string text = p.text;
  std::vector<std::string> args{ program( T::key() ) };
  std::string what;
  bool fail = true;
  ::mkdir( d( "out" ).c_str(), 0700 );
  std::vector<std::string> tail = p.opts;
  tail.push_back( "-o" ); tail.push_back( "out" );
  switch( g.i( 0, 13 ) )
  {
    case 0: what = "no scene"; args.insert( args.end(), tail.begin(), tail.end() ); break;
    case 1: what = "missing scene file"; args.push_back( "nosuch.xml" ); args.insert( args.end(), tail.begin(), tail.end() ); break;
    case 2: what = "two scenes"; args.push_back( "s.xml" ); args.push_back( "s.xml" ); args.insert( args.end(), tail.begin(), tail.end() ); break;
    case 3: what = "unknown option"; args.push_back( "s.xml" ); args.push_back( g.pick( { std::string( "-z" ), std::string( "--nope" ), std::string( "-9" ) } ) ); args.insert( args.end(), tail.begin(), tail.end() ); break;
    case 4: what = "bad end time"; args.push_back( "s.xml" ); args.insert( args.end(), tail.begin(), tail.end() ); args.push_back( "-e" ); args.push_back( g.pick( { std::string( "0" ), std::string( "-1.0" ), std::string( "abc" ), std::string( "-1e-9" ) } ) ); break;
    case 5: what = "bad frequency"; args.push_back( "s.xml" ); args.insert( args.end(), tail.begin(), tail.end() ); args.push_back( "-f" ); args.push_back( g.pick( { std::string( "abc" ), std::string( "" ), std::string( "x5" ) } ) ); break;
    case 6: what = "bad snapshot switch"; args.push_back( "s.xml" ); args.insert( args.end(), tail.begin(), tail.end() ); args.push_back( "-s" ); args.push_back( g.pick( { std::string( "maybe" ), std::string( "2" ), std::string( "" ) } ) ); break;
    case 7: what = "impulses without a directory"; args.push_back( "s.xml" ); args.push_back( "-i" ); args.insert( args.end(), p.opts.begin(), p.opts.end() ); break;
    case 8:
    {
      what = "frequency that does not divide the time step";
      unsigned f = 0;
      for( int k = 0; k < 50 && !f; ++k ) { const unsigned x = unsigned( g.i( 1, 700 ) ); if( e.dt.denominator() % ( e.dt.numerator() * std::intmax_t( x ) ) != 0 ) f = x; }
      if( !f ) throw pbt::Discard{};
      args.push_back( "s.xml" ); args.push_back( "-o" ); args.push_back( "out" ); args.push_back( "-e" ); args.push_back( "0.1" ); args.push_back( "-f" ); args.push_back( std::to_string( f ) );
      break;
    }
    case 9: what = "output directory that does not exist"; args.push_back( "s.xml" ); args.insert( args.end(), p.opts.begin(), p.opts.end() ); args.push_back( "-o" ); args.push_back( "nowhere/out" ); break;
    case 10:
    {
      what = "snapshot to a full device";
      if( ::symlink( "/dev/full", d( "serial.bin" ).c_str() ) != 0 ) throw pbt::Discard{};
      args.push_back( "s.xml" ); args.insert( args.end(), p.opts.begin(), p.opts.end() ); args.push_back( "-s" ); args.push_back( "0" );
      break;
    }
    case 11:
    {
      std::string b;
      Node copy = root;
      std::vector<Break> none;
      if( !breakScene( g, copy, br, b ) ) throw pbt::Discard{};
      what = "malformed scene (" + b + ")";
      text = renderDoc( g, copy );
      args.push_back( "s.xml" ); args.insert( args.end(), tail.begin(), tail.end() );
      break;
    }
    case 12:
    {
      what = "scene without an integrator";
      Node copy = root;
      for( size_t i = 0; i < copy.kids.size(); ++i ) if( copy.kids[i].tag == "integrator" ) { copy.kids.erase( copy.kids.begin() + long( i ) ); break; }
      text = renderDoc( g, copy );
      args.push_back( "s.xml" ); args.insert( args.end(), tail.begin(), tail.end() );
      break;
    }
    default:
    {
      what = "resume from something else";
      std::string junk;
      const int k = g.i( 0, 2 );
      if( k == 0 ) { for( int i = 0; i < 64; ++i ) junk += char( g.i( 0, 255 ) ); }
      else if( k == 1 ) junk = text;
      else { unsigned m = g.pick( { 8675309u, 1337u, 90210u } ); if( m == T::magic() ) m += 1; junk.assign( reinterpret_cast<const char*>( &m ), sizeof m ); junk += std::string( 100, char( 0 ) ); }
      if( g.b( 0.2 ) ) { what = "resume from a missing file"; } else spit( d( "x.bin" ), junk );
      if( junk.size() >= 4 ) { unsigned m; std::memcpy( &m, junk.data(), 4 ); if( m == T::magic() ) throw pbt::Discard{}; }
      args.push_back( g.b() ? "-r" : "--resume" ); args.push_back( "x.bin" );
      args.push_back( "-o" ); args.push_back( "out" );
      break;
    }
  }
  if( g.b( 0.04 ) ) { what = "help"; args = { args[0], g.b() ? "-h" : "--help" }; fail = false; }
  c.note( [&]( std::ostream& o ) { o << what << ":"; for( size_t i = 1; i < args.size(); ++i ) o << " " << args[i]; o << "\n" << text; } );
  spit( d( "s.xml" ), text );
  const Run r = spawn( d.dir, args );
  CHECK( r.exited, what << ": the program ended with signal " << r.signal );
  CHECK( ( r.code != 0 ) == fail, what << ": exit code " << r.code << ": " << r.out.substr( 0, 300 ) );
  CHECK( listing( d( "out" ) ).empty(), what << ": output was written" );
  c.label( what.substr( 0, what.find( '(' ) ) );
  c.nontrivial( true );
}

// Interrupting at any snapshot and resuming gives the same bytes as not interrupting
template<class T> void checkResume( Gen& g, pbt::Ctx& c, bool shipped )
{
  Scratch d;
  T::enter( d.dir );
  Parsed e;
  const bool forces = g.b( 0.4 );
  const Plan p = shipped ? shippedPlan<T>( g, d, e, forces ) : generatedPlan<T>( g, e, forces );
  std::vector<std::string> args{ program( T::key() ), T::inDir( "s.xml" ) };
  args.insert( args.end(), p.opts.begin(), p.opts.end() );
  if( forces ) args.push_back( "-i" );
  args.insert( args.end(), { "-o", "out", "-s", "1" } );
  c.note( [&]( std::ostream& o ) { o << p.text << "\noptions"; for( size_t i = 2; i < args.size(); ++i ) o << " " << args[i]; } );
  const auto dir = [&]( const std::string& n ) { ::mkdir( d( n ).c_str(), 0700 ); ::mkdir( d( n + "/out" ).c_str(), 0700 ); T::enter( d( n ) ); spit( d( n + "/s.xml" ), p.text ); return d( n ); };
  const std::string A = dir( "A" );
  {
    const Run r = spawn( A, args, 10 );
    if( !r.exited && ( r.signal == SIGXCPU || r.signal == SIGKILL ) ) throw pbt::Discard{};
    if( r.exited && r.code != 0 ) throw pbt::Discard{}; // unsupported combinations are the business of other checks
    CHECK( r.exited, "the program ended with signal " << r.signal );
  }
  const auto files = listing( A + "/out" );
  const auto ser = frames( c, A + "/out", "serial", "bin" );
  if( ser.empty() ) FAILCASE( "no snapshots were written" );
  if( g.b( 0.3 ) )
  {
    const std::string B = dir( "B" );
    const Run r = spawn( B, args, 10 );
    CHECK( r.exited && r.code == 0, "a second run of the same scene failed" );
    CHECK( listing( B + "/out" ) == files, "a second run of the same scene wrote other files" );
    for( const std::string& f : files ) CHECK( slurp( A + "/out/" + f ) == slurp( B + "/out/" + f ), "a second run of the same scene gives another " << f );
  }
  // A history of interruptions, each resumed from a snapshot of the previous run
  const int cuts = g.i( 1, 3 );
  std::string from = A;
  long k = -1;
  for( int i = 0; i < cuts; ++i )
  {
    std::vector<long> ks;
    for( auto& s : ser ) if( s.first >= k ) ks.push_back( s.first );
    k = g.pick( ks );
    const std::string name = ser.at( k );
    const std::string B = dir( "R" + std::to_string( i ) );
    spit( B + "/cut.bin", slurp( from + "/out/" + name ) );
    const Run r = spawn( B, { args[0], g.b() ? "-r" : "--resume", "cut.bin" }, 10 );
    const bool beyond = forces && unsigned( k ) * p.sps > p.steps;
    // That further step may meet contacts that the program does not support
    if( beyond && r.exited && r.code != 0 ) break;
    CHECK( r.exited && r.code == 0, "resuming from " << name << " ended with " << ( r.exited ? "code " : "signal " ) << ( r.exited ? r.code : r.signal ) << ": " << r.out.substr( 0, 300 ) );
    const auto got = listing( B + "/out" );
    // A snapshot of the extra step that ends a run with forces goes one step further than the run itself
    for( const std::string& f : got )
    {
      if( beyond && !files.count( f ) ) continue;
      if( beyond && frameOf( f, "forces", "h5" ) >= 0 ) continue;
      CHECK( files.count( f ), "the resumed run wrote " << f << ", which the uninterrupted run did not" );
      CHECK( slurp( A + "/out/" + f ) == slurp( B + "/out/" + f ), f << " of the run resumed from " << name << " differs from the uninterrupted run" );
    }
    for( const std::string& f : files )
    {
      const long n = std::max( { frameOf( f, "config", "h5" ), frameOf( f, "serial", "bin" ), frameOf( f, "forces", "h5" ) } );
      if( n >= k ) CHECK( got.count( f ), "the run resumed from " << name << " did not write " << f );
    }
    from = B;
    if( beyond ) break;
  }
  c.label( e.op ? "impact " + e.op->name() : e.ifm ? "friction " + e.ifm->name() : "no contact solver" );
  c.nontrivial( ser.size() >= 3 && k < ser.rbegin()->first );
}

#define SCENE_CHECKS( T, P ) \
  static pbt::Reg scene_reg_1( "C24", P "_scene_file", "at least four elements", 1200, 30000, sf::checkParsesScene<T> ); \
  static pbt::Reg scene_reg_2( "C25", P "_malformed_scene", "a scene broken in one place", 1200, 30000, sf::checkRejectsScene<T> ); \
  static pbt::Reg scene_reg_3( "C25", P "_damaged_scene", "random damage to the text", 600, 15000, sf::checkDamagedScene<T> ); \
  static pbt::Reg scene_reg_4( "C27", P "_program_frames", "at least two frames", 300, 5000, []( Gen& g, pbt::Ctx& c ) { sf::checkRun<T>( g, c, false ); } ); \
  static pbt::Reg scene_reg_5( "C27", P "_program_bad_request", "a request that cannot be served", 300, 5000, sf::checkBadRequest<T> ); \
  static pbt::Reg scene_reg_6( "C04", P "_program_resume", "at least three snapshots and a cut before the last", 300, 5000, []( Gen& g, pbt::Ctx& c ) { sf::checkResume<T>( g, c, false ); } ); \
  static pbt::Reg scene_reg_7( "C27", P "_shipped_program_frames", "a scene that comes with the simulator, perturbed; at least two frames", 120, 3000, []( Gen& g, pbt::Ctx& c ) { sf::checkRun<T>( g, c, true ); } ); \
  static pbt::Reg scene_reg_8( "C04", P "_shipped_program_resume", "a scene that comes with the simulator, perturbed; at least three snapshots and a cut before the last", 120, 3000, []( Gen& g, pbt::Ctx& c ) { sf::checkResume<T>( g, c, true ); } );
}
#endif
