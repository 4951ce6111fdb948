#include "pbt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace pbt
{

std::vector<Sub>& registry() { static std::vector<Sub> r; return r; }

// CPU seconds one case may use before it counts as non-terminating. Cases take milliseconds.
static double g_case_cpu_limit = getenv( "VERIF_CPU" ) ? atof( getenv( "VERIF_CPU" ) ) : 20.0;

static void onProf( int ) { _exit( 77 ); }

#ifdef __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8"; }
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=1"; }
static const bool g_asan = true;
#else
static const bool g_asan = false;
#endif
// Memory-safety mode: every subcheck of every property is run for its inputs only; its own verdict
// is ignored and a case fails exactly if the code dies with a signal (a sanitizer report, a failed
// bounds assertion, a segmentation fault).
static bool g_safety = false;

bool safetyMode() { return g_safety; }

void childDied( int status )
{
  if( !g_safety || !WIFSIGNALED( status ) ) return;
  for( int sg : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL } ) if( WTERMSIG( status ) == sg ) abort();
}

static void armTimer( double secs )
{
  struct itimerval it;
  std::memset( &it, 0, sizeof( it ) );
  it.it_value.tv_sec = long( secs );
  it.it_value.tv_usec = long( ( secs - double( long( secs ) ) ) * 1e6 );
  setitimer( ITIMER_PROF, &it, nullptr );
}

static void childSetup()
{
  if( getenv( "VERIF_STDERR" ) ) return;
  const int fd = open( "/dev/null", O_WRONLY );
  dup2( fd, 1 ); dup2( fd, 2 ); close( fd );
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = rlim_t( 6 ) << 30;
  if( !g_asan ) setrlimit( RLIMIT_AS, &rl );
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit( RLIMIT_CORE, &rl );
  signal( SIGPROF, onProf );
  signal( SIGPIPE, SIG_IGN );
}

static uint64_t fnv( const std::string& s )
{
  uint64_t h = 1469598103934665603ull;
  for( unsigned char ch : s ) { h ^= ch; h *= 1099511628211ull; }
  return h;
}
static uint64_t fnv( const std::vector<uint64_t>& s )
{
  uint64_t h = 1469598103934665603ull;
  for( uint64_t x : s ) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
  return h;
}

static uint64_t caseSeed( uint64_t seed, const Sub& s, long idx )
{
  return fnv( s.prop + "/" + s.name ) * 0x9e3779b97f4a7c15ull + seed * 0xd1342543de82ef95ull + uint64_t( idx ) * 0x2545f4914f6cdd1dull;
}

enum class Res { OK, FAIL, DISCARD };

static Res runCaseRaw( const Sub& s, Gen& g, Ctx& c, std::string& msg )
{
  try
  {
    s.fn( g, c );
    return Res::OK;
  }
  catch( const Fail& f ) { msg = f.msg; return Res::FAIL; }
  catch( const Discard& ) { return Res::DISCARD; }
  catch( const std::exception& e ) { msg = std::string( "unexpected exception: " ) + e.what(); return Res::FAIL; }
  catch( const std::string& e ) { msg = std::string( "unexpected exception (string): " ) + e; return Res::FAIL; }
  catch( const char* e ) { msg = std::string( "unexpected exception (char*): " ) + e; return Res::FAIL; }
  catch( ... ) { msg = "unexpected exception of unknown type"; return Res::FAIL; }
}

static Res runCase( const Sub& s, Gen& g, Ctx& c, std::string& msg )
{
  const Res r = runCaseRaw( s, g, c, msg );
  if( g_safety && r == Res::FAIL ) { msg.clear(); return Res::OK; }
  return r;
}

static std::string deathMsg( int status )
{
  std::ostringstream o;
  if( WIFSIGNALED( status ) ) { o << "code under test died with signal " << WTERMSIG( status ) << " (" << strsignal( WTERMSIG( status ) ) << ")"; }
  else if( WIFEXITED( status ) && WEXITSTATUS( status ) == 77 ) { o << "code under test did not terminate within " << g_case_cpu_limit << " s of CPU time"; }
  else if( WIFEXITED( status ) ) { o << "code under test terminated the process with exit code " << WEXITSTATUS( status ); }
  return o.str();
}

// Run one stored case in a fork. Returns true if it fails.
void Ctx::emit( const std::string& s ) const
{
  size_t off = 0;
  while( note_fd >= 0 && off < s.size() ) { const ssize_t k = write( note_fd, s.data() + off, s.size() - off ); if( k <= 0 ) break; off += size_t( k ); }
}

static const std::string g_mark = "\001result\n";
static bool runForked( const Sub& s, const std::vector<uint64_t>& choices, bool verbose, std::string& msg, std::string& rendering, size_t* used, std::vector<std::string>* labels = nullptr )
{
  int p[2];
  if( pipe( p ) != 0 ) { perror( "pipe" ); exit( 3 ); }
  fflush( stdout ); fflush( stderr );
  const pid_t pid = fork();
  if( pid == 0 )
  {
    close( p[0] );
    childSetup();
    armTimer( g_case_cpu_limit );
    Gen g{ choices };
    Ctx c;
    c.verbose = verbose;
    c.note_fd = p[1];
    std::string m;
    const Res r = runCase( s, g, c, m );
    std::ostringstream o;
    o << g_mark << ( r == Res::FAIL ? 'F' : r == Res::OK ? 'O' : 'D' ) << ' ' << g.used() << ' ' << m.size() << '\n' << m << c.out.str();
    const std::string str = o.str();
    size_t off = 0;
    while( off < str.size() ) { const ssize_t k = write( p[1], str.data() + off, str.size() - off ); if( k <= 0 ) break; off += size_t( k ); }
    _exit( 55 );
  }
  close( p[1] );
  std::string all;
  char buf[65536];
  ssize_t k;
  while( ( k = read( p[0], buf, sizeof( buf ) ) ) > 0 ) all.append( buf, size_t( k ) );
  close( p[0] );
  int status = 0;
  while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
  (void) labels;
  const size_t mark = all.rfind( g_mark );
  if( WIFEXITED( status ) && WEXITSTATUS( status ) == 55 && mark != std::string::npos )
  {
    all.erase( 0, mark + g_mark.size() );
    const char r = all[0];
    size_t nl = all.find( '\n' );
    size_t us = 0, ms = 0;
    sscanf( all.c_str() + 1, "%zu %zu", &us, &ms );
    if( used ) *used = us;
    msg = all.substr( nl + 1, ms );
    rendering = all.substr( nl + 1 + ms );
    return r == 'F';
  }
  msg = deathMsg( status );
  rendering = all;
  if( used ) *used = choices.size();
  return !g_safety || WIFSIGNALED( status );
}

ForkResult inFork( const std::function<int( std::ostream& )>& f )
{
  int p[2];
  if( pipe( p ) != 0 ) throw Discard{};
  const pid_t pid = fork();
  if( pid == 0 )
  {
    close( p[0] );
    armTimer( g_case_cpu_limit / 2 );
    std::ostringstream o;
    int rc = 200;
    try { rc = f( o ); }
    catch( const Fail& e ) { o << "FAIL " << e.msg; rc = 201; }
    catch( const std::exception& e ) { o << "EXC " << e.what(); rc = 202; }
    catch( const std::string& e ) { o << "EXC " << e; rc = 203; }
    catch( ... ) { rc = 204; }
    const std::string str = o.str();
    size_t off = 0;
    while( off < str.size() ) { const ssize_t k = write( p[1], str.data() + off, str.size() - off ); if( k <= 0 ) break; off += size_t( k ); }
    _exit( rc );
  }
  close( p[1] );
  ForkResult r{ false, 0, 0, "" };
  char buf[65536];
  ssize_t k;
  while( ( k = read( p[0], buf, sizeof( buf ) ) ) > 0 ) r.out.append( buf, size_t( k ) );
  close( p[0] );
  int status = 0;
  while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
  childDied( status );
  r.exited = WIFEXITED( status );
  r.code = r.exited ? WEXITSTATUS( status ) : -1;
  r.signal = WIFSIGNALED( status ) ? WTERMSIG( status ) : 0;
  return r;
}

static double now() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return double( t.tv_sec ) + 1e-9 * double( t.tv_nsec ); }

static std::vector<uint64_t> shrink( const Sub& s, std::vector<uint64_t> best, std::string& msg, double budget, long& steps )
{
  const double t0 = now();
  const auto over = [&]() { return now() - t0 > budget; };
  const auto attempt = [&]( const std::vector<uint64_t>& cand )
  {
    if( cand == best ) return false;
    std::string m, r;
    size_t used = 0;
    ++steps;
    if( runForked( s, cand, false, m, r, &used ) )
    {
      best = cand;
      if( used < best.size() ) best.resize( used );
      msg = m;
      return true;
    }
    return false;
  };
  bool progress = true;
  while( progress && !over() )
  {
    progress = false;
    for( size_t len = best.size() / 2; len >= 1 && !over(); len /= 2 )
    {
      for( size_t i = 0; i + len <= best.size() && !over(); )
      {
        std::vector<uint64_t> cand = best;
        cand.erase( cand.begin() + long( i ), cand.begin() + long( i + len ) );
        if( attempt( cand ) ) { progress = true; }
        else
        {
          bool z = true;
          for( size_t k = i; k < i + len && k < best.size(); ++k ) z = z && best[k] == 0;
          if( !z )
          {
            cand = best;
            for( size_t k = i; k < i + len && k < cand.size(); ++k ) cand[k] = 0;
            if( attempt( cand ) ) progress = true;
          }
          i += len;
        }
      }
    }
    for( size_t i = 0; i < best.size() && !over(); ++i )
    {
      if( best[i] == 0 ) continue;
      uint64_t lo = 0, hi = best[i];
      // round large values to fewer significant bits, then binary search downwards
      for( int bits = 4; bits <= 32 && best[i] > ( 1ull << 40 ) && !over(); bits *= 2 )
      {
        std::vector<uint64_t> cand = best;
        int msb = 63 - __builtin_clzll( cand[i] );
        if( msb <= bits ) break;
        cand[i] = ( cand[i] >> ( msb - bits ) ) << ( msb - bits );
        if( attempt( cand ) ) { progress = true; break; }
      }
      if( i >= best.size() ) break;
      hi = best[i];
      int it = 0;
      while( lo < hi && it++ < 12 && !over() && i < best.size() )
      {
        const uint64_t mid = lo + ( hi - lo ) / 2;
        std::vector<uint64_t> cand = best;
        cand[i] = mid;
        if( attempt( cand ) ) { progress = true; hi = mid; }
        else lo = mid + 1;
      }
    }
    if( steps > 4000 ) break;
  }
  return best;
}

struct Shm
{
  volatile long cur;
  volatile long done;
  volatile long nontrivial;
  volatile long discarded;
  volatile unsigned long long comparisons;
  volatile int failed;
  volatile long fail_idx;
  char fail_msg[4096];
  volatile int finished;
};

static std::string jstr( const std::string& s )
{
  std::ostringstream o;
  o << '"';
  for( unsigned char ch : s )
  {
    if( ch == '"' || ch == '\\' ) o << '\\' << ch;
    else if( ch == '\n' ) o << "\\n";
    else if( ch == '\t' ) o << "\\t";
    else if( ch < 32 || ch >= 127 ) { char b[8]; snprintf( b, sizeof( b ), "\\u%04x", ch ); o << b; }
    else o << ch;
  }
  o << '"';
  return o.str();
}

struct SubResult
{
  long planned = 0, done = 0, nontrivial = 0, distinct = 0, discarded = 0;
  unsigned long long comparisons = 0;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
  bool failed = false;
  bool unreproducible = false;
  std::string fail_msg, rendering;
  std::vector<uint64_t> choices;
  long shrink_steps = 0;
  size_t orig_size = 0;
  bool capped = false;
  double secs = 0;
};

static SubResult runSub( const Sub& s, uint64_t seed, long n, int jobs, double cap, const std::string& tmpdir )
{
  SubResult res;
  res.planned = n;
  const double t0 = now();
  const int J = int( std::max( 1L, std::min<long>( jobs, n ) ) );
  Shm* shm = static_cast<Shm*>( mmap( nullptr, sizeof( Shm ) * size_t( J ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  std::memset( static_cast<void*>( shm ), 0, sizeof( Shm ) * size_t( J ) );
  std::vector<pid_t> pids( size_t( J ), 0 );
  volatile int* stop = static_cast<int*>( mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  *stop = 0;
  fflush( stdout ); fflush( stderr );
  for( int j = 0; j < J; ++j )
  {
    const pid_t pid = fork();
    if( pid == 0 )
    {
      childSetup();
      std::map<std::string, long> labels;
      std::vector<uint64_t> hashes;
      std::vector<std::string> samples;
      for( long idx = j; idx < n; idx += J )
      {
        if( *stop || now() - t0 > cap ) break;
        shm[j].cur = idx;
        armTimer( g_case_cpu_limit );
        Gen g{ caseSeed( seed, s, idx ) };
        Ctx c;
        std::string m;
        const Res r = runCase( s, g, c, m );
        if( r == Res::FAIL )
        {
          std::strncpy( shm[j].fail_msg, m.c_str(), sizeof( shm[j].fail_msg ) - 1 );
          shm[j].fail_idx = idx;
          shm[j].failed = 1;
          *stop = 1;
          break;
        }
        if( r == Res::DISCARD ) { shm[j].discarded = shm[j].discarded + 1; continue; }
        shm[j].done = shm[j].done + 1;
        shm[j].comparisons = shm[j].comparisons + c.sub;
        for( const auto& l : c.labels ) ++labels[l];
        if( c.is_nontrivial )
        {
          shm[j].nontrivial = shm[j].nontrivial + 1;
          hashes.push_back( fnv( g.choices() ) );
          if( j < 2 && samples.size() < 1 )
          {
            armTimer( g_case_cpu_limit );
            Gen g2{ g.choices() };
            Ctx c2;
            c2.verbose = true;
            std::string m2;
            runCase( s, g2, c2, m2 );
            std::string o = c2.out.str();
            if( o.size() > 1500 ) o = o.substr( 0, 1500 ) + "...";
            std::ostringstream oo;
            oo << "case " << idx << ": " << o;
            samples.push_back( oo.str() );
          }
        }
      }
      armTimer( 0 );
      std::ofstream f( tmpdir + "/shard" + std::to_string( j ), std::ios::binary );
      f << hashes.size() << "\n";
      for( uint64_t h : hashes ) f << h << "\n";
      f << labels.size() << "\n";
      for( const auto& l : labels ) f << l.second << " " << l.first << "\n";
      f << samples.size() << "\n";
      for( const auto& l : samples ) { f << l.size() << "\n"; f.write( l.data(), long( l.size() ) ); f << "\n"; }
      f.close();
      shm[j].finished = 1;
      _exit( 0 );
    }
    pids[size_t( j )] = pid;
  }
  long fail_idx = -1;
  std::string fail_msg;
  for( int j = 0; j < J; ++j )
  {
    int status = 0;
    while( waitpid( pids[size_t( j )], &status, 0 ) < 0 && errno == EINTR ) {}
    if( !shm[j].finished )
    {
      // The child died inside a case
      if( g_safety && !WIFSIGNALED( status ) ) continue;
      *stop = 1;
      if( fail_idx < 0 || shm[j].cur < fail_idx ) { fail_idx = shm[j].cur; fail_msg = deathMsg( status ); }
    }
    if( shm[j].failed && ( fail_idx < 0 || shm[j].fail_idx < fail_idx ) ) { fail_idx = shm[j].fail_idx; fail_msg = shm[j].fail_msg; }
  }
  std::unordered_set<uint64_t> distinct;
  for( int j = 0; j < J; ++j )
  {
    res.done += shm[j].done; res.nontrivial += shm[j].nontrivial; res.discarded += shm[j].discarded; res.comparisons += shm[j].comparisons;
    const std::string fn = tmpdir + "/shard" + std::to_string( j );
    std::ifstream f( fn, std::ios::binary );
    if( f )
    {
      size_t k = 0; f >> k;
      for( size_t i = 0; i < k; ++i ) { uint64_t h; f >> h; distinct.insert( h ); }
      f >> k;
      for( size_t i = 0; i < k; ++i ) { long cnt; std::string l; f >> cnt; f.get(); std::getline( f, l ); res.labels[l] += cnt; }
      f >> k;
      for( size_t i = 0; i < k; ++i ) { size_t len; f >> len; f.get(); std::string l( len, ' ' ); f.read( &l[0], long( len ) ); res.samples.push_back( l ); }
    }
    f.close();
    unlink( fn.c_str() );
  }
  res.distinct = long( distinct.size() );
  munmap( shm, sizeof( Shm ) * size_t( J ) );
  munmap( const_cast<int*>( stop ), 4096 );
  res.secs = now() - t0;
  res.capped = fail_idx < 0 && res.done + res.discarded < n;
  if( fail_idx >= 0 )
  {
    // Recover the choices of the failing case: rerun it in a fork, recording to a file
    std::vector<uint64_t> choices;
    {
      const std::string fn = tmpdir + "/choices";
      const pid_t pid = fork();
      if( pid == 0 )
      {
        childSetup();
        armTimer( g_case_cpu_limit );
        // A recording run: persist every choice as it is made, since the case may kill the process
        struct Rec { static void dump( const std::string& f, const std::vector<uint64_t>& v ) { std::ofstream o( f ); for( uint64_t x : v ) o << x << "\n"; } };
        static Gen* gp = nullptr; static std::string fname;
        fname = fn;
        Gen g{ caseSeed( seed, s, fail_idx ) };
        gp = &g;
        const auto h = []( int sig ) { Rec::dump( fname, gp->choices() ); _exit( sig == SIGPROF ? 77 : 78 ); };
        for( int sg : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF } ) signal( sg, h );
        atexit( []() { Rec::dump( fname, gp->choices() ); } );
        Ctx c;
        std::string m;
        runCase( s, g, c, m );
        Rec::dump( fn, g.choices() );
        _exit( 0 );
      }
      int status = 0;
      while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
      std::ifstream f( fn );
      uint64_t x;
      while( f >> x ) choices.push_back( x );
      f.close();
      unlink( fn.c_str() );
    }
    res.orig_size = choices.size();
    const auto confirm = [&]( const std::vector<uint64_t>& ch, std::string& m )
    {
      std::string r;
      for( int k = 0; k < 3; ++k ) if( !runForked( s, ch, false, m, r, nullptr ) ) return false;
      return true;
    };
    std::string m0;
    if( confirm( choices, m0 ) )
    {
      std::string m = fail_msg;
      const bool hang = m0.find( "did not terminate" ) != std::string::npos;
      std::vector<uint64_t> small = hang ? choices : shrink( s, choices, m, 25.0, res.shrink_steps );
      std::string m1;
      if( hang || confirm( small, m1 ) ) choices = small;
      std::string msg, rend;
      runForked( s, choices, true, msg, rend, nullptr );
      res.failed = true;
      res.fail_msg = msg.empty() ? fail_msg : msg;
      res.rendering = rend;
      res.choices = choices;
    }
    else
    {
      res.unreproducible = true;
      res.fail_msg = fail_msg;
    }
  }
  return res;
}

}

using namespace pbt;

int main( int argc, char** argv )
{
  std::string prop, tier = "quick", out, replay, only, tmpdir = "/tmp";
  uint64_t seed = 1;
  int jobs = 8;
  double cap = 300.0, scale = 1.0;
  bool list = false;
  for( int i = 1; i < argc; ++i )
  {
    const std::string a = argv[i];
    const auto val = [&]() { return std::string( argv[++i] ); };
    if( a == "--prop" ) prop = val();
    else if( a == "--tier" ) tier = val();
    else if( a == "--out" ) out = val();
    else if( a == "--replay" ) replay = val();
    else if( a == "--only" ) only = val();
    else if( a == "--seed" ) seed = std::stoull( val() );
    else if( a == "--jobs" ) jobs = std::stoi( val() );
    else if( a == "--cap" ) cap = std::stod( val() );
    else if( a == "--scale" ) scale = std::stod( val() );
    else if( a == "--tmp" ) tmpdir = val();
    else if( a == "--list" ) list = true;
    else if( a == "--safety" ) g_safety = true;
    else { fprintf( stderr, "bad option %s\n", a.c_str() ); return 3; }
  }
  if( list )
  {
    for( const Sub& s : registry() ) printf( "%s %s %ld %ld\n", s.prop.c_str(), s.name.c_str(), s.quick, s.thorough );
    return 0;
  }
  if( !replay.empty() )
  {
    // File format: first line "prop name", then one choice per line up to a line "END"
    std::ifstream f( replay );
    std::string p, n, tok;
    f >> p >> n;
    std::vector<uint64_t> ch;
    while( f >> tok && tok != "END" ) ch.push_back( std::stoull( tok ) );
    for( const Sub& s : registry() ) if( s.prop == p && s.name == n )
    {
      std::string m, r;
      const bool bad = runForked( s, ch, true, m, r, nullptr );
      printf( "%s/%s: %s\n%s\n%s\n", p.c_str(), n.c_str(), bad ? "FAILS" : "passes", m.c_str(), r.c_str() );
      return bad ? 1 : 0;
    }
    fprintf( stderr, "no such subcheck\n" );
    return 3;
  }
  std::ostringstream js;
  js << "{\"subs\":[";
  bool first = true, anyfail = false;
  std::vector<const Sub*> subs;
  for( const Sub& s : registry() ) if( ( s.prop == prop || g_safety ) && ( only.empty() || s.name == only ) ) subs.push_back( &s );
  const double tstart = now();
  for( const Sub* sp : subs )
  {
    const Sub& s = *sp;
    const long n = std::max( 1L, long( double( tier == "thorough" ? s.thorough : s.quick ) * scale ) );
    const double left = cap - ( now() - tstart );
    SubResult r = runSub( s, seed, n, jobs, std::max( 5.0, left ), tmpdir );
    anyfail = anyfail || r.failed;
    if( !first ) js << ",";
    first = false;
    js << "{\"name\":" << jstr( g_safety ? s.prop + "_" + s.name : s.name ) << ",\"rule\":" << jstr( s.rule ) << ",\"planned\":" << n << ",\"done\":" << r.done
       << ",\"nontrivial\":" << r.nontrivial << ",\"distinct\":" << r.distinct << ",\"discarded\":" << r.discarded << ",\"comparisons\":" << r.comparisons
       << ",\"secs\":" << r.secs << ",\"capped\":" << ( r.capped ? "true" : "false" ) << ",\"labels\":{";
    bool fl = true;
    for( const auto& l : r.labels ) { if( !fl ) js << ","; fl = false; js << jstr( l.first ) << ":" << l.second; }
    js << "},\"samples\":[";
    fl = true;
    for( const auto& l : r.samples ) { if( !fl ) js << ","; fl = false; js << jstr( l ); }
    js << "],\"failed\":" << ( r.failed ? "true" : "false" ) << ",\"unreproducible\":" << ( r.unreproducible ? "true" : "false" )
       << ",\"fail_msg\":" << jstr( r.fail_msg ) << ",\"rendering\":" << jstr( r.rendering ) << ",\"shrink_steps\":" << r.shrink_steps << ",\"orig_size\":" << r.orig_size << ",\"choices\":[";
    for( size_t i = 0; i < r.choices.size(); ++i ) { if( i ) js << ","; js << "\"" << r.choices[i] << "\""; }
    js << "]}";
  }
  js << "]}";
  if( !out.empty() ) { std::ofstream f( out ); f << js.str(); }
  else printf( "%s\n", js.str().c_str() );
  return anyfail ? 1 : 0;
}
