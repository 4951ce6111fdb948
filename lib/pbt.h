// Property-based testing engine: choice-sequence generation with integrated shrinking.
// A case is a pure function of a sequence of 64-bit choices.  In generation mode the
// choices come from a PRNG seeded by (VERIF_SEED, subcheck, index); in replay/shrink mode they
// come from a stored sequence (exhausted => 0).  Every random decision of a harness goes
// through Gen, so a stored sequence replays the case exactly.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <stdexcept>
#include <limits>

namespace pbt
{

struct Fail : std::exception
{
  std::string msg;
  explicit Fail( std::string m ) : msg( std::move( m ) ) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};

class Gen
{
  std::vector<uint64_t> m_choices;
  size_t m_pos = 0;
  bool m_replay = false;
  uint64_t m_s[4];
  static uint64_t rotl( uint64_t x, int k ) { return ( x << k ) | ( x >> ( 64 - k ) ); }
  uint64_t next()
  {
    const uint64_t result = rotl( m_s[1] * 5, 7 ) * 9;
    const uint64_t t = m_s[1] << 17;
    m_s[2] ^= m_s[0]; m_s[3] ^= m_s[1]; m_s[1] ^= m_s[2]; m_s[0] ^= m_s[3];
    m_s[2] ^= t; m_s[3] = rotl( m_s[3], 45 );
    return result;
  }
public:
  explicit Gen( uint64_t seed )
  {
    for( int i = 0; i < 4; ++i )
    {
      seed += 0x9e3779b97f4a7c15ull;
      uint64_t z = seed;
      z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
      z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
      m_s[i] = z ^ ( z >> 31 );
    }
  }
  explicit Gen( std::vector<uint64_t> choices ) : m_choices( std::move( choices ) ), m_replay( true ) { m_s[0] = m_s[1] = m_s[2] = m_s[3] = 0; }

  const std::vector<uint64_t>& choices() const { return m_choices; }
  size_t used() const { return m_replay ? m_pos : m_choices.size(); }

  // Uniform in [0,n)
  uint64_t raw( uint64_t n )
  {
    if( n == 0 ) n = 1;
    if( m_replay )
    {
      const uint64_t c = m_pos < m_choices.size() ? m_choices[m_pos] : 0;
      ++m_pos;
      return c % n;
    }
    const uint64_t c = next() % n;
    m_choices.push_back( c );
    if( m_choices.size() > 2000000 ) throw Discard{};
    return c;
  }
  int i( int lo, int hi ) { return lo + int( raw( uint64_t( int64_t( hi ) - int64_t( lo ) + 1 ) ) ); }
  int64_t i64( int64_t lo, int64_t hi ) { return lo + int64_t( raw( uint64_t( hi ) - uint64_t( lo ) + 1 ) ); }
  bool b( double p = 0.5 ) { return double( raw( 1000000 ) ) >= ( 1.0 - p ) * 1000000.0; } // choice 0 => false
  // Continuous uniform; choice 0 => lo
  double u( double lo = 0.0, double hi = 1.0 ) { return lo + ( hi - lo ) * ( double( raw( 1ull << 53 ) ) / double( 1ull << 53 ) ); }
  // Symmetric about 0; choice 0 => 0
  double s( double m = 1.0 ) { const uint64_t c = raw( 1ull << 53 ); const double a = m * double( c >> 1 ) / double( 1ull << 52 ); return ( c & 1 ) ? -a : a; }
  // Log-uniform in [lo,hi], lo>0
  double logu( double lo, double hi ) { return std::exp( u( std::log( lo ), std::log( hi ) ) ); }
  // Lattice value: lo + k (hi-lo)/n
  double lat( double lo, double hi, int n ) { return lo + ( hi - lo ) * double( raw( uint64_t( n ) + 1 ) ) / double( n ); }
  // Mixture of lattice and continuous
  double mix( double lo, double hi, int n = 8, double plat = 0.3 ) { if( b( 1.0 - plat ) ) return u( lo, hi ); return lat( lo, hi, n ); }
  template<class T> const T& pick( const std::vector<T>& v ) { return v[ size_t( raw( v.size() ) ) ]; }
  template<class T> T pick( std::initializer_list<T> v ) { return *( v.begin() + size_t( raw( v.size() ) ) ); }
  // Index chosen with given weights
  int w( std::initializer_list<int> ws )
  {
    int tot = 0; for( int x : ws ) tot += x;
    int k = int( raw( uint64_t( tot ) ) ), idx = 0;
    for( int x : ws ) { if( k < x ) return idx; k -= x; ++idx; }
    return 0;
  }
  uint64_t bits() { return raw( 0xffffffffffffffffull ); }
};

struct Ctx
{
  bool verbose = false;
  bool is_nontrivial = true;
  bool nontrivial_set = false;
  std::ostringstream out;
  std::vector<std::string> labels;
  std::string known; // set when the failing case matches a known finding
  uint64_t sub = 0; // number of individual oracle comparisons

  void nontrivial( bool x ) { if( !nontrivial_set ) { is_nontrivial = false; nontrivial_set = true; } is_nontrivial = is_nontrivial || x; }
  void label( const std::string& l ) { labels.push_back( l ); }
  int note_fd = -1; // where notes go at once, so that a crash does not lose them
  template<class F> void note( F f ) { if( !verbose ) return; std::ostringstream o; f( o ); out << o.str(); emit( o.str() ); }
  void emit( const std::string& s ) const;
};

using CaseFn = std::function<void( Gen&, Ctx& )>;

struct Sub
{
  std::string prop;
  std::string name;
  std::string rule;
  long quick, thorough;
  CaseFn fn;
};

std::vector<Sub>& registry();
struct Reg { Reg( const char* p, const char* n, const char* r, long q, long t, CaseFn f ) { registry().push_back( { p, n, r, q, t, std::move( f ) } ); } };

#define PBT_CAT2( a, b ) a##b
#define PBT_CAT( a, b ) PBT_CAT2( a, b )
// SUBCHECK(property, name, rule, quick case count, thorough case count) { body using g and c }
#define SUBCHECK( prop, name, rule, q, t ) \
  static void PBT_CAT( pbt_case_, __LINE__ )( pbt::Gen& g, pbt::Ctx& c ); \
  static pbt::Reg PBT_CAT( pbt_reg_, __LINE__ )( prop, name, rule, q, t, PBT_CAT( pbt_case_, __LINE__ ) ); \
  static void PBT_CAT( pbt_case_, __LINE__ )( pbt::Gen& g, pbt::Ctx& c )

#define CHECK( cond, ... ) do { ++c.sub; if( !( cond ) ) { std::ostringstream pbt_oss; pbt_oss.precision( 17 ); pbt_oss << #cond << " : " << __VA_ARGS__; throw pbt::Fail( pbt_oss.str() ); } } while( 0 )
#define FAILCASE( ... ) do { std::ostringstream pbt_oss; pbt_oss.precision( 17 ); pbt_oss << __VA_ARGS__; throw pbt::Fail( pbt_oss.str() ); } while( 0 )

// |a-b| <= tol * max(1,scale), NaN fails
inline bool near( double a, double b, double tol, double scale = 1.0 )
{
  if( a == b ) return true;
  return std::fabs( a - b ) <= tol * std::max( 1.0, std::fabs( scale ) );
}

// Outcome of a call run in a forked child, for contracts of the form "rejects cleanly"
struct ForkResult { bool exited; int code; int signal; std::string out; };
// Memory-safety mode (see pbt_main.cpp): report the death of a process the case started
bool safetyMode();
void childDied( int wait_status );
ForkResult inFork( const std::function<int( std::ostream& )>& f );

}
#endif
