// C01 text utilities, C02 rational numbers
#include "pbt.h"
#include <algorithm>
#include <cassert>
#include <Eigen/Core>
#include "scisim/Math/MathDefines.h"
#include "scisim/StringUtilities.h"
#include "scisim/Math/Rational.h"

using namespace pbt;
namespace SU = StringUtilities;

static std::string str( Gen& g, const std::string& alphabet, int maxlen )
{
  const int n = g.i( 0, maxlen );
  std::string s;
  for( int k = 0; k < n; ++k ) s += alphabet[ size_t( g.raw( alphabet.size() ) ) ];
  return s;
}

static std::string anyAlphabet( Gen& g )
{
  std::string full;
  for( int k = 1; k < 128; ++k ) full += char( k );
  return g.pick<std::string>( { "ab/", " \t\n\r\v\fxy", "012.9/- ", full, std::string( "a,\0b", 4 ) } );
}

static bool isws( char x ) { return x == ' ' || ( x >= 9 && x <= 13 ); }

static void show( Ctx& c, const std::string& s, char ch )
{
  c.note( [&]( std::ostream& o ) { o << "string of " << s.size() << " bytes:"; for( unsigned char x : s ) o << ' ' << int( x ); o << " ; char " << int( static_cast<unsigned char>( ch ) ); } );
}

SUBCHECK( "C01", "tokenize_join", "random strings over small/ASCII alphabets; non-trivial when the delimiter occurs", 60000, 600000 )
{
  const std::string al = anyAlphabet( g );
  const std::string s = str( g, al, g.pick( { 3, 8, 40 } ) );
  const char d = al[ size_t( g.raw( al.size() ) ) ];
  show( c, s, d );
  std::vector<std::string> tok;
  if( g.b() ) tok = SU::tokenize( s, d ); else SU::tokenize( s, d, tok );
  // Reference: fields between delimiters; the empty string has no fields
  std::vector<std::string> ref;
  if( !s.empty() )
  {
    std::string cur;
    for( char x : s ) { if( x == d ) { ref.push_back( cur ); cur.clear(); } else cur += x; }
    ref.push_back( cur );
  }
  CHECK( tok == ref, "got " << tok.size() << " tokens, expected " << ref.size() );
  c.nontrivial( s.find( d ) != std::string::npos );
}

SUBCHECK( "C01", "split_last", "random strings; non-trivial when the character occurs", 40000, 400000 )
{
  const std::string al = anyAlphabet( g );
  const std::string s = str( g, al, g.pick( { 3, 8, 40 } ) );
  const char d = al[ size_t( g.raw( al.size() ) ) ];
  show( c, s, d );
  std::string l = "junk", r = "junk";
  SU::splitAtLastCharacterOccurence( s, l, r, d );
  const size_t p = s.rfind( d );
  if( p == std::string::npos ) { CHECK( l == s && r.empty(), "left '" << l << "' right '" << r << "'" ); CHECK( SU::computeNumCharactersToRight( s, d ) == 0, SU::computeNumCharactersToRight( s, d ) ); }
  else
  {
    CHECK( l + d + r == s, "left '" << l << "' right '" << r << "'" );
    CHECK( r.find( d ) == std::string::npos, "right '" << r << "'" );
    CHECK( SU::computeNumCharactersToRight( s, d ) == s.size() - s.find( d ) - 1, SU::computeNumCharactersToRight( s, d ) );
  }
  c.nontrivial( p != std::string::npos );
}

SUBCHECK( "C01", "trim_pad", "random strings with whitespace; non-trivial when trimming changes the string", 40000, 400000 )
{
  const std::string al = anyAlphabet( g );
  const std::string s = str( g, al, g.pick( { 3, 8, 40 } ) );
  const char d = al[ size_t( g.raw( al.size() ) ) ];
  show( c, s, d );
  size_t a = 0, b = s.size();
  while( a < b && isws( s[a] ) ) ++a;
  CHECK( SU::trimFront( s ) == s.substr( a ), "trimFront" );
  while( b > a && isws( s[b - 1] ) ) --b;
  std::string back = s;
  while( !back.empty() && isws( back.back() ) ) back.pop_back();
  CHECK( SU::trimBack( s ) == back, "trimBack" );
  CHECK( SU::trim( s ) == s.substr( a, b - a ), "trim" );
  std::string nows;
  for( char x : s ) if( !isws( x ) ) nows += x;
  CHECK( SU::removeWhiteSpace( s ) == nows, "removeWhiteSpace" );
  std::string right = s;
  while( !right.empty() && right.back() == d ) right.pop_back();
  CHECK( SU::trimCharacterRight( s, d ) == right, "trimCharacterRight '" << SU::trimCharacterRight( s, d ) << "'" );
  const unsigned w = unsigned( g.i( 0, 20 ) );
  const std::string pad = s.size() < w ? std::string( w - s.size(), '0' ) + s : s;
  CHECK( SU::padWithZeros( s, w ) == pad, "padWithZeros '" << SU::padWithZeros( s, w ) << "' width " << w );
  c.nontrivial( SU::trim( s ) != s );
}

SUBCHECK( "C01", "serialize_strings", "random byte strings and vectors of them, back to back in one stream; non-trivial with at least 2 strings", 30000, 300000 )
{
  std::string full;
  for( int k = 0; k < 256; ++k ) full += char( k );
  const int n = g.i( 0, 6 );
  std::vector<std::string> v;
  for( int k = 0; k < n; ++k ) v.push_back( str( g, g.b() ? full : std::string( "ab\0", 3 ), g.pick( { 2, 10, 300 } ) ) );
  const std::string lone = str( g, full, 20 );
  c.note( [&]( std::ostream& o ) { o << n << " strings, lengths"; for( const auto& s : v ) o << ' ' << s.size(); } );
  std::stringstream ss;
  SU::serialize( lone, ss );
  SU::serializeVector( v, ss );
  SU::serialize( lone, ss );
  CHECK( SU::deserialize( ss ) == lone, "first string" );
  CHECK( SU::deserializeVector( ss ) == v, "vector" );
  CHECK( SU::deserialize( ss ) == lone, "trailing string" );
  CHECK( ss.peek() == EOF, "bytes left over" );
  c.nontrivial( n >= 2 );
}

SUBCHECK( "C01", "numbers_from_text", "numbers printed then read back; scalar lists with a delimiter, right and wrong counts, inf", 30000, 300000 )
{
  // extractFromString / convertToString
  const int iv = int( g.i64( -2147483647, 2147483647 ) );
  int ir = 7;
  CHECK( SU::extractFromString( SU::convertToString( iv ), ir ) && ir == iv, iv );
  const unsigned uv = unsigned( g.raw( 4294967296ull ) );
  unsigned ur = 7;
  CHECK( SU::extractFromString( SU::convertToString( uv ), ur ) && ur == uv, uv );
  const bool bv = g.b();
  bool br = !bv;
  CHECK( SU::extractFromString( SU::convertToString( bv ), br ) && br == bv, bv );
  double junk;
  CHECK( !SU::extractFromString( g.pick<std::string>( { "", "abc", "x1", "-", "." } ), junk ), "non-number accepted" );
  const int n = g.i( 1, 6 );
  const char d = g.pick( { ' ', ',', ';' } );
  std::string text;
  std::vector<double> vals;
  bool has_inf = false;
  for( int k = 0; k < n; ++k )
  {
    std::ostringstream o;
    o.precision( 17 );
    double x;
    const int kind = g.w( { 6, 1, 1 } );
    if( kind == 0 ) { x = g.s( 1.0 ) * std::pow( 10.0, g.i( -8, 8 ) ); o << x; }
    else if( kind == 1 ) { x = std::numeric_limits<double>::infinity(); o << "inf"; has_inf = true; }
    else { x = -std::numeric_limits<double>::infinity(); o << "-inf"; has_inf = true; }
    vals.push_back( x );
    if( k ) text += d;
    text += o.str();
  }
  c.note( [&]( std::ostream& o ) { o << "list '" << text << "' delimiter '" << d << "'"; } );
  VectorXs out = VectorXs::Constant( g.i( 0, 8 ), 3.0 );
  CHECK( SU::readScalarList( text, unsigned( n ), d, out ), "valid list rejected: " << text );
  CHECK( out.size() == n, "size " << out.size() );
  for( int k = 0; k < n; ++k ) CHECK( out( k ) == vals[size_t( k )], "entry " << k << " of " << text << " is " << out( k ) );
  VectorXs out2;
  CHECK( !SU::readScalarList( text, unsigned( n + g.pick( { -1, 1, 2 } ) ), d, out2 ), "wrong count accepted: " << text );
  std::string bad = text + d + "x";
  CHECK( !SU::readScalarList( bad, unsigned( n + 1 ), d, out2 ), "garbage accepted: " << bad );
  for( double want : vals )
  {
    std::ostringstream o; o.precision( 17 );
    if( std::isinf( want ) ) o << ( want > 0 ? "inf" : "-inf" ); else o << want;
    double got = 0;
    CHECK( SU::extractScalarFromString( o.str(), got ) && got == want, o.str() );
  }
  if( has_inf ) c.label( "inf" );
  c.nontrivial( n >= 2 );
}

// ---- C02 ----

using R = Rational<std::intmax_t>;
using I = __int128;
static I gcd128( I a, I b ) { if( a < 0 ) a = -a; if( b < 0 ) b = -b; while( b ) { const I t = a % b; a = b; b = t; } return a; }
static void canon( I& n, I& d ) { if( n == 0 ) { d = 1; return; } const I q = gcd128( n, d ); n /= q; d /= q; if( d < 0 ) { n = -n; d = -d; } }

static std::intmax_t anyInt( Gen& g ) { const std::intmax_t m = g.pick<std::intmax_t>( { 3, 12, 1000, 1000000 } ); const std::intmax_t v = g.i64( 0, m ); return g.b() ? -v : v; }
static std::intmax_t nzInt( Gen& g ) { const std::intmax_t v = anyInt( g ); return v == 0 ? 1 : v; }

SUBCHECK( "C02", "canonical_and_arithmetic", "pairs of fractions with entries up to 1e6 of either sign (products fit 64 bits); non-trivial when a reduction or sign move happens", 60000, 600000 )
{
  const std::intmax_t a = anyInt( g ), b = nzInt( g ), p = anyInt( g ), q = nzInt( g ), k = nzInt( g );
  c.note( [&]( std::ostream& o ) { o << a << "/" << b << " op " << p << "/" << q << ", integer " << k; } );
  const R x{ a, b }, y{ p, q };
  const auto is = [&]( const R& r, I n, I d, const char* what )
  {
    canon( n, d );
    CHECK( I( r.numerator() ) == n && I( r.denominator() ) == d, what << ": got " << r.numerator() << "/" << r.denominator() << " expected " << (long long) n << "/" << (long long) d << " from " << a << "/" << b << ", " << p << "/" << q << ", " << k );
    CHECK( r.denominator() > 0, what << " denominator sign" );
    CHECK( r.positive() == ( n > 0 ) && r.nonNegative() == ( n >= 0 ) && r.isInteger() == ( d == 1 ), what << " predicates" );
    CHECK( double( r ) == double( n ) / double( d ), what << " to double " << double( r ) );
  };
  is( x, a, b, "construct" );
  R s; s.set( p, q ); is( s, p, q, "set" );
  { R t = x; t += y; is( t, I( a ) * q + I( p ) * b, I( b ) * q, "add" ); }
  { R t = x; t -= y; is( t, I( a ) * q - I( p ) * b, I( b ) * q, "subtract" ); }
  { R t = x; t *= y; is( t, I( a ) * p, I( b ) * q, "multiply" ); }
  if( p != 0 ) { R t = x; t /= y; is( t, I( a ) * q, I( b ) * p, "divide" ); is( k / y, I( k ) * q, p, "int / rational" ); }
  is( x * k, I( a ) * k, b, "rational * int" );
  is( k * x, I( a ) * k, b, "int * rational" );
  is( x / k, a, I( b ) * k, "rational / int" );
  const bool eq = I( a ) * q == I( p ) * b;
  CHECK( ( x == y ) == eq && ( x != y ) == !eq, "equality" );
  CHECK( ( x == k ) == ( I( a ) == I( k ) * b ) && ( k == x ) == ( I( a ) == I( k ) * b ), "equality with integer" );
  CHECK( x == ( R{ a * k, b * k } ), "scaling invariance" );
  std::ostringstream o; o << x;
  std::ostringstream e; e << x.numerator() << " / " << x.denominator();
  CHECK( o.str() == e.str(), o.str() );
  R back;
  CHECK( extractFromString( o.str(), back ) && back == x, "printed form does not parse back: " << o.str() );
  c.nontrivial( b < 0 || q < 0 || gcd128( a, b ) > 1 );
}

static std::string spaced( Gen& g, const std::string& s, bool ws )
{
  if( !ws ) return s;
  std::string o;
  for( char x : s ) { while( g.b( 0.2 ) ) o += g.pick( { ' ', '\t' } ); o += x; }
  while( g.b( 0.2 ) ) o += ' ';
  return o;
}

SUBCHECK( "C02", "parse_decimal_and_fraction", "decimal (optional sign, leading dot, trailing zeros, whitespace) and a/b texts; expected value from exact integer arithmetic; non-trivial when a fractional part or a slash is present", 60000, 600000 )
{
  const bool ws = g.b( 0.3 );
  const std::string sign = g.pick<std::string>( { "", "-", "+" } );
  I n = 0, d = 1;
  std::string text;
  bool nt = true;
  if( g.b( 0.3 ) )
  {
    const std::intmax_t p = g.i64( 0, 2000000 ), q = g.i64( 1, 2000000 );
    const bool negq = g.b( 0.2 );
    text = sign + std::to_string( p ) + "/" + ( negq ? "-" : g.b( 0.1 ) ? "+" : "" ) + std::to_string( q );
    n = p; d = negq ? -I( q ) : I( q );
    if( sign == "-" ) n = -n;
  }
  else
  {
    const int nl = g.i( 0, 6 ), nr = g.i( 0, 8 );
    std::string l, r;
    for( int k = 0; k < nl; ++k ) l += char( '0' + g.i( 0, 9 ) );
    for( int k = 0; k < nr; ++k ) r += char( '0' + ( g.b( 0.3 ) ? 0 : g.i( 0, 9 ) ) );
    if( l.empty() && r.empty() ) l = "0";
    const bool dot = !r.empty() || g.b( 0.3 );
    if( l.empty() && !dot ) l = "0";
    text = sign + l + ( dot ? "." : "" ) + r;
    for( char x : l ) n = n * 10 + ( x - '0' );
    for( char x : r ) { n = n * 10 + ( x - '0' ); d *= 10; }
    if( sign == "-" ) n = -n;
    nt = !r.empty();
  }
  text = spaced( g, text, ws );
  c.note( [&]( std::ostream& o ) { o << "text '" << text << "'"; } );
  R out{ 99, 7 };
  CHECK( extractFromString( text, out ), "rejected '" << text << "'" );
  canon( n, d );
  CHECK( I( out.numerator() ) == n && I( out.denominator() ) == d, "'" << text << "' parsed as " << out.numerator() << "/" << out.denominator() << ", expected " << (long long) n << "/" << (long long) d );
  // Malformed variants are rejected
  const std::string digits = std::to_string( g.i( 0, 999 ) );
  const std::string bad = g.pick<std::string>( { "", "  ", "abc", "1/", "/2", "1/2/3", "1.2.3", "1.5/2", "1/2.5", digits + "/0", "-" + digits + "/0", "/", "x" + digits, digits + "." + "x" } );
  R out2;
  // A lone point and an empty string read as 0 under the documented leniency (" - ." is 0)
  if( bad.find_first_not_of( " " ) != std::string::npos ) CHECK( !extractFromString( bad, out2 ), "malformed '" << bad << "' accepted as " << out2.numerator() << "/" << out2.denominator() );
  c.nontrivial( nt );
}
