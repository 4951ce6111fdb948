// Talks to post_reader.py, which runs the repository's post-processing readers on an output file.
#ifndef VERIF_POST_READER_H
#define VERIF_POST_READER_H
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

namespace post
{

struct Answer
{
  std::string status;              // "ok", "exit ...", "error ..."
  std::vector<std::string> lines;
};

inline bool available() { return getenv( "VERIF_POST_PYTHON" ) && getenv( "VERIF_POST_SCRIPT" ) && getenv( "VERIF_POST_DIR" ); }

class Server
{
  pid_t m_owner = -1, m_child = -1;
  FILE* m_to = nullptr;
  FILE* m_from = nullptr;

  void start()
  {
    int a[2], b[2];
    if( pipe2( a, O_CLOEXEC ) != 0 || pipe2( b, O_CLOEXEC ) != 0 ) throw std::runtime_error( "pipe" );
    const pid_t p = fork();
    if( p < 0 ) throw std::runtime_error( "fork" );
    if( p == 0 )
    {
      dup2( a[0], 0 );
      dup2( b[1], 1 );
      signal( SIGALRM, SIG_DFL );
      alarm( 0 );
      execl( getenv( "VERIF_POST_PYTHON" ), "python3", getenv( "VERIF_POST_SCRIPT" ), getenv( "VERIF_POST_DIR" ), static_cast<char*>( nullptr ) );
      _exit( 127 );
    }
    close( a[0] );
    close( b[1] );
    m_to = fdopen( a[1], "w" );
    m_from = fdopen( b[0], "r" );
    m_child = p;
    m_owner = getpid();
    std::fprintf( m_to, "types 11=<f8 12=<f4 13=<i4 14=<u4 15=<i8\n" );
  }

  bool attempt( const std::string& request, Answer& out )
  {
    if( m_owner != getpid() ) start(); // a fork of the owner needs a server of its own
    out = Answer{};
    std::fprintf( m_to, "%s\n", request.c_str() );
    if( std::fflush( m_to ) != 0 ) return false;
    char* line = nullptr;
    size_t cap = 0;
    bool ok = false;
    ssize_t k;
    while( ( k = getline( &line, &cap, m_from ) ) > 0 )
    {
      while( k > 0 && ( line[k - 1] == '\n' ) ) line[--k] = 0;
      const std::string s( line );
      if( s == "END" ) { ok = true; break; }
      if( s.compare( 0, 7, "STATUS " ) == 0 ) out.status = s.substr( 7 );
      else out.lines.push_back( s );
    }
    free( line );
    return ok;
  }

public:
  Answer ask( const std::string& request )
  {
    signal( SIGPIPE, SIG_IGN );
    Answer out;
    for( int k = 0; k < 3; ++k )
    {
      if( attempt( request, out ) ) return out;
      m_owner = -1;
    }
    std::fprintf( stderr, "the reader of the post-processing scripts does not answer\n" );
    throw std::runtime_error( "the reader of the post-processing scripts does not answer" );
  }
};

inline Answer ask( const std::string& request )
{
  static Server s;
  return s.ask( request );
}

// All numbers of a text; brackets and anything else that is not a number separate them
inline std::vector<double> numbers( const std::string& s )
{
  std::vector<double> v;
  std::string t = s;
  for( char& ch : t ) if( ch == '[' || ch == ']' || ch == ',' ) ch = ' ';
  std::istringstream is( t );
  std::string w;
  while( is >> w )
  {
    char* e = nullptr;
    const double x = std::strtod( w.c_str(), &e );
    if( e && *e == 0 ) v.push_back( x );
  }
  return v;
}

inline std::vector<std::string> fields( const std::string& s )
{
  std::vector<std::string> out( 1 );
  for( size_t k = 0; k < s.size(); ++k )
  {
    if( s.compare( k, 3, " | " ) == 0 ) { out.emplace_back(); k += 2; }
    else out.back() += s[k];
  }
  return out;
}

inline bool startsWith( const std::string& s, const std::string& p ) { return s.compare( 0, p.size(), p ) == 0; }

}
#endif
