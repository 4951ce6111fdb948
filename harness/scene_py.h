// Python scripts attached to simulations, generic over the simulator. A trait T of scene_cli.h further defines T::Py with
//   module(); look(sim) and lookPy(): the observables of a state, and the expression that gives the same text in a script;
//   op(g, sim): changes the simulation and returns the statement with the same effect; bad(g, sim, what): a statement that
//   must be refused; coefficients(): whether scripts can read contacts and set coefficients
#ifndef VERIF_SCENE_PY_H
#define VERIF_SCENE_PY_H
#ifdef USE_PYTHON
#include "scene_cli.h"
#include "step_common.h"
#include "scisim/PythonTools.h"
#include <sys/mman.h>

namespace sf
{
inline std::string g17( double x )
{
  if( std::isnan( x ) ) return "nan";
  char b[40];
  std::snprintf( b, sizeof b, "%.17g", x );
  return b;
}
inline std::string g17( const VectorXs& x ) { std::string s; for( int i = 0; i < int( x.size() ); ++i ) s += ( i ? " " : "" ) + g17( x( i ) ); return s; }

// The interpreter, once per process; cases run in children of it
template<class PS> void startPython()
{
  static bool done = false;
  if( done ) return;
  done = true;
  ::setenv( "PYTHONPATH", VERIF_PYSITE, 0 );
  ::setenv( "PYTHONDONTWRITEBYTECODE", "1", 1 );
  ::setenv( "OPENBLAS_NUM_THREADS", "1", 1 );
  Py_InitializeEx( 0 );
  PythonTools::pythonCommand( "import sys" );
  PS::initializeCallbacks();
}
// Which part of a case a child was in when it ended; shared with the parent
inline volatile int& phase()
{
  static volatile int* p = static_cast<volatile int*>( ::mmap( nullptr, sizeof( int ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  return *p;
}
inline std::string pyEval( const char* module, const std::string& expr )
{
  PyObject* m = PyImport_ImportModule( module ); // already loaded
  if( !m ) { PyErr_Print(); FAILCASE( "the script's module is gone" ); }
  PyObject* d = PyModule_GetDict( m );
  PyObject* r = PyRun_String( expr.c_str(), Py_eval_input, d, d );
  if( !r ) { PyErr_Print(); FAILCASE( "the script's log cannot be read" ); }
  const char* s = PyUnicode_AsUTF8( r );
  std::string o = s ? s : "";
  Py_DECREF( r ); Py_DECREF( m );
  return o;
}
inline void pySet( const char* module, const char* name, const std::string& value )
{
  PyObject* m = PyImport_ImportModule( module );
  if( !m ) { PyErr_Print(); FAILCASE( "the script's module is gone" ); }
  PyObject* v = PyUnicode_FromString( value.c_str() );
  PyObject_SetAttrString( m, name, v );
  Py_DECREF( v ); Py_DECREF( m );
}

enum Hook { H_START = 1, H_END = 2, H_MU = 4, H_COR = 8, H_SIM0 = 16, H_SIM1 = 32 };
// Coefficients that depend on everything that identifies a contact
inline double wanted( int salt, const std::string& type, int i0, int i1 ) { return double( ( salt + int( type.size() ) * 31 + i0 * 7 + ( i1 + 2 ) * 13 ) % 101 ) / 100.0; }
struct Salts { int mu = 0, cor = 0; };

template<class T> std::string stepScript( int hooks, const Salts& s )
{
  std::ostringstream o;
  o << "import numpy\nimport " << T::Py::module() << " as m\nlog = []\nat_start = ''\nat_end = ''\nat_mu = ''\nat_cor = ''\nreached = 0\n"
       "def numbers( a ): return ' '.join( '%.17g' % x for x in a )\n"
       "def look(): return " << T::Py::lookPy() << "\n"
       "def W( salt, t, i ): return ( ( salt + len( t ) * 31 + int( i[0] ) * 7 + ( int( i[1] ) + 2 ) * 13 ) % 101 ) / 100.0\n";
  if( hooks & H_START ) o << "def startOfStep():\n  log.append( 'S %d %.17g ' % ( m.nextIteration(), m.timestep() ) + look() )\n  exec( at_start, globals() )\n  log.append( 's ' + look() )\n";
  if( hooks & H_END ) o << "def endOfStep():\n  log.append( 'E %d %.17g ' % ( m.nextIteration(), m.timestep() ) + look() )\n  exec( at_end, globals() )\n  log.append( 'e ' + look() )\n";
  for( int r = 0; r < 2; ++r ) if( hooks & ( r ? H_COR : H_MU ) )
  {
    o << "def " << ( r ? "restitutionCoefficient" : "frictionCoefficient" ) << "():\n  exec( " << ( r ? "at_cor" : "at_mu" ) << ", globals() )\n";
    if( !T::Py::coefficients() ) { o << "  log.append( '" << ( r ? "R" : "F" ) << "' )\n"; continue; }
    o << "  n = m.numCollisions()\n  x = m." << ( r ? "cor" : "mu" ) << "()\n  line = '" << ( r ? "R" : "F" ) << " %d %d' % ( n, len( x ) )\n"
         "  for k in range( n ):\n    t = m.collisionType( k )\n    i = m.collisionIndices( k )\n"
         "    line += ' %s:%d:%d:%.17g' % ( t, i[0], i[1], x[k] )\n    x[k] = W( " << ( r ? s.cor : s.mu ) << ", t, i )\n  log.append( line )\n";
  }
  return o.str();
}

// Passes on a contact problem, recording what it was asked; with coefficients of its own where asked to
struct CoefSpy
{
  bool subst_mu = false, subst_cor = false;
  Salts salts;
  int calls = 0;
  std::vector<ContactId> ids;
  VectorXs mu, cor;
  VectorXs own( const Cons& cons, int salt ) const
  {
    VectorXs r( long( cons.size() ) );
    for( size_t i = 0; i < cons.size(); ++i ) { std::pair<int, int> p; cons[i]->getBodyIndices( p ); r( long( i ) ) = wanted( salt, cons[i]->name(), p.first, p.second ); }
    return r;
  }
};
struct SpyOperator final : public ImpactOperator
{
  std::unique_ptr<ImpactOperator> inner;
  CoefSpy& spy;
  SpyOperator( std::unique_ptr<ImpactOperator> o, CoefSpy& s ) : inner( std::move( o ) ), spy( s ) {}
  void flow( const Cons& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q, const VectorXs& v, const VectorXs& vF, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nr, const VectorXs& cor, VectorXs& a ) override
  {
    ++spy.calls;
    spy.ids = idsOf( cons );
    spy.cor = cor;
    inner->flow( cons, M, Minv, q, v, vF, N, Q, nr, spy.subst_cor ? spy.own( cons, spy.salts.cor ) : cor, a );
  }
  std::string name() const override { return inner->name(); }
  std::unique_ptr<ImpactOperator> clone() const override { return inner->clone(); }
  void serialize( std::ostream& o ) const override { inner->serialize( o ); }
};
struct SpySolver final : public FrictionSolver
{
  std::unique_ptr<FrictionSolver> inner;
  CoefSpy& spy;
  SpySolver( std::unique_ptr<FrictionSolver> o, CoefSpy& s ) : inner( std::move( o ) ), spy( s ) {}
  unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return inner->numFrictionImpulsesPerNormal( d ); }
  void serialize( std::ostream& o ) const override { inner->serialize( o ); }
  std::string name() const override { return inner->name(); }
  void solve( const unsigned it, const scalar& dt, const FlowableSystem& fs, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& cor, const VectorXs& mu, const VectorXs& q0, const VectorXs& v0, Cons& cons, const MatrixXXsc& cb, const VectorXs& ne, const VectorXs& de, const unsigned max_iters, const scalar& tol, VectorXs& f, VectorXs& a, VectorXs& b, VectorXs& vout, bool& ok, scalar& err ) override
  {
    ++spy.calls;
    spy.ids = idsOf( cons );
    spy.cor = cor;
    spy.mu = mu;
    inner->solve( it, dt, fs, M, Minv, spy.subst_cor ? spy.own( cons, spy.salts.cor ) : cor, spy.subst_mu ? spy.own( cons, spy.salts.mu ) : mu, q0, v0, cons, cb, ne, de, max_iters, tol, f, a, b, vout, ok, err );
  }
};

inline std::vector<std::string> lines( const std::string& s ) { std::vector<std::string> r; std::istringstream i( s ); std::string l; while( std::getline( i, l ) ) r.push_back( l ); return r; }

// One simulation, its solvers, and a record of what they were asked
template<class T> struct World
{
  Parsed e;
  typename T::Sim sim;
  CoefSpy spy;
  bool load( const std::string& file )
  {
    if( !T::parse( file, e, &sim ) ) return false;
    T::begin( sim );
    if( e.op ) e.op.reset( new SpyOperator( std::move( e.op ), spy ) );
    if( e.fs ) e.fs.reset( new SpySolver( std::move( e.fs ), spy ) );
    return true;
  }
  void step( typename T::Scripting& ps, unsigned it )
  {
    spy.calls = 0;
    spy.ids.clear();
    T::attached() = &ps;
    T::step( sim, e, it, nullptr );
    T::attached() = nullptr;
  }
};

// Choices for a child to make
inline std::vector<uint64_t> drawn( Gen& g, int n ) { std::vector<uint64_t> r; for( int i = 0; i < n; ++i ) r.push_back( g.bits() ); return r; }

template<class T> void checkScriptSteps( Gen& g, pbt::Ctx& c )
{
  Scratch d;
  T::enter( d.dir );
  Parsed want;
  std::vector<Break> br;
  Node root = T::gen( g, want, true, br );
  int hooks = 0;
  for( int h : { H_START, H_END, H_MU, H_COR } ) if( g.b( 0.7 ) ) hooks |= h;
  if( want.ifm && want.ifm->name() == "symplectic_euler_impact_friction_map" ) hooks &= ~H_COR; // needs uniform restitution
  Salts salts;
  salts.mu = g.i( 0, 100 );
  salts.cor = g.i( 0, 100 );
  const unsigned first = g.b( 0.7 ) ? 1u : unsigned( g.i( 1, 500 ) );
  const int n = g.i( 1, 8 );
  const std::vector<uint64_t> pool = drawn( g, 40 * n ); // choices made while stepping
  const std::string text = renderDoc( g, root ), script = stepScript<T>( hooks, salts );
  spit( d( "s.xml" ), text );
  spit( d( "script.py" ), script );
  c.note( [&]( std::ostream& o ) { o << text << "\n" << script << "\nfirst iteration " << first; } );
  startPython<typename T::Scripting>();
  phase() = 0;
  const pbt::ForkResult r = pbt::inFork( [&]( std::ostream& out )
  {
    Gen h( pool );
    World<T> a, b; // with the script; with the same operations applied directly
    if( !a.load( d( "s.xml" ) ) || !b.load( d( "s.xml" ) ) ) return 3;
    if( want.jacobi ) return 3;
    b.spy.subst_mu = T::Py::coefficients() && ( hooks & H_MU );
    b.spy.subst_cor = T::Py::coefficients() && ( hooks & H_COR );
    b.spy.salts = salts;
    std::unique_ptr<typename T::Scripting> ps( new typename T::Scripting( d.dir, "script" ) );
    typename T::Scripting none;
    const double dt = double( a.e.dt.numerator() ) / double( a.e.dt.denominator() );
    int contacts = 0, ops = 0;
    
    for( int k = 0; k < n; ++k )
    {
      if( double( clock() ) / CLOCKS_PER_SEC > 3.0 ) break;
      const unsigned it = first + unsigned( k );
      const std::string st = " " + std::to_string( it ) + " " + g17( dt ) + " ";
      std::vector<std::string> before, after;
      std::string s0, s1;
      phase() = 0;
      before.push_back( "S" + st + T::Py::look( b.sim ) );
      if( hooks & H_START ) for( int i = h.b( 0.6 ) ? h.i( 1, 3 ) : 0; i > 0; --i ) { const std::string s = T::Py::op( h, b.sim ); if( !s.empty() ) { s0 += s + "\n"; ++ops; } }
      before.push_back( "s " + T::Py::look( b.sim ) );
      b.step( none, it );
      after.push_back( "E" + st + T::Py::look( b.sim ) );
      if( hooks & H_END ) for( int i = h.b( 0.6 ) ? h.i( 1, 3 ) : 0; i > 0; --i ) { const std::string s = T::Py::op( h, b.sim ); if( !s.empty() ) { s1 += s + "\n"; ++ops; } }
      after.push_back( "e " + T::Py::look( b.sim ) );
      // The script may be handed over in between
      std::string how = "";
      switch( h.w( { 6, 1, 1 } ) )
      {
        case 1:
        {
          how = ", resumed";
          std::stringstream ss;
          ps->serialize( ss );
          ps.reset( new typename T::Scripting( ss ) );
          break;
        }
        case 2:
        {
          how = ", swapped";
          std::unique_ptr<typename T::Scripting> o( new typename T::Scripting );
          swap( *o, *ps );
          ps = std::move( o );
          break;
        }
        default: break;
      }
      if( std::getenv( "VERIF_STDERR" ) ) std::fprintf( stderr, "step %u%s\nstart:\n%send:\n%s", it, how.c_str(), s0.c_str(), s1.c_str() );
      pySet( "script", "at_start", s0 );
      pySet( "script", "at_end", s1 );
      pyEval( "script", "str( log.clear() )" );
      phase() = 1;
      a.step( *ps, it );
      phase() = 2;
      const std::string where = " at step " + std::to_string( it ) + how;
      CHECK( bytesOf( a.sim ) == bytesOf( b.sim ), "the scripted simulation differs from the one changed directly" << where << ": " << T::Py::look( a.sim ) << " instead of " << T::Py::look( b.sim ) );
      CHECK( a.spy.calls == b.spy.calls && a.spy.ids == b.spy.ids, "other contacts are resolved" << where );
      if( a.spy.calls && !a.spy.ids.empty() )
      {
        ++contacts;
        for( int i = 0; i < int( a.spy.ids.size() ); ++i )
        {
          const ContactId& id = a.spy.ids[size_t( i )];
          const bool sub = T::Py::coefficients();
          const double cor = sub && ( hooks & H_COR ) ? wanted( salts.cor, id.name, id.b0, id.b1 ) : a.e.CoR;
          CHECK( a.spy.cor( i ) == cor, "restitution " << a.spy.cor( i ) << " used for " << id << " instead of " << cor << where );
          if( !a.e.fs ) continue;
          const double mu = sub && ( hooks & H_MU ) ? wanted( salts.mu, id.name, id.b0, id.b1 ) : a.e.mu;
          CHECK( a.spy.mu( i ) == mu, "friction coefficient " << a.spy.mu( i ) << " used for " << id << " instead of " << mu << where );
        }
      }
      const std::vector<std::string> log = lines( pyEval( "script", "'\\n'.join( log )" ) );
      size_t at = 0;
      if( hooks & H_START ) for( auto& l : before ) { CHECK( at < log.size() && log[at] == l, "the script sees \"" << ( at < log.size() ? log[at] : "nothing" ) << "\" instead of \"" << l << "\"" << where ); ++at; }
      bool mu = false, cor = false;
      for( ; at < log.size() && ( log[at][0] == 'F' || log[at][0] == 'R' ); ++at )
      {
        const bool f = log[at][0] == 'F';
        CHECK( hooks & ( f ? H_MU : H_COR ), "a hook that is not there ran" );
        if( T::Py::coefficients() )
        {
          std::ostringstream l;
          l << ( f ? "F " : "R " ) << a.spy.ids.size() << " " << a.spy.ids.size();
          for( const ContactId& id : a.spy.ids ) l << " " << id.name << ":" << id.b0 << ":" << id.b1 << ":" << g17( f ? a.e.mu : a.e.CoR );
          CHECK( log[at] == l.str(), "the script sees the contacts \"" << log[at] << "\" instead of \"" << l.str() << "\"" << where );
        }
        ( f ? mu : cor ) = true;
      }
      if( a.spy.calls && !a.spy.ids.empty() )
      {
        CHECK( cor == bool( hooks & H_COR ), "restitutionCoefficient did not run" << where );
        CHECK( !a.e.fs || mu == bool( hooks & H_MU ), "frictionCoefficient did not run" << where );
      }
      if( !a.e.fs ) CHECK( !mu, "frictionCoefficient ran without friction" << where );
      if( hooks & H_END ) for( auto& l : after ) { CHECK( at < log.size() && log[at] == l, "the script sees \"" << ( at < log.size() ? log[at] : "nothing" ) << "\" instead of \"" << l << "\"" << where ); ++at; }
      CHECK( at == log.size(), "the script ran more than asked: " << log[at] << where );
    }
    out << contacts << " " << ops;
    return 0;
  } );
  if( !r.exited ? phase() != 1 : r.code != 0 && r.code != 201 && phase() != 1 ) throw pbt::Discard{};
  if( r.code == 201 ) FAILCASE( r.out );
  CHECK( r.exited && r.code == 0, "the scripted step ended with " << ( r.exited ? "code " : "signal " ) << ( r.exited ? r.code : r.signal ) << " although the same step without a script did not " << r.out );
  int contacts = 0, ops = 0;
  std::istringstream( r.out ) >> contacts >> ops;
  c.label( contacts ? "contacts" : "no contacts" );
  c.label( want.op ? "impact" : want.ifm ? "friction" : "no contact solver" );
  c.nontrivial( hooks && ( ops > 0 || contacts > 0 ) );
}

// A script that asks for something that does not exist, or fails, ends the program with an error
template<class T> void checkBadScript( Gen& g, pbt::Ctx& c )
{
  Scratch d;
  T::enter( d.dir );
  Parsed want;
  std::vector<Break> br;
  Node root = T::gen( g, want, true, br );
  const std::string text = renderDoc( g, root );
  spit( d( "s.xml" ), text );
  std::string script = stepScript<T>( H_START | H_END | H_MU | H_COR, Salts{} );
  int mode = g.w( { 12, 3, 1, 1, 1, 1, 2 } );
  if( want.ifm && want.ifm->name() == "symplectic_euler_impact_friction_map" && mode == 1 ) mode = 0;
  std::string what;
  const char* hook = g.b() ? "at_start" : "at_end";
  std::string broken = script, name = "script";
  switch( mode )
  {
    case 1: what = "bad request about contacts"; hook = want.fs && g.b() ? "at_mu" : "at_cor"; break;
    case 2: what = "script with a syntax error"; broken += "def f(:\n"; break;
    case 3: what = "no such script"; name = g.pick( { std::string( "nosuch" ), std::string( "script.x" ), std::string( " " ) } ); break;
    case 4: what = "script that fails while loading"; broken += g.pick( { std::string( "raise ValueError( 'no' )\n" ), std::string( "import nosuchmodule_\n" ), std::string( "undefined_\n" ) } ); break;
    case 5: what = "hook that is not a function"; broken += g.pick( { std::string( "startOfStep" ), std::string( "endOfStep" ), std::string( "startOfSim" ), std::string( "endOfSim" ), std::string( "frictionCoefficient" ), std::string( "restitutionCoefficient" ) } ) + " = " + g.pick( { std::string( "3" ), std::string( "'x'" ), std::string( "[]" ) } ) + "\n"; break;
    case 6:
    {
      const std::string h = g.b() ? "startOfSim" : "endOfSim";
      what = h + " that fails";
      broken += "def " + h + "(): " + g.pick( { std::string( "raise ValueError( 'no' )" ), std::string( "undefined_()" ), std::string( "1 / 0" ) } ) + "\n";
      break;
    }
    default: what = "bad request"; break;
  }
  spit( d( "script.py" ), broken );
  const std::vector<uint64_t> pool = drawn( g, 24 );
  startPython<typename T::Scripting>();
  phase() = 0;
  const pbt::ForkResult r = pbt::inFork( [&]( std::ostream& out )
  {
    Gen h( pool );
    if( !std::getenv( "VERIF_STDERR" ) ) { const int nul = ::open( "/dev/null", O_WRONLY ); ::dup2( nul, 1 ); ::dup2( nul, 2 ); }
    World<T> b;
    if( !b.load( d( "s.xml" ) ) ) return 3;
    World<T> a;
    a.load( d( "s.xml" ) );
    if( mode <= 1 )
    {
      typename T::Scripting none;
      b.step( none, 1 ); // works without a script
    }
    phase() = 1;
    typename T::Scripting ps( d.dir, name );
    if( mode == 6 )
    {
      ps.setState( a.sim.state() );
      if( what[0] == 's' ) ps.startOfSimCallback(); else ps.endOfSimCallback();
      return 7;
    }
    if( mode > 1 ) return 7;
    std::string bad;
    if( h.b( 0.15 ) ) bad = h.pick( { std::string( "raise ValueError( 'no' )" ), std::string( "undefined_()" ), std::string( "1 / 0" ), std::string( "m.nosuch()" ), std::string( "m.nextIteration( 1 )" ), std::string( "m.timestep( 'x' )" ), std::string( "m.numStaticPlanes( 0 )" ) } );
    else if( mode == 1 )
    {
      if( !T::Py::coefficients() ) return 3;
      const std::string f = h.b() ? "collisionType" : "collisionIndices";
      bad = "m." + f + "( " + h.pick( { std::string( "m.numCollisions()" ), std::string( "m.numCollisions()" ), std::string( "m.numCollisions() + 1" ), std::string( "m.numCollisions() + 1000" ), std::string( "-1" ), std::string( "'0'" ), std::string( "" ), std::string( "0, 0" ), std::string( "0.5" ), std::string( "None" ) } ) + " )";
    }
    else bad = T::Py::bad( h, b.sim, std::string( hook ) == "at_start" ? a.sim : b.sim );
    out << bad;
    if( std::getenv( "VERIF_STDERR" ) ) std::fprintf( stderr, "%s: %s\n", hook, bad.c_str() );
    spit( d( "bad.txt" ), bad );
    pySet( "script", hook, "reached = 1\n" + bad + "\nreached = 2" );
    phase() = 2;
    a.step( ps, 1 );
    const std::string reached = pyEval( "script", "str( reached )" );
    return reached == "0" ? 3 : 7;
  } );
  const std::string bad = slurp( d( "bad.txt" ) );
  c.note( [&]( std::ostream& o ) { o << text << "\n" << broken << "\n" << name << " " << hook << ": " << bad; } );
  if( r.exited && r.code == 3 ) throw pbt::Discard{};
  if( phase() == 0 ) throw pbt::Discard{};
  CHECK( r.exited, what << " \"" << bad << "\" ended with signal " << r.signal );
  CHECK( r.code != 7, what << " \"" << bad << "\" was not noticed" );
  CHECK( r.code < 200, what << " \"" << bad << "\": " << r.out );
  CHECK( r.code != 0, what << " \"" << bad << "\" ended the program with success" );
  c.label( what );
  c.nontrivial( true );
}

// The program runs a script's hooks in order and at the right time, also across interruptions
template<class T> void checkProgramScript( Gen& g, pbt::Ctx& c )
{
  Scratch d;
  T::enter( d.dir );
  Parsed e;
  std::vector<Break> br;
  Node root = T::gen( g, e, true, br );
  for( size_t i = 0; i < root.kids.size(); ) if( root.kids[i].tag == "scripting" ) root.kids.erase( root.kids.begin() + long( i ) ); else ++i;
  Node sc( "scripting" );
  sc.add( "callback", "script", TEXT );
  root.kids.insert( root.kids.begin() + long( g.raw( root.kids.size() + 1 ) ), sc );
  int hooks = 0;
  for( int h : { H_START, H_END, H_MU, H_COR, H_SIM0, H_SIM1 } ) if( g.b( 0.75 ) ) hooks |= h;
  if( e.ifm && e.ifm->name() == "symplectic_euler_impact_friction_map" ) hooks &= ~H_COR;
  const bool forces = g.b( 0.3 );
  Plan p = plan( g, e, root, forces );
  if( T::Py::startsAnywhere() && ( hooks & H_SIM0 ) && g.b( 0.4 ) ) p.from = g.b( 0.8 ) ? unsigned( g.raw( p.steps + 3 ) ) : unsigned( g.pick( { 65535, 65536, 100003, 2000000000 } ) );
  // A script without a state of its own, so that interruptions make no difference
  std::ostringstream s;
  s << "import " << T::Py::module() << " as m\ndef tell( x ):\n  with open( 'events.txt', 'a' ) as f: f.write( x + '\\n' )\n";
  const bool quiet = g.b( 0.2 );
  const auto change = [&]( const char* indent ) { return quiet ? std::string() : T::Py::stateless( g, indent ); };
  if( hooks & H_SIM0 ) s << "def startOfSim():\n  tell( 'sim0' )\n  k = 0\n" << ( p.from ? "  m.setInitialIterate( " + std::to_string( p.from ) + " )\n" : std::string() ) << change( "  " );
  if( hooks & H_SIM1 ) s << "def endOfSim():\n  tell( 'sim1' )\n";
  if( hooks & H_START ) s << "def startOfStep():\n  k = m.nextIteration()\n  tell( 'start %d' % k )\n" << change( "  " );
  if( hooks & H_END ) s << "def endOfStep():\n  k = m.nextIteration()\n  tell( 'end %d' % k )\n" << change( "  " );
  if( ( hooks & H_MU ) && T::Py::coefficients() && !quiet ) s << "def frictionCoefficient():\n  m.mu()[:] = " << g17( g.u( 0.0, 1.0 ) ) << "\n";
  if( ( hooks & H_COR ) && T::Py::coefficients() && !quiet ) s << "def restitutionCoefficient():\n  m.cor()[:] = " << g17( g.u( 0.0, 1.0 ) ) << "\n";
  const std::string script = s.str();
  c.note( [&]( std::ostream& o ) { o << p.text << "\n" << script << "\noptions"; for( auto& x : p.opts ) o << " " << x; o << ( forces ? " -i" : "" ); } );
  startPython<typename T::Scripting>();
  const auto dir = [&]( const std::string& n ) { ::mkdir( d( n ).c_str(), 0700 ); ::mkdir( d( n + "/out" ).c_str(), 0700 ); T::enter( d( n ) ); spit( d( n + "/s.xml" ), p.text ); spit( d( n + "/script.py" ), script ); return d( n ); };
  // The same through the library
  const std::string L = dir( "lib" );
  std::unique_ptr<typename T::Scripting> ps;
  const auto begin = [&]( typename T::Sim& sim )
  {
    if( ::chdir( L.c_str() ) != 0 ) ::_exit( 3 );
    if( quiet ) return; // a script that only listens changes nothing
    ps.reset( new typename T::Scripting( L, "script" ) );
    T::attached() = ps.get();
    ps->setState( sim.state() );
    T::Py::ready( *ps );
    ps->startOfSimCallback();
    ps->forgetState();
  };
  if( !reference<T>( p, L + "/s.xml", L, begin ) ) throw pbt::Discard{};
  std::vector<std::string> args{ program( T::key() ), "s.xml" };
  args.insert( args.end(), p.opts.begin(), p.opts.end() );
  if( forces ) args.push_back( "-i" );
  args.insert( args.end(), { "-o", "out", "-s", "1" } );
  const std::string A = dir( "A" );
  const Run r = spawn( A, args );
  CHECK( r.exited && r.code == 0, "the scripted program ended with " << ( r.exited ? "code " : "signal " ) << ( r.exited ? r.code : r.signal ) << ": " << r.out.substr( 0, 400 ) );
  const unsigned last = std::max( p.from, p.steps ) + ( forces ? 1u : 0u );
  const auto events = [&]( unsigned from, bool whole )
  {
    std::string o;
    if( whole && ( hooks & H_SIM0 ) ) o += "sim0\n";
    for( unsigned k = from + 1; k <= last; ++k )
    {
      if( hooks & H_START ) o += "start " + std::to_string( k ) + "\n";
      if( hooks & H_END ) o += "end " + std::to_string( k ) + "\n";
    }
    if( hooks & H_SIM1 ) o += "sim1\n";
    return o;
  };
  CHECK( slurp( A + "/events.txt" ) == events( p.from, true ), "hooks ran as " << joined( lines( slurp( A + "/events.txt" ) ) ) << " instead of " << joined( lines( events( p.from, true ) ) ) );
  const auto cfg = frames( c, A + "/out", "config", "h5" ), frc = frames( c, A + "/out", "forces", "h5" ), ser = frames( c, A + "/out", "serial", "bin" );
  const unsigned first = ( p.from + p.sps - 1 ) / p.sps * p.sps; // frames are counted from the first one written
  for( unsigned it = first; it <= last; it += p.sps )
  {
    const long k = long( ( it - first ) / p.sps );
    CHECK( cfg.count( k ) && ser.count( k ), "no output for frame " << k );
    fakeh5::Tree a, b;
    CHECK( fakeh5::load( A + "/out/" + cfg.at( k ), a ), "a configuration cannot be read" );
    if( !fakeh5::load( L + "/config_" + std::to_string( it ) + ".h5", b ) ) throw std::runtime_error( "reference configuration missing" );
    std::string why;
    CHECK( sameTree( a, b, why ), cfg.at( k ) << " differs from the library's, with the same script: " << why );
    if( !forces || it >= last ) continue;
    CHECK( frc.count( k ), "no forces for frame " << k );
    fakeh5::Tree fa, fb;
    CHECK( fakeh5::load( A + "/out/" + frc.at( k ), fa ), "forces cannot be read" );
    if( !fakeh5::load( L + "/forces_" + std::to_string( it ) + ".h5", fb ) ) throw std::runtime_error( "reference forces missing" );
    CHECK( sameTree( fa, fb, why ), frc.at( k ) << " differs from the library's, with the same script: " << why );
  }
  // Interrupted, and resumed from one of the snapshots
  std::vector<long> ks;
  for( auto& x : ser ) if( first + unsigned( x.first ) * p.sps <= std::max( p.from, p.steps ) ) ks.push_back( x.first );
  if( !ks.empty() && g.b( 0.7 ) )
  {
    const long k = g.pick( ks );
    const std::string B = dir( "B" );
    spit( B + "/cut.bin", slurp( A + "/out/" + ser.at( k ) ) );
    const Run rr = spawn( B, { args[0], "-r", "cut.bin" } );
    CHECK( rr.exited && rr.code == 0, "resuming the scripted run ended with " << ( rr.exited ? "code " : "signal " ) << ( rr.exited ? rr.code : rr.signal ) << ": " << rr.out.substr( 0, 300 ) );
    const std::string w = events( first + unsigned( k ) * p.sps, false ), got = slurp( B + "/events.txt" );
    CHECK( got == w, "resumed from step " << first + unsigned( k ) * p.sps << ", hooks ran as " << joined( lines( got ) ) << " instead of " << joined( lines( w ) ) );
    for( const std::string& f : listing( A + "/out" ) )
    {
      const long n = std::max( { frameOf( f, "config", "h5" ), frameOf( f, "serial", "bin" ), frameOf( f, "forces", "h5" ) } );
      if( n < k ) continue;
      CHECK( exists( B + "/out/" + f ), "the resumed run did not write " << f );
      CHECK( slurp( A + "/out/" + f ) == slurp( B + "/out/" + f ), f << " of the resumed run differs from the uninterrupted one's" );
    }
    c.label( "resumed" );
  }
  c.label( quiet ? "listens" : "steers" );
  c.nontrivial( hooks && last >= p.from + 2 );
}

#define SCRIPT_CHECKS( T, P ) \
  static pbt::Reg script_reg_1( "C35", P "_script_steps", "a script that changes something, or contacts", 400, 12000, sf::checkScriptSteps<T> ); \
  static pbt::Reg script_reg_2( "C35", P "_script_bad_call", "a script that must be refused", 400, 8000, sf::checkBadScript<T> ); \
  static pbt::Reg script_reg_3( "C35", P "_program_script", "hooks and at least two steps", 60, 1500, sf::checkProgramScript<T> );
}
#endif
#endif
