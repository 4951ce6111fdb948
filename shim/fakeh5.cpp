#include "hdf5.h"
#include "fakeh5.h"
#include <cstring>
#include <cstdio>
#include <fstream>
#include <memory>
#include <sstream>

namespace fakeh5
{

bool Type::equal( const Type& o ) const
{
  if( cls != o.cls || native != o.native || size != o.size || dims != o.dims || members.size() != o.members.size() || sub.size() != o.sub.size() ) return false;
  for( size_t i = 0; i < members.size(); ++i ) if( members[i].name != o.members[i].name || members[i].offset != o.members[i].offset ) return false;
  for( size_t i = 0; i < sub.size(); ++i ) if( !sub[i].equal( o.sub[i] ) ) return false;
  return true;
}

struct Space { std::vector<hsize_t> dims, start, count; bool sel = false; };
struct File { std::string name; bool rw; Tree t; };
struct Obj
{
  enum K { FILE, GROUP, SPACE, TYPE, DSET } k;
  std::shared_ptr<File> f;
  std::string path;
  Space s;
  Type t;
};

static std::map<hid_t, Obj>& objs() { static std::map<hid_t, Obj> o; return o; }
static hid_t add( const Obj& o ) { static hid_t next = 1000; objs()[++next] = o; return next; }
static Obj* get( hid_t id, Obj::K k ) { auto it = objs().find( id ); return it == objs().end() || it->second.k != k ? nullptr : &it->second; }

static bool typeOf( hid_t id, Type& t )
{
  t = Type{};
  switch( id )
  {
    case H5T_NATIVE_DOUBLE: t.size = 8; break;
    case H5T_NATIVE_FLOAT: t.size = 4; break;
    case H5T_NATIVE_INT: t.size = 4; break;
    case H5T_NATIVE_UINT: t.size = 4; break;
    case H5T_NATIVE_LONG: t.size = 8; break;
    case H5T_C_S1: case H5T_FORTRAN_S1: t.cls = 3; t.size = 1; return true;
    default:
    {
      Obj* o = get( id, Obj::TYPE );
      if( !o ) return false;
      t = o->t;
      return true;
    }
  }
  t.native = int( id );
  return true;
}

static void putU( std::ostream& o, uint64_t v ) { o.write( reinterpret_cast<const char*>( &v ), 8 ); }
static uint64_t getU( std::istream& i ) { uint64_t v = 0; i.read( reinterpret_cast<char*>( &v ), 8 ); return v; }
static void putS( std::ostream& o, const std::string& s ) { putU( o, s.size() ); o.write( s.data(), long( s.size() ) ); }
static std::string getS( std::istream& i ) { std::string s( size_t( getU( i ) ), ' ' ); i.read( &s[0], long( s.size() ) ); return s; }
static void putT( std::ostream& o, const Type& t )
{
  putU( o, uint64_t( t.cls ) ); putU( o, uint64_t( t.native ) ); putU( o, t.size );
  putU( o, t.members.size() );
  for( const auto& m : t.members ) { putS( o, m.name ); putU( o, m.offset ); putU( o, m.type ); }
  putU( o, t.sub.size() );
  for( const auto& s : t.sub ) putT( o, s );
  putU( o, t.dims.size() );
  for( auto d : t.dims ) putU( o, d );
}
static Type getT( std::istream& i )
{
  Type t;
  t.cls = int( getU( i ) ); t.native = int( getU( i ) ); t.size = size_t( getU( i ) );
  t.members.resize( size_t( getU( i ) ) );
  for( auto& m : t.members ) { m.name = getS( i ); m.offset = size_t( getU( i ) ); m.type = size_t( getU( i ) ); }
  const size_t n = size_t( getU( i ) );
  for( size_t k = 0; k < n; ++k ) t.sub.push_back( getT( i ) );
  t.dims.resize( size_t( getU( i ) ) );
  for( auto& d : t.dims ) d = getU( i );
  return t;
}

static void save( const File& f )
{
  std::ofstream o( f.name, std::ios::binary | std::ios::trunc );
  o << "FAKEH5\n";
  putU( o, f.t.groups.size() );
  for( const auto& g : f.t.groups ) putS( o, g.first );
  putU( o, f.t.sets.size() );
  for( const auto& s : f.t.sets )
  {
    putS( o, s.first );
    putT( o, s.second.type );
    putU( o, s.second.dims.size() );
    for( auto d : s.second.dims ) putU( o, d );
    putU( o, s.second.data.size() );
    o.write( s.second.data.data(), long( s.second.data.size() ) );
    putU( o, s.second.written.size() );
    o.write( s.second.written.data(), long( s.second.written.size() ) );
    putU( o, s.second.strs.size() );
    for( const auto& x : s.second.strs ) putS( o, x );
  }
}

bool load( const std::string& file, Tree& t )
{
  std::ifstream i( file, std::ios::binary );
  std::string magic;
  if( !i || !std::getline( i, magic ) || magic != "FAKEH5" ) return false;
  size_t n = size_t( getU( i ) );
  for( size_t k = 0; k < n; ++k ) t.groups[ getS( i ) ] = 1;
  n = size_t( getU( i ) );
  for( size_t k = 0; k < n; ++k )
  {
    const std::string name = getS( i );
    Dataset d;
    d.type = getT( i );
    d.dims.resize( size_t( getU( i ) ) );
    for( auto& x : d.dims ) x = getU( i );
    d.data.resize( size_t( getU( i ) ) );
    i.read( d.data.data(), long( d.data.size() ) );
    d.written.resize( size_t( getU( i ) ) );
    i.read( d.written.data(), long( d.written.size() ) );
    d.strs.resize( size_t( getU( i ) ) );
    for( auto& x : d.strs ) x = getS( i );
    t.sets[name] = d;
  }
  return bool( i );
}

static void decode( const Type& t, const char* p, std::vector<double>& out )
{
  if( t.cls == 2 ) { size_t n = 1; for( auto d : t.dims ) n *= size_t( d ); for( size_t k = 0; k < n; ++k ) decode( t.sub[0], p + k * t.sub[0].size, out ); return; }
  switch( t.native )
  {
    case int( H5T_NATIVE_DOUBLE ): { double v; std::memcpy( &v, p, 8 ); out.push_back( v ); break; }
    case int( H5T_NATIVE_FLOAT ): { float v; std::memcpy( &v, p, 4 ); out.push_back( double( v ) ); break; }
    case int( H5T_NATIVE_INT ): { int v; std::memcpy( &v, p, 4 ); out.push_back( v ); break; }
    case int( H5T_NATIVE_UINT ): { unsigned v; std::memcpy( &v, p, 4 ); out.push_back( v ); break; }
    case int( H5T_NATIVE_LONG ): { long v; std::memcpy( &v, p, 8 ); out.push_back( double( v ) ); break; }
    default: break;
  }
}
std::vector<double> member( const Dataset& d, size_t elem, const std::string& name )
{
  std::vector<double> out;
  for( const auto& m : d.type.members ) if( m.name == name ) decode( d.type.sub[m.type], d.data.data() + elem * d.type.size + m.offset, out );
  return out;
}
std::vector<double> values( const Dataset& d )
{
  std::vector<double> out;
  for( size_t k = 0; k < d.count(); ++k ) decode( d.type, d.data.data() + k * d.type.size, out );
  return out;
}

// Location path + name -> absolute path without trailing slash ("" = root)
static bool resolve( hid_t loc, const char* name, std::shared_ptr<File>& f, std::string& path )
{
  std::string base;
  if( Obj* o = get( loc, Obj::FILE ) ) { f = o->f; }
  else if( Obj* o2 = get( loc, Obj::GROUP ) ) { f = o2->f; base = o2->path; }
  else return false;
  std::string n = name;
  if( !n.empty() && n[0] == '/' ) base = "";
  std::stringstream ss( n );
  std::string tok;
  path = base;
  while( std::getline( ss, tok, '/' ) ) { if( tok.empty() || tok == "." ) continue; path += "/" + tok; }
  return true;
}
static bool groupExists( const File& f, const std::string& p ) { return p.empty() || f.t.groups.count( p ); }
static std::string parentOf( const std::string& p ) { const size_t k = p.find_last_of( '/' ); return k == std::string::npos ? "" : p.substr( 0, k ); }

// Linear indices selected in a space, row major; false if out of extent
static bool selected( const Space& s, std::vector<size_t>& idx )
{
  size_t n = 1;
  for( auto d : s.dims ) n *= size_t( d );
  if( !s.sel ) { for( size_t k = 0; k < n; ++k ) idx.push_back( k ); return true; }
  const size_t r = s.dims.size();
  for( size_t k = 0; k < r; ++k ) if( s.start[k] + s.count[k] > s.dims[k] ) return false;
  size_t m = 1;
  for( auto c : s.count ) m *= size_t( c );
  for( size_t q = 0; q < m; ++q )
  {
    size_t rem = q, lin = 0;
    std::vector<size_t> co( r );
    for( size_t k = r; k-- > 0; ) { co[k] = rem % size_t( s.count[k] ); rem /= size_t( s.count[k] ); }
    for( size_t k = 0; k < r; ++k ) lin = lin * size_t( s.dims[k] ) + size_t( s.start[k] ) + co[k];
    idx.push_back( lin );
  }
  return true;
}

}

using namespace fakeh5;

hid_t H5Fcreate( const char* name, unsigned, hid_t, hid_t )
{
  FILE* fp = fopen( name, "wb" );
  if( !fp ) return -1;
  fclose( fp );
  Obj o; o.k = Obj::FILE; o.f = std::make_shared<File>(); o.f->name = name; o.f->rw = true;
  return add( o );
}
hid_t H5Fopen( const char* name, unsigned, hid_t )
{
  Obj o; o.k = Obj::FILE; o.f = std::make_shared<File>(); o.f->name = name; o.f->rw = false;
  if( !load( name, o.f->t ) ) return -1;
  return add( o );
}
herr_t H5Fclose( hid_t id )
{
  Obj* o = get( id, Obj::FILE );
  if( !o ) return -1;
  if( o->f->rw ) save( *o->f );
  objs().erase( id );
  return 0;
}
hid_t H5Gopen2( hid_t loc, const char* name, hid_t )
{
  Obj o; o.k = Obj::GROUP;
  if( !resolve( loc, name, o.f, o.path ) || !groupExists( *o.f, o.path ) ) return -1;
  return add( o );
}
hid_t H5Gcreate2( hid_t loc, const char* name, hid_t, hid_t, hid_t )
{
  Obj o; o.k = Obj::GROUP;
  if( !resolve( loc, name, o.f, o.path ) || !o.f->rw ) return -1;
  if( o.path.empty() || o.f->t.groups.count( o.path ) || o.f->t.sets.count( o.path ) || !groupExists( *o.f, parentOf( o.path ) ) ) return -1;
  o.f->t.groups[o.path] = 1;
  return add( o );
}
static herr_t closeObj( hid_t id, Obj::K k ) { if( !get( id, k ) ) return -1; objs().erase( id ); return 0; }
herr_t H5Gclose( hid_t id ) { return closeObj( id, Obj::GROUP ); }
htri_t H5Lexists( hid_t loc, const char* name, hid_t )
{
  std::shared_ptr<File> f; std::string p;
  if( !resolve( loc, name, f, p ) ) return -1;
  if( !groupExists( *f, parentOf( p ) ) ) return -1;
  return f->t.groups.count( p ) || f->t.sets.count( p ) ? 1 : 0;
}
hid_t H5Screate_simple( int rank, const hsize_t* dims, const hsize_t* )
{
  Obj o; o.k = Obj::SPACE; o.s.dims.assign( dims, dims + rank );
  return add( o );
}
herr_t H5Sclose( hid_t id ) { return closeObj( id, Obj::SPACE ); }
int H5Sget_simple_extent_ndims( hid_t id ) { Obj* o = get( id, Obj::SPACE ); return o ? int( o->s.dims.size() ) : -1; }
int H5Sget_simple_extent_dims( hid_t id, hsize_t* dims, hsize_t* maxdims )
{
  Obj* o = get( id, Obj::SPACE );
  if( !o ) return -1;
  for( size_t k = 0; k < o->s.dims.size(); ++k ) { if( dims ) dims[k] = o->s.dims[k]; if( maxdims ) maxdims[k] = o->s.dims[k]; }
  return int( o->s.dims.size() );
}
herr_t H5Sselect_hyperslab( hid_t id, H5S_seloper_t, const hsize_t* start, const hsize_t* stride, const hsize_t* count, const hsize_t* block )
{
  Obj* o = get( id, Obj::SPACE );
  if( !o || stride || block ) return -1;
  const size_t r = o->s.dims.size();
  o->s.start.assign( start, start + r );
  o->s.count.assign( count, count + r );
  o->s.sel = true;
  return 0;
}
hid_t H5Tcopy( hid_t id ) { Obj o; o.k = Obj::TYPE; if( !typeOf( id, o.t ) ) return -1; return add( o ); }
hid_t H5Tcreate( H5T_class_t, size_t size ) { Obj o; o.k = Obj::TYPE; o.t.cls = 1; o.t.size = size; return add( o ); }
hid_t H5Tarray_create2( hid_t base, unsigned rank, const hsize_t* dims )
{
  Obj o; o.k = Obj::TYPE; Type b;
  if( !typeOf( base, b ) ) return -1;
  o.t.cls = 2; o.t.sub.push_back( b ); o.t.dims.assign( dims, dims + rank );
  o.t.size = b.size;
  for( unsigned k = 0; k < rank; ++k ) o.t.size *= size_t( dims[k] );
  return add( o );
}
static size_t inMemory( const Type& t ) { return t.cls == 3 && t.size == H5T_VARIABLE ? sizeof( char* ) : t.size; }
herr_t H5Tinsert( hid_t parent, const char* name, size_t offset, hid_t mem )
{
  Obj* o = get( parent, Obj::TYPE ); Type m;
  if( !o || o->t.cls != 1 || !typeOf( mem, m ) || offset + inMemory( m ) > o->t.size ) return -1;
  for( size_t i = 0; i < o->t.members.size(); ++i )
  {
    const auto& q = o->t.members[i];
    if( q.name == name ) return -1;
    if( offset < q.offset + inMemory( o->t.sub[q.type] ) && q.offset < offset + inMemory( m ) ) return -1;
  }
  o->t.members.push_back( { name, offset, o->t.sub.size() } );
  o->t.sub.push_back( m );
  return 0;
}
herr_t H5Tset_size( hid_t id, size_t size )
{
  Obj* o = get( id, Obj::TYPE );
  if( !o || o->t.cls != 3 ) return -1;
  o->t.size = size;
  return 0;
}
htri_t H5Tequal( hid_t a, hid_t b ) { Type x, y; if( !typeOf( a, x ) || !typeOf( b, y ) ) return -1; return x.equal( y ) ? 1 : 0; }
herr_t H5Tclose( hid_t id ) { return closeObj( id, Obj::TYPE ); }
hid_t H5Dcreate2( hid_t loc, const char* name, hid_t type, hid_t space, hid_t, hid_t, hid_t )
{
  Obj o; o.k = Obj::DSET; Dataset d;
  Obj* s = get( space, Obj::SPACE );
  if( !s || !typeOf( type, d.type ) || !resolve( loc, name, o.f, o.path ) || !o.f->rw ) return -1;
  if( o.f->t.sets.count( o.path ) || o.f->t.groups.count( o.path ) || !groupExists( *o.f, parentOf( o.path ) ) ) return -1;
  d.dims = std::vector<unsigned long long>( s->s.dims.begin(), s->s.dims.end() );
  if( d.type.cls == 3 ) d.strs.resize( d.count() );
  else d.data.assign( d.count() * d.type.size, 0 );
  if( d.type.cls == 1 ) for( const auto& m : d.type.members ) if( d.type.sub[m.type].cls == 3 ) d.strs.resize( d.count() );
  d.written.assign( d.count(), 0 );
  o.f->t.sets[o.path] = d;
  return add( o );
}
hid_t H5Dopen2( hid_t loc, const char* name, hid_t )
{
  Obj o; o.k = Obj::DSET;
  if( !resolve( loc, name, o.f, o.path ) || !o.f->t.sets.count( o.path ) ) return -1;
  return add( o );
}
hid_t H5Dget_type( hid_t id ) { Obj* d = get( id, Obj::DSET ); if( !d ) return -1; Obj o; o.k = Obj::TYPE; o.t = d->f->t.sets[d->path].type; return add( o ); }
hid_t H5Dget_space( hid_t id )
{
  Obj* d = get( id, Obj::DSET );
  if( !d ) return -1;
  Obj o; o.k = Obj::SPACE;
  const Dataset& ds = d->f->t.sets[d->path];
  o.s.dims.assign( ds.dims.begin(), ds.dims.end() );
  return add( o );
}
static bool selections( Dataset& d, hid_t memspace, hid_t filespace, std::vector<size_t>& fi, std::vector<size_t>& mi )
{
  Space fs; fs.dims.assign( d.dims.begin(), d.dims.end() );
  if( filespace != H5S_ALL ) { Obj* s = get( filespace, Obj::SPACE ); if( !s || s->s.dims != fs.dims ) return false; fs = s->s; }
  if( !selected( fs, fi ) ) return false;
  if( memspace == H5S_ALL ) mi = fi;
  else { Obj* s = get( memspace, Obj::SPACE ); if( !s || !selected( s->s, mi ) ) return false; }
  return fi.size() == mi.size();
}
herr_t H5Dwrite( hid_t id, hid_t memtype, hid_t memspace, hid_t filespace, hid_t, const void* buf )
{
  Obj* o = get( id, Obj::DSET ); Type mt;
  if( !o || !o->f->rw || !typeOf( memtype, mt ) ) return -1;
  Dataset& d = o->f->t.sets[o->path];
  std::vector<size_t> fi, mi;
  if( !selections( d, memspace, filespace, fi, mi ) ) return -1;
  if( d.type.cls == 3 )
  {
    if( mt.cls != 3 || mt.size != H5T_VARIABLE || d.type.size != H5T_VARIABLE ) return -1;
    for( size_t k = 0; k < fi.size(); ++k ) { d.strs[fi[k]] = static_cast<const char* const*>( buf )[mi[k]]; d.written[fi[k]] = 1; }
    return 0;
  }
  if( !mt.equal( d.type ) ) return -1;
  for( size_t k = 0; k < fi.size(); ++k )
  {
    std::memcpy( d.data.data() + fi[k] * d.type.size, static_cast<const char*>( buf ) + mi[k] * d.type.size, d.type.size );
    // A string member is stored by value (one per record is enough here)
    if( d.type.cls == 1 ) for( const auto& m : d.type.members ) if( d.type.sub[m.type].cls == 3 )
    {
      if( d.type.sub[m.type].size != H5T_VARIABLE ) return -1;
      const char* p = nullptr;
      std::memcpy( &p, d.data.data() + fi[k] * d.type.size + m.offset, sizeof p );
      std::memset( d.data.data() + fi[k] * d.type.size + m.offset, 0, sizeof p );
      if( p == nullptr ) return -1;
      d.strs[fi[k]] = p;
    }
    d.written[fi[k]] = 1;
  }
  return 0;
}
herr_t H5Dread( hid_t id, hid_t memtype, hid_t memspace, hid_t filespace, hid_t, void* buf )
{
  Obj* o = get( id, Obj::DSET ); Type mt;
  if( !o || !typeOf( memtype, mt ) ) return -1;
  Dataset& d = o->f->t.sets[o->path];
  std::vector<size_t> fi, mi;
  if( !selections( d, memspace, filespace, fi, mi ) || !mt.equal( d.type ) || d.type.cls == 3 ) return -1;
  for( size_t k = 0; k < fi.size(); ++k ) std::memcpy( static_cast<char*>( buf ) + mi[k] * d.type.size, d.data.data() + fi[k] * d.type.size, d.type.size );
  return 0;
}
herr_t H5Dclose( hid_t id ) { return closeObj( id, Obj::DSET ); }
