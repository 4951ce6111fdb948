// Recorder with the semantics of the OpenGL 1 calls the interactive programs make: matrix stacks, attribute stack,
// current colour, immediate mode and vertex arrays. Every primitive is kept with its vertices in world coordinates.
#ifndef VERIF_GL_H
#define VERIF_GL_H
#include <array>
#include <cmath>
#include <cstddef>
#include <string>
#include <vector>

typedef unsigned GLenum; typedef unsigned GLbitfield; typedef unsigned GLuint; typedef int GLint; typedef int GLsizei;
typedef double GLdouble; typedef float GLfloat; typedef double GLclampd; typedef float GLclampf; typedef unsigned char GLboolean;
typedef unsigned short GLushort; typedef void GLvoid; typedef unsigned char GLubyte;

#define GL_NO_ERROR 0
#define GL_INVALID_ENUM 0x0500
#define GL_INVALID_VALUE 0x0501
#define GL_INVALID_OPERATION 0x0502
#define GL_STACK_OVERFLOW 0x0503
#define GL_STACK_UNDERFLOW 0x0504
#define GL_OUT_OF_MEMORY 0x0505
#define GL_INVALID_FRAMEBUFFER_OPERATION 0x0506
#define GL_POINTS 0
#define GL_LINES 1
#define GL_LINE_LOOP 2
#define GL_LINE_STRIP 3
#define GL_TRIANGLES 4
#define GL_TRIANGLE_STRIP 5
#define GL_TRIANGLE_FAN 6
#define GL_QUADS 7
#define GL_QUAD_STRIP 8
#define GL_POLYGON 9
#define GL_COLOR_BUFFER_BIT 0x4000
#define GL_DEPTH_BUFFER_BIT 0x100
#define GL_FRONT_AND_BACK 0x0408
#define GL_POINT_SIZE 0x0B11
#define GL_LINE_WIDTH 0x0B21
#define GL_LINE_STIPPLE 0x0B24
#define GL_LINE_STIPPLE_PATTERN 0x0B25
#define GL_LIGHTING 0x0B50
#define GL_LIGHT_MODEL_AMBIENT 0x0B53
#define GL_DEPTH_TEST 0x0B71
#define GL_MATRIX_MODE 0x0BA0
#define GL_NORMALIZE 0x0BA1
#define GL_VIEWPORT 0x0BA2
#define GL_BLEND 0x0BE2
#define GL_AMBIENT 0x1200
#define GL_DIFFUSE 0x1201
#define GL_SPECULAR 0x1202
#define GL_POSITION 0x1203
#define GL_FLOAT 0x1406
#define GL_DOUBLE 0x140A
#define GL_MODELVIEW 0x1700
#define GL_PROJECTION 0x1701
#define GL_COLOR 0x1800
#define GL_SMOOTH 0x1D01
#define GL_SRC_ALPHA 0x0302
#define GL_ONE_MINUS_SRC_ALPHA 0x0303
#define GL_LIGHT0 0x4000
#define GL_VERTEX_ARRAY 0x8074
#define GL_NORMAL_ARRAY 0x8075

namespace fakegl
{
using M4 = std::array<double, 16>; // column major
using V4 = std::array<double, 4>;
inline M4 identity() { M4 m{}; for( int i = 0; i < 4; ++i ) m[5 * i] = 1.0; return m; }
inline M4 mul( const M4& a, const M4& b ) { M4 r{}; for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j ) for( int k = 0; k < 4; ++k ) r[4 * j + i] += a[4 * k + i] * b[4 * j + k]; return r; }
inline V4 mul( const M4& a, const V4& x ) { V4 r{}; for( int i = 0; i < 4; ++i ) for( int k = 0; k < 4; ++k ) r[i] += a[4 * k + i] * x[k]; return r; }
struct Prim { GLenum mode; V4 color; bool stipple; std::vector<V4> world; M4 projection; };
struct Text { int x, y; std::string s; V4 color; };
struct Frame { std::vector<Prim> prims; std::vector<Text> texts; M4 projection, modelview; std::array<int, 4> viewport; };
struct Attrib { GLbitfield mask; V4 color; GLenum mode; std::array<int, 4> viewport; bool stipple; };
struct State
{
  std::vector<M4> mv{ identity() }, pr{ identity() };
  GLenum mode = GL_MODELVIEW;
  std::array<int, 4> viewport{ { 0, 0, 100, 100 } };
  V4 color{ { 1, 1, 1, 1 } }, clear{ { 0, 0, 0, 0 } };
  bool stipple = false, open = false;
  std::vector<Attrib> attribs;
  Prim cur;
  Frame frame;             // being drawn
  std::vector<std::string> errors;
  const void* va = nullptr; int va_size = 0, va_stride = 0; GLenum va_type = 0; bool va_on = false;
  std::vector<M4>& stack() { return mode == GL_PROJECTION ? pr : mv; }
  M4& top() { return stack().back(); }
  void apply( const M4& m ) { top() = mul( top(), m ); }
  void err( const char* e ) { if( errors.size() < 8 ) errors.push_back( e ); }
};
inline State& gl() { static State s; return s; }
inline void vertex( double x, double y, double z, double w )
{
  State& s = gl();
  if( !s.open ) { s.err( "vertex outside glBegin" ); return; }
  s.cur.world.push_back( mul( s.mv.back(), V4{ { x, y, z, w } } ) );
}
}
inline void glBegin( GLenum m ) { auto& s = fakegl::gl(); if( s.open ) s.err( "nested glBegin" ); s.open = true; s.cur = { m, s.color, s.stipple, {}, s.pr.back() }; }
inline void glEnd() { auto& s = fakegl::gl(); if( !s.open ) s.err( "glEnd without glBegin" ); s.open = false; s.frame.prims.push_back( s.cur ); }
inline void glVertex2d( double x, double y ) { fakegl::vertex( x, y, 0, 1 ); }
inline void glVertex3d( double x, double y, double z ) { fakegl::vertex( x, y, z, 1 ); }
inline void glVertex3f( float x, float y, float z ) { fakegl::vertex( x, y, z, 1 ); }
inline void glVertex4d( double x, double y, double z, double w ) { fakegl::vertex( x, y, z, w ); }
inline void glVertex4f( float x, float y, float z, float w ) { fakegl::vertex( x, y, z, w ); }
inline void glNormal3d( double, double, double ) {}
inline void glNormal3f( float, float, float ) {}
inline void glColor4d( double r, double g, double b, double a ) { auto& s = fakegl::gl(); s.color = { { r, g, b, a } }; if( s.open ) s.cur.color = s.color; }
inline void glColor3d( double r, double g, double b ) { glColor4d( r, g, b, 1.0 ); }
inline void glMatrixMode( GLenum m ) { fakegl::gl().mode = m; }
inline void glLoadIdentity() { fakegl::gl().top() = fakegl::identity(); }
inline void glPushMatrix() { auto& s = fakegl::gl().stack(); if( s.size() > 30 ) fakegl::gl().err( "matrix stack overflow" ); s.push_back( s.back() ); }
inline void glPopMatrix() { auto& s = fakegl::gl().stack(); if( s.size() < 2 ) fakegl::gl().err( "matrix stack underflow" ); else s.pop_back(); }
inline void glMultMatrixd( const GLdouble* m ) { fakegl::M4 a; for( int i = 0; i < 16; ++i ) a[size_t( i )] = m[i]; fakegl::gl().apply( a ); }
inline void glTranslated( double x, double y, double z ) { auto m = fakegl::identity(); m[12] = x; m[13] = y; m[14] = z; fakegl::gl().apply( m ); }
inline void glTranslatef( float x, float y, float z ) { glTranslated( x, y, z ); }
inline void glScaled( double x, double y, double z ) { auto m = fakegl::identity(); m[0] = x; m[5] = y; m[10] = z; fakegl::gl().apply( m ); }
inline void glScalef( float x, float y, float z ) { glScaled( x, y, z ); }
inline void glRotated( double deg, double x, double y, double z )
{
  const double n = std::sqrt( x * x + y * y + z * z ), a = deg * 3.14159265358979323846 / 180.0, c = std::cos( a ), s = std::sin( a );
  x /= n; y /= n; z /= n;
  fakegl::M4 m = fakegl::identity();
  m[0] = x * x * ( 1 - c ) + c; m[4] = x * y * ( 1 - c ) - z * s; m[8] = x * z * ( 1 - c ) + y * s;
  m[1] = y * x * ( 1 - c ) + z * s; m[5] = y * y * ( 1 - c ) + c; m[9] = y * z * ( 1 - c ) - x * s;
  m[2] = x * z * ( 1 - c ) - y * s; m[6] = y * z * ( 1 - c ) + x * s; m[10] = z * z * ( 1 - c ) + c;
  fakegl::gl().apply( m );
}
inline void glRotatef( float a, float x, float y, float z ) { glRotated( a, x, y, z ); }
inline void glOrtho( double l, double r, double b, double t, double n, double f )
{
  auto m = fakegl::identity();
  m[0] = 2 / ( r - l ); m[5] = 2 / ( t - b ); m[10] = -2 / ( f - n ); m[12] = -( r + l ) / ( r - l ); m[13] = -( t + b ) / ( t - b ); m[14] = -( f + n ) / ( f - n );
  fakegl::gl().apply( m );
}
inline void glFrustum( double l, double r, double b, double t, double n, double f )
{
  fakegl::M4 m{};
  m[0] = 2 * n / ( r - l ); m[5] = 2 * n / ( t - b ); m[8] = ( r + l ) / ( r - l ); m[9] = ( t + b ) / ( t - b ); m[10] = -( f + n ) / ( f - n ); m[11] = -1; m[14] = -2 * f * n / ( f - n );
  fakegl::gl().apply( m );
}
inline void glViewport( int x, int y, int w, int h ) { fakegl::gl().viewport = { { x, y, w, h } }; }
inline void glGetIntegerv( GLenum w, GLint* o ) { auto& s = fakegl::gl(); if( w == GL_VIEWPORT ) for( int i = 0; i < 4; ++i ) o[i] = s.viewport[size_t( i )]; else if( w == GL_MATRIX_MODE ) o[0] = GLint( s.mode ); else s.err( "unknown query" ); }
inline GLenum glGetError() { return GL_NO_ERROR; }
inline void glPushAttrib( GLbitfield m ) { auto& s = fakegl::gl(); s.attribs.push_back( { m, s.color, s.mode, s.viewport, s.stipple } ); if( s.attribs.size() > 16 ) s.err( "attribute stack overflow" ); }
inline void glPopAttrib()
{
  auto& s = fakegl::gl();
  if( s.attribs.empty() ) { s.err( "attribute stack underflow" ); return; }
  const auto a = s.attribs.back(); s.attribs.pop_back();
  if( a.mask & 0x1 ) s.color = a.color;
  if( a.mask & 0x800 ) s.viewport = a.viewport;
  if( a.mask & 0x1000 ) s.mode = a.mode;
  if( a.mask & 0x2004 ) s.stipple = a.stipple;
}
inline void glEnable( GLenum w ) { if( w == GL_LINE_STIPPLE ) fakegl::gl().stipple = true; }
inline void glDisable( GLenum w ) { if( w == GL_LINE_STIPPLE ) fakegl::gl().stipple = false; }
inline void glBlendFunc( GLenum, GLenum ) {}
inline void glClear( GLbitfield ) { auto& s = fakegl::gl(); s.frame.prims.clear(); s.frame.texts.clear(); }
inline void glLineStipple( GLint, GLushort ) {}
inline void glLineWidth( GLfloat ) {}
inline void glPointSize( GLfloat ) {}
inline void glLightModelfv( GLenum, const GLfloat* ) {}
inline void glLightfv( GLenum, GLenum, const GLfloat* ) {}
inline void glMaterialfv( GLenum, GLenum, const GLfloat* c ) { glColor4d( double( c[0] ), double( c[1] ), double( c[2] ), double( c[3] ) ); }
inline void glShadeModel( GLenum ) {}
inline void glEnableClientState( GLenum w ) { if( w == GL_VERTEX_ARRAY ) fakegl::gl().va_on = true; }
inline void glDisableClientState( GLenum w ) { if( w == GL_VERTEX_ARRAY ) fakegl::gl().va_on = false; }
inline void glVertexPointer( GLint size, GLenum type, GLsizei stride, const GLvoid* p ) { auto& s = fakegl::gl(); s.va = p; s.va_size = size; s.va_type = type; s.va_stride = stride; }
inline void glNormalPointer( GLenum, GLsizei, const GLvoid* ) {}
inline void glDrawArrays( GLenum mode, GLint first, GLsizei count )
{
  auto& s = fakegl::gl();
  if( !s.va_on || !s.va ) { s.err( "no vertex array" ); return; }
  glBegin( mode );
  for( int i = first; i < first + count; ++i )
  {
    double v[4] = { 0, 0, 0, 1 };
    for( int k = 0; k < s.va_size; ++k )
    {
      const size_t sz = s.va_type == GL_FLOAT ? sizeof( float ) : sizeof( double );
      const char* b = static_cast<const char*>( s.va ) + size_t( i ) * ( s.va_stride ? size_t( s.va_stride ) : sz * size_t( s.va_size ) ) + size_t( k ) * sz;
      v[k] = s.va_type == GL_FLOAT ? double( *reinterpret_cast<const float*>( b ) ) : *reinterpret_cast<const double*>( b );
    }
    fakegl::vertex( v[0], v[1], v[2], v[3] );
  }
  glEnd();
}
#endif
