// The small part of Qt 4 the drawing widgets use, recording what is painted and saved
#ifndef VERIF_QTSHIM_H
#define VERIF_QTSHIM_H
#include <GL/gl.h>
#include <cstdio>
#include <string>
#include <utility>

#define Q_OBJECT
#define slots
#define signals public
struct QLatin1Char { char c; explicit QLatin1Char( char x ) : c( x ) {} };
struct QString
{
  std::string s;
  QString() {}
  QString( const char* c ) : s( c ) {}
  QString( const std::string& c ) : s( c ) {}
  std::string toStdString() const { return s; }
  int size() const { return int( s.size() ); }
  int length() const { return size(); }
  bool isEmpty() const { return s.empty(); }
  QString& operator+=( const QString& o ) { s += o.s; return *this; }
  static QString number( double v, char f = 'g', int prec = 6 ) { const char fmt[] = { '%', '.', '*', f, 0 }; char b[512]; std::snprintf( b, sizeof b, fmt, prec, v ); return QString( b ); }
  static QString number( int v ) { return QString( std::to_string( v ) ); }
  static QString number( unsigned v ) { return QString( std::to_string( v ) ); }
  QString arg( unsigned a, int width = 0, int base = 10, QLatin1Char fill = QLatin1Char( ' ' ) ) const
  {
    std::string d;
    do { d.insert( d.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[a % unsigned( base )] ); a /= unsigned( base ); } while( a );
    while( int( d.size() ) < width ) d.insert( d.begin(), fill.c );
    while( int( d.size() ) < -width ) d += fill.c;
    std::string r = s;
    for( char k = '1'; k <= '9'; ++k )
    {
      const std::string m{ '%', k };
      if( r.find( m ) == std::string::npos ) continue;
      for( size_t p = 0; ( p = r.find( m, p ) ) != std::string::npos; p += d.size() ) r.replace( p, 2, d );
      break;
    }
    return QString( r );
  }
};
inline QString operator+( const QString& a, const QString& b ) { return QString( a.s + b.s ); }
struct QSize { int w, h; QSize( int a = -1, int b = -1 ) : w( a ), h( b ) {} int width() const { return w; } int height() const { return h; } };
struct QPoint { int px, py; QPoint( int a = 0, int b = 0 ) : px( a ), py( b ) {} int x() const { return px; } int y() const { return py; } };
struct QRect { int w, h; int width() const { return w; } int height() const { return h; } };
struct QColor { int r, g, b, a; QColor( int x = 0, int y = 0, int z = 0, int w = 255 ) : r( x ), g( y ), b( z ), a( w ) {} double redF() const { return r / 255.0; } double greenF() const { return g / 255.0; } double blueF() const { return b / 255.0; } };
struct QFont { int size; QFont( const char*, int s ) : size( s ) {} int pointSize() const { return size; } };
struct QFontMetrics { explicit QFontMetrics( const QFont& ) {} QRect boundingRect( const QString& s ) const { return QRect{ 8 * s.size(), 12 }; } };
struct QDir
{
  QString p{ "." };
  QDir() {}
  QDir( const QString& s ) : p( s ) {}
  void setPath( const QString& s ) { p = s; }
  bool exists() const { return true; }
  QString filePath( const QString& f ) const { return p.s.empty() ? f : QString( p.s + ( p.s.back() == '/' ? "" : "/" ) + f.s ); }
};
namespace Qt { enum MouseButton { NoButton = 0, LeftButton = 1, RightButton = 2, MidButton = 4, MiddleButton = 4 }; enum KeyboardModifier { NoModifier = 0 }; }
struct QMouseEvent { int bx, by; unsigned b; QMouseEvent( int x, int y, unsigned k ) : bx( x ), by( y ), b( k ) {} int x() const { return bx; } int y() const { return by; } QPoint pos() const { return QPoint( bx, by ); } unsigned buttons() const { return b; } };
struct QWheelEvent { int d; explicit QWheelEvent( int x ) : d( x ) {} int delta() const { return d; } };
namespace QGL { enum FormatOption { SampleBuffers = 1 }; }
struct QGLFormat { QGLFormat( QGL::FormatOption ) {} };

namespace fakeqt
{
// Everything observable from outside, in order
struct Record { int paints = 0; fakegl::Frame shown; std::vector<std::pair<std::string, fakegl::Frame>> saved; };
inline Record& rec() { static Record r; return r; }
}
struct QImage { fakegl::Frame f; bool save( const QString& n ) const { fakeqt::rec().saved.emplace_back( n.s, f ); return true; } };
struct QObject { static QString tr( const char* s ) { return QString( s ); } virtual ~QObject() {} };
struct QWidget : QObject { explicit QWidget( QWidget* = nullptr ) {} };
struct QGLWidget : QWidget
{
  QGLWidget( const QGLFormat&, QWidget* = nullptr ) {}
  virtual ~QGLWidget() {}
  virtual void updateGL()
  {
    auto& s = fakegl::gl();
    paintGL();
    s.frame.viewport = s.viewport;
    s.frame.projection = s.pr.back();
    s.frame.modelview = s.mv.back();
    ++fakeqt::rec().paints;
    fakeqt::rec().shown = s.frame;
  }
  QImage grabFrameBuffer() const { return QImage{ fakeqt::rec().shown }; }
  bool autoBufferSwap() const { return true; }
  void qglColor( const QColor& c ) const { glColor4d( c.r / 255.0, c.g / 255.0, c.b / 255.0, c.a / 255.0 ); }
  void qglClearColor( const QColor& c ) const { fakegl::gl().clear = { { c.r / 255.0, c.g / 255.0, c.b / 255.0, c.a / 255.0 } }; }
  void renderText( int x, int y, const QString& s, const QFont& ) { fakegl::gl().frame.texts.push_back( { x, y, s.s, fakegl::gl().color } ); }
protected:
  virtual void initializeGL() {}
  virtual void resizeGL( int, int ) {}
  virtual void paintGL() {}
  virtual void mousePressEvent( QMouseEvent* ) {}
  virtual void mouseReleaseEvent( QMouseEvent* ) {}
  virtual void mouseMoveEvent( QMouseEvent* ) {}
  virtual void wheelEvent( QWheelEvent* ) {}
};
#endif
