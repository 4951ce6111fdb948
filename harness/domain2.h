// Periodic boxes bounded by opposing portal pairs, possibly shearing
#ifndef VERIF_DOMAIN2_H
#define VERIF_DOMAIN2_H
#include "sim_common.h"
struct Domain
{
  double Lx = 0, Ly = 0;
  bool px = false, py = false;
  double v = 0.0; // shear velocity of the y pair
  double t = 0.0;
  Vector2s o = Vector2s::Zero();
  double theta = 0.0;
  Vector2s ex() const { return Vector2s( std::cos( theta ), std::sin( theta ) ); }
  Vector2s ey() const { return Vector2s( -std::sin( theta ), std::cos( theta ) ); }
  Vector2s toWorld( const Vector2s& u ) const { return o + u.x() * ex() + u.y() * ey(); }
  Vector2s dirWorld( const Vector2s& u ) const { return u.x() * ex() + u.y() * ey(); }
  Vector2s toLocal( const Vector2s& x ) const { return Vector2s( ex().dot( x - o ), ey().dot( x - o ) ); }
  Vector2s dirLocal( const Vector2s& x ) const { return Vector2s( ex().dot( x ), ey().dot( x ) ); }
  double shift() const { const double b = Lx; double s = std::fmod( v * t, 2.0 * b ); if( s >= b ) s -= 2.0 * b; if( s < -b ) s += 2.0 * b; return s; }
};
template<class Plane, class State> Domain genDomain( pbt::Gen& g, State& st, double rmax )
{
  Domain d;
  d.Lx = g.mix( 2.5, 6.0 ) * rmax + 0.1;
  d.Ly = g.mix( 2.5, 6.0 ) * rmax + 0.1;
  const int kind = g.w( { 3, 2, 3, 3 } ); // x only, y only, both, sheared y (+ x)
  d.px = kind != 1; // shear is only meaningful together with periodicity along it
  d.py = kind != 0;
  if( kind == 3 ) { d.v = g.s( 3.0 ); if( d.v == 0.0 ) d.v = 1.0; d.t = g.u( 0.0, 20.0 ); }
  if( g.b( 0.5 ) ) { d.o = Vector2s( g.s( 5.0 ), g.s( 5.0 ) ); d.theta = g.mix( 0.0, 6.283185307179586, 8 ); }
  const auto X = [&]()
  {
    const Plane A( d.toWorld( Vector2s( -d.Lx, 0 ) ), d.ex() ), B( d.toWorld( Vector2s( d.Lx, 0 ) ), -d.ex() );
    if( g.b() ) st.planarPortals().emplace_back( A, B, 0.0, 0.0 ); else st.planarPortals().emplace_back( B, A, 0.0, 0.0 );
  };
  const auto Y = [&]()
  {
    const Plane A( d.toWorld( Vector2s( 0, -d.Ly ) ), d.ey() ), B( d.toWorld( Vector2s( 0, d.Ly ) ), -d.ey() );
    if( g.b() ) st.planarPortals().emplace_back( A, B, d.v, d.v != 0.0 ? d.Lx : 0.0 ); else st.planarPortals().emplace_back( B, A, d.v, d.v != 0.0 ? d.Lx : 0.0 );
  };
  if( g.b() ) { if( d.px ) X(); if( d.py ) Y(); } else { if( d.py ) Y(); if( d.px ) X(); }
  for( auto& p : st.planarPortals() ) p.updateMovingPortals( d.t );
  return d;
}
// Signed displacement of the periodic images: image (k,m) of local point u
inline Vector2s imageOf( const Domain& d, const Vector2s& u, int k, int m )
{
  return u + Vector2s( 2.0 * d.Lx * k + ( d.v != 0.0 ? m * d.shift() : 0.0 ), 2.0 * d.Ly * m );
}
#endif
