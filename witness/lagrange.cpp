// L01: Lagrange interpolation and differentiation on any mesh of four points
#include <cstddef>
#include <algorithm>
#include <cmath>
#include <cassert>
#include <iostream>
#include <vector>
#include <iterator>
#include "vp.h"
namespace std{ template<class T> struct vp_vec{ T a[8]; int n; typedef T value_type; typedef T* iterator; typedef const T* const_iterator; vp_vec():n(0){ pad(); } void pad(){ for( int i=0; i<8; ++i ) a[i]=T(1000+17*i*i); }  /* what lies behind the end is something else */  vp_vec( const T* b, const T* e ):n(0){ pad(); for( ; b!=e; ++b ) a[n++]=*b; } explicit vp_vec( size_t k, T v=T() ):n(0){ pad(); for( size_t i=0; i<k; ++i ) a[n++]=v; }
  size_t size() const{ return n; } bool empty() const{ return n==0; } iterator begin(){ return a; } iterator end(){ return a+n; } const_iterator begin() const{ return a; } const_iterator end() const{ return a+n; } void clear(){ n=0; } const_iterator cbegin() const{ return a; } const_iterator cend() const{ return a+n; } T* data(){ return a; } const T* data() const{ return a; } void reserve( size_t ){} void resize( size_t k, T v=T() ){ while( n<(int)k ) a[n++]=v; n=k; } void assign( size_t k, T v ){ n=0; resize(k,v); } void emplace_back( const T& t ){ a[n++]=t; } void pop_back(){ --n; } void push_back( const T& t ){ a[n++]=t; } T& operator[]( int i ){ return a[i]; } const T& operator[]( int i ) const{ return a[i]; } T& at( int i ){ return a[i]; } const T& at( int i ) const{ return a[i]; } T& front(){ return a[0]; } const T& front() const{ return a[0]; } T& back(){ return a[n-1]; } const T& back() const{ return a[n-1]; } }; }
namespace std{
#define BND(N,C) static inline const double* N( const double* b, const double* e, const double& v ){ const double* r=b; if( r!=e && C ){ ++r; if( r!=e && C ){ ++r; if( r!=e && C ){ ++r; if( r!=e && C ) ++r; } } } return r; }
BND(lower_bound,*r<v) BND(upper_bound,!(v<*r))
}
#define vector vp_vec
#include <spatialops/structured/onedim/LagrangePoly.cpp>
#undef vector
typedef std::vp_vec<double> VD; typedef std::vp_vec<int> VI;
#define INL static inline __attribute__((always_inline))
#define ARGS double x0,double x1,double x2,double x3,double x
#define MESH vp_assume(x0<x1); vp_assume(x1<x2); vp_assume(x2<x3); const double xs[4]={ x0,x1,x2,x3 }; const VD m(xs,xs+4)
extern "C"{
VP_ANCHOR(lag, "spatialops/structured/onedim/LagrangePoly.cpp LagrangeCoefficients")
// the points used: as many as the order needs, in a row, inside the mesh, and on both sides of x where the mesh reaches that far
#define AT(K,ORD) bool prove_lag_at##K##_##ORD(ARGS){ MESH; VD c; VI ix; const K l(m,m); l.get_coefs_indices(x,ORD,c,ix); if( ix.n!=ORD+1 || c.n!=ORD+1 ) return false; \
  const int a=ix.a[0]; bool ok = a>=0 && a+ORD<4; for( int i=0; i<=ORD; ++i ) ok = ok && ix.a[i]==a+i; if( x>x0 && x<x3 ) ok = ok && m.a[a]<=x && m.a[a+ORD]>=x; if( ORD==2 && x>x1 && x<x2 ){ if( std::fabs(x1-x)>std::fabs(x2-x) ) ok = ok && a==1; else if( std::fabs(x1-x)<std::fabs(x2-x) ) ok = ok && a==0; } if( x<=x0 ) ok = ok && a==0; if( x>x3 ) ok = ok && a+ORD==3; return ok; }
AT(LagrangeInterpolant,1) AT(LagrangeInterpolant,2) AT(LagrangeInterpolant,3) AT(LagrangeDerivative,1) AT(LagrangeDerivative,2) AT(LagrangeDerivative,3)
// the weights: those of the one polynomial of this order through the points used, and of its slope
INL double wi( const VD& m, int a, int n, int k, double x ){ double c=1.0; for( int i=0; i<=n; ++i ) if( i!=k ) c*=(x-m.a[a+i])/(m.a[a+k]-m.a[a+i]); return c; }
INL double wd( const VD& m, int a, int n, int k, double x ){ double d=1.0, s=0.0; for( int i=0; i<=n; ++i ) if( i!=k ) d*=m.a[a+k]-m.a[a+i]; for( int j=0; j<=n; ++j ) if( j!=k ){ double t=1.0; for( int i=0; i<=n; ++i ) if( i!=k && i!=j ) t*=x-m.a[a+i]; s+=t; } return s/d; }
#define CF(K,W,ORD) bool prove_lag_w##K##_##ORD(ARGS){ MESH; VD c; VI ix; c.push_back(7.0); ix.push_back(9); const K l(m,m); l.get_coefs_indices(x,ORD,c,ix); const int a=ix.a[0]; bool ok=c.n==ORD+1; for( int k=0; k<=ORD; ++k ) ok = ok && c.a[k]==W(m,a,ORD,k,x); return ok; }
CF(LagrangeInterpolant,wi,1) CF(LagrangeInterpolant,wi,2) CF(LagrangeInterpolant,wi,3) CF(LagrangeDerivative,wd,1) CF(LagrangeDerivative,wd,2) CF(LagrangeDerivative,wd,3)
// the value is the weighted sum of the ordinates at these points; the order given at construction is the default
#define YS double y0,double y1,double y2,double y3
#define VAL(K,ORD) bool prove_lag_v##K##_##ORD(ARGS,YS){ MESH; const double ya[4]={ y0,y1,y2,y3 }; const VD y(ya,ya+4); VD c; VI ix; const K l(m,y,3), o(m,y,ORD); l.get_coefs_indices(x,ORD,c,ix); double v=0.0; for( int k=0; k<=ORD; ++k ) v+=y.a[ix.a[0]+k]*c.a[k]; return l.value(x,ORD)==v && o.value(x)==v; }
VAL(LagrangeInterpolant,1) VAL(LagrangeInterpolant,2) VAL(LagrangeInterpolant,3) VAL(LagrangeDerivative,1) VAL(LagrangeDerivative,2) VAL(LagrangeDerivative,3)
bool prove_lag_range(ARGS){ MESH; VD c, d; VI ix, jx; const LagrangeCoefficients l(xs,xs+4), v(m); l.get_interp_coefs_indices(x,2,c,ix); v.get_interp_coefs_indices(x,2,d,jx); bool ok = c.n==3 && ix.n==3 && d.n==3 && jx.n==3 && l.get_x().n==4 && v.get_x().n==4; for( int i=0; i<3; ++i ) ok = ok && ix.a[i]==jx.a[i] && c.a[i]==d.a[i] && c.a[i]==wi(m,ix.a[0],2,i,x); return ok; }
bool bad_lag_at(ARGS){ MESH; VD c; VI ix; const LagrangeInterpolant l(m,m); l.get_coefs_indices(x,2,c,ix); return ix.a[0]==0; }
}
