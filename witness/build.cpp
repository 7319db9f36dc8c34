// S03: build_stencils registers every predefined operator once, with the
// coefficients that make it second-order consistent on a uniform grid.
#include "fld.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
// the database is replaced by one that records the coefficients of what is registered (O01 covers the database itself)
#define SpatialOpDatabase_h
namespace SpatialOps{ template<class T> struct Rec; 
  class OperatorDatabase{ public: double*c_; int*n_; OperatorDatabase(double*c,int*n):c_(c),n_(n){}
    template<class T> size_t register_new_operator( T*const op ){ Rec<T>::rec(*op,c_,n_); delete op; return 0; }
    template<class T> size_t register_new_operator( T*const op, const std::string ){ return register_new_operator(op); } }; }
#define S SVolField
#define X XVolField
#define Y YVolField
#define Z ZVolField
#define SX SSurfXField
#define SY SSurfYField
#define SZ SSurfZField
#define XX XSurfXField
#define XY XSurfYField
#define XZ XSurfZField
#define YX YSurfXField
#define YY YSurfYField
#define YZ YSurfZField
#define ZX ZSurfXField
#define ZY ZSurfYField
#define ZZ ZSurfZField
// H interpolation over two points, Q over four, N same place, A average, D(h) derivative over one cell, E(h) over two
#define BASIC(V,A_,B_,C_) O(Interpolant,V,A_,H) O(Interpolant,V,B_,H) O(Interpolant,V,C_,H) O(Interpolant,A_,V,H) O(Interpolant,B_,V,H) O(Interpolant,C_,V,H) \
  O(Gradient,V,A_,D(hx)) O(Gradient,V,B_,D(hy)) O(Gradient,V,C_,D(hz)) O(Divergence,A_,V,D(hx)) O(Divergence,B_,V,D(hy)) O(Divergence,C_,V,D(hz))
#define IG(a,b,h) O(Interpolant,a,b,H) O(Gradient,a,b,D(h))
#define P4(a,b) O(Interpolant,a,b,Q) O(Interpolant,b,a,Q)
#define N0(a,b) O(Interpolant,a,b,N)
#define FD(a) O(InterpolantX,a,a,H) O(InterpolantY,a,a,H) O(InterpolantZ,a,a,H) O(GradientX,a,a,E(hx)) O(GradientY,a,a,E(hy)) O(GradientZ,a,a,E(hz)) O(Filter,a,a,N)
#define OPS BASIC(S,SX,SY,SZ) BASIC(X,XX,XY,XZ) BASIC(Y,YX,YY,YZ) BASIC(Z,ZX,ZY,ZZ) \
 IG(X,YX,hy) IG(X,ZX,hz) IG(Y,XY,hx) IG(Y,ZY,hz) IG(Z,XZ,hx) IG(Z,YZ,hy) IG(S,X,hx) IG(S,Y,hy) IG(S,Z,hz) IG(X,S,hx) IG(Y,S,hy) IG(Z,S,hz) \
 N0(S,S) N0(X,X) N0(Y,Y) N0(Z,Z) N0(X,SX) N0(Y,SY) N0(Z,SZ) N0(S,XX) N0(S,YY) N0(S,ZZ) N0(XX,S) N0(YY,S) N0(ZZ,S) \
 P4(S,XY) P4(S,XZ) P4(S,YX) P4(S,YZ) P4(S,ZX) P4(S,ZY) P4(X,Y) P4(X,Z) P4(Y,Z) FD(S) FD(X) FD(Y) FD(Z)
enum{
#define O(op,a,b,k) id_##op##_##a##_##b,
OPS
#undef O
id_count };
namespace SpatialOps{
  INL void put( const NeboStencilCoefCollection<2>& c, double*o ){ o[0]=c.get_coef(0); o[1]=c.get_coef(1); }
  INL void put( const NeboStencilCoefCollection<4>& c, double*o ){ o[0]=c.get_coef(0); o[1]=c.get_coef(1); o[2]=c.get_coef(2); o[3]=c.get_coef(3); }
  template<class Op,class PC,class A,class B> INL void coefs( const NeboStencilBuilder<Op,PC,A,B>& op, double*o ){ put(op.coefs(),o); }
  template<class T> INL void coefs( const T&, double* ){}
#define O(op,a,b,k) template<> struct Rec< OperatorTypeBuilder<op,a,b>::type >{ typedef OperatorTypeBuilder<op,a,b>::type T; static __attribute__((always_inline)) void rec( const T& t, double*c, int*n ){ coefs(t,c+4*id_##op##_##a##_##b); ++n[id_##op##_##a##_##b]; } };
OPS
#undef O
}
#include <spatialops/structured/stencil/StencilBuilder.cpp>
#define ARGS unsigned nx,unsigned ny,unsigned nz,double lx,double ly,double lz,double*c,int*n
#define PRE vp_assume(nx>0); vp_assume(ny>0); vp_assume(nz>0); vp_assume(lx>0); vp_assume(ly>0); vp_assume(lz>0)
VP_ANCHOR(coefs,"spatialops/structured/stencil/StencilBuilder.cpp build_stencils")
extern "C" {
void impl_coefs(ARGS){ PRE; OperatorDatabase db(c,n); build_stencils(nx,ny,nz,lx,ly,lz,db); }
#define H w[0]=0.5; w[1]=0.5;
#define Q w[0]=0.25; w[1]=0.25; w[2]=0.25; w[3]=0.25;
#define N
#define D(h) w[0]=-1/(h); w[1]=1/(h);
#define E(h) w[0]=-0.5/(h); w[1]=0.5/(h);
#define O(op,a,b,k) { double*w=c+4*id_##op##_##a##_##b; k; ++n[id_##op##_##a##_##b]; }
void spec_coefs(ARGS){ PRE; const double hx=lx/nx,hy=ly/ny,hz=lz/nz; OPS }
void bad_coefs(ARGS){ PRE; const double hx=lx/nx,hy=ly/nx,hz=lz/nz; OPS }
}
