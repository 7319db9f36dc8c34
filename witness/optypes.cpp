// S02: the stencil of every predefined operator lies where the grid geometry
// requires; S03: the coefficients build_stencils registers.
#include "fld.h"
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#define GH 2
// position of a cell of each field type, in half cells, relative to the low corner of the scalar cell of the same index
template<class F> struct Pos;
#define POS(F,a,b,c) template<> struct Pos<F>{ enum{ x=a, y=b, z=c }; };
POS(SVolField,1,1,1) POS(SSurfXField,0,1,1) POS(SSurfYField,1,0,1) POS(SSurfZField,1,1,0)
POS(XVolField,0,1,1) POS(XSurfXField,1,1,1) POS(XSurfYField,0,0,1) POS(XSurfZField,0,1,0)
POS(YVolField,1,0,1) POS(YSurfXField,0,0,1) POS(YSurfYField,1,1,1) POS(YSurfZField,1,0,0)
POS(ZVolField,1,1,0) POS(ZSurfXField,0,1,0) POS(ZSurfYField,1,0,0) POS(ZSurfZField,1,1,1)
// nearest source indices below and above a destination point of the same index
template<int s,int d> struct Near{ enum{ lo = d==s ? 0 : (d-s-1)/2, hi = d==s ? 0 : (d-s+1)/2 }; };
#define ARGS int nx,int ny,double*p,double c0,double c1,double c2,double c3,double*out
#define PRE vp_assume(nx>2); vp_assume(ny>2); vp_assume(p!=0)
INL double at( const double*p, int nx, int ny, int i, int j, int k ){ return p[ (i+GH) + (nx+2*GH)*( (j+GH) + (ny+2*GH)*(k+GH) ) ]; }
template<class S> struct Src{ const GhostData gd; const BoundaryCellInfo bc; S g;
  Src(int nx,int ny,double*p) : gd(GH), bc(BoundaryCellInfo::build<S>(false,false,false)), g(MemoryWindow(IntVec(nx+2*GH,ny+2*GH,4+2*GH)),bc,gd,p,ExternalStorage){} };
// values at two consecutive cells of the patch
template<class E> INL void walk( E const& e, double*out ){ auto x=e.expr().init(IntVec(0,0,0),IntVec(0,0,0),IntVec(0,0,0)); out[0]=x.eval(); x.next(); out[1]=x.eval(); }
template<class Op,class S,class D> struct O2{ typedef typename OperatorTypeBuilder<Op,S,D>::type T; static T mk(double a,double b,double,double){ return T( build_two_point_coef_collection(a,b) ); } };
template<class Op,class S,class D> struct O4{ typedef typename OperatorTypeBuilder<Op,S,D>::type T; static T mk(double a,double b,double c,double d){ return T( build_four_point_coef_collection(a,b,c,d) ); } };
template<class Op,class S,class D> struct O0{ typedef typename OperatorTypeBuilder<Op,S,D>::type T; static T mk(double,double,double,double){ return T(); } };
template<class S,class D> struct Sp{
  typedef Near<Pos<S>::x,Pos<D>::x> X; typedef Near<Pos<S>::y,Pos<D>::y> Y; typedef Near<Pos<S>::z,Pos<D>::z> Z;
  enum{ dx=(int)Pos<S>::x!=(int)Pos<D>::x, dy=(int)Pos<S>::y!=(int)Pos<D>::y, dz=(int)Pos<S>::z!=(int)Pos<D>::z, nd=dx+dy+dz };
  static __attribute__((always_inline)) double v2(const double*p,int nx,int ny,int i,double a,double b){ static_assert(nd==1,"one direction"); return a*at(p,nx,ny,i+X::lo,Y::lo,Z::lo) + b*at(p,nx,ny,i+X::hi,Y::hi,Z::hi); }
  // first direction: the earlier of the two; low-low, high-low, low-high, high-high
  static __attribute__((always_inline)) double v4(const double*p,int nx,int ny,int i,double a,double b,double c,double d){ static_assert(nd==2,"two directions");
    if( dx && dy ) return a*at(p,nx,ny,i+X::lo,Y::lo,0) + b*at(p,nx,ny,i+X::hi,Y::lo,0) + c*at(p,nx,ny,i+X::lo,Y::hi,0) + d*at(p,nx,ny,i+X::hi,Y::hi,0);
    if( dx )       return a*at(p,nx,ny,i+X::lo,0,Z::lo) + b*at(p,nx,ny,i+X::hi,0,Z::lo) + c*at(p,nx,ny,i+X::lo,0,Z::hi) + d*at(p,nx,ny,i+X::hi,0,Z::hi);
    return a*at(p,nx,ny,i,Y::lo,Z::lo) + b*at(p,nx,ny,i,Y::hi,Z::lo) + c*at(p,nx,ny,i,Y::lo,Z::hi) + d*at(p,nx,ny,i,Y::hi,Z::hi); }
  static __attribute__((always_inline)) double v0(const double*p,int nx,int ny,int i){ static_assert(nd==0,"same place"); return at(p,nx,ny,i,0,0); }
};
#define R3(j,k) ( at(p,nx,ny,i-1,j,k) + at(p,nx,ny,i,j,k) + at(p,nx,ny,i+1,j,k) )
#define L9(k) ( R3(-1,k) + R3(0,k) + R3(1,k) )
INL double box( const double*p, int nx, int ny, int i ){ return ( L9(-1) + L9(0) + L9(1) )*(1.0/27.0); }
#define DEF(N,MK,Op,S,D,VAL) \
void impl_##N(ARGS){ PRE; Src<S> s(nx,ny,p); const MK<Op,S,D>::T op( MK<Op,S,D>::mk(c0,c1,c2,c3) ); walk( op(s.g), out ); } \
void spec_##N(ARGS){ PRE; { const int i=0; out[0]=VAL; } { const int i=1; out[1]=VAL; } }
#define COMMA ,
#define T2(Op,S,D) DEF(op2_##Op##_##S##_##D,O2,Op,S,D,Sp<S COMMA D>::v2(p,nx,ny,i,c0,c1))
#define T4(S,D) DEF(op4_Interp_##S##_##D,O4,Interpolant,S,D,Sp<S COMMA D>::v4(p,nx,ny,i,c0,c1,c2,c3))
#define T0(S,D) DEF(op0_Interp_##S##_##D,O0,Interpolant,S,D,Sp<S COMMA D>::v0(p,nx,ny,i))
#define FL(S) DEF(op27_Filter_##S,O0,Filter,S,S,box(p,nx,ny,i))
#define FDO(Op,S,a,b,c) DEF(opfd_##Op##_##S,O2,Op,S,S,c0*at(p,nx,ny,i-a,-b,-c)+c1*at(p,nx,ny,i+a,b,c))
#define FD3(G,S) FDO(G##X,S,1,0,0) FDO(G##Y,S,0,1,0) FDO(G##Z,S,0,0,1)
#define FD6(S) FD3(Interpolant,S) FD3(Gradient,S)
#define BASIC(V,FX,FY,FZ) T2(Interpolant,V,FX) T2(Interpolant,V,FY) T2(Interpolant,V,FZ) T2(Interpolant,FX,V) T2(Interpolant,FY,V) T2(Interpolant,FZ,V) \
  T2(Gradient,V,FX) T2(Gradient,V,FY) T2(Gradient,V,FZ) T2(Divergence,FX,V) T2(Divergence,FY,V) T2(Divergence,FZ,V)
#define IG(S,D) T2(Interpolant,S,D) T2(Gradient,S,D)
#define ALL2 BASIC(SVolField,SSurfXField,SSurfYField,SSurfZField) BASIC(XVolField,XSurfXField,XSurfYField,XSurfZField) BASIC(YVolField,YSurfXField,YSurfYField,YSurfZField) BASIC(ZVolField,ZSurfXField,ZSurfYField,ZSurfZField) \
  IG(XVolField,YSurfXField) IG(XVolField,ZSurfXField) IG(YVolField,XSurfYField) IG(YVolField,ZSurfYField) IG(ZVolField,XSurfZField) IG(ZVolField,YSurfZField) \
  IG(SVolField,XVolField) IG(SVolField,YVolField) IG(SVolField,ZVolField) IG(XVolField,SVolField) IG(YVolField,SVolField) IG(ZVolField,SVolField)
#define ALL0 T0(SVolField,SVolField) T0(XVolField,XVolField) T0(YVolField,YVolField) T0(ZVolField,ZVolField) T0(XVolField,SSurfXField) T0(YVolField,SSurfYField) T0(ZVolField,SSurfZField) \
  T0(SVolField,XSurfXField) T0(SVolField,YSurfYField) T0(SVolField,ZSurfZField) T0(XSurfXField,SVolField) T0(YSurfYField,SVolField) T0(ZSurfZField,SVolField)
#define P4(S,D) T4(S,D) T4(D,S)
#define ALL4 P4(SVolField,XSurfYField) P4(SVolField,XSurfZField) P4(SVolField,YSurfXField) P4(SVolField,YSurfZField) P4(SVolField,ZSurfXField) P4(SVolField,ZSurfYField) \
  P4(XVolField,YVolField) P4(XVolField,ZVolField) P4(YVolField,ZVolField)
#define ALLF FL(SVolField) FL(XVolField) FL(YVolField) FL(ZVolField)
#define ALLD FD6(SVolField) FD6(XVolField) FD6(YVolField) FD6(ZVolField)
VP_ANCHOR(op2,"spatialops/NeboStencilBuilder.h Stencil2Collection") VP_ANCHOR(op4,"spatialops/NeboStencilBuilder.h Stencil4Collection") VP_ANCHOR(op0,"spatialops/NeboStencilBuilder.h NullStencilCollection")
VP_ANCHOR(op27,"spatialops/NeboStencilBuilder.h BoxFilter3DStencilCollection, NeboAverageStencilBuilder") VP_ANCHOR(opfd,"spatialops/NeboStencilBuilder.h FDStencilCollection")
extern "C" {
ALL2 ALL4 ALL0 ALLF ALLD
void bad_op2_Gradient_SVolField_SSurfXField(ARGS){ PRE; for(int i=0;i<2;++i) out[i]=c0*at(p,nx,ny,i,0,0)+c1*at(p,nx,ny,i+1,0,0); }
// the lower-dimensional box filters
#define BOX(N,C,VAL) \
void impl_op27_##N(ARGS){ PRE; Src<SVolField> s(nx,ny,p); const NeboAverageStencilBuilder<C::StPtCollection,SVolField,SVolField> op; walk( op(s.g), out ); } \
void spec_op27_##N(ARGS){ PRE; { const int i=0; out[0]=VAL; } { const int i=1; out[1]=VAL; } }
BOX(xy,BoxFilter2DXYStencilCollection,L9(0)*(1.0/9.0))
BOX(xz,BoxFilter2DXZStencilCollection,(R3(0,-1)+R3(0,0)+R3(0,1))*(1.0/9.0))
#define Y3(k) ( at(p,nx,ny,i,-1,k)+at(p,nx,ny,i,0,k)+at(p,nx,ny,i,1,k) )
BOX(yz,BoxFilter2DYZStencilCollection,(Y3(-1)+Y3(0)+Y3(1))*(1.0/9.0))
BOX(x,BoxFilter1DXStencilCollection,R3(0,0)*(1.0/3.0))
BOX(y,BoxFilter1DYStencilCollection,Y3(0)*(1.0/3.0))
BOX(z,BoxFilter1DZStencilCollection,(at(p,nx,ny,i,0,-1)+at(p,nx,ny,i,0,0)+at(p,nx,ny,i,0,1))*(1.0/3.0))
}
