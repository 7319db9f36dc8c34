// B01: boundary conditions set exactly the points they name, to the value that
// makes the operator take the requested value there.
#include <vector>
#include <new>
// lists of flat indices: a plain growing array stands for std::vector<int>
namespace std{ template<> class vector<int>{ int *b,*e; public: typedef const int* const_iterator; typedef int* iterator; typedef int value_type;
  vector(){ b=e=new int[4096]; } ~vector(){ delete[] b; } void push_back( const int x ){ *e=x; ++e; } const int* begin() const{ return b; } const int* end() const{ return e; } size_t size() const{ return e-b; } bool empty() const{ return e==b; } const int& operator[]( const size_t i ) const{ return b[i]; } private: vector( const vector& ); vector& operator=( const vector& ); };
}
#include <spatialops/structured/IntVec.h>
namespace std{ template<> class vector<SpatialOps::structured::Numeric3Vec<int>>{ const SpatialOps::structured::Numeric3Vec<int> *b,*e; public: typedef const SpatialOps::structured::Numeric3Vec<int>* const_iterator; typedef const SpatialOps::structured::Numeric3Vec<int>* iterator; typedef SpatialOps::structured::Numeric3Vec<int> value_type;
  vector( const SpatialOps::structured::Numeric3Vec<int>* x, const SpatialOps::structured::Numeric3Vec<int>* y ) : b(x), e(y) {} const_iterator begin() const{ return b; } const_iterator end() const{ return e; } size_t size() const{ return e-b; } bool empty() const{ return e==b; } const SpatialOps::structured::Numeric3Vec<int>& operator[]( const size_t i ) const{ return b[i]; } }; }
#include "fld.h"
#include <spatialops/OperatorDatabase.h>
#include <spatialops/structured/FVStaggeredBCTools.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/stencil/FVStaggeredBCOp.h>
typedef SVolField F;
#define OPS(X) X(gx,GradientX,SSurfXField) X(gy,GradientY,SSurfYField) X(gz,GradientZ,SSurfZField) X(ix,InterpolantX,SSurfXField) X(iy,InterpolantY,SSurfYField) X(iz,InterpolantZ,SSurfZField) X(fgx,GradientX,SVolField) X(fgy,GradientY,SVolField) X(fgz,GradientZ,SVolField) X(fix,InterpolantX,SVolField) X(fiy,InterpolantY,SVolField) X(fiz,InterpolantZ,SVolField)
namespace tt{
#define X(n,K,D) typedef OperatorTypeBuilder<K,SVolField,D>::type n;
X(gx,Gradient,SSurfXField) X(gy,Gradient,SSurfYField) X(gz,Gradient,SSurfZField) X(ix,Interpolant,SSurfXField) X(iy,Interpolant,SSurfYField) X(iz,Interpolant,SSurfZField)
X(fgx,GradientX,SVolField) X(fgy,GradientY,SVolField) X(fgz,GradientZ,SVolField) X(fix,InterpolantX,SVolField) X(fiy,InterpolantY,SVolField) X(fiz,InterpolantZ,SVolField)
#undef X
}
extern char vp_op[]; extern char vp_db[];
namespace SpatialOps{
#define X(n) template<> tt::n* OperatorDatabase::retrieve_operator<tt::n>( const int ) const { return reinterpret_cast<tt::n*>( vp_op ); }
X(gx) X(gy) X(gz) X(ix) X(iy) X(iz) X(fgx) X(fgy) X(fgz) X(fix) X(fiy) X(fiz)
#undef X
}
#define DB const OperatorDatabase& db = *reinterpret_cast<const OperatorDatabase*>( vp_db )
#define MK(n) new (vp_op) tt::n( build_two_point_coef_collection(c0,c1) )
#define G1 1
#define ARGS int nx,int ny,int nz,int i,int j,int k,double v,double c0,double c1,double*p
// nx,ny,nz: cells of the whole field, one ghost layer on every side
#define BIG(a) vp_assume(a>4); vp_assume(a<1000)
#define PRE BIG(nx); BIG(ny); BIG(nz); vp_assume(p!=0); vp_assume(i>=0); vp_assume(j>=0); vp_assume(k>=0); vp_assume(i<nx-2); vp_assume(j<ny-2); vp_assume(k<nz-2)
#define FLD const GhostData gd(G1); const BoundaryCellInfo bc=BoundaryCellInfo::build<F>(false,false,false); const IntVec w3(nx,ny,nz); const MemoryWindow w(w3); F f(w,bc,gd,p,ExternalStorage)
#define AT(a,b,c) p[ (a)+G1 + nx*( (b)+G1 + ny*( (c)+G1 ) ) ]
// staggered operators couple (dest-1) and dest; collocated ones dest-1 and dest+1
#define GEO(T) T(gx,1,0,0,0) T(gy,0,1,0,0) T(gz,0,0,1,0) T(ix,1,0,0,0) T(iy,0,1,0,0) T(iz,0,0,1,0) T(fgx,1,0,0,1) T(fgy,0,1,0,1) T(fgz,0,0,1,1) T(fix,1,0,0,1) T(fiy,0,1,0,1) T(fiz,0,0,1,1)
extern "C" {
VP_ANCHOR(op, "spatialops/structured/stencil/FVStaggeredBCOp.h BoundaryConditionOp")
#define LO(n,a,b,c,h) AT(i-a,j-b,k-c) = ( v - c1*AT(i+a*h,j+b*h,k+c*h) )/c0
#define HI(n,a,b,c,h) AT(i+a*h,j+b*h,k+c*h) = ( v - c0*AT(i-a,j-b,k-c) )/c1
#define T1(n,S,Q_,VAL) \
void impl_op_##n##_##Q_(ARGS){ PRE; FLD; DB; MK(n); const BoundaryConditionOp<tt::n,ConstValEval> o( IntVec(i,j,k), S, ConstValEval(v), db ); o(f); } \
void spec_op_##n##_##Q_(ARGS){ PRE; MK(n); VAL; }
#define T(n,a,b,c,h) T1(n,MINUS_SIDE,m,LO(n,a,b,c,h)) T1(n,PLUS_SIDE,p,HI(n,a,b,c,h)) T1(n,NO_SIDE,n,LO(n,a,b,c,h))
GEO(T)
#undef T
#undef T1
void bad_op_gx_m(ARGS){ PRE; MK(gx); AT(i-1,j,k) = ( v - c0*AT(i,j,k) )/c0; }
// a list of points, indexed in the window it is given with
VP_ANCHOR(list, "spatialops/structured/stencil/FVStaggeredBCOp.h BoundaryConditionOp(window,...)")
#define LARGS int nx,int ny,int nz,int i,int j,int k,int i2,int j2,int k2,double v,double c0,double c1,double*p
#define LPRE PRE; vp_assume(i2>=0); vp_assume(j2>=0); vp_assume(k2>=0); vp_assume(i2<nx-2); vp_assume(j2<ny-2); vp_assume(k2<nz-2)
#define LIST const IntVec pts[2]={ IntVec(i,j,k), IntVec(i2,j2,k2) }; const std::vector<IntVec> l( pts, pts+2 )
#define T1(n,S,Q_,A,B) \
void impl_list_##n##_##Q_(LARGS){ LPRE; FLD; DB; MK(n); LIST; const BoundaryConditionOp<tt::n,ConstValEval> o( f.window_without_ghost(), l, S, ConstValEval(v), db ); o(f); } \
void spec_list_##n##_##Q_(LARGS){ LPRE; MK(n); A; B; }
#define LO2(n,a,b,c,h) AT(i2-a,j2-b,k2-c) = ( v - c1*AT(i2+a*h,j2+b*h,k2+c*h) )/c0
#define HI2(n,a,b,c,h) AT(i2+a*h,j2+b*h,k2+c*h) = ( v - c0*AT(i2-a,j2-b,k2-c) )/c1
#define T(n,a,b,c,h) T1(n,MINUS_SIDE,m,LO(n,a,b,c,h),LO2(n,a,b,c,h)) T1(n,PLUS_SIDE,p,HI(n,a,b,c,h),HI2(n,a,b,c,h)) T1(n,NO_SIDE,n,LO(n,a,b,c,h),LO2(n,a,b,c,h))
GEO(T)
#undef T
VP_ANCHOR(pt, "spatialops/structured/FVStaggeredBCTools.h BoundaryCondition")
void impl_pt_one(ARGS){ PRE; FLD; const BoundaryCondition<F,ConstValEval> o( IntVec(i,j,k), ConstValEval(v) ); o(f); }
void spec_pt_one(ARGS){ PRE; AT(i,j,k)=v; }
void impl_pt_list(LARGS){ LPRE; FLD; LIST; const BoundaryCondition<F,ConstValEval> o( f.window_without_ghost(), l, ConstValEval(v) ); o(f); }
void spec_pt_list(LARGS){ LPRE; AT(i,j,k)=v; AT(i2,j2,k2)=v; }
}
