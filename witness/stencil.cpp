// S01: a stencil's value at a point is the sum over its points of coefficient
// times operand at (point + offset); S05: the ghosts it consumes.
#include "fld.h"
#include <spatialops/NeboStencilBuilder.h>
#define P_(x,y,z) NeboStencilPointCollection< structured::IndexTriplet<x,y,z>, NeboNil >
#define A_(x,y,z) ::AddPoint< structured::IndexTriplet<x,y,z> >::Result
#define PTS(N,L) typedef L PC_##N;
// point lists: X(N) expands f(x,y,z,coef-index) over the points of collection N in order
PTS(one,   P_(1,-2,2))
PTS(two,   P_(-1,0,0)A_(0,0,0))
PTS(fd,    P_(0,-1,0)A_(0,1,0))
PTS(three, P_(2,0,-1)A_(0,-2,1)A_(-1,1,0))
PTS(four,  P_(0,0,-1)A_(1,0,-1)A_(0,1,0)A_(-2,1,2))
#define L_one(T)   T(0,1,-2,2)
#define L_two(T)   T(0,-1,0,0) T(1,0,0,0)
#define L_fd(T)    T(0,0,-1,0) T(1,0,1,0)
#define L_three(T) T(0,2,0,-1) T(1,0,-2,1) T(2,-1,1,0)
#define L_four(T)  T(0,0,0,-1) T(1,1,0,-1) T(2,0,1,0) T(3,-2,1,2)
#define C_one   build_coef_collection(c0)
#define C_two   build_two_point_coef_collection(c0,c1)
#define C_fd    build_coef_collection(c0)(c1)
#define C_three build_coef_collection(c0)(c1)(c2)
#define C_four  build_four_point_coef_collection(c0,c1,c2,c3)
typedef SVolField S; typedef SSurfXField D;
#define ARGS int nx,int ny,double*p,double*q,double c0,double c1,double c2,double c3,double*out
#define GH 3
#define DECL vp_assume(nx>2); vp_assume(ny>2); vp_assume(p!=0); vp_assume(q!=0); const double cc[4]={c0,c1,c2,c3}; (void)cc; \
  const GhostData gd(GH); const BoundaryCellInfo bc=BoundaryCellInfo::build<S>(false,false,false); const IntVec w3(nx+2*GH,ny+2*GH,4+2*GH); const MemoryWindow w(w3); \
  S g(w,bc,gd,p,ExternalStorage), h(w,bc,gd,q,ExternalStorage)
// operand element at interior-relative (i,j,k)
INL double at( const double*p, int nx, int ny, int i, int j, int k ){ return p[ (i+GH) + (nx+2*GH)*( (j+GH) + (ny+2*GH)*(k+GH) ) ]; }
#define SDECL vp_assume(nx>2); vp_assume(ny>2); vp_assume(p!=0); vp_assume(q!=0); const double cc[4]={c0,c1,c2,c3}; (void)cc
#define ONEV IntVec(1,1,1)
// value at the first cell of the region and at the next one, in each evaluation mode
struct Seq{ template<class E> static INL void walk(E const& e,double*out){ auto x=e.expr().init(ONEV,ONEV,IntVec(0,0,0)); out[0]=x.eval(); x.next(); out[1]=x.eval(); } enum{ I=-1, J=-1, K=-1 }; };
// as an operand of an outer stencil: the shift adds to the point offsets
struct Shf{ template<class E> static INL void walk(E const& e,double*out){ auto x=e.expr().init(IntVec(0,0,0),IntVec(0,0,0),IntVec(1,0,-1)); out[0]=x.eval(); x.next(); out[1]=x.eval(); } enum{ I=1, J=0, K=-1 }; };
struct Red{ template<class E> static INL void walk(E const& e,double*out){ auto x=e.expr().reduce_init(ONEV,ONEV,IntVec(0,0,0)); out[0]=x.eval(); x.next(); out[1]=x.eval(); out[2]=x.at_end(); } enum{ I=-1, J=-1, K=-1 }; };
#ifdef FIELD_EXPRESSION_THREADS
// a sub-range: second half of the region along z
struct Thr{ template<class E> static INL void walk(E const& e,double*out){ auto r=e.expr().resize(ONEV,ONEV); auto x=r.init(IntVec(0,0,0),IntVec(1,1,2),IntVec(0,0,1)); out[0]=x.eval(); x.next(); out[1]=x.eval(); } enum{ I=-1, J=-1, K=2 }; };
#endif
#define T_LIN(n,x,y,z)  + cc[n]*V(M_::I+x+d,M_::J+y,M_::K+z)
#define T_SUM(n,x,y,z)  + V(M_::I+x+d,M_::J+y,M_::K+z)
#define T_CNT(n,x,y,z)  + 1
#define DEF(N,MD,PF,EX,ARG,VAL,T,SC) extern "C" void impl_##PF##_##N(ARGS){ typedef MD M_; DECL; M_::walk(EX(ARG),out); } \
 extern "C" void spec_##PF##_##N(ARGS){ typedef MD M_; SDECL; for(int d=0;d<2;++d){ out[d]=(0.0 T)*(SC); } FIN_##PF }
#define FIN_seq
#define FIN_shf
#define FIN_thr
#define FIN_red out[2]=0;
#define VF(i,j,k) at(p,nx,ny,i,j,k)
#define VE(i,j,k) (at(p,nx,ny,i,j,k)*at(q,nx,ny,i,j,k)+5.0)
#define MODES(N,EX,ARG,VAL,L,T,SC) BOTHV(N,EX,ARG,VAL,L,T,SC)
#ifdef FIELD_EXPRESSION_THREADS
#define BOTHV(N,EX,ARG,VAL,L,T,SC) DEF(N,Thr,thr,EX,ARG,VAL,L(T),SC)
#else
#define BOTHV(N,EX,ARG,VAL,L,T,SC) DEF(N,Seq,seq,EX,ARG,VAL,L(T),SC) DEF(N,Shf,shf,EX,ARG,VAL,L(T),SC) DEF(N,Red,red,EX,ARG,VAL,L(T),SC)
#endif
template<class PC,class CC> INL NeboStencilBuilder<void,PC,S,D> mklin(CC const& c){ return NeboStencilBuilder<void,PC,S,D>(c); }
#define LIN(C) mklin<PC_##C>(C_##C)
template<class PC> INL NeboSumStencilBuilder<PC,S,D> mksum(){ return NeboSumStencilBuilder<PC,S,D>(); }
template<class PC> INL NeboAverageStencilBuilder<PC,S,D> mkavg(){ return NeboAverageStencilBuilder<PC,S,D>(); }
#define SUM(C) mksum<PC_##C>()
#define AVG(C) mkavg<PC_##C>()
#define V VF
BOTHV(lin_one_f,LIN(one),g,VF,L_one,T_LIN,1.0)
BOTHV(lin_two_f,LIN(two),g,VF,L_two,T_LIN,1.0)
BOTHV(lin_fd_f,LIN(fd),g,VF,L_fd,T_LIN,1.0)
BOTHV(lin_three_f,LIN(three),g,VF,L_three,T_LIN,1.0)
BOTHV(lin_four_f,LIN(four),g,VF,L_four,T_LIN,1.0)
BOTHV(sum_one_f,SUM(one),g,VF,L_one,T_SUM,1.0)
BOTHV(sum_three_f,SUM(three),g,VF,L_three,T_SUM,1.0)
BOTHV(sum_four_f,SUM(four),g,VF,L_four,T_SUM,1.0)
BOTHV(avg_two_f,AVG(two),g,VF,L_two,T_SUM,1.0/2.0)
BOTHV(avg_three_f,AVG(three),g,VF,L_three,T_SUM,1.0/3.0)
#undef V
#define V VE
BOTHV(lin_two_e,LIN(two),(g*h+5.0),VE,L_two,T_LIN,1.0)
BOTHV(lin_four_e,LIN(four),(g*h+5.0),VE,L_four,T_LIN,1.0)
BOTHV(sum_one_e,SUM(one),(g*h+5.0),VE,L_one,T_SUM,1.0)
BOTHV(avg_three_e,AVG(three),(g*h+5.0),VE,L_three,T_SUM,1.0/3.0)
#undef V
// nested stencils: the offsets add up
#define V VF
extern "C" void impl_nest_two_fd(ARGS){ DECL; NeboStencilBuilder<void,PC_fd,S,D> in(C_fd); NeboStencilBuilder<void,PC_two,D,S> ou(build_coef_collection(c2)(c3)); auto x=ou(in(g)).expr().init(ONEV,ONEV,IntVec(0,0,0)); out[0]=x.eval(); }
extern "C" void spec_nest_two_fd(ARGS){ SDECL; out[0]= c2*( c0*V(-2,-2,-1)+c1*V(-2,0,-1) ) + c3*( c0*V(-1,-2,-1)+c1*V(-1,0,-1) ); }
#ifndef FIELD_EXPRESSION_THREADS
extern "C" void bad_seq_lin_two_f(ARGS){ SDECL; out[0]=c1*V(-2,-1,-1)+c0*V(-1,-1,-1); out[1]=c1*V(-1,-1,-1)+c0*V(0,-1,-1); }
// coefficients are kept in the order they were given, and exactly that many
#define COEF(C,n) extern "C" double impl_coef_##C(double c0,double c1,double c2,double c3,int i){ return C_##C.get_coef(i); } \
 extern "C" double spec_coef_##C(double c0,double c1,double c2,double c3,int i){ if(i<0) throw 1; if(i>=n) throw 2; return i==0?c0:i==1?c1:i==2?c2:c3; }
COEF(one,1) COEF(two,2) COEF(fd,2) COEF(three,3) COEF(four,4)
#endif
#ifndef FIELD_EXPRESSION_THREADS
// ghost layers left after applying a stencil to an operand with ghosts (a..f): on each face, what the
// farthest point on that side leaves
#define G6 int a,int b,int c,int d,int e,int f,int which
#define INR(x) vp_assume(x>=0); vp_assume(x<100)
#define GPRE INR(a); INR(b); INR(c); INR(d); INR(e); INR(f)
#define T_MX(n,x,y,z) if(x<0 && -x>mx) mx=-x; if(x>0 && x>px) px=x;
#define T_MY(n,x,y,z) if(y<0 && -y>my) my=-y; if(y>0 && y>py) py=y;
#define T_MZ(n,x,y,z) if(z<0 && -z>mz) mz=-z; if(z>0 && z>pz) pz=z;
#define GHO(N,L) extern "C" int impl_gh_##N(G6){ GPRE; const GhostData r=PC_##N::possible_ghosts( GhostData(a,b,c,d,e,f) ); \
  return which==0?r.get_minus(0):which==1?r.get_plus(0):which==2?r.get_minus(1):which==3?r.get_plus(1):which==4?r.get_minus(2):r.get_plus(2); } \
 extern "C" int spec_gh_##N(G6){ GPRE; int mx=0,px=0,my=0,py=0,mz=0,pz=0; L(T_MX) L(T_MY) L(T_MZ) \
  if(a<mx||b<px||c<my||d<py||e<mz||f<pz) vp_reject(); return which==0?a-mx:which==1?b-px:which==2?c-my:which==3?d-py:which==4?e-mz:f-pz; }
GHO(one,L_one) GHO(two,L_two) GHO(fd,L_fd) GHO(three,L_three) GHO(four,L_four)
// the expression offers exactly what its point list leaves of its operand
#define GEX(N,MK) extern "C" bool prove_ghx_##N(int nx,int ny,double*p,double*q,double c0,double c1,double c2,double c3,int gm,int gp){ vp_assume(nx>2); vp_assume(ny>2); vp_assume(gm>=2); vp_assume(gp>=2); vp_assume(gm<9); vp_assume(gp<9); vp_assume(p!=0); vp_assume(q!=0); \
  const GhostData g1(gm),g2(gp); const BoundaryCellInfo bc=BoundaryCellInfo::build<S>(false,false,false); S g(MemoryWindow(IntVec(nx+2*gm,ny+2*gm,4+2*gm)),bc,g1,p,ExternalStorage), h(MemoryWindow(IntVec(nx+2*gp,ny+2*gp,4+2*gp)),bc,g2,q,ExternalStorage); \
  return MK(g+h).expr().possible_ghosts()==PC_##N::possible_ghosts(GhostData(gm<gp?gm:gp)) && MK(g).expr().possible_ghosts()==PC_##N::possible_ghosts(g1); }
GEX(three,LIN(three)) GEX(four,SUM(four)) GEX(two,AVG(two))
#endif
VP_ANCHOR(coef_,"spatialops/NeboStencils.h NeboStencilCoefCollection")
VP_ANCHOR(seq_,"spatialops/NeboStencils.h NeboStencil / NeboSumStencil init, in_sq_construct")
VP_ANCHOR(shf_,"spatialops/NeboStencils.h NeboStencil / NeboSumStencil init with a shift")
VP_ANCHOR(red_,"spatialops/NeboStencils.h NeboStencil / NeboSumStencil reduce_init, in_rd_construct")
VP_ANCHOR(thr_,"spatialops/NeboStencils.h NeboStencil / NeboSumStencil resize, rs_sq_construct")
VP_ANCHOR(nest_,"spatialops/NeboStencils.h nested stencils")
VP_ANCHOR(gh_,"spatialops/NeboStencils.h NeboStencilPointCollection::possible_ghosts")
VP_ANCHOR(ghx_,"spatialops/NeboStencils.h NeboStencil::possible_ghosts / NeboSumStencil::possible_ghosts")
