// N01: every pointwise operator / function, over every combination of operand
// kinds, in every evaluation mode (sequential walk, windowed sub-range walk
// used by threads, and reduction walk).
#include "fld.h"
typedef SVolField F; typedef SpatialField<SingleValue,double> SVF;
#define DECL const BoundaryCellInfo bc = BoundaryCellInfo::build<F>(false,false,false); \
  NN; const MemoryWindow w( IntVec(nx,1,1) ), w1( IntVec(1,1,1) ); const GhostData z(0); \
  F g(w,bc,z,p,ExternalStorage), h(w,bc,z,q,ExternalStorage); \
  SVF s(w1,BoundaryCellInfo::build<SVF>(false,false,false),z,sp,ExternalStorage), t(w1,BoundaryCellInfo::build<SVF>(false,false,false),z,tp,ExternalStorage);
#define NN vp_assume(nx>1); vp_assume(p!=0); vp_assume(q!=0); vp_assume(sp!=0); vp_assume(tp!=0)
#define ARGS int nx, double*p, double*q, double*sp, double*tp, double c, double d, double*out
#define ZERO IntVec(0,0,0)
struct Seq{ template<class E> static INL double val(E const& e){ auto x=e.expr().init(ZERO,ZERO,ZERO); x.next(); return x.eval(); } };
struct Red{ template<class E> static INL double val(E const& e){ auto x=e.expr().reduce_init(ZERO,ZERO,ZERO); x.next(); return x.eval(); } };
#ifdef FIELD_EXPRESSION_THREADS
struct Thr{ template<class E> static INL double val(E const& e){ auto r=e.expr().resize(ZERO,ZERO); auto x=r.init(ZERO,IntVec(1,1,1),ZERO); x.next(); return x.eval(); } };
#endif
#define G (g*3.0)
#define H (h+5.0)
#define S1 (s*7.0)
#define T1 (t+9.0)
#define VG const double g=p[1]; const double h=q[1]; const double s=sp[0]; const double t=tp[0];
#define ALL(N) \
 extern "C" void impl_seq_##N(ARGS){ i_##N<Seq>(nx,p,q,sp,tp,c,d,out); } extern "C" void spec_seq_##N(ARGS){ s_##N(nx,p,q,sp,tp,c,d,out); } \
 extern "C" void impl_red_##N(ARGS){ l_##N<Red>(nx,p,q,sp,tp,c,d,out); } extern "C" void spec_red_##N(ARGS){ ls_##N(nx,p,q,sp,tp,c,d,out); }
#ifdef FIELD_EXPRESSION_THREADS
#define MODES(N) \
 extern "C" void impl_thr_##N(ARGS){ l_##N<Thr>(nx,p,q,sp,tp,c,d,out); } extern "C" void spec_thr_##N(ARGS){ ls_##N(nx,p,q,sp,tp,c,d,out); }
#else
#define MODES(N) ALL(N)
#endif
#define INFIX(N,OP) \
 template<class M> INL void i_##N(ARGS){ DECL; double r[24]; INFIX_I(OP) STORE } \
 INL void s_##N(ARGS){ NN; VG double r[24]; INFIX_S(OP) STORE } \
 template<class M> INL void l_##N(ARGS){ DECL; double r[6]; LIGHT_I(OP) LSTORE } \
 INL void ls_##N(ARGS){ NN; VG double r[6]; LIGHT_S(OP) LSTORE } MODES(N)
#define STORE out[0]=r[0];out[1]=r[1];out[2]=r[2];out[3]=r[3];out[4]=r[4];out[5]=r[5];out[6]=r[6];out[7]=r[7];out[8]=r[8];out[9]=r[9];out[10]=r[10];out[11]=r[11];out[12]=r[12];out[13]=r[13];out[14]=r[14];out[15]=r[15];out[16]=r[16];out[17]=r[17];out[18]=r[18];out[19]=r[19];out[20]=r[20];out[21]=r[21];out[22]=r[22];out[23]=r[23];
#define INFIX_I(OP) r[0]=M::val(c OP h); r[1]=M::val(c OP H); r[2]=M::val(c OP t); r[3]=M::val(c OP T1); \
 r[4]=M::val(g OP d); r[5]=M::val(g OP h); r[6]=M::val(g OP H); r[7]=M::val(g OP t); r[8]=M::val(g OP T1); \
 r[9]=M::val(G OP d); r[10]=M::val(G OP h); r[11]=M::val(G OP H); r[12]=M::val(G OP t); r[13]=M::val(G OP T1); \
 r[14]=M::val(s OP d); r[15]=M::val(s OP h); r[16]=M::val(s OP H); r[17]=M::val(s OP t); r[18]=M::val(s OP T1); \
 r[19]=M::val(S1 OP d); r[20]=M::val(S1 OP h); r[21]=M::val(S1 OP H); r[22]=M::val(S1 OP t); r[23]=M::val(S1 OP T1);
#define INFIX_S(OP) r[0]=(c OP h); r[1]=(c OP H); r[2]=(c OP t); r[3]=(c OP T1); \
 r[4]=(g OP d); r[5]=(g OP h); r[6]=(g OP H); r[7]=(g OP t); r[8]=(g OP T1); \
 r[9]=(G OP d); r[10]=(G OP h); r[11]=(G OP H); r[12]=(G OP t); r[13]=(G OP T1); \
 r[14]=(s OP d); r[15]=(s OP h); r[16]=(s OP H); r[17]=(s OP t); r[18]=(s OP T1); \
 r[19]=(S1 OP d); r[20]=(S1 OP h); r[21]=(S1 OP H); r[22]=(S1 OP t); r[23]=(S1 OP T1);
#define FUN_I(FN) r[0]=M::val(FN(c,h)); r[1]=M::val(FN(c,H)); r[2]=M::val(FN(c,t)); r[3]=M::val(FN(c,T1)); \
 r[4]=M::val(FN(g,d)); r[5]=M::val(FN(g,h)); r[6]=M::val(FN(g,H)); r[7]=M::val(FN(g,t)); r[8]=M::val(FN(g,T1)); \
 r[9]=M::val(FN(G,d)); r[10]=M::val(FN(G,h)); r[11]=M::val(FN(G,H)); r[12]=M::val(FN(G,t)); r[13]=M::val(FN(G,T1)); \
 r[14]=M::val(FN(s,d)); r[15]=M::val(FN(s,h)); r[16]=M::val(FN(s,H)); r[17]=M::val(FN(s,t)); r[18]=M::val(FN(s,T1)); \
 r[19]=M::val(FN(S1,d)); r[20]=M::val(FN(S1,h)); r[21]=M::val(FN(S1,H)); r[22]=M::val(FN(S1,t)); r[23]=M::val(FN(S1,T1));
#define FUN_S(FN) r[0]=(FN(c,h)); r[1]=(FN(c,H)); r[2]=(FN(c,t)); r[3]=(FN(c,T1)); \
 r[4]=(FN(g,d)); r[5]=(FN(g,h)); r[6]=(FN(g,H)); r[7]=(FN(g,t)); r[8]=(FN(g,T1)); \
 r[9]=(FN(G,d)); r[10]=(FN(G,h)); r[11]=(FN(G,H)); r[12]=(FN(G,t)); r[13]=(FN(G,T1)); \
 r[14]=(FN(s,d)); r[15]=(FN(s,h)); r[16]=(FN(s,H)); r[17]=(FN(s,t)); r[18]=(FN(s,T1)); \
 r[19]=(FN(S1,d)); r[20]=(FN(S1,h)); r[21]=(FN(S1,H)); r[22]=(FN(S1,t)); r[23]=(FN(S1,T1));
// the evaluation code behind every combination is shared; the reduction and sub-range walks are analysed on six of them
#define LIGHT_I(OP) r[0]=M::val(c OP h); r[1]=M::val(g OP d); r[2]=M::val(g OP h); r[3]=M::val(G OP H); r[4]=M::val(s OP T1); r[5]=M::val(S1 OP h);
#define LIGHT_S(OP) r[0]=(c OP h); r[1]=(g OP d); r[2]=(g OP h); r[3]=(G OP H); r[4]=(s OP T1); r[5]=(S1 OP h);
#define LFUN_I(FN) r[0]=M::val(FN(c,h)); r[1]=M::val(FN(g,d)); r[2]=M::val(FN(g,h)); r[3]=M::val(FN(G,H)); r[4]=M::val(FN(s,T1)); r[5]=M::val(FN(S1,h));
#define LFUN_S(FN) r[0]=(FN(c,h)); r[1]=(FN(g,d)); r[2]=(FN(g,h)); r[3]=(FN(G,H)); r[4]=(FN(s,T1)); r[5]=(FN(S1,h));
#define LSTORE out[0]=r[0];out[1]=r[1];out[2]=r[2];out[3]=r[3];out[4]=r[4];out[5]=r[5];
#define FUN2(N,FN,SP) \
 template<class M> INL void i_##N(ARGS){ DECL; double r[24]; FUN_I(FN) STORE } \
 INL void s_##N(ARGS){ NN; VG double r[24]; FUN_S(SP) STORE } \
 template<class M> INL void l_##N(ARGS){ DECL; double r[6]; LFUN_I(FN) LSTORE } \
 INL void ls_##N(ARGS){ NN; VG double r[6]; LFUN_S(SP) LSTORE } MODES(N)
#define UN_I(FN) out[0]=M::val(FN(g)); out[1]=M::val(FN(G)); out[2]=M::val(FN(s)); out[3]=M::val(FN(S1));
#define UN_S(FN) out[0]=(FN(g)); out[1]=(FN(G)); out[2]=(FN(s)); out[3]=(FN(S1));
#define FUN1(N,FN,SP) \
 template<class M> INL void i_##N(ARGS){ DECL; double r0,r1,r2,r3; r0=M::val(FN(g)); r1=M::val(FN(G)); r2=M::val(FN(s)); r3=M::val(FN(S1)); out[0]=r0;out[1]=r1;out[2]=r2;out[3]=r3; } \
 INL void s_##N(ARGS){ NN; VG double r0=SP(g),r1=SP(G),r2=SP(s),r3=SP(S1); out[0]=r0;out[1]=r1;out[2]=r2;out[3]=r3; } template<class M> INL void l_##N(ARGS){ i_##N<M>(nx,p,q,sp,tp,c,d,out); } INL void ls_##N(ARGS){ s_##N(nx,p,q,sp,tp,c,d,out); } MODES(N)
INL double mx(double a,double b){ return a>b?a:b; } INL double mn(double a,double b){ return a<b?a:b; }
INL double ng(double a){ return -a; }
INFIX(add,+) INFIX(sub,-) INFIX(mul,*) INFIX(div,/)
INFIX(lt,<) INFIX(le,<=) INFIX(gt,>) INFIX(ge,>=) INFIX(eq,==) INFIX(ne,!=)
FUN2(pow,pow,std::pow) FUN2(max,SpatialOps::max,mx) FUN2(min,SpatialOps::min,mn)
FUN1(sin,sin,std::sin) FUN1(cos,cos,std::cos) FUN1(tan,tan,std::tan) FUN1(exp,exp,std::exp) FUN1(tanh,tanh,std::tanh) FUN1(abs,abs,std::fabs) FUN1(neg,-,ng)
FUN1(sqrt,sqrt,std::sqrt) FUN1(log,log,std::log) FUN1(log10,log10,std::log10) FUN1(erf,erf,std::erf) FUN1(erfc,erfc,std::erfc)

// the walk over an expression ends with its shortest field operand; scalars never end it
#ifndef FIELD_EXPRESSION_THREADS
#define ENDF(N,E2,E1) \
 extern "C" bool impl_end2_##N(ARGS,int ny){ DECL; vp_assume(ny>0); h2; auto x=(E2).expr().reduce_init(ZERO,ZERO,ZERO); x.next(); return x.at_end(); } \
 extern "C" bool spec_end2_##N(ARGS,int ny){ NN; vp_assume(ny>0); return ny==1; } \
 extern "C" bool prove_end1_##N(ARGS){ DECL; auto x=(E1).expr().reduce_init(ZERO,ZERO,ZERO); x.next(); return !x.at_end() && x.has_length(); } \
 extern "C" bool prove_ghost_##N(ARGS,int a0,int a1,int a2,int b0,int b1,int b2,int c0,int c1,int c2,int d0,int d1,int d2){ GDECL; \
   return (E2).expr().possible_ghosts() == GhostData( IntVec(IMIN(a0,c0),IMIN(a1,c1),IMIN(a2,c2)), IntVec(IMIN(b0,d0),IMIN(b1,d1),IMIN(b2,d2)) ); }
#define h2 const F k( MemoryWindow(IntVec(ny,1,1)), bc, z, q, ExternalStorage )
#define GDECL NN; const BoundaryCellInfo bc = BoundaryCellInfo::build<F>(false,false,false); \
  vp_assume(a0>=0&&a1>=0&&a2>=0&&b0>=0&&b1>=0&&b2>=0&&c0>=0&&c1>=0&&c2>=0&&d0>=0&&d1>=0&&d2>=0); \
  F g( MemoryWindow( IntVec(a0+b0+nx,a1+b1+nx,a2+b2+nx) ), bc, GhostData(IntVec(a0,a1,a2),IntVec(b0,b1,b2)), p, ExternalStorage ); \
  F k( MemoryWindow( IntVec(c0+d0+nx,c1+d1+nx,c2+d2+nx) ), bc, GhostData(IntVec(c0,c1,c2),IntVec(d0,d1,d2)), q, ExternalStorage )
#define ENDO(N,OP) ENDF(N,g OP k,g OP c) ENDF(r##N,k OP g, c OP h)
#define ENDB(N,FN) ENDF(N,FN(g,k),FN(g,c)) ENDF(r##N,FN(k,g),FN(c,h))
ENDO(add,+) ENDO(sub,-) ENDO(mul,*) ENDO(div,/) ENDO(lt,<) ENDO(le,<=) ENDO(gt,>) ENDO(ge,>=) ENDO(eq,==) ENDO(ne,!=) ENDB(pow,pow) ENDB(max,SpatialOps::max) ENDB(min,SpatialOps::min)
#endif
#ifndef FIELD_EXPRESSION_THREADS
// positive control: one operand combination swapped
extern "C" void bad_seq_sub(ARGS){ NN; VG double r[24]; INFIX_S(-) r[10]=h-G; STORE }
#endif
VP_ANCHOR(seq_,"spatialops/NeboOperators.h operators and functions, sequential walk")
VP_ANCHOR(red_,"spatialops/NeboOperators.h operators and functions, reduction walk")
VP_ANCHOR(thr_,"spatialops/NeboOperators.h operators and functions, sub-range walk")
VP_ANCHOR(end,"spatialops/NeboOperators.h at_end/has_length")
VP_ANCHOR(ghost_,"spatialops/NeboOperators.h possible_ghosts")
