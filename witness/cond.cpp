// N02: conditional expressions take the value of the first true clause; boolean
// expressions combine comparisons, masks and plain booleans pointwise.
#include "fld.h"
typedef SVolField F; typedef SpatialMask<F> MK;
struct PutG{ unsigned int*p; ~PutG(){ Pool<unsigned int>::self().put(LOCAL_RAM,p); } };
#define ZERO IntVec(0,0,0)
#define NN const int nx=2; vp_assume(p!=0); vp_assume(q!=0)
#define ARGS double*p, double*q, bool a, bool b, double c, double d, unsigned int bits, double*out
#define DECL NN; const MemoryWindow w( IntVec(nx,1,1) ); const GhostData z(0); const BoundaryCellInfo bc = BoundaryCellInfo::build<F>(false,false,false); \
  F g(w,bc,z,p,ExternalStorage), h(w,bc,z,q,ExternalStorage)
#define SDECL NN; const double gv=p[1], hv=q[1]
// with a mask operand
#define MDECL DECL; const std::vector<IntVec> pts; const MK m(g,pts); unsigned int* bw=const_cast<unsigned int*>(m.mask_values(LOCAL_RAM,0)); bw[0]=bits
#define SMDECL SDECL; unsigned int* bw=Pool<unsigned int>::self().get(LOCAL_RAM,(nx+31)/32); if(bw==0) throw 1; bw[0]=0; PutG pg={bw}; bw[0]=bits; const bool mv=(bits&2u)!=0
#define U_00
#define U_01
#define U_10
#define U_11
#define U_02 M
#define U_12 M
#define U_20 M
#define U_21 M
#define U_22 M
#define DCLQ DECL
#define DCLQM MDECL
#define SDCLQ SDECL
#define SDCLQM SMDECL
#define PASTE_(a,b) a##Q##b
#define PASTE(a,b) PASTE_(a,b)
struct Seq{ static INL void end(double*,bool){} template<class E> static INL double val(E const& e, double*){ auto x=e.expr().init(ZERO,ZERO,ZERO); x.next(); return x.eval(); } static INL double val(const double v, double*){ return v; } };
// two cells: the walk is over exactly after the second one when some operand is a field
struct Red{ template<class E> static INL double val(E const& e, double*out){ auto x=e.expr().reduce_init(ZERO,ZERO,ZERO); out[1]=x.at_end(); x.next(); out[2]=x.at_end(); const double r=x.eval(); x.next(); out[3]=x.at_end(); return r; } static INL double val(const double v, double*out){ end(out,false); return v; }
  static INL void end(double*out, bool f){ out[1]=0; out[2]=0; out[3]=f; } };
constexpr bool walks(const char*s){ return *s!=0 && (*s=='g' || *s=='h' || *s=='m' || walks(s+1)); }
#ifdef FIELD_EXPRESSION_THREADS
struct Thr{ static INL void end(double*,bool){} template<class E> static INL double val(E const& e, double*){ auto r=e.expr().resize(ZERO,ZERO); auto x=r.init(ZERO,IntVec(1,1,1),ZERO); x.next(); return x.eval(); } static INL double val(const double v, double*){ return v; } };
#define MODE Thr
#define PF thr
#else
#define PF seq
#define MODE Seq
#endif
// conditions: B bool, X comparison, M mask; values: D double, F field, E expression
#define iC0 a
#define iC1 (g<h)
#define iC2 m
#define sC0 a
#define sC1 (gv<hv)
#define sC2 mv
#define iK0 b
#define iK1 (g>c)
#define iK2 (!m)
#define sK0 b
#define sK1 (gv>c)
#define sK2 (!mv)
#define iV0 c
#define iV1 g
#define iV2 (g*3.0)
#define sV0 c
#define sV1 gv
#define sV2 (gv*3.0)
#define iW0 d
#define iW1 h
#define iW2 (h+5.0)
#define sW0 d
#define sW1 hv
#define sW2 (hv+5.0)
#define iZ0 7.0
#define iZ1 h
#define iZ2 (g-h)
#define sZ0 7.0
#define sZ1 hv
#define sZ2 (gv-hv)
#define CAT_(a,b,c) a##_##b##_##c
#define CAT(a,b,c) CAT_(a,b,c)
#define DEF(N,MD,PFX,U,I,S) DEF2(N,MD,PFX,U,I,S)
#define DEF2(N,MD,PFX,U,I,S) extern "C" void CAT(impl,PFX,N)(ARGS){ typedef MD M_; PASTE(DCL,U); const double r=M_::val(I,out); out[0]=r; } extern "C" void CAT(spec,PFX,N)(ARGS){ typedef MD M_; PASTE(SDCL,U); constexpr bool f=walks(#I); M_::end(out,f); const double r=(S); out[0]=r; }
#ifdef FIELD_EXPRESSION_THREADS
#define BOTH(N,U,I,S) DEF(N,Thr,thr,U,I,S)
#else
#define BOTH(N,U,I,S) DEF(N,Seq,seq,U,I,S) DEF(N,Red,red,U,I,S)
#endif
// one clause
#define ONE_(C,V,Z) BOTH(one##C##V##Z, U_0##C, cond(iC##C,iV##V)(iZ##Z), sC##C ? sV##V : sZ##Z)
#define ONE(C,V) ONE_(C,V,0) ONE_(C,V,1) ONE_(C,V,2)
ONE(0,0) ONE(0,1) ONE(0,2) ONE(1,0) ONE(1,1) ONE(1,2) ONE(2,0) ONE(2,1) ONE(2,2)
// two clauses
#define TWO_(C,V,K,W,Z) DEF(two##C##V##K##W, MODE, PF, U_##C##K, cond(iC##C,iV##V)(iK##K,iW##W)(iZ##Z), sC##C ? sV##V : sK##K ? sW##W : sZ##Z)
#define TWO(C,V,K,W,Z) TWO_(C,V,K,W,Z)
TWO(0,0,0,0,0) TWO(0,0,1,2,1) TWO(0,0,2,1,2) TWO(0,1,0,1,1) TWO(0,1,1,0,2) TWO(0,1,2,2,0) TWO(0,2,0,2,2) TWO(0,2,1,1,0) TWO(0,2,2,0,1)
TWO(1,0,0,1,2) TWO(1,0,1,0,0) TWO(1,0,2,2,1) TWO(1,1,0,2,0) TWO(1,1,1,1,1) TWO(1,1,2,0,2) TWO(1,2,0,0,1) TWO(1,2,1,2,2) TWO(1,2,2,1,0)
TWO(2,0,0,2,1) TWO(2,0,1,1,2) TWO(2,0,2,0,0) TWO(2,1,0,0,2) TWO(2,1,1,2,0) TWO(2,1,2,1,1) TWO(2,2,0,1,0) TWO(2,2,1,0,1) TWO(2,2,2,2,2)
// longer chains
#define THREE(N,C,V,K,W,X,Y,Z) BOTH(three##N, M, cond(iC##C,iV##V)(iK##K,iW##W)(X,g+h)(iZ##Z), sC##C ? sV##V : sK##K ? sW##W : (Y) ? gv+hv : sZ##Z)
THREE(bool,0,0,0,0,b,b,2) THREE(mix,0,0,1,1,(g==h),(gv==hv),0) THREE(mask,2,2,0,0,m,mv,1) THREE(exp,1,1,2,2,(g!=h),(gv!=hv),2)
BOTH(fourd, , cond(a,1.0)(b,2.0)(a&&b,3.0)(g), a?1.0: b?2.0: (a&&b)?3.0: gv)
BOTH(fourx, M, cond(a,1.0)(b,2.0)(g<h,c)(a,h)(m,d)(g), a?1.0: b?2.0: gv<hv? c: a? hv: mv? d: gv)
BOTH(simple, , cond(a,c)(b,d)(7.0), a?c: b?d: 7.0)
BOTH(plain, , cond(g), gv) BOTH(plaine, , cond(g*3.0), gv*3.0) BOTH(plaind, , cond(c), c)
BOTH(nested, M, cond(g<h,cond(m,c)(g))(h), gv<hv ? (mv?c:gv) : hv)
BOTH(inexpr, , h+cond(g<h,g)(c)*2.0, hv+(gv<hv?gv:c)*2.0)
// logical operators, all operand kinds
#define LOG(N,OP) BOTH(N##01,,cond(a OP (g<h),c)(d), (a OP (gv<hv))?c:d) BOTH(N##02,M,cond(a OP m,c)(d), (a OP mv)?c:d) BOTH(N##10,,cond((g<h) OP a,c)(d), ((gv<hv) OP a)?c:d) \
 BOTH(N##11,,cond((g<h) OP (g>c),c)(d), ((gv<hv) OP (gv>c))?c:d) BOTH(N##12,M,cond((g<h) OP m,c)(d), ((gv<hv) OP mv)?c:d) BOTH(N##20,M,cond(m OP a,c)(d), (mv OP a)?c:d) \
 BOTH(N##21,M,cond(m OP (g<h),c)(d), (mv OP (gv<hv))?c:d) BOTH(N##22,M,cond(m OP m,c)(d), (mv OP mv)?c:d)
LOG(and,&&) LOG(or,||)
BOTH(not1,,cond(!(g<h),c)(d),!(gv<hv)?c:d) BOTH(not2,M,cond(!m,c)(d),!mv?c:d)
BOTH(deep,M,cond(!((g<h)&&m)||(a&&!(g>=c)),c)(d), (!((gv<hv)&&mv)||(a&&!(gv>=c)))?c:d)
#ifndef FIELD_EXPRESSION_THREADS
extern "C" void bad_seq_two1221(ARGS){ SMDECL; const double r=!mv? hv : (gv<hv) ? gv*3.0 : 7.0; out[0]=r; }
#endif
#ifdef FIELD_EXPRESSION_THREADS
extern "C" {
// a mask walked by one chunk of a threaded assignment: the bits of that chunk, in step with a field on the same window
#define LDECL NN; const MemoryWindow w( IntVec(3,3,3) ); const GhostData z(1); const BoundaryCellInfo bc = BoundaryCellInfo::build<F>(false,false,false); const F g(w,bc,z,p,ExternalStorage); \
  const std::vector<IntVec> pts; const MK m(g,pts); unsigned int* bw=const_cast<unsigned int*>(m.mask_values(LOCAL_RAM,0)); bw[0]=bits; typedef NeboMask<Initial,F> LM
#define LSDECL NN; unsigned int* bw=Pool<unsigned int>::self().get(LOCAL_RAM,1); if(bw==0) throw 1; bw[0]=0; PutG pg={bw}; bw[0]=bits
#define LEAF(N,LO,HI,SH,SP,LOC,k,B) bool impl_leaf_##N(double*p,double*q,unsigned int bits){ LDECL; auto x=LM(m).resize( IntVec LO, IntVec HI ).init( IntVec SH, IntVec SP, IntVec LOC ); for( int r=0; r<k; ++r ) x.next(); return x.eval(); } \
  bool spec_leaf_##N(double*p,double*q,unsigned int bits){ LSDECL; return (bits & (1u<<(B)))!=0; }
LEAF(z,(0,1,1),(1,0,1),(0,0,0),(1,1,2),(0,0,1),2,1+3*(1+3*2))
LEAF(x,(1,1,0),(1,1,1),(-1,0,-1),(2,1,1),(1,0,0),4,1+3*(1+3))
LEAF(y,(1,0,1),(0,1,1),(1,-1,0),(1,2,1),(0,0,0),2,1+3*(0+3*1))
bool bad_leaf_z(double*p,double*q,unsigned int bits){ LSDECL; return (bits & (1u<<21))!=0; }
}
#endif
