// B02: boundary conditions through masks: at every masked boundary point, and
// nowhere else, the field takes the value for which
//   destCoef*dest + srcCoef*src = gamma.
#include "fld.h"
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/NeboStencilBuilder.h>
typedef IndexTriplet<0,0,0> O3;
#define G1 1
extern "C" void vp_bits( unsigned int* );
// nx,ny,nz: interior cells; phi: one cell each; gamma: one more in the directions of ext
#define ARGS int nx,int ny,int nz,double*p,double*q,double c0,double c1,double gam
#define PRE vp_assume(nx>2); vp_assume(ny>2); vp_assume(nz>2); vp_assume(nx<500); vp_assume(ny<500); vp_assume(nz<500); vp_assume(p!=0); vp_assume(q!=0)
#define FLDS(P,G,bc) const GhostData gd(G1); const BoundaryCellInfo pb=BoundaryCellInfo::build<P>(bc,bc,bc), gb=BoundaryCellInfo::build<G>(bc,bc,bc); \
  const IntVec n(nx,ny,nz), pn=n+IntVec(2,2,2)+pb.has_extra(), gn=n+IntVec(2,2,2)+gb.has_extra(); P phi(MemoryWindow(pn),pb,gd,p,ExternalStorage); G gamma(MemoryWindow(gn),gb,gd,q,ExternalStorage); \
  const std::vector<IntVec> pts; const SpatialMask<G> m(gamma,pts); vp_bits( const_cast<unsigned int*>( m.mask_values(LOCAL_RAM,0) ) )
// walk phi over [-lo,n+hi) pairing the gamma point at offset go and the phi point at offset so
#define WALK(P,G,lo,hi,go,so,VAL) const IntVec a=lo, e3=n+a+hi, one(1,1,1); \
  P pw( MemoryWindow(pn,one-a,e3), phi ), ps( MemoryWindow(pn,one-a+so,e3), phi ); const G gw( MemoryWindow(gn,one-a+go,e3), gamma ); const SpatialMask<G> mw( MemoryWindow(gn,one-a+go,e3), m ); \
  typename P::iterator i=pw.begin(), is=ps.begin(); const typename P::iterator e=pw.end(); typename G::const_iterator ig=gw.begin(); typename SpatialMask<G>::const_iterator im=mw.begin(); \
  for( ; i!=e; i++, is++, ig++, im++ ) *i = *im ? ( VAL - *is*c1 )/c0 : *i
#define ONEV IntVec(1,1,1)
struct Seq{ template<class E> static INL void walk(E const& e,bool*o){ auto x=e.expr().init(ONEV,ONEV,IntVec(0,0,0)); o[0]=x.eval(); x.next(); o[1]=x.eval(); } enum{ D=0 }; };
struct Shf{ template<class E> static INL void walk(E const& e,bool*o){ auto x=e.expr().init(ONEV,IntVec(0,0,0),IntVec(0,0,1)); o[0]=x.eval(); x.next(); o[1]=x.eval(); } enum{ D=20 }; };
struct Red{ template<class E> static INL void walk(E const& e,bool*o){ auto x=e.expr().reduce_init(ONEV,ONEV,IntVec(0,0,0)); o[0]=x.eval(); o[2]=x.at_end(); o[3]=x.has_length(); x.next(); o[1]=x.eval(); } enum{ D=0 }; };
#ifdef FIELD_EXPRESSION_THREADS
struct Thr{ template<class E> static INL void walk(E const& e,bool*o){ auto r=e.expr().resize(ONEV,IntVec(0,1,1)); auto x=r.init(IntVec(0,0,0),IntVec(1,1,3),IntVec(0,0,1)); o[0]=x.eval(); x.next(); o[1]=x.eval(); } enum{ D=20 }; };
#endif
extern "C" {
#ifndef FIELD_EXPRESSION_THREADS
VP_ANCHOR(nbc, "spatialops/NeboStencilBuilder.h NeboBoundaryConditionBuilder")
#define IV(x,y,z) IntVec(x,y,z)
// gamma at g couples phi at g+D (set) and g+S (read)
#define C(N,P,G,bc,DX,DY,DZ,SX,SY,SZ,MINUS,LO,HI) \
void impl_nbc_##N(ARGS){ PRE; FLDS(P,G,bc); const NeboBoundaryConditionBuilder<IndexTriplet<DX,DY,DZ>,IndexTriplet<SX,SY,SZ>,P,G> b(c0,c1); b(m,phi,gamma,MINUS); } \
void spec_nbc_##N(ARGS){ PRE; FLDS(P,G,bc); WALK(P,G,LO,HI,IV(-(DX),-(DY),-(DZ)),IV(SX-(DX),SY-(DY),SZ-(DZ)),*ig); }
// faces of the scalar volume
C(sxm,SVolField,SSurfXField,0,-1,0,0, 0,0,0,true, IV(1,1,1),IV(0,1,1))
C(sxp,SVolField,SSurfXField,0, 0,0,0,-1,0,0,false,IV(0,1,1),IV(1,1,1))
C(sym,SVolField,SSurfYField,0,0,-1,0, 0,0,0,true, IV(1,1,1),IV(1,0,1))
C(syp,SVolField,SSurfYField,0, 0,0,0,0,-1,0,false,IV(1,0,1),IV(1,1,1))
C(szm,SVolField,SSurfZField,0,0,0,-1, 0,0,0,true, IV(1,1,1),IV(1,1,0))
C(szp,SVolField,SSurfZField,0, 0,0,0,0,0,-1,false,IV(1,1,0),IV(1,1,1))
// on a physical boundary the faces have one more point
C(bxm,SVolField,SSurfXField,1,-1,0,0, 0,0,0,true, IV(1,1,1),IV(0,1,1))
C(byp,SVolField,SSurfYField,1, 0,0,0,0,-1,0,false,IV(1,0,1),IV(1,1,1))
// staggered volumes: faces lie on the other side
C(xxm,XVolField,XSurfXField,0, 0,0,0,1,0,0,true, IV(1,1,1),IV(0,1,1))
C(xxp,XVolField,XSurfXField,0, 1,0,0,0,0,0,false,IV(0,1,1),IV(1,1,1))
C(zym,ZVolField,ZSurfYField,0, 0,-1,0,0,0,0,true, IV(1,1,1),IV(1,0,1))
// reading further inside
C(far,SVolField,SSurfXField,0,-1,0,0, 1,0,0,true, IV(1,1,1),IV(-1,1,1))
// gamma as a scalar and as an expression
#define CG(N,ARG,VAL,HI) \
void impl_nbc_##N(ARGS){ PRE; FLDS(SVolField,SSurfXField,0); const NeboBoundaryConditionBuilder<IndexTriplet<-1,0,0>,IndexTriplet<0,0,0>,SVolField,SSurfXField> b(c0,c1); b(m,phi,ARG,true); } \
void spec_nbc_##N(ARGS){ PRE; FLDS(SVolField,SSurfXField,0); WALK(SVolField,SSurfXField,IV(1,1,1),HI,IV(1,0,0),IV(1,0,0),VAL); }
CG(scalar,gam,gam,IV(0,1,1))
CG(expr,gamma*gam+1.0,(*ig*gam+1.0),IV(0,1,1))
void bad_nbc_sxp(ARGS){ PRE; FLDS(SVolField,SSurfXField,0); WALK(SVolField,SSurfXField,IV(0,1,1),IV(1,1,1),IV(1,0,0),IV(-1,0,0),*ig); }
#endif
// the mask of the neighbouring face, in every evaluation mode: two consecutive cells of a patch of 3x2x1
VP_ANCHOR(shift, "spatialops/NeboStencils.h NeboMaskShift")
#define M(N,P,G,SIDE,MD,AT,FIN) \
void impl_shift_##N##_##MD(double*q,unsigned b0,unsigned b1,bool*o){ vp_assume(q!=0); const GhostData gd(G1); const BoundaryCellInfo gb=BoundaryCellInfo::build<G>(false,false,false); G gamma(MemoryWindow(IntVec(5,4,3)),gb,gd,q,ExternalStorage); \
  const std::vector<IntVec> pts; const SpatialMask<G> m(gamma,pts); unsigned*bw=const_cast<unsigned int*>( m.mask_values(LOCAL_RAM,0) ); bw[0]=b0; bw[1]=b1; const NeboMaskShiftBuilder<G,P> s; MD::walk(s.SIDE(m),o); } \
void spec_shift_##N##_##MD(double*q,unsigned b0,unsigned b1,bool*o){ vp_assume(q!=0); const GhostData gd(G1); const BoundaryCellInfo gb=BoundaryCellInfo::build<G>(false,false,false); G gamma(MemoryWindow(IntVec(5,4,3)),gb,gd,q,ExternalStorage); \
  const std::vector<IntVec> pts; const SpatialMask<G> m(gamma,pts); unsigned*bw=const_cast<unsigned int*>( m.mask_values(LOCAL_RAM,0) ); bw[0]=b0; bw[1]=b1; const int c=MD::D+(AT); o[0]=BIT(c); o[1]=BIT(c+1); FIN }
#define BIT(c) ( ((c)<32?b0:b1) & (1u<<((c)&31)) )!=0
#define FR o[2]=false; o[3]=true;
#ifdef FIELD_EXPRESSION_THREADS
#define MM(N,P,G,SIDE,AT) M(N,P,G,SIDE,Thr,AT,)
#else
#define MM(N,P,G,SIDE,AT) M(N,P,G,SIDE,Seq,AT,) M(N,P,G,SIDE,Shf,AT,) M(N,P,G,SIDE,Red,AT,FR)
#endif
MM(sxm,SVolField,SSurfXField,minus,1) MM(sxp,SVolField,SSurfXField,plus,0)
MM(sym,SVolField,SSurfYField,minus,5) MM(syp,SVolField,SSurfYField,plus,0)
MM(szm,SVolField,SSurfZField,minus,20) MM(szp,SVolField,SSurfZField,plus,0)
MM(xxm,XVolField,XSurfXField,minus,0) MM(yxm,YVolField,YSurfXField,minus,1) MM(zzm,ZVolField,ZSurfZField,minus,0)
}
