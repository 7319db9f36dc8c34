// G01 ghost bookkeeping, G02 integer triplets and index types, V01 field windows from patch sizes
#include "fld.h"
#include <spatialops/structured/FVTools.h>
typedef GhostData GD;
INL GD mk( const int* g ){ return GD( g[0],g[1],g[2],g[3],g[4],g[5] ); }            // nx,px,ny,py,nz,pz
INL void put( const GD& g, int* o ){ for( int d=0; d<3; ++d ){ o[2*d]=g.get_minus(d); o[2*d+1]=g.get_plus(d); o[6+2*d]=g.get_minus()[d]; o[7+2*d]=g.get_plus()[d]; } }
#define GA(p) int p##0,int p##1,int p##2,int p##3,int p##4,int p##5
#define GNN(p) vp_assume(p##0>=0);vp_assume(p##1>=0);vp_assume(p##2>=0);vp_assume(p##3>=0);vp_assume(p##4>=0);vp_assume(p##5>=0)
#define GFIN(p) vp_assume(p##0<100);vp_assume(p##1<100);vp_assume(p##2<100);vp_assume(p##3<100);vp_assume(p##4<100);vp_assume(p##5<100)
#define G(p) GD( p##0,p##1,p##2,p##3,p##4,p##5 )
#define OUT6(a,b,c,d,e,f) o[0]=a;o[1]=b;o[2]=c;o[3]=d;o[4]=e;o[5]=f; for(int q=0;q<6;++q) o[6+q]=o[q]
extern "C" {
VP_ANCHOR(g_ctor, "spatialops/structured/GhostData.cpp GhostData::GhostData")
void impl_g_ctor(GA(a),int*o){ GNN(a); put( G(a), o ); }
void spec_g_ctor(GA(a),int*o){ GNN(a); OUT6(a0,a1,a2,a3,a4,a5); }
void bad_g_ctor(GA(a),int*o){ GNN(a); OUT6(a0,a1,a2,a4,a3,a5); }
VP_ANCHOR(g_ctorvec, "spatialops/structured/GhostData.cpp GhostData::GhostData")
void impl_g_ctorvec(GA(a),int*o){ GNN(a); put( GD( IntVec(a0,a2,a4), IntVec(a1,a3,a5) ), o ); }
void spec_g_ctorvec(GA(a),int*o){ GNN(a); OUT6(a0,a1,a2,a3,a4,a5); }
VP_ANCHOR(g_ctorint, "spatialops/structured/GhostData.cpp GhostData::GhostData")
void impl_g_ctorint(int n,int*o){ vp_assume(n>=0); put( GD(n), o ); GD z; put( z, o+12 ); }
void spec_g_ctorint(int n,int*o){ vp_assume(n>=0); for( int q=0; q<12; ++q ){ o[q]=n; o[12+q]=0; } }
VP_ANCHOR(g_set, "spatialops/structured/GhostData.cpp GhostData::set_minus, set_plus")
void impl_g_set(GA(a),GA(b),int*o){ GNN(a); GNN(b); GD g=G(a); g.set_minus( IntVec(b0,b2,b4) ); put( g, o ); GD h=G(a); h.set_plus( IntVec(b1,b3,b5) ); put( h, o+12 ); }
void spec_g_set(GA(a),GA(b),int*o){ GNN(a); GNN(b); OUT6(b0,a1,b2,a3,b4,a5); o+=12; OUT6(a0,b1,a2,b3,a4,b5); }
VP_ANCHOR(g_copy, "spatialops/structured/GhostData.cpp GhostData copy/assign")
void impl_g_copy(GA(a),GA(b),int*o){ GNN(a); GNN(b); GD g=G(a); GD h=G(b); GD c(g); h=g; put( c, o ); put( h, o+12 ); put( g, o+24 ); }
void spec_g_copy(GA(a),GA(b),int*o){ GNN(a); GNN(b); for( int k=0; k<3; ++k ){ OUT6(a0,a1,a2,a3,a4,a5); o+=12; } }
VP_ANCHOR(g_add, "spatialops/structured/GhostData.cpp GhostData::operator+")
void impl_g_add(GA(a),GA(b),int*o){ GNN(a); GNN(b); GFIN(a); GFIN(b); GD g=G(a); put( g+G(b), o ); put( g, o+12 ); g+=G(b); put( g, o+24 ); }
void spec_g_add(GA(a),GA(b),int*o){ GNN(a); GNN(b); GFIN(a); GFIN(b); OUT6(a0+b0,a1+b1,a2+b2,a3+b3,a4+b4,a5+b5); o+=12; OUT6(a0,a1,a2,a3,a4,a5); o+=12; OUT6(a0+b0,a1+b1,a2+b2,a3+b3,a4+b4,a5+b5); }
VP_ANCHOR(g_sub, "spatialops/structured/GhostData.cpp GhostData::operator-")
#define GE(a,b) vp_assume(a##0>=b##0);vp_assume(a##1>=b##1);vp_assume(a##2>=b##2);vp_assume(a##3>=b##3);vp_assume(a##4>=b##4);vp_assume(a##5>=b##5)
void impl_g_sub(GA(a),GA(b),int*o){ GNN(a); GNN(b); GFIN(a); GFIN(b); GE(a,b); GD g=G(a); put( g-G(b), o ); put( g, o+12 ); g-=G(b); put( g, o+24 ); }
void spec_g_sub(GA(a),GA(b),int*o){ GNN(a); GNN(b); GFIN(a); GFIN(b); GE(a,b); OUT6(a0-b0,a1-b1,a2-b2,a3-b3,a4-b4,a5-b5); o+=12; OUT6(a0,a1,a2,a3,a4,a5); o+=12; OUT6(a0-b0,a1-b1,a2-b2,a3-b3,a4-b4,a5-b5); }
// unlimited ghosts (scalars) absorb additions, and cannot be subtracted
VP_ANCHOR(g_inf, "spatialops/structured/GhostData.cpp GhostData::operator+=")
void impl_g_inf(GA(b),int*o){ GNN(b); GFIN(b); GD inf(GHOST_MAX); GD f=G(b); put( inf+f, o ); put( f+inf, o+12 ); GD g=inf; g+=f; put( g, o+24 ); f+=inf; put( f, o+36 ); GD h=inf; h+=inf; put(h,o+48); h+=G(b); put(h,o+60); }
void spec_g_inf(GA(b),int*o){ GNN(b); GFIN(b); for( int q=0; q<72; ++q ) o[q]=GHOST_MAX; }
void impl_g_infchain(GA(b),GA(c),int how,int*o){ GNN(b); GFIN(b); GNN(c); GFIN(c); GD f=G(b); f+=GD(GHOST_MAX); GD k(f), d=G(c), e=G(b)+GD(GHOST_MAX); if( how==1 ) d-=f; if( how==2 ) d-=k; if( how==3 ) d=d-e; f+=G(c); put( f, o ); put( k+G(c), o+12 ); put( e+G(c), o+24 ); put( d, o+36 ); put( min(f,e)+d, o+48 ); }
void spec_g_infchain(GA(b),GA(c),int how,int*o){ GNN(b); GFIN(b); GNN(c); GFIN(c); if( how==1 || how==2 || how==3 ) throw 1; for( int q=0; q<36; ++q ) o[q]=GHOST_MAX; o+=36; OUT6(c0,c1,c2,c3,c4,c5); o+=12; for( int q=0; q<12; ++q ) o[q]=GHOST_MAX; }
VP_ANCHOR(g_subinf, "spatialops/structured/GhostData.cpp GhostData::operator-=")
void impl_g_subinf(GA(b),int how,int*o){ GNN(b); GFIN(b); GD f=G(b), inf(GHOST_MAX); if( how==1 ) f-=inf; if( how==2 ) f=inf-inf; if( how==3 ) f=f-inf; put( f, o ); }
void spec_g_subinf(GA(b),int how,int*o){ GNN(b); GFIN(b); if( how==1 || how==2 || how==3 ) throw 1; OUT6(b0,b1,b2,b3,b4,b5); }
#define NEG(p) (p##0<0||p##1<0||p##2<0||p##3<0||p##4<0||p##5<0)
VP_ANCHOR(g_neg, "spatialops/structured/GhostData.cpp check_valid")
void impl_g_neg(GA(a),int*o){ put( G(a), o ); }
void spec_g_neg(GA(a),int*o){ assert( !NEG(a) ); OUT6(a0,a1,a2,a3,a4,a5); }
void impl_g_negvec(GA(a),int*o){ put( GD( IntVec(a0,a2,a4), IntVec(a1,a3,a5) ), o ); }
void spec_g_negvec(GA(a),int*o){ assert( !NEG(a) ); OUT6(a0,a1,a2,a3,a4,a5); }
#define LTA(a,b) (a##0<b##0||a##1<b##1||a##2<b##2||a##3<b##3||a##4<b##4||a##5<b##5)
void impl_g_negsub(GA(a),GA(b),int*o){ GNN(a); GNN(b); GFIN(a); GFIN(b); GD g=G(a); g-=G(b); put( g, o ); }
void spec_g_negsub(GA(a),GA(b),int*o){ GNN(a); GNN(b); GFIN(a); GFIN(b); assert( !LTA(a,b) ); OUT6(a0-b0,a1-b1,a2-b2,a3-b3,a4-b4,a5-b5); }
VP_ANCHOR(g_eq, "spatialops/structured/GhostData.cpp GhostData::operator==")
bool impl_g_eq(GA(a),GA(b)){ GNN(a); GNN(b); return G(a)==G(b); }
bool spec_g_eq(GA(a),GA(b)){ GNN(a); GNN(b); return a0==b0&&a1==b1&&a2==b2&&a3==b3&&a4==b4&&a5==b5; }
VP_ANCHOR(g_min, "spatialops/structured/GhostData.cpp min")
void impl_g_min(GA(a),GA(b),int*o){ GNN(a); GNN(b); put( min(G(a),G(b)), o ); }
void spec_g_min(GA(a),GA(b),int*o){ GNN(a); GNN(b); OUT6(IMIN(a0,b0),IMIN(a1,b1),IMIN(a2,b2),IMIN(a3,b3),IMIN(a4,b4),IMIN(a5,b5)); }
VP_ANCHOR(g_point, "spatialops/structured/GhostData.cpp point_to_ghost")
void impl_g_point(int x,int y,int z,int*o){ put( point_to_ghost( IntVec(x,y,z) ), o ); }
#define POS(v) ((v)>0?(v):0)
void spec_g_point(int x,int y,int z,int*o){ OUT6(POS(-x),POS(x),POS(-y),POS(y),POS(-z),POS(z)); }

// a count is unlimited only if every face is; this stays true through copies and changed faces
#define INF6(a,b,c,d,e,f) ((a)>=GHOST_MAX&&(b)>=GHOST_MAX&&(c)>=GHOST_MAX&&(d)>=GHOST_MAX&&(e)>=GHOST_MAX&&(f)>=GHOST_MAX)
#define SUM6(a,b,c,d,e,f,B) if( INF6(a,b,c,d,e,f) ){ OUT6(a,b,c,d,e,f); } else if( INF6(B##0,B##1,B##2,B##3,B##4,B##5) ){ OUT6(B##0,B##1,B##2,B##3,B##4,B##5); } else { OUT6(a+B##0,b+B##1,c+B##2,d+B##3,e+B##4,f+B##5); }
VP_ANCHOR(g_any, "spatialops/structured/GhostData.cpp is_ghost_infinite")
void impl_g_any(GA(a),GA(b),int*o){ GNN(a); GNN(b); put( G(a)+G(b), o ); }
void spec_g_any(GA(a),GA(b),int*o){ GNN(a); GNN(b); SUM6(a0,a1,a2,a3,a4,a5,b) }
void bad_g_any(GA(a),GA(b),int*o){ GNN(a); GNN(b); if( INF6(a0,a1,a2,a3,a4,a4) ){ OUT6(a0,a1,a2,a3,a4,a5); } else { SUM6(a0,a1,a2,a3,a4,a5,b) } }
void impl_g_anyvec(GA(a),GA(b),int*o){ GNN(a); GNN(b); put( GD( IntVec(a0,a2,a4), IntVec(a1,a3,a5) )+G(b), o ); }
void spec_g_anyvec(GA(a),GA(b),int*o){ GNN(a); GNN(b); SUM6(a0,a1,a2,a3,a4,a5,b) }
void impl_g_anysetm(GA(a),GA(b),int x,int y,int z,int*o){ GNN(a); GNN(b); vp_assume(x>=0);vp_assume(y>=0);vp_assume(z>=0); GD g=G(a); g.set_minus( IntVec(x,y,z) ); g+=G(b); put( g, o ); }
void spec_g_anysetm(GA(a),GA(b),int x,int y,int z,int*o){ GNN(a); GNN(b); vp_assume(x>=0);vp_assume(y>=0);vp_assume(z>=0); SUM6(x,a1,y,a3,z,a5,b) }
void impl_g_anysetp(GA(a),GA(b),int x,int y,int z,int*o){ GNN(a); GNN(b); vp_assume(x>=0);vp_assume(y>=0);vp_assume(z>=0); GD g=G(a); g.set_plus( IntVec(x,y,z) ); g+=G(b); put( g, o ); }
void spec_g_anysetp(GA(a),GA(b),int x,int y,int z,int*o){ GNN(a); GNN(b); vp_assume(x>=0);vp_assume(y>=0);vp_assume(z>=0); SUM6(a0,x,a2,y,a4,z,b) }
void impl_g_anycopy(GA(a),GA(b),int*o){ GNN(a); GNN(b); GD g=G(a), c(g), h; h=g; put( c+G(b), o ); put( h+G(b), o+12 ); }
void spec_g_anycopy(GA(a),GA(b),int*o){ GNN(a); GNN(b); SUM6(a0,a1,a2,a3,a4,a5,b) o+=12; SUM6(a0,a1,a2,a3,a4,a5,b) }

// ---- integer triplets
VP_ANCHOR(v_vec, "spatialops/structured/Numeric3Vec.h Numeric3Vec( const std::vector<T>& )")
void impl_v_vec( const std::vector<int>* v, int* o ){ const IntVec r(*v); o[0]=r[0]; o[1]=r[1]; o[2]=r[2]; }
void spec_v_vec( const std::vector<int>* v, int* o ){ assert( v->size()==3 ); const int*p=&(*v)[0]; const int x=p[0], y=p[1], z=p[2]; o[0]=x; o[1]=y; o[2]=z; }
#define V3(p) double p##0,double p##1,double p##2
#define VI(p) int p##0,int p##1,int p##2
#define IV(p) IntVec(p##0,p##1,p##2)
#define P3(v,o) { const IntVec& r_=v; for( int q=0; q<3; ++q ) o[q]=r_[q]; }
VP_ANCHOR(v_arith, "spatialops/structured/Numeric3Vec.h Numeric3Vec")
void impl_v_arith(VI(a),VI(b),int s,int*o){ IntVec u=IV(a), v=IV(b); P3(u+v,o); P3(u-v,(o+3)); P3(u*v,(o+6)); P3(u+s,(o+9)); P3(u*s,(o+12)); IntVec w=u; w+=v; P3(w,(o+15)); w=u; w-=v; P3(w,(o+18)); o[21]=u.sum(); P3(u,(o+22)); IntVec z; P3(z,(o+25)); z[0]=s; z[1]=a0; z[2]=b0; P3(z,(o+28)); const int r[3]={a0,b1,a2}; P3(IntVec(r),(o+31)); }
void spec_v_arith(VI(a),VI(b),int s,int*o){ const int A[3]={a0,a1,a2}, B[3]={b0,b1,b2}; for( int q=0; q<3; ++q ){ o[q]=A[q]+B[q]; o[3+q]=A[q]-B[q]; o[6+q]=A[q]*B[q]; o[9+q]=A[q]+s; o[12+q]=A[q]*s; o[15+q]=A[q]+B[q]; o[18+q]=A[q]-B[q]; o[22+q]=A[q]; o[25+q]=0; } o[21]=a0+a1+a2; o[28]=s; o[29]=a0; o[30]=b0; o[31]=a0; o[32]=b1; o[33]=a2; }
VP_ANCHOR(v_div, "spatialops/structured/Numeric3Vec.h Numeric3Vec")
void impl_v_div(VI(a),VI(b),int s,int*o){ vp_assume(a0>=0);vp_assume(a1>=0);vp_assume(a2>=0);vp_assume(b0>0);vp_assume(b1>0);vp_assume(b2>0);vp_assume(s>0); IntVec u=IV(a), v=IV(b); P3(u/v,o); P3(u/s,(o+3)); }
void spec_v_div(VI(a),VI(b),int s,int*o){ vp_assume(a0>=0);vp_assume(a1>=0);vp_assume(a2>=0);vp_assume(b0>0);vp_assume(b1>0);vp_assume(b2>0);vp_assume(s>0); o[0]=a0/b0; o[1]=a1/b1; o[2]=a2/b2; o[3]=a0/s; o[4]=a1/s; o[5]=a2/s; }
VP_ANCHOR(v_dbl, "spatialops/structured/Numeric3Vec.h Numeric3Vec")
typedef Numeric3Vec<double> DV;
void impl_v_dbl(V3(a),V3(b),double s,double*o){ DV u(a0,a1,a2), v(b0,b1,b2); DV r=u+v; for( int q=0;q<3;++q ) o[q]=r[q]; r=u-v; for( int q=0;q<3;++q ) o[3+q]=r[q]; r=u*v; for( int q=0;q<3;++q ) o[6+q]=r[q]; r=u*s; for( int q=0;q<3;++q ) o[9+q]=r[q]; r=u/s; for( int q=0;q<3;++q ) o[12+q]=r[q]; o[15]=u.sum(); }
void spec_v_dbl(V3(a),V3(b),double s,double*o){ const double A[3]={a0,a1,a2}, B[3]={b0,b1,b2}; for( int q=0; q<3; ++q ){ o[q]=A[q]+B[q]; o[3+q]=A[q]-B[q]; o[6+q]=A[q]*B[q]; o[9+q]=A[q]*s; o[12+q]=A[q]/s; } o[15]=a0+a1+a2; }
VP_ANCHOR(v_eq, "spatialops/structured/Numeric3Vec.h operator==")
bool impl_v_eq(VI(a),VI(b)){ return IV(a)==IV(b); }
bool spec_v_eq(VI(a),VI(b)){ return a0==b0&&a1==b1&&a2==b2; }
VP_ANCHOR(v_ne, "spatialops/structured/Numeric3Vec.h operator!=")
bool impl_v_ne(VI(a),VI(b)){ return IV(a)!=IV(b); }
bool spec_v_ne(VI(a),VI(b)){ return !(a0==b0&&a1==b1&&a2==b2); }
VP_ANCHOR(v_min, "spatialops/structured/IntVec.h min")
void impl_v_min(VI(a),VI(b),int*o){ P3(min(IV(a),IV(b)),o); }
void spec_v_min(VI(a),VI(b),int*o){ o[0]=IMIN(a0,b0); o[1]=IMIN(a1,b1); o[2]=IMIN(a2,b2); }
VP_ANCHOR(v_conv, "spatialops/structured/Numeric3Vec.h Numeric3Vec(Numeric3Vec<T1>)")
void impl_v_conv(VI(a),double*o){ DV d( IV(a) ); for( int q=0; q<3; ++q ) o[q]=d[q]; }
void spec_v_conv(VI(a),double*o){ o[0]=a0;o[1]=a1;o[2]=a2; }
VP_ANCHOR(v_flat, "spatialops/structured/IntVec.h ijk_to_flat, flat_to_ijk")
#define INB vp_assume(n0>0);vp_assume(n1>0);vp_assume(n2>0);vp_assume(a0>=0);vp_assume(a1>=0);vp_assume(a2>=0);vp_assume(a0<n0);vp_assume(a1<n1);vp_assume(a2<n2)
void impl_v_flat(VI(n),VI(a),int*o){ INB; o[0]=ijk_to_flat( IV(n), IV(a) ); const IntVec r = flat_to_ijk( IV(n), a0+n0*(a1+n1*a2) ); P3(r,(o+1)); }
void spec_v_flat(VI(n),VI(a),int*o){ INB; o[0]=a0+n0*(a1+n1*a2); o[1]=a0; o[2]=a1; o[3]=a2; }

// ---- windows of fields from patch sizes
#define BCA bool bx,bool by,bool bz
#define XT(F) F::Location::BCExtra::int_vec()
#define FX(F,X,Y,Z) \
  void impl_bc_##F(BCA,int*o){ const BoundaryCellInfo b = BoundaryCellInfo::build<F>(bx,by,bz); for( int d=0; d<3; ++d ){ o[d]=b.has_bc(d); o[3+d]=b.has_bc()[d]; o[6+d]=b.has_extra(d); o[9+d]=b.has_extra()[d]; } } \
  void spec_bc_##F(BCA,int*o){ const int B[3]={bx,by,bz}, E[3]={bx?X:0,by?Y:0,bz?Z:0}; for( int d=0; d<3; ++d ){ o[d]=B[d]; o[3+d]=B[d]; o[6+d]=E[d]; o[9+d]=E[d]; } } \
  void impl_win_##F(NARGS,GA(a),BCA,int*o){ NPRE; GNN(a); const MemoryWindow w = get_window_with_ghost( IntVec(nx,ny,nz), G(a), BoundaryCellInfo::build<F>(bx,by,bz) ); for( int d=0; d<3; ++d ){ o[d]=w.glob_dim(d); o[3+d]=w.offset(d); o[6+d]=w.extent(d); } } \
  void spec_win_##F(NARGS,GA(a),BCA,int*o){ NPRE; GNN(a); o[0]=o[6]= nx>1 ? nx+a0+a1+(bx?X:0) : 1; o[1]=o[7]= ny>1 ? ny+a2+a3+(by?Y:0) : 1; o[2]=o[8]= nz>1 ? nz+a4+a5+(bz?Z:0) : 1; o[3]=o[4]=o[5]=0; }
VP_ANCHOR(bc_, "spatialops/structured/BoundaryCellInfo.h BoundaryCellInfo; FVStaggeredLocationTypes.h BCExtra")
VP_ANCHOR(win_, "spatialops/structured/FVTools.h get_window_with_ghost, get_dim_with_ghost")
FX(SVolField,0,0,0) FX(SSurfXField,1,0,0) FX(SSurfYField,0,1,0) FX(SSurfZField,0,0,1)
FX(XVolField,1,0,0) FX(XSurfXField,0,0,0) FX(XSurfYField,0,1,0) FX(XSurfZField,0,0,1)
FX(YVolField,0,1,0) FX(YSurfXField,1,0,0) FX(YSurfYField,0,0,0) FX(YSurfZField,0,0,1)
FX(ZVolField,0,0,1) FX(ZSurfXField,1,0,0) FX(ZSurfYField,0,1,0) FX(ZSurfZField,0,0,0)
VP_ANCHOR(bcv, "spatialops/structured/BoundaryCellInfo.h BoundaryCellInfo::build(IntVec), copy, assign")
void impl_bcv(BCA,int*o){ const BoundaryCellInfo b = BoundaryCellInfo::build<SSurfYField>(IntVec(bx,by,bz)); BoundaryCellInfo c(b); BoundaryCellInfo e = BoundaryCellInfo::build<SSurfXField>(); for( int d=0; d<3; ++d ){ o[d]=c.has_bc(d); o[3+d]=c.has_extra(d); o[6+d]=e.has_bc(d); o[9+d]=e.has_extra(d); } e=b; for( int d=0; d<3; ++d ){ o[12+d]=e.has_bc(d); o[15+d]=e.has_extra(d); } }
void spec_bcv(BCA,int*o){ o[0]=o[12]=bx; o[1]=o[13]=by; o[2]=o[14]=bz; o[3]=o[5]=o[15]=o[17]=0; o[4]=o[16]=by?1:0; for( int d=6; d<12; ++d ) o[d]=0; }
}
