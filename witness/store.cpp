// F06 scratch fields
#define VP_NO_POOL
#include "fld.h"
#include <spatialops/structured/FVTools.h>
#include <spatialops/structured/SpatialFieldStore.h>
extern "C" double* vp_get( int, unsigned long );
extern "C" void vp_put( int, double* );
extern char vp_pool[];
namespace SpatialOps{ namespace structured{
template<> Pool<double>& Pool<double>::self(){ return *reinterpret_cast< Pool<double>* >( vp_pool ); }
template<> double* Pool<double>::get( const MemoryType m, const size_t n ){ return vp_get( m, n ); }
template<> void Pool<double>::put( const MemoryType m, double* t ){ vp_put( m, t ); }
}}
#define GA(p) int p##0,int p##1,int p##2,int p##3,int p##4,int p##5
#define GNN(p) vp_assume(p##0>=0);vp_assume(p##1>=0);vp_assume(p##2>=0);vp_assume(p##3>=0);vp_assume(p##4>=0);vp_assume(p##5>=0)
#define G(p) GhostData( p##0,p##1,p##2,p##3,p##4,p##5 )
#define BCA bool bx,bool by,bool bz
#define HPRE GNN(h); vp_assume(h0<=g0);vp_assume(h1<=g1);vp_assume(h2<=g2);vp_assume(h3<=g3);vp_assume(h4<=g4);vp_assume(h5<=g5)
INL void outw( const MemoryWindow& w, int* o ){ for( int d=0; d<3; ++d ){ o[d]=w.glob_dim(d); o[3+d]=w.offset(d); o[6+d]=w.extent(d); } }
INL void outg( const GhostData& g, int* o ){ for( int d=0; d<3; ++d ){ o[2*d]=g.get_minus(d); o[2*d+1]=g.get_plus(d); } }
INL void setw( int* o, int a,int b,int c,int d,int e,int f,int g,int h,int i ){ o[0]=a;o[1]=b;o[2]=c;o[3]=d;o[4]=e;o[5]=f;o[6]=g;o[7]=h;o[8]=i; }
INL void setg( int* o, int a,int b,int c,int d,int e,int f ){ o[0]=a;o[1]=b;o[2]=c;o[3]=d;o[4]=e;o[5]=f; }
template<typename F> INL void report( const F& f, int* o ){ outw( f.window_with_ghost(), o ); outw( f.window_without_ghost(), o+9 ); outg( f.get_ghost_data(), o+18 ); outg( f.get_valid_ghost_data(), o+24 );
  for( int d=0; d<3; ++d ){ o[30+d]=f.boundary_info().has_bc(d); o[33+d]=f.boundary_info().has_extra(d); } o[36]=f.memory_device_type()==LOCAL_RAM; o[37]=f.device_index(); }
// number of points along one direction of a patch of n cells
INL int pts( const int n, const int m, const int p, const bool b, const bool x ){ return n==1 ? 1 : n+m+p+((b&&x)?1:0); }
INL int off( const int n, const int m ){ return n==1 ? 0 : m; }
template<typename F> struct X{ static bool x( int d ){ const IntVec v = F::Location::BCExtra::int_vec(); return v[d]>0; } };
// what a field of type F on the patch nx,ny,nz with ghosts h looks like
template<typename F> INL void expect( int nx,int ny,int nz, GA(h), BCA, int* o, const bool xx, const bool xy, const bool xz ){
  const int a=pts(nx,h0,h1,bx,xx), b=pts(ny,h2,h3,by,xy), c=pts(nz,h4,h5,bz,xz);
  setw(o,a,b,c,0,0,0,a,b,c); setw(o+9,a,b,c,off(nx,h0),off(ny,h2),off(nz,h4),nx==1?1:a-h0-h1,ny==1?1:b-h2-h3,nz==1?1:c-h4-h5);
  setg(o+18,h0,h1,h2,h3,h4,h5); setg(o+24,h0,h1,h2,h3,h4,h5); o[30]=bx; o[31]=by; o[32]=bz; o[33]=bx&&xx; o[34]=by&&xy; o[35]=bz&&xz; o[36]=1; o[37]=0; }
#define PROTO(P) const BoundaryCellInfo bc = BoundaryCellInfo::build<P>(bx,by,bz); P f( get_window_with_ghost( IntVec(nx,ny,nz), G(g), bc ), bc, G(g), v, ExternalStorage ); f.reset_valid_ghosts( G(h) )
#define GET(n,D,P,xx,xy,xz) \
void impl_like_##n( NARGS, GA(g), GA(h), BCA, double* v, int* o ){ NPRE; GNN(g); HPRE; vp_assume(v!=0); PROTO(P); { SpatFldPtr<D> p = SpatialFieldStore::get<D>( f ); vp_assume( p->field_values()!=0 ); report( *p, o ); o[38]=p.count(); o[39]=p.built_from_store(); } } \
void spec_like_##n( NARGS, GA(g), GA(h), BCA, double* v, int* o ){ NPRE; GNN(g); HPRE; vp_assume(v!=0); \
  const int np = pts(nx,h0,h1,bx,xx)*pts(ny,h2,h3,by,xy)*pts(nz,h4,h5,bz,xz); \
  double* const m = vp_get( LOCAL_RAM, np ); vp_assume( m!=0 ); ZERO; expect<D>( nx,ny,nz, h0,h1,h2,h3,h4,h5, bx,by,bz, o, xx, xy, xz ); o[38]=1; o[39]=1; vp_put( LOCAL_RAM, m ); }
#ifdef NDEBUG
#define ZERO
#else
#define ZERO double* q = m; for( int i=0; i<np; ++i, ++q ) *q = 0
#endif
extern "C" {
VP_ANCHOR(like, "spatialops/structured/SpatialFieldStore.h SpatialFieldStore::get")
GET(ss,SVolField,SVolField,false,false,false)
GET(xs,SSurfXField,SVolField,true,false,false)
GET(ys,SSurfYField,SVolField,false,true,false)
GET(zs,SSurfZField,SVolField,false,false,true)
GET(sx,SVolField,SSurfXField,false,false,false)
GET(vx,XVolField,SVolField,true,false,false)
GET(xx,SSurfXField,XVolField,true,false,false)
GET(xvs,XSurfXField,SVolField,false,false,false)
GET(xyv,XSurfYField,XVolField,false,true,false)
GET(yx,SSurfYField,SSurfXField,false,true,false)
GET(zvx,ZVolField,XVolField,false,false,true)
VP_ANCHOR(win, "spatialops/structured/SpatialFieldStore.h SpatialFieldStore::get_from_window")
#define WARGS int gx,int gy,int gz,int ox,int oy,int oz,int ex,int ey,int ez
#define WPRE vp_assume(ex>0); vp_assume(ey>0); vp_assume(ez>0); vp_assume(ox>=0); vp_assume(oy>=0); vp_assume(oz>=0); \
  vp_assume(ox+ex<=gx); vp_assume(oy+ey<=gy); vp_assume(oz+ez<=gz)
#define WIN const MemoryWindow w( IntVec(gx,gy,gz), IntVec(ox,oy,oz), IntVec(ex,ey,ez) )
#define ROOM(e,m,p) vp_assume( e==1 || e>m+p )
#define FITS ROOM(ex,g0,g1); ROOM(ey,g2,g3); ROOM(ez,g4,g5)
#define WP WPRE; GNN(g); FITS; const BoundaryCellInfo bc = BoundaryCellInfo::build<SVolField>(bx,by,bz); WIN
// two scratch fields from a window: separate blocks, each returned when its last pointer goes
void impl_win_two(WARGS,GA(g),BCA,bool swap,bool share,int*o,double**t){ WP; SpatFldPtr<SVolField> a = SpatialFieldStore::get_from_window<SVolField>( w, bc, G(g) ), b = SpatialFieldStore::get_from_window<SVolField>( w, bc, G(g) ), c;
  vp_assume( a->field_values()!=0 ); vp_assume( b->field_values()!=0 ); report( *a, o ); report( *b, o+48 ); t[0]=a->field_values(); t[1]=b->field_values(); if( share ) c = a; if( swap ){ b.detach(); a.detach(); } else{ a.detach(); b.detach(); } t[2]=c.isnull()?0:c->field_values(); }
#define WEXP(o) setw(o,ex,ey,ez,0,0,0,ex,ey,ez); setw(o+9,ex,ey,ez,ex>1?g0:0,ey>1?g2:0,ez>1?g4:0,ex>1?ex-g0-g1:1,ey>1?ey-g2-g3:1,ez>1?ez-g4-g5:1); setg(o+18,g0,g1,g2,g3,g4,g5); setg(o+24,g0,g1,g2,g3,g4,g5); o[30]=bx; o[31]=by; o[32]=bz; o[33]=o[34]=o[35]=0; o[36]=1; o[37]=0
void spec_win_two(WARGS,GA(g),BCA,bool swap,bool share,int*o,double**t){ WP; const int np=ex*ey*ez; double* a; { double* const m = vp_get(LOCAL_RAM,np); ZERO; a=m; } double* b; { double* const m = vp_get(LOCAL_RAM,np); ZERO; b=m; } vp_assume(a!=0); vp_assume(b!=0); WEXP(o); int* const o2=o+48; WEXP(o2); t[0]=a; t[1]=b; t[2]=share?a:0;
  if( swap ){ vp_put(LOCAL_RAM,b); if( !share ) vp_put(LOCAL_RAM,a); } else{ if( !share ) vp_put(LOCAL_RAM,a); vp_put(LOCAL_RAM,b); } if( share ) vp_put(LOCAL_RAM,a); }
void bad_win_two(WARGS,GA(g),BCA,bool swap,bool share,int*o,double**t){ WP; const int np=ex*ey*ez; double* a; { double* const m = vp_get(LOCAL_RAM,np); ZERO; a=m; } double* b; { double* const m = vp_get(LOCAL_RAM,np); ZERO; b=m; } vp_assume(a!=0); vp_assume(b!=0); WEXP(o); int* const o2=o+48; WEXP(o2); t[0]=a; t[1]=b; t[2]=share?a:0;
  if( swap ){ vp_put(LOCAL_RAM,b); if( !share ) vp_put(LOCAL_RAM,a); } else{ if( !share ) vp_put(LOCAL_RAM,a); vp_put(LOCAL_RAM,b); } }
// memory this build does not support is refused, nothing is taken
#define TRY(M) { SpatFldPtr<SVolField> a = SpatialFieldStore::get_from_window<SVolField>( w, bc, G(g), M, 0 ); o[0]=a.count(); }
void impl_win_dev(WARGS,GA(g),BCA,int kind,int*o){ WP; if( kind==0 ) TRY(EXTERNAL_CUDA_GPU) else if( kind==1 ) TRY(EXTERNAL_OPENCL_GPU) else if( kind==2 ) TRY(EXTERNAL_INTEL_MIK) else if( kind==3 ) TRY(UNKNOWN) else TRY(LOCAL_RAM) }
void spec_win_dev(WARGS,GA(g),BCA,int kind,int*o){ WP; const int np=ex*ey*ez; if( kind>=0 && kind<=3 ) throw 1; double* const m = vp_get( LOCAL_RAM, np ); ZERO; o[0]=1; vp_put( LOCAL_RAM, m ); }
}
