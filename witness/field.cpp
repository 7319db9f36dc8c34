// F01 field memory, F02 write protection, F03 windows and views of fields
#define VP_NO_POOL
#include "fld.h"
#include <spatialops/structured/FVTools.h>
#include <spatialops/structured/SpatialFieldStore.h>
extern "C" double* vp_get( int, unsigned long );
extern "C" void vp_put( int, double* );
extern char vp_pool[];
namespace SpatialOps{ namespace structured{
template<> Pool<double>& Pool<double>::self(){ return *reinterpret_cast< Pool<double>* >( vp_pool ); }
template<> double* Pool<double>::get( const MemoryType m, const size_t n ){ return vp_get( m, n ); }
template<> void Pool<double>::put( const MemoryType m, double* t ){ vp_put( m, t ); }
}}
typedef SVolField F;
#define WARGS int gx,int gy,int gz,int ox,int oy,int oz,int ex,int ey,int ez
#define WPRE vp_assume(ex>0); vp_assume(ey>0); vp_assume(ez>0); vp_assume(ox>=0); vp_assume(oy>=0); vp_assume(oz>=0); \
  vp_assume(ox+ex<=gx); vp_assume(oy+ey<=gy); vp_assume(oz+ez<=gz)
#define WIN const MemoryWindow w( IntVec(gx,gy,gz), IntVec(ox,oy,oz), IntVec(ex,ey,ez) )
#define GA(p) int p##0,int p##1,int p##2,int p##3,int p##4,int p##5
#define GNN(p) vp_assume(p##0>=0);vp_assume(p##1>=0);vp_assume(p##2>=0);vp_assume(p##3>=0);vp_assume(p##4>=0);vp_assume(p##5>=0)
#define G(p) GhostData( p##0,p##1,p##2,p##3,p##4,p##5 )
// the window leaves room for the ghosts and at least one interior cell
#define ROOM(e,m,p) vp_assume( e==1 || e>m+p )
#define FITS ROOM(ex,g0,g1); ROOM(ey,g2,g3); ROOM(ez,g4,g5)
#define BC const BoundaryCellInfo bc = BoundaryCellInfo::build<F>(bx,by,bz)
#define BCA bool bx,bool by,bool bz
#define PREF WPRE; GNN(g); FITS; BC; WIN
typedef FieldIterator<F> It;
INL void outw( const MemoryWindow& w, int* o ){ for( int d=0; d<3; ++d ){ o[d]=w.glob_dim(d); o[3+d]=w.offset(d); o[6+d]=w.extent(d); } }
INL void outg( const GhostData& g, int* o ){ for( int d=0; d<3; ++d ){ o[2*d]=g.get_minus(d); o[2*d+1]=g.get_plus(d); } }
INL void setw( int* o, int a,int b,int c,int d,int e,int f,int g,int h,int i ){ o[0]=a;o[1]=b;o[2]=c;o[3]=d;o[4]=e;o[5]=f;o[6]=g;o[7]=h;o[8]=i; }
INL void setg( int* o, int a,int b,int c,int d,int e,int f ){ o[0]=a;o[1]=b;o[2]=c;o[3]=d;o[4]=e;o[5]=f; }
// everything a field reports about itself
#define NREP 48
INL void report( F& f, int* o ){ outw( f.window_with_ghost(), o ); outw( f.window_without_ghost(), o+9 ); outg( f.get_ghost_data(), o+18 ); outg( f.get_valid_ghost_data(), o+24 );
  for( int d=0; d<3; ++d ){ o[30+d]=f.boundary_info().has_bc(d); o[33+d]=f.boundary_info().has_extra(d); } o[36]=f.memory_device_type()==LOCAL_RAM; o[37]=f.device_index(); o[38]=f.allocated_bytes(); }
#define IOF(o,e,m) (e>1?o+m:o)
#define IEX(e,m,p) (e>1?e-m-p:e)
#define SPECREP(o) setw(o,gx,gy,gz,ox,oy,oz,ex,ey,ez); setw(o+9,gx,gy,gz,IOF(ox,ex,g0),IOF(oy,ey,g2),IOF(oz,ez,g4),IEX(ex,g0,g1),IEX(ey,g2,g3),IEX(ez,g4,g5)); \
  setg(o+18,g0,g1,g2,g3,g4,g5); setg(o+24,g0,g1,g2,g3,g4,g5); o[30]=bx; o[31]=by; o[32]=bz; o[33]=o[34]=o[35]=0; o[36]=1; o[37]=0; o[38]=8*gx*gy*gz
extern "C" {
// ---- F01
VP_ANCHOR(own, "spatialops/structured/SpatialField.h SpatialField::SpatialField, ~SpatialField, reset_values")
void impl_own_zero(WARGS,GA(g),BCA){ PREF; F f( w, bc, G(g), NULL ); }
void spec_own_zero(WARGS,GA(g),BCA){ PREF; double* const p = vp_get(LOCAL_RAM,gx*gy*gz); It i(p,w); const It e=i+ex*ey*ez; for( ; i!=e; ++i ) *i=0; vp_put(LOCAL_RAM,p); }
void impl_own_copyin(WARGS,GA(g),BCA,double*v){ PREF; F f( w, bc, G(g), v, InternalStorage ); }
void spec_own_copyin(WARGS,GA(g),BCA,double*v){ PREF; vp_assume(v!=0); double* const p = vp_get(LOCAL_RAM,gx*gy*gz); It i(p,w); const It e=i+ex*ey*ez; for( ; i!=e; ++i,++v ) *i=*v; vp_put(LOCAL_RAM,p); }
void bad_own_zero(WARGS,GA(g),BCA){ PREF; double* const p = vp_get(LOCAL_RAM,gx*gy*gz); It i(p,w); const It e=i+ex*ey*ez; for( ; i!=e; ++i ) *i=0; }
double* impl_own_ext(WARGS,GA(g),BCA,double*v){ PREF; F f( w, bc, G(g), v, ExternalStorage ); vp_assume(v!=0); return f.field_values(); }
double* spec_own_ext(WARGS,GA(g),BCA,double*v){ PREF; vp_assume(v!=0); return v; }
// copies and views share the memory and never give it back
void impl_own_share(WARGS,GA(g),BCA,bool*o){ PREF; F f( w, bc, G(g), NULL ); const double* const p=f.field_values(); vp_assume(p!=0); { F a(f); F b(a); F c( w, b ); F d = c.reshape( IntVec(0,0,0), IntVec(0,0,0) ); o[0]=a.field_values()==p; o[1]=b.field_values()==p; o[2]=c.field_values()==p; o[3]=d.field_values()==p; } o[4]=f.field_values()==p; }
void spec_own_share(WARGS,GA(g),BCA,bool*o){ PREF; double* const p = vp_get(LOCAL_RAM,gx*gy*gz); vp_assume(p!=0); It i(p,w); const It e=i+ex*ey*ez; for( ; i!=e; ++i ) *i=0; for( int q=0; q<5; ++q ) o[q]=true; vp_put(LOCAL_RAM,p); }
// ---- F03 what a field reports
VP_ANCHOR(rep, "spatialops/structured/SpatialField.h SpatialField::SpatialField")
void impl_rep(WARGS,GA(g),BCA,double*v,int*o){ PREF; F f( w, bc, G(g), v, ExternalStorage ); report( f, o ); }
void spec_rep(WARGS,GA(g),BCA,double*v,int*o){ PREF; SPECREP(o); }
void impl_rep_copy(WARGS,GA(g),BCA,double*v,int*o){ PREF; F f( w, bc, G(g), v, ExternalStorage ); F h(f); report( h, o ); }
void spec_rep_copy(WARGS,GA(g),BCA,double*v,int*o){ PREF; SPECREP(o); }
void bad_rep(WARGS,GA(g),BCA,double*v,int*o){ PREF; SPECREP(o); o[22]=g5; }
// ---- F03 ranges
#define EXT F f( w, bc, G(g), v, ExternalStorage ); vp_assume(v!=0); vp_assume(gx<1000); vp_assume(gy<1000); vp_assume(gz<1000)
#define FL(i,j,k) ((i)+gx*((j)+gy*(k)))
#define IJKPRE vp_assume(i>=0); vp_assume(j>=0); vp_assume(k>=0); vp_assume(i<ex); vp_assume(j<ey); vp_assume(k<ez)
VP_ANCHOR(rng, "spatialops/structured/SpatialField.h SpatialField::begin, end, interior_begin, interior_end")
#define NX IEX(ex,g0,g1)
#define NY IEX(ey,g2,g3)
#define NZ IEX(ez,g4,g5)
void impl_rng_all(WARGS,GA(g),BCA,double*v,long*o){ PREF; EXT; const F& c=f; o[0]=&*f.begin()-v; o[1]=f.end()-f.begin(); o[2]=&*c.begin()-v; o[3]=c.end()-c.begin(); }
void spec_rng_all(WARGS,GA(g),BCA,double*v,long*o){ PREF; EXT; o[0]=o[2]=FL(ox,oy,oz); o[1]=o[3]=ex*ey*ez; }
void impl_rng_int(WARGS,GA(g),BCA,double*v,long*o){ PREF; EXT; const F& c=f; o[0]=&*f.interior_begin()-v; o[1]=f.interior_end()-f.interior_begin(); o[2]=&*c.interior_begin()-v; o[3]=c.interior_end()-c.interior_begin(); }
void spec_rng_int(WARGS,GA(g),BCA,double*v,long*o){ PREF; EXT; o[0]=o[2]=FL(IOF(ox,ex,g0),IOF(oy,ey,g2),IOF(oz,ez,g4)); o[1]=o[3]=NX*NY*NZ; }
// ---- F03 indexing
VP_ANCHOR(idx, "spatialops/structured/SpatialField.h SpatialField::operator(), operator[]")
#define WHOLE vp_assume(ox==0); vp_assume(oy==0); vp_assume(oz==0)
void impl_idx(WARGS,GA(g),BCA,double*v,int i,int j,int k,long*o){ PREF; WHOLE; IJKPRE; EXT; const F& c=f; o[0]=&f(i,j,k)-v; o[1]=&f(IntVec(i,j,k))-v; o[2]=&c(i,j,k)-v; o[3]=&c(IntVec(i,j,k))-v; o[4]=&f[FL(i,j,k)]-v; o[5]=&c[FL(i,j,k)]-v; o[6]=f.field_values()-v; o[7]=c.field_values()-v; }
void spec_idx(WARGS,GA(g),BCA,double*v,int i,int j,int k,long*o){ PREF; WHOLE; IJKPRE; EXT; for( int q=0; q<6; ++q ) o[q]=FL(i,j,k); o[6]=o[7]=0; }
// ---- F03 views
#define VARGS int vx,int vy,int vz,int wx,int wy,int wz
#define VPRE vp_assume(vx>=0); vp_assume(vy>=0); vp_assume(vz>=0); vp_assume(wx>0); vp_assume(wy>0); vp_assume(wz>0); vp_assume(vx+wx<=gx); vp_assume(vy+wy<=gy); vp_assume(vz+wz<=gz)
#define VIEW const MemoryWindow w2( IntVec(gx,gy,gz), IntVec(vx,vy,vz), IntVec(wx,wy,wz) ); F c( w2, f )
#define CUT ( vx>IOF(ox,ex,g0) || vy>IOF(oy,ey,g2) || vz>IOF(oz,ez,g4) || vx+wx<IOF(ox,ex,g0)+NX || vy+wy<IOF(oy,ey,g2)+NY || vz+wz<IOF(oz,ez,g4)+NZ )
VP_ANCHOR(view, "spatialops/structured/SpatialField.h SpatialField::SpatialField(window,other), reshape")
void impl_view(WARGS,GA(g),BCA,VARGS,double*v,long*o){ PREF; VPRE; EXT; VIEW; const MemoryWindow& q=c.window_with_ghost(); for( int d=0; d<3; ++d ){ o[d]=q.glob_dim(d); o[3+d]=q.offset(d); o[6+d]=q.extent(d); o[9+d]=c.get_ghost_data().get_minus(d); o[12+d]=c.get_ghost_data().get_plus(d); o[15+d]=c.boundary_info().has_bc(d); } o[18]=&*c.begin()-v; o[19]=c.end()-c.begin(); o[20]=c.field_values()-v; }
void spec_view(WARGS,GA(g),BCA,VARGS,double*v,long*o){ PREF; VPRE; EXT; o[0]=gx;o[1]=gy;o[2]=gz;o[3]=vx;o[4]=vy;o[5]=vz;o[6]=wx;o[7]=wy;o[8]=wz;o[9]=g0;o[10]=g2;o[11]=g4;o[12]=g1;o[13]=g3;o[14]=g5;o[15]=bx;o[16]=by;o[17]=bz; o[18]=FL(vx,vy,vz); o[19]=wx*wy*wz; o[20]=0; }
#define VIN(n,EXPR,VAL) \
long impl_viewin_##n(WARGS,GA(g),BCA,VARGS,double*v){ PREF; VPRE; EXT; VIEW; const F& cc=c; return EXPR; } \
long spec_viewin_##n(WARGS,GA(g),BCA,VARGS,double*v){ PREF; VPRE; EXT; if( CUT ) throw 1; return VAL; }
#define IB FL(IOF(ox,ex,g0),IOF(oy,ey,g2),IOF(oz,ez,g4))
VIN(b,&*c.interior_begin()-v,IB)
VIN(cb,&*cc.interior_begin()-v,IB)
VIN(e,c.interior_end()-F::iterator(v,f.window_without_ghost()),NX*NY*NZ)
VIN(ce,cc.interior_end()-F::const_iterator(v,f.window_without_ghost()),NX*NY*NZ)
// a view of a view that was cut stays without interior
long impl_viewin_child(WARGS,GA(g),BCA,VARGS,double*v){ PREF; VPRE; EXT; VIEW; F d( f.window_with_ghost(), c ); F h( d ); return &*h.interior_begin()-v; }
long spec_viewin_child(WARGS,GA(g),BCA,VARGS,double*v){ PREF; VPRE; EXT; if( CUT ) throw 1; return IB; }
VP_ANCHOR(reshape, "spatialops/structured/SpatialField.h SpatialField::reshape")
void impl_reshape(WARGS,GA(g),BCA,VARGS,double*v,long*o,int*r){ PREF; VPRE; EXT; F c = f.reshape( IntVec(wx-ex,wy-ey,wz-ez), IntVec(vx-ox,vy-oy,vz-oz) ); const MemoryWindow& q=c.window_with_ghost(); for( int d=0; d<3; ++d ){ o[d]=q.glob_dim(d); o[3+d]=q.offset(d); o[6+d]=q.extent(d); } o[9]=c.field_values()-v; outw( f.window_with_ghost(), r ); }
void spec_reshape(WARGS,GA(g),BCA,VARGS,double*v,long*o,int*r){ PREF; VPRE; EXT; o[0]=gx;o[1]=gy;o[2]=gz;o[3]=vx;o[4]=vy;o[5]=vz;o[6]=wx;o[7]=wy;o[8]=wz; o[9]=0; setw(r,gx,gy,gz,ox,oy,oz,ex,ey,ez); }
// ---- F03 valid ghosts
VP_ANCHOR(valid, "spatialops/structured/SpatialField.h SpatialField::reset_valid_ghosts")
#define HPRE GNN(h); vp_assume(h0<=g0);vp_assume(h1<=g1);vp_assume(h2<=g2);vp_assume(h3<=g3);vp_assume(h4<=g4);vp_assume(h5<=g5)
#define DIR(gx,ex) vp_assume( (gx==1)==(ex==1) )
void impl_valid(WARGS,GA(g),GA(h),BCA,double*v,int*o){ PREF; HPRE; DIR(gx,ex); DIR(gy,ey); DIR(gz,ez); EXT; f.reset_valid_ghosts( G(h) ); report( f, o ); f.reset_valid_ghosts( G(g) ); report( f, o+NREP ); }
void spec_valid(WARGS,GA(g),GA(h),BCA,double*v,int*o){ PREF; HPRE; DIR(gx,ex); DIR(gy,ey); DIR(gz,ez); EXT; SPECREP(o); o[3]=IOF(ox,ex,g0-h0); o[4]=IOF(oy,ey,g2-h2); o[5]=IOF(oz,ez,g4-h4); o[6]=IEX(ex,(g0-h0),(g1-h1)); o[7]=IEX(ey,(g2-h2),(g3-h3)); o[8]=IEX(ez,(g4-h4),(g5-h5)); setg(o+24,h0,h1,h2,h3,h4,h5); o+=NREP; SPECREP(o); }
// ---- F02
VP_ANCHOR(ro, "spatialops/structured/SpatialField.h SpatialField::add_consumer")
// kind 0: own device; others: devices this build has no support for
void impl_ro(WARGS,GA(g),BCA,int kind,int dev,double*v,long*o,int*r){ PREF; EXT; vp_assume(dev>0); vp_assume(dev<100); const F& c=f; bool th=false; try{ if( kind==0 ) f.add_consumer( LOCAL_RAM, 0 ); else if( kind==1 ) f.add_consumer( EXTERNAL_CUDA_GPU, dev ); else if( kind==2 ) f.add_consumer( LOCAL_RAM, dev ); else if( kind==3 ) f.add_consumer( EXTERNAL_INTEL_MIK, 0 ); else f.add_consumer( UNKNOWN, dev ); } catch(...){ th=true; }
  o[0]=th; o[1]=f.field_values()-v; o[2]=c.field_values()-v; o[3]=&*f.begin()-v; o[4]=&*f.interior_begin()-v; o[5]=&f[0]-v; o[6]=f.find_consumer(LOCAL_RAM,0); o[7]=f.has_consumers(); o[8]=f.interior_end()-f.interior_begin(); o[9]=f.end()-f.begin(); f.remove_consumers(); report( f, r ); }
void spec_ro(WARGS,GA(g),BCA,int kind,int dev,double*v,long*o,int*r){ PREF; EXT; vp_assume(dev>0); vp_assume(dev<100); o[0]=kind!=0; o[1]=o[2]=o[5]=0; o[3]=FL(ox,oy,oz); o[4]=IB; o[6]=1; o[7]=0; o[8]=NX*NY*NZ; o[9]=ex*ey*ez; SPECREP(r); }
VP_ANCHOR(dev, "spatialops/structured/SpatialField.h SpatialField::field_values, find_consumer")
// values on a device they were never made available on cannot be obtained
void impl_dev(WARGS,GA(g),BCA,int kind,int dev,double*v,const double**o){ PREF; EXT; const F& c=f; if( kind==1 ) *o=f.field_values( EXTERNAL_CUDA_GPU, dev ); else if( kind==2 ) *o=c.field_values( EXTERNAL_CUDA_GPU, dev ); else if( kind==3 ) f.find_consumer( EXTERNAL_CUDA_GPU, dev ); else if( kind==4 ) *o=c.field_values( UNKNOWN, dev ); else if( kind==5 ) *o=f.field_values( EXTERNAL_OPENCL_GPU, dev ); else *o=c.field_values( LOCAL_RAM, 0 ); }
void spec_dev(WARGS,GA(g),BCA,int kind,int dev,double*v,const double**o){ PREF; EXT; if( kind>=1 && kind<=5 ) throw 1; *o=v; }
void bad_dev(WARGS,GA(g),BCA,int kind,int dev,double*v,const double**o){ PREF; EXT; if( kind>=1 && kind<=4 ) throw 1; *o=v; }
void impl_devctor(WARGS,GA(g),BCA,int kind,double*v,int*o){ PREF; F f( w, bc, G(g), v, ExternalStorage, kind==1?EXTERNAL_CUDA_GPU:kind==2?EXTERNAL_OPENCL_GPU:kind==3?UNKNOWN:LOCAL_RAM, 0 ); o[0]=f.device_index(); }
void spec_devctor(WARGS,GA(g),BCA,int kind,double*v,int*o){ PREF; if( kind>=1 && kind<=3 ) throw 1; o[0]=0; }
#ifdef ENABLE_THREADS
// ---- T02 the number of chunks a field asks for: one per configured thread, as set, and taken over by copies of the field
VP_ANCHOR(count,"spatialops/structured/SpatialField.h get_partition_count, set_partition_count")
#define COUNT(N,use,res) int impl_count_##N(WARGS,GA(g),BCA,double*v,int t){ PREF; F f( w, bc, G(g), v, ExternalStorage ); use; } int spec_count_##N(WARGS,GA(g),BCA,double*v,int t){ PREF; return res; }
COUNT(default,return f.get_partition_count(),NTHREADS)
COUNT(set,f.set_partition_count(t);return f.get_partition_count(),t)
COUNT(copy,f.set_partition_count(t); F h(f); return h.get_partition_count(),t)
COUNT(view,f.set_partition_count(t); F h(w,f); return h.get_partition_count(),t)
COUNT(reshape,f.set_partition_count(t); F h=f.reshape( IntVec(0,0,0), IntVec(0,0,0) ); return h.get_partition_count(),t)
int bad_count_copy(WARGS,GA(g),BCA,double*v,int t){ PREF; return NTHREADS; }
#endif
}
