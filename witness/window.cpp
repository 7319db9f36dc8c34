#include "vp.h"
#include <spatialops/structured/MemoryWindow.cpp>
using namespace SpatialOps;
using namespace SpatialOps::structured;

#define WARGS int gx,int gy,int gz,int ox,int oy,int oz,int ex,int ey,int ez
#define WPRE  vp_assume(gx>0); vp_assume(gy>0); vp_assume(gz>0); \
  vp_assume(ox>=0); vp_assume(oy>=0); vp_assume(oz>=0); vp_assume(ex>0); vp_assume(ey>0); vp_assume(ez>0); \
  vp_assume(ox+ex<=gx); vp_assume(oy+ey<=gy); vp_assume(oz+ez<=gz)
#define EQPRE WPRE; vp_assume(a>0); vp_assume(b>0); vp_assume(c>0); vp_assume(d>=0); vp_assume(e>=0); vp_assume(f>=0); vp_assume(g>0); vp_assume(h>0); vp_assume(l>0); vp_assume(d+g<=a); vp_assume(e+h<=b); vp_assume(f+l<=c)
#define WIN   const MemoryWindow w( IntVec(gx,gy,gz), IntVec(ox,oy,oz), IntVec(ex,ey,ez) )
#define IJK   int i,int j,int k
#define IJKPRE vp_assume(i>=0); vp_assume(j>=0); vp_assume(k>=0); vp_assume(i<ex); vp_assume(j<ey); vp_assume(k<ez)

struct FT{ typedef double value_type; };
typedef FieldIterator<FT> It;
typedef ConstFieldIterator<FT> CIt;

extern "C" {

  // ---- flat index of a local coordinate: row-major in the parent array, shifted by the window offset
  VP_ANCHOR(flat, "spatialops/structured/MemoryWindow.h MemoryWindow::flat_index, IntVec.h ijk_to_flat")
  int impl_flat(WARGS,IJK){ WPRE; IJKPRE; WIN; return w.flat_index( IntVec(i,j,k) ); }
  int spec_flat(WARGS,IJK){ WPRE; IJKPRE; return (ox+i) + gx*( (oy+j) + gy*(oz+k) ); }
  int bad_flat (WARGS,IJK){ WPRE; IJKPRE; return (ox+i) + gx*( (oy+j) + gx*(oz+k) ); }

  // ---- inverse maps
  VP_ANCHOR(ijk_local, "spatialops/structured/MemoryWindow.h MemoryWindow::ijk_index_from_local, IntVec.h flat_to_ijk")
  void impl_ijk_local(WARGS,IJK,int*out){ WPRE; IJKPRE; WIN; const IntVec r = w.ijk_index_from_local( i+ex*(j+ey*k) ); out[0]=r[0]; out[1]=r[1]; out[2]=r[2]; }
  void spec_ijk_local(WARGS,IJK,int*out){ WPRE; IJKPRE; out[0]=i; out[1]=j; out[2]=k; }
  void bad_ijk_local (WARGS,IJK,int*out){ WPRE; IJKPRE; out[0]=i; out[1]=k; out[2]=j; }

  VP_ANCHOR(ijk_global, "spatialops/structured/MemoryWindow.h MemoryWindow::ijk_index_from_global, IntVec.h flat_to_ijk")
  void impl_ijk_global(WARGS,IJK,int*out){ WPRE; vp_assume(i>=0); vp_assume(j>=0); vp_assume(k>=0); vp_assume(i<gx); vp_assume(j<gy); vp_assume(k<gz); WIN; const IntVec r = w.ijk_index_from_global( i+gx*(j+gy*k) ); out[0]=r[0]; out[1]=r[1]; out[2]=r[2]; }
  void spec_ijk_global(WARGS,IJK,int*out){ WPRE; vp_assume(i>=0); vp_assume(j>=0); vp_assume(k>=0); vp_assume(i<gx); vp_assume(j<gy); vp_assume(k<gz); out[0]=i; out[1]=j; out[2]=k; }

  // ---- observers
  VP_ANCHOR(obs, "spatialops/structured/MemoryWindow.h MemoryWindow observers")
  void impl_obs(WARGS,long*out){ WPRE; WIN; out[0]=w.glob_npts(); out[1]=w.local_npts();
    for( int d=0; d<3; ++d ){ out[2+d]=w.glob_dim(d); out[5+d]=w.offset(d); out[8+d]=w.extent(d); out[11+d]=w.glob_dim()[d]; out[14+d]=w.offset()[d]; out[17+d]=w.extent()[d]; } }
  void spec_obs(WARGS,long*out){ WPRE; out[0]=(long)gx*gy*gz; out[1]=(long)ex*ey*ez;
    out[2]=gx;out[3]=gy;out[4]=gz; out[5]=ox;out[6]=oy;out[7]=oz; out[8]=ex;out[9]=ey;out[10]=ez;
    out[11]=gx;out[12]=gy;out[13]=gz; out[14]=ox;out[15]=oy;out[16]=oz; out[17]=ex;out[18]=ey;out[19]=ez; }
  VP_ANCHOR(whole, "spatialops/structured/MemoryWindow.cpp MemoryWindow::MemoryWindow(npts)")
  void impl_whole(int gx,int gy,int gz,int*out){ vp_assume(gx>0); vp_assume(gy>0); vp_assume(gz>0); const MemoryWindow w( IntVec(gx,gy,gz) ); for(int d=0;d<3;++d){ out[d]=w.glob_dim(d); out[3+d]=w.offset(d); out[6+d]=w.extent(d);} }
  void spec_whole(int gx,int gy,int gz,int*out){ vp_assume(gx>0); vp_assume(gy>0); vp_assume(gz>0); out[0]=gx;out[1]=gy;out[2]=gz; out[3]=0;out[4]=0;out[5]=0; out[6]=gx;out[7]=gy;out[8]=gz; }
  VP_ANCHOR(copy, "spatialops/structured/MemoryWindow.cpp copy/assign")
  void impl_copy(WARGS,int*out){ WPRE; WIN; MemoryWindow v(w); MemoryWindow u( IntVec(1,1,1) ); u = v; for(int d=0;d<3;++d){ out[d]=u.glob_dim(d); out[3+d]=u.offset(d); out[6+d]=u.extent(d);} }
  void spec_copy(WARGS,int*out){ WPRE; out[0]=gx;out[1]=gy;out[2]=gz; out[3]=ox;out[4]=oy;out[5]=oz; out[6]=ex;out[7]=ey;out[8]=ez; }
  VP_ANCHOR(eq, "spatialops/structured/MemoryWindow.h MemoryWindow::operator==")
  bool impl_eq(WARGS,int a,int b,int c,int d,int e,int f,int g,int h,int l){ EQPRE; WIN; const MemoryWindow v( IntVec(a,b,c), IntVec(d,e,f), IntVec(g,h,l) ); return w==v; }
  bool spec_eq(WARGS,int a,int b,int c,int d,int e,int f,int g,int h,int l){ EQPRE; return gx==a && gy==b && gz==c && ox==d && oy==e && oz==f && ex==g && ey==h && ez==l; }
  VP_ANCHOR(ne, "spatialops/structured/MemoryWindow.h MemoryWindow::operator!=")
  bool impl_ne(WARGS,int a,int b,int c,int d,int e,int f,int g,int h,int l){ EQPRE; WIN; const MemoryWindow v( IntVec(a,b,c), IntVec(d,e,f), IntVec(g,h,l) ); return w!=v; }
  bool spec_ne(WARGS,int a,int b,int c,int d,int e,int f,int g,int h,int l){ EQPRE; return !(gx==a && gy==b && gz==c && ox==d && oy==e && oz==f && ex==g && ey==h && ez==l); }
}

// ---------------------------------------------------------------- partitioning
#define RPRE vp_assume(sx>0); vp_assume(sy>0); vp_assume(sz>0); vp_assume(sx<=ex); vp_assume(sy<=ey); vp_assume(sz<=ez); \
  vp_assume(lx>=0); vp_assume(ly>=0); vp_assume(lz>=0); vp_assume(lx<sx); vp_assume(ly<sy); vp_assume(lz<sz)
#define RARGS WARGS,int sx,int sy,int sz,int lx,int ly,int lz
extern "C" {
#define REFINE_DIM(D,s,l,o,e,g) \
  VP_ANCHOR(refine_##D, "spatialops/structured/MemoryWindow.cpp MemoryWindow::refine") \
  bool prove_refine_##D(RARGS){ WPRE; RPRE; WIN; const MemoryWindow r = w.refine( IntVec(sx,sy,sz), IntVec(lx,ly,lz) ); \
    const int ro=r.offset(D), re=r.extent(D), rg=r.glob_dim(D); \
    return rg==g && re>=1 && ro>=o && ro+re<=o+e && (l!=0 || ro==o) && (l!=s-1 || ro+re==o+e); }
  REFINE_DIM(0,sx,lx,ox,ex,gx)
  REFINE_DIM(1,sy,ly,oy,ey,gy)
  REFINE_DIM(2,sz,lz,oz,ez,gz)
  // neighbouring pieces abut and are of nearly equal size
  VP_ANCHOR(refine_next, "spatialops/structured/MemoryWindow.cpp MemoryWindow::refine")
  bool prove_refine_next0(RARGS){ WPRE; RPRE; vp_assume(lx+1<sx); WIN; const MemoryWindow r = w.refine( IntVec(sx,sy,sz), IntVec(lx,ly,lz) ), q = w.refine( IntVec(sx,sy,sz), IntVec(lx+1,ly,lz) );
    const int a=r.offset(0)+r.extent(0), b=q.offset(0), d=(int)r.extent(0)-(int)q.extent(0); return a==b && d<=1 && d>=-1 && r.offset(1)==q.offset(1) && r.extent(1)==q.extent(1) && r.offset(2)==q.offset(2) && r.extent(2)==q.extent(2); }
  bool prove_refine_next1(RARGS){ WPRE; RPRE; vp_assume(ly+1<sy); WIN; const MemoryWindow r = w.refine( IntVec(sx,sy,sz), IntVec(lx,ly,lz) ), q = w.refine( IntVec(sx,sy,sz), IntVec(lx,ly+1,lz) );
    const int a=r.offset(1)+r.extent(1), b=q.offset(1), d=(int)r.extent(1)-(int)q.extent(1); return a==b && d<=1 && d>=-1 && r.offset(0)==q.offset(0) && r.extent(0)==q.extent(0) && r.offset(2)==q.offset(2) && r.extent(2)==q.extent(2); }
  bool prove_refine_next2(RARGS){ WPRE; RPRE; vp_assume(lz+1<sz); WIN; const MemoryWindow r = w.refine( IntVec(sx,sy,sz), IntVec(lx,ly,lz) ), q = w.refine( IntVec(sx,sy,sz), IntVec(lx,ly,lz+1) );
    const int a=r.offset(2)+r.extent(2), b=q.offset(2), d=(int)r.extent(2)-(int)q.extent(2); return a==b && d<=1 && d>=-1 && r.offset(1)==q.offset(1) && r.extent(1)==q.extent(1) && r.offset(0)==q.offset(0) && r.extent(0)==q.extent(0); }
}

// ---------------------------------------------------------------- iterators
// State (i,j,k) is reached through the public interface: begin += i+ex*(j+ey*k).
#define AT(IT) IT it( p, w ); it += i + ex*( j + ey*k )
#define INCPRE(IT) WPRE; IJKPRE; vp_assume( !(i==ex-1 && j==ey-1 && k==ez-1) ); WIN; AT(IT); ++it; int a=i+1,b=j,c=k; if( a==ex ){ a=0; ++b; if( b==ey ){ b=0; ++c; } }
#define DECPRE(IT) WPRE; IJKPRE; vp_assume( !(i==0 && j==0 && k==0) ); WIN; AT(IT); --it; int a=i-1,b=j,c=k; if( a<0 ){ a=ex-1; --b; if( b<0 ){ b=ey-1; --c; } }
#define POSTPRE(IT) WPRE; IJKPRE; vp_assume( !(i==ex-1 && j==ey-1 && k==ez-1) ); WIN; AT(IT); IT it2(it)
#define POSTDPRE(IT) WPRE; IJKPRE; vp_assume( !(i==0 && j==0 && k==0) ); WIN; AT(IT); IT it2(it)
#define JUMPX(IT) WPRE; IJKPRE; vp_assume(a>=0); vp_assume(a<ex); WIN; AT(IT); it += a-i
#define JUMPY(IT) WPRE; IJKPRE; vp_assume(a>=0); vp_assume(a<ey); WIN; AT(IT); it += ex*(a-j)
#define JUMPZ(IT) WPRE; IJKPRE; vp_assume(a>=0); vp_assume(a<ez); WIN; AT(IT); it += ex*ey*(a-k)
extern "C" {
#define ITER(N,IT) \
  VP_ANCHOR(N##_at, "spatialops/structured/MemoryWindow.h iterator operator+=") \
  double* impl_##N##_at(WARGS,IJK,double*p){ WPRE; IJKPRE; WIN; AT(IT); return const_cast<double*>(&*it); } \
  double* spec_##N##_at(WARGS,IJK,double*p){ WPRE; IJKPRE; return p + (ox+i) + gx*( (oy+j) + gy*(oz+k) ); } \
  VP_ANCHOR(N##_loc, "spatialops/structured/MemoryWindow.h iterator location") \
  void impl_##N##_loc(WARGS,IJK,double*p,int*out){ WPRE; IJKPRE; WIN; AT(IT); const IntVec v=it.location(); out[0]=v[0]; out[1]=v[1]; out[2]=v[2]; } \
  void spec_##N##_loc(WARGS,IJK,double*p,int*out){ WPRE; IJKPRE; out[0]=i; out[1]=j; out[2]=k; } \
  VP_ANCHOR(N##_inc, "spatialops/structured/MemoryWindow.h iterator operator++") \
  bool prove_##N##_inc0(WARGS,IJK,double*p){ INCPRE(IT); return it.location()[0]==a; } \
  bool prove_##N##_inc1(WARGS,IJK,double*p){ INCPRE(IT); return it.location()[1]==b; } \
  bool prove_##N##_inc2(WARGS,IJK,double*p){ INCPRE(IT); return it.location()[2]==c; } \
  bool prove_##N##_incd(WARGS,IJK,double*p){ INCPRE(IT); IT b0(p,w); return (it-b0)==1+i+ex*(j+ey*k); } \
  bool prove_##N##_incp(WARGS,IJK,double*p){ INCPRE(IT); return const_cast<double*>(&*it)==p + (ox+a) + gx*( (oy+b) + gy*(oz+c) ); } \
  VP_ANCHOR(N##_dec, "spatialops/structured/MemoryWindow.h iterator operator--") \
  bool prove_##N##_dec0(WARGS,IJK,double*p){ DECPRE(IT); return it.location()[0]==a; } \
  bool prove_##N##_dec1(WARGS,IJK,double*p){ DECPRE(IT); return it.location()[1]==b; } \
  bool prove_##N##_dec2(WARGS,IJK,double*p){ DECPRE(IT); return it.location()[2]==c; } \
  bool prove_##N##_decd(WARGS,IJK,double*p){ DECPRE(IT); IT b0(p,w); return (it-b0)==i+ex*(j+ey*k)-1; } \
  bool prove_##N##_decp(WARGS,IJK,double*p){ DECPRE(IT); return const_cast<double*>(&*it)==p + (ox+a) + gx*( (oy+b) + gy*(oz+c) ); } \
  VP_ANCHOR(N##_postinc, "spatialops/structured/MemoryWindow.h iterator operator++(int)") \
  bool prove_##N##_postinc0(WARGS,IJK,double*p){ POSTPRE(IT); IT old=it++; ++it2; return it==it2; } \
  double* impl_##N##_postinc1(WARGS,IJK,double*p){ POSTPRE(IT); IT old=it++; return const_cast<double*>(&*old); } \
  double* spec_##N##_postinc1(WARGS,IJK,double*p){ WPRE; IJKPRE; vp_assume( !(i==ex-1 && j==ey-1 && k==ez-1) ); return p + (ox+i) + gx*( (oy+j) + gy*(oz+k) ); } \
  bool prove_##N##_postdec0(WARGS,IJK,double*p){ POSTDPRE(IT); IT old=it--; --it2; return it==it2; } \
  VP_ANCHOR(N##_end, "spatialops/structured/MemoryWindow.h iterator at end") \
  bool prove_##N##_end1(WARGS,double*p){ WPRE; WIN; IT e(p,w); e += ex*ey*ez; IT b(p,w); return (e-b)==ex*ey*ez; } \
  bool prove_##N##_end2(WARGS,double*p){ WPRE; WIN; IT e(p,w); e += ex*ey*ez; --e; return e.location()[0]==ex-1; } \
  bool prove_##N##_end3(WARGS,double*p){ WPRE; WIN; IT e(p,w); e += ex*ey*ez; --e; return e.location()[1]==ey-1; } \
  bool prove_##N##_end4(WARGS,double*p){ WPRE; WIN; IT e(p,w); e += ex*ey*ez; --e; return e.location()[2]==ez-1; } \
  bool prove_##N##_jumpX0(WARGS,IJK,int a,double*p){ JUMPX(IT); return it.location()[0]==a; } \
  bool prove_##N##_jumpX1(WARGS,IJK,int a,double*p){ JUMPX(IT); return it.location()[1]==j; } \
  bool prove_##N##_jumpX2(WARGS,IJK,int a,double*p){ JUMPX(IT); return it.location()[2]==k; } \
  bool prove_##N##_jumpXp(WARGS,IJK,int a,double*p){ JUMPX(IT); return const_cast<double*>(&*it)==p + (ox+a) + gx*( (oy+j) + gy*(oz+k) ); } \
  bool prove_##N##_jumpY0(WARGS,IJK,int a,double*p){ JUMPY(IT); return it.location()[0]==i; } \
  bool prove_##N##_jumpY1(WARGS,IJK,int a,double*p){ JUMPY(IT); return it.location()[1]==a; } \
  bool prove_##N##_jumpY2(WARGS,IJK,int a,double*p){ JUMPY(IT); return it.location()[2]==k; } \
  bool prove_##N##_jumpYp(WARGS,IJK,int a,double*p){ JUMPY(IT); return const_cast<double*>(&*it)==p + (ox+i) + gx*( (oy+a) + gy*(oz+k) ); } \
  bool prove_##N##_jumpZ0(WARGS,IJK,int a,double*p){ JUMPZ(IT); return it.location()[0]==i; } \
  bool prove_##N##_jumpZ1(WARGS,IJK,int a,double*p){ JUMPZ(IT); return it.location()[1]==j; } \
  bool prove_##N##_jumpZ2(WARGS,IJK,int a,double*p){ JUMPZ(IT); return it.location()[2]==a; } \
  bool prove_##N##_jumpZp(WARGS,IJK,int a,double*p){ JUMPZ(IT); return const_cast<double*>(&*it)==p + (ox+i) + gx*( (oy+j) + gy*(oz+a) ); } \
  bool prove_##N##_order(WARGS,IJK,double*p){ INCPRE(IT); IT n(it); return it==n && it<=n && it>=n && !(it<n) && !(it>n) && !(it!=n); }
  ITER(it,It)
  ITER(cit,CIt)
  // conversion keeps the position
  bool prove_conv(WARGS,IJK,double*p){ WPRE; IJKPRE; WIN; AT(It); CIt c(it); vp_assume( !(i==ex-1 && j==ey-1 && k==ez-1) ); CIt d(p,w); d+= i + ex*( j + ey*k ); ++c; ++d; return c==d && (c-d)==0 && c.location()[0]==d.location()[0] && c.location()[1]==d.location()[1] && c.location()[2]==d.location()[2]; }
}
