// N07: reductions visit every cell of their region exactly once, in order.
#include "fld.h"
#define GARGS int am,int ap,int bm,int bp
#define GPRE vp_assume(am>=0); vp_assume(ap>=0); vp_assume(bm>=0); vp_assume(bp>=0); vp_assume(p!=0); vp_assume(q!=0)
#define FIELDS(D,fb) const IntVec n(nx,ny,nz); vp_assume((D==0?nx:D==1?ny:nz)>1); \
  const BoundaryCellInfo fbc = BoundaryCellInfo::build<F>(fb&&D==0,fb&&D==1,fb&&D==2); \
  const int fx = fb?1:0; (void)fx; \
  const F f( MemoryWindow( n+dv<D>(am+ap+fx) ), fbc, GhostData( dv<D>(am), dv<D>(ap) ), p, ExternalStorage ); \
  const F g( MemoryWindow( n+dv<D>(bm+bp+fx) ), fbc, GhostData( dv<D>(bm), dv<D>(bp) ), q, ExternalStorage )
#define VIEW(D,lo,hi) \
  const F fv( MemoryWindow( n+dv<D>(am+ap+fx), dv<D>(am-(lo)), n+dv<D>((lo)+(hi)+fx) ), f ); \
  const F gv( MemoryWindow( n+dv<D>(bm+bp+fx), dv<D>(bm-(lo)), n+dv<D>((lo)+(hi)+fx) ), g ); \
  F::const_iterator i = fv.begin(), j = gv.begin(); const F::const_iterator e = fv.end(), ej = gv.end()
// user-supplied combination functions, opaque to the analysis
extern "C" const double& vp_fold( const double&, const double& );
extern "C" const double& vp_red( const double&, const double& );
extern "C" double vp_redv( const double&, const double& );
#define RED1(N,FT,D,fb,CALL,LO,HI,INIT,STEP,POST) REDW(N,FT,D,fb,CALL,LO,HI,INIT,STEP,POST,!(i==e))
#define RED2(N,FT,D,fb,CALL,LO,HI,INIT,STEP,POST) REDW(N,FT,D,fb,CALL,LO,HI,INIT,STEP,POST,!(i==e||j==ej))
#define REDW(N,FT,D,fb,CALL,LO,HI,INIT,STEP,POST,WHILE) \
 double impl_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb); return CALL; } \
 double spec_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb); VIEW(D,LO,HI); \
   INIT; while( WHILE ){ STEP; i++; j++; } return POST; }
// the norm is the square root of the (separately analysed) sum of squares
#define NRM(N,FT,D,fb,CALL,SUM) \
 double impl_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb); return CALL; } \
 double spec_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb); return std::sqrt(SUM); }
#define FIRST(x) double r = x; i++; j++
#define ALLK(N,FT,D,fb) \
 RED1(sum_f_##N,FT,D,fb,nebo_sum(f),am,ap,FIRST(*i),r=r+*i,r) \
 RED2(sum_e_##N,FT,D,fb,nebo_sum(f*g),IMIN(am,bm),IMIN(ap,bp),FIRST(*i**j),r=r+*i**j,r) \
 RED1(max_f_##N,FT,D,fb,nebo_max(f),am,ap,FIRST(*i),r=(r<*i?*i:r),r) \
 RED2(max_e_##N,FT,D,fb,nebo_max(f+g),IMIN(am,bm),IMIN(ap,bp),FIRST(*i+*j),const double v=*i+*j; r=(r<v?v:r),r) \
 RED1(min_f_##N,FT,D,fb,nebo_min(f),am,ap,FIRST(*i),r=(*i<r?*i:r),r) \
 RED2(min_e_##N,FT,D,fb,nebo_min(f-g),IMIN(am,bm),IMIN(ap,bp),FIRST(*i-*j),const double v=*i-*j; r=(v<r?v:r),r) \
 NRM(norm_f_##N,FT,D,fb,nebo_norm(f),nebo_sum(pow(f,2.0))) \
 NRM(norm_e_##N,FT,D,fb,nebo_norm(3.0-f),nebo_sum(pow(3.0-f,2.0))) \
 RED1(isum_f_##N,FT,D,fb,nebo_sum_interior(f),0,0,FIRST(*i),r=r+*i,r) \
 RED2(isum_e_##N,FT,D,fb,nebo_sum_interior(f*g),0,0,FIRST(*i**j),r=r+*i**j,r) \
 RED1(imax_f_##N,FT,D,fb,nebo_max_interior(f),0,0,FIRST(*i),r=(r<*i?*i:r),r) \
 RED2(imax_e_##N,FT,D,fb,nebo_max_interior(f+g),0,0,FIRST(*i+*j),const double v=*i+*j; r=(r<v?v:r),r) \
 RED1(imin_f_##N,FT,D,fb,nebo_min_interior(f),0,0,FIRST(*i),r=(*i<r?*i:r),r) \
 RED2(imin_e_##N,FT,D,fb,nebo_min_interior(f-g),0,0,FIRST(*i-*j),const double v=*i-*j; r=(v<r?v:r),r) \
 NRM(inorm_f_##N,FT,D,fb,nebo_norm_interior(f),nebo_sum_interior(pow(f,2.0))) \
 NRM(inorm_e_##N,FT,D,fb,nebo_norm_interior(f-g),nebo_sum_interior(pow(f-g,2.0)))
// a direction with a single point has no ghost cells, whatever the fields declare
#define DRED(N,FT,D,CALL,INIT,STEP) \
 double impl_##N##_##D(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; const IntVec n(D==0?1:nx,D==1?1:ny,D==2?1:nz); \
   const BoundaryCellInfo bc = BoundaryCellInfo::build<F>(false,false,false); \
   const F f( MemoryWindow(n), bc, GhostData( dv<D>(am), dv<D>(ap) ), p, ExternalStorage ), g( MemoryWindow(n), bc, GhostData( dv<D>(bm), dv<D>(bp) ), q, ExternalStorage ); return CALL; } \
 double spec_##N##_##D(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; const IntVec n(D==0?1:nx,D==1?1:ny,D==2?1:nz); \
   const BoundaryCellInfo bc = BoundaryCellInfo::build<F>(false,false,false); \
   const F f( MemoryWindow(n), bc, GhostData( dv<D>(am), dv<D>(ap) ), p, ExternalStorage ), g( MemoryWindow(n), bc, GhostData( dv<D>(bm), dv<D>(bp) ), q, ExternalStorage ); \
   F::const_iterator i = f.begin(), j = g.begin(); const F::const_iterator e = f.end(), ej = g.end(); INIT; while( !(i==e||j==ej) ){ STEP; i++; j++; } return r; }
#define DREDS(FT,D) \
 DRED(dsum,FT,D,nebo_sum(f*g),FIRST(*i**j),r=r+*i**j) \
 DRED(dmax,FT,D,nebo_max(f+g),FIRST(*i+*j),const double v=*i+*j; r=(r<v?v:r)) \
 DRED(dmin,FT,D,nebo_min(f-g),FIRST(*i-*j),const double v=*i-*j; r=(v<r?v:r)) \
 DRED(idsum,FT,D,nebo_sum_interior(f*g),FIRST(*i**j),r=r+*i**j) \
 DRED(idmax,FT,D,nebo_max_interior(f+g),FIRST(*i+*j),const double v=*i+*j; r=(r<v?v:r)) \
 DRED(idmin,FT,D,nebo_min_interior(f-g),FIRST(*i-*j),const double v=*i-*j; r=(v<r?v:r))
static const double& ffold( const double& a, const double& b ){ static double x; x = 2.0*a+b; return x; }
static double vred( const double& a, const double& b ){ return 2.0*a+b; }
static const double& rred( const double& a, const double& b ){ return a<b+1.0 ? b : a; }
#define FOLDS(N,FT,D,fb) \
 RED1(fold_f_##N,FT,D,fb,nebo_fold(rred,3.0,f),am,ap,double r=3.0,r=rred(r,*i),r) \
 RED2(fold_e_##N,FT,D,fb,nebo_fold(rred,3.0,f-g),IMIN(am,bm),IMIN(ap,bp),double r=3.0,const double v=*i-*j;r=rred(r,v),r) \
 RED1(ifold_f_##N,FT,D,fb,nebo_fold_interior(rred,3.0,f),0,0,double r=3.0,r=rred(r,*i),r) \
 RED2(ifold_e_##N,FT,D,fb,nebo_fold_interior(rred,3.0,f-g),0,0,double r=3.0,const double v=*i-*j;r=rred(r,v),r) \
 RED1(redr_f_##N,FT,D,fb,nebo_reduce(rred,f),am,ap,FIRST(*i),r=rred(r,*i),r) \
 RED1(iredr_f_##N,FT,D,fb,nebo_reduce_interior(rred,f),0,0,FIRST(*i),r=rred(r,*i),r) \
 RED1(redv_f_##N,FT,D,fb,nebo_reduce(vred,f),am,ap,FIRST(*i),r=vred(r,*i),r) \
 RED1(iredv_f_##N,FT,D,fb,nebo_reduce_interior(vred,f),0,0,FIRST(*i),r=vred(r,*i),r)
extern "C" {
ALLK(x,SSurfXField,0,false)
ALLK(z,SVolField,2,false)
ALLK(xb,SSurfXField,0,true)
FOLDS(y,SVolField,1,false)
DREDS(SVolField,0)
DREDS(SVolField,1)
DREDS(SVolField,2)
// positive control: a reduction that skips the first cell
double bad_sum_f_z(NARGS,GARGS,double*p,double*q){ typedef SVolField F; NPRE; GPRE; FIELDS(2,false); VIEW(2,am,ap); double r=0; i++; for( ; i!=e; i++ ) r=r+*i; return r; }
}
VP_ANCHOR(sum,"spatialops/NeboReductions.h nebo_sum/nebo_reduce") VP_ANCHOR(max,"spatialops/NeboReductions.h nebo_max/nebo_reduce") VP_ANCHOR(min,"spatialops/NeboReductions.h nebo_min/nebo_reduce")
VP_ANCHOR(norm,"spatialops/NeboReductions.h nebo_norm") VP_ANCHOR(d,"spatialops/NeboBasic.h resize_ghost") VP_ANCHOR(i,"spatialops/NeboReductions.h *_interior") VP_ANCHOR(fold,"spatialops/NeboReductions.h nebo_fold") VP_ANCHOR(red,"spatialops/NeboReductions.h nebo_reduce")
