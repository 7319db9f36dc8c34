// N04: the region written by an assignment and the operand cells it pairs.
// Fields over caller memory with symbolic interior extents and, in direction D,
// symbolic ghost counts of their own and optional physical-boundary cells.
#include "fld.h"
#define GARGS int am,int ap,int bm,int bp
#define GPRE vp_assume(am>=0); vp_assume(ap>=0); vp_assume(bm>=0); vp_assume(bp>=0); vp_assume(am<9); vp_assume(ap<9); vp_assume(bm<9);vp_assume(bp<9)
// fb, gb: physical boundary on the plus side of f, g in direction D (one extra point each)
#define FIELDS(D,fb,gb) const IntVec n(nx,ny,nz); vp_assume((D==0?nx:D==1?ny:nz)>1); \
  const BoundaryCellInfo fbc = BoundaryCellInfo::build<F>(fb&&D==0,fb&&D==1,fb&&D==2), gbc = BoundaryCellInfo::build<F>(gb&&D==0,gb&&D==1,gb&&D==2); \
  const int fx = fb?1:0, gx = gb?1:0; (void)fx; (void)gx; \
  F f( MemoryWindow( n+dv<D>(am+ap+fx) ), fbc, GhostData( dv<D>(am), dv<D>(ap) ), p, ExternalStorage ); \
  F g( MemoryWindow( n+dv<D>(bm+bp+gx) ), gbc, GhostData( dv<D>(bm), dv<D>(bp) ), q, ExternalStorage )
// walk the points [-lo, n+hi) of f and g together
#define WALK(D,lo,hi,expr) \
  F fv( MemoryWindow( n+dv<D>(am+ap+fx), dv<D>(am-(lo)), n+dv<D>((lo)+(hi)) ), f ); \
  const F gv( MemoryWindow( n+dv<D>(bm+bp+gx), dv<D>(bm-(lo)), n+dv<D>((lo)+(hi)) ), g ); \
  F::iterator it = fv.begin(); const F::iterator e = fv.end(); F::const_iterator ig = gv.begin(); \
  for( ; it!=e; it++, ig++ ) *it = expr
#define CASES(N,FT,D,fb,gb) \
void impl_assign_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); f <<= g + 2.0; } \
void spec_assign_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); \
  if( bp+gx < fx ) throw 1; \
  WALK(D,IMIN(am,bm),IMIN(ap+fx,bp+gx),*ig+2.0); } \
void impl_copy_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); f <<= g; } \
void spec_copy_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); \
  if( bp+gx < fx ) throw 1; \
  WALK(D,IMIN(am,bm),IMIN(ap+fx,bp+gx),*ig); } \
void impl_interior_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); interior_assign( f, g + 2.0 ); } \
void spec_interior_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); \
  if( bp+gx < fx ) throw 1; \
  WALK(D,0,fx,*ig+2.0); } \
void impl_scalar_##N(NARGS,GARGS,double*p,double*q,double c){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); f <<= c; } \
void spec_scalar_##N(NARGS,GARGS,double*p,double*q,double c){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); \
  F::iterator it=f.begin(); const F::iterator e=f.end(); for( ; it!=e; it++ ) *it = c; } \
void impl_intscalar_##N(NARGS,GARGS,double*p,double*q,double c){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); interior_assign( f, c ); } \
void spec_intscalar_##N(NARGS,GARGS,double*p,double*q,double c){ typedef FT F; NPRE; GPRE; FIELDS(D,fb,gb); \
  F fv( MemoryWindow( n+dv<D>(am+ap+fx), dv<D>(am), n+dv<D>(fx) ), f ); \
  F::iterator it=fv.begin(); const F::iterator e=fv.end(); for( ; it!=e; it++ ) *it = c; }
// a direction with a single point has no ghost or extra cells, whatever the field declares
#define DEG(D,fb,gb) const IntVec n(D==0?1:nx,D==1?1:ny,D==2?1:nz); \
  const BoundaryCellInfo fbc = BoundaryCellInfo::build<F>(fb&&D==0,fb&&D==1,fb&&D==2), gbc = BoundaryCellInfo::build<F>(gb&&D==0,gb&&D==1,gb&&D==2); \
  F f( MemoryWindow( n ), fbc, GhostData( dv<D>(am), dv<D>(ap) ), p, ExternalStorage ); \
  F g( MemoryWindow( n ), gbc, GhostData( dv<D>(bm), dv<D>(bp) ), q, ExternalStorage )
#define DWALK(expr) F::iterator it = f.begin(); const F::iterator e = f.end(); F::const_iterator ig = g.begin(); for( ; it!=e; it++, ig++ ) *it = expr
#define DCASES(N,FT,D,fb,gb) \
void impl_assign_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; DEG(D,fb,gb); f <<= g + 2.0; } \
void spec_assign_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; DEG(D,fb,gb); DWALK(*ig+2.0); } \
void impl_copy_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; DEG(D,fb,gb); f <<= g; } \
void spec_copy_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; DEG(D,fb,gb); DWALK(*ig); } \
void impl_interior_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; DEG(D,fb,gb); interior_assign( f, g + 2.0 ); } \
void spec_interior_##N(NARGS,GARGS,double*p,double*q){ typedef FT F; NPRE; GPRE; DEG(D,fb,gb); DWALK(*ig+2.0); } \
void impl_intscalar_##N(NARGS,GARGS,double*p,double*q,double c){ typedef FT F; NPRE; GPRE; DEG(D,fb,gb); interior_assign( f, c ); } \
void spec_intscalar_##N(NARGS,GARGS,double*p,double*q,double c){ typedef FT F; NPRE; GPRE; DEG(D,fb,gb); DWALK(c); }
extern "C" {
DCASES(dx00,SSurfXField,0,false,false)
DCASES(dy00,SSurfYField,1,false,false)
DCASES(dz00,SSurfZField,2,false,false)
DCASES(dx11,SSurfXField,0,true,true)
DCASES(dy11,SSurfYField,1,true,true)
DCASES(dz11,SSurfZField,2,true,true)
CASES(x00,SSurfXField,0,false,false)
CASES(y00,SSurfYField,1,false,false)
CASES(z00,SSurfZField,2,false,false)
CASES(x11,SSurfXField,0,true,true)
CASES(y11,SSurfYField,1,true,true)
CASES(z11,SSurfZField,2,true,true)
CASES(x10,SSurfXField,0,true,false)
CASES(y10,SSurfYField,1,true,false)
CASES(z10,SSurfZField,2,true,false)
CASES(x01,SSurfXField,0,false,true)
CASES(y01,SSurfYField,1,false,true)
CASES(z01,SSurfZField,2,false,true)
// positive control: an assignment that also writes one ghost layer the operand does not have
void bad_assign_z00(NARGS,GARGS,double*p,double*q){ typedef SSurfZField F; NPRE; GPRE; FIELDS(2,false,false); WALK(2,IMIN(am,bm),ap,*ig+2.0); }
void bad_copy_x11(NARGS,GARGS,double*p,double*q){ typedef SSurfXField F; NPRE; GPRE; FIELDS(0,true,true); WALK(0,IMIN(am,bm),IMIN(ap,bp),*ig); }
}
VP_ANCHOR(assign_,"spatialops/NeboLhs.h NeboField<Initial>::sequential_assign; spatialops/NeboBasic.h calculate_valid_ghost")
VP_ANCHOR(copy_,"spatialops/NeboLhs.h NeboField<Initial>::sequential_assign; spatialops/NeboRhs.h NeboConstField")
VP_ANCHOR(interior_,"spatialops/NeboAssignment.h interior_assign")
VP_ANCHOR(scalar_,"spatialops/NeboRhs.h NeboScalar; spatialops/NeboLhs.h")
VP_ANCHOR(intscalar_,"spatialops/NeboAssignment.h interior_assign")
