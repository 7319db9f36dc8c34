// H01: grid spacing and coordinates
#include "fld.h"
#include <spatialops/structured/Grid.cpp>
using namespace SpatialOps; using namespace SpatialOps::structured;
#define LARGS double lx,double ly,double lz
#define GRID const double l_[3] = {lx,ly,lz}; const std::vector<double> L(l_,l_+3); const Grid grid( IntVec(nx,ny,nz), L )
#define GA(p) int p##0,int p##1,int p##2,int p##3,int p##4,int p##5
#define GNN(p) vp_assume(p##0>=0);vp_assume(p##1>=0);vp_assume(p##2>=0);vp_assume(p##3>=0);vp_assume(p##4>=0);vp_assume(p##5>=0)
#define WARGS int gx,int gy,int gz,int ox,int oy,int oz,int ex,int ey,int ez
#define WPRE vp_assume(ex>0); vp_assume(ey>0); vp_assume(ez>0); vp_assume(ox>=0); vp_assume(oy>=0); vp_assume(oz>=0); \
  vp_assume(ox+ex<=gx); vp_assume(oy+ey<=gy); vp_assume(oz+ez<=gz)
#define ROOM(e,m,p) vp_assume( e==1 || e>m+p )
#define FITS ROOM(ex,g0,g1); ROOM(ey,g2,g3); ROOM(ez,g4,g5)
#define FIELD(FT) const BoundaryCellInfo bc = BoundaryCellInfo::build<FT>(false,false,false); const MemoryWindow w( IntVec(gx,gy,gz), IntVec(ox,oy,oz), IntVec(ex,ey,ez) ); \
  FT f( w, bc, GhostData(g0,g1,g2,g3,g4,g5), v, ExternalStorage ); vp_assume( v!=0 )
#define PRE NPRE; GNN(g); WPRE; FITS
// halves: position of the first interior point in units of half a cell (1 cell centre, 0 face)
#define COORD(n,FT,CT,d,halves) \
void impl_coord_##n(NARGS,LARGS,WARGS,GA(g),double*v){ PRE; GRID; FIELD(FT); grid.set_coord<CT>( f ); } \
void spec_coord_##n(NARGS,LARGS,WARGS,GA(g),double*v){ PRE; FIELD(FT); const double h = d==0?lx/nx:d==1?ly/ny:lz/nz; const int m = d==0?(ex>1?g0:0):d==1?(ey>1?g2:0):(ez>1?g4:0); \
  FT::iterator it = f.begin(); for( int k=0; k<ez; ++k ) for( int j=0; j<ey; ++j ) for( int i=0; i<ex; ++i ){ *it = h*((d==0?i:d==1?j:k)-m) + 0.5*halves*h; ++it; } }
#define C3(n,FT,a,b,c) COORD(n##x,FT,XDIR,0,a) COORD(n##y,FT,YDIR,1,b) COORD(n##z,FT,ZDIR,2,c)
extern "C" {
VP_ANCHOR(spacing,"spatialops/structured/Grid.cpp Grid::Grid, spacing") VP_ANCHOR(coord,"spatialops/structured/Grid.cpp Grid::set_coord")
void impl_spacing(NARGS,LARGS,double*o,int*e){ NPRE; GRID; o[0]=grid.spacing<XDIR>(); o[1]=grid.spacing<YDIR>(); o[2]=grid.spacing<ZDIR>(); o[3]=grid.length(0); o[4]=grid.length()[1]; o[5]=grid.length(2); e[0]=grid.extent(0); e[1]=grid.extent()[1]; e[2]=grid.extent(2); }
void spec_spacing(NARGS,LARGS,double*o,int*e){ NPRE; o[0]=lx/nx; o[1]=ly/ny; o[2]=lz/nz; o[3]=lx; o[4]=ly; o[5]=lz; e[0]=nx; e[1]=ny; e[2]=nz; }
void bad_spacing(NARGS,LARGS,double*o,int*e){ NPRE; o[0]=lx/nx; o[1]=ly/ny; o[2]=lz/ny; o[3]=lx; o[4]=ly; o[5]=lz; e[0]=nx; e[1]=ny; e[2]=nz; }
C3(ss,SVolField,1,1,1)
C3(sx,SSurfXField,0,1,1)
C3(sy,SSurfYField,1,0,1)
C3(sz,SSurfZField,1,1,0)
C3(xv,XVolField,0,1,1)
C3(xx,XSurfXField,1,1,1)
C3(xy,XSurfYField,0,0,1)
C3(xz,XSurfZField,0,1,0)
C3(yv,YVolField,1,0,1)
C3(yx,YSurfXField,0,0,1)
C3(yy,YSurfYField,1,1,1)
C3(yz,YSurfZField,1,0,0)
C3(zv,ZVolField,1,1,0)
C3(zx,ZSurfXField,0,1,0)
C3(zy,ZSurfYField,1,0,0)
C3(zz,ZSurfZField,1,1,1)
}
