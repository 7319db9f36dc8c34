// shared helpers: real SpatialField objects over caller-provided memory with
// symbolic shape.
#ifndef FLD_H
#define FLD_H
#include "vp.h"
#include <spatialops/structured/MemoryWindow.cpp>
#include <spatialops/structured/GhostData.cpp>
#ifndef VP_NO_POOL
#include <spatialops/structured/MemoryPool.cpp>
#endif
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/Nebo.h>
using namespace SpatialOps;
using namespace SpatialOps::structured;
#define INL static inline __attribute__((always_inline))
#define NARGS int nx,int ny,int nz
#define NPRE vp_assume(nx>0); vp_assume(ny>0); vp_assume(nz>0)
// unit vector along D scaled
template<int D> INL IntVec dv( const int a ){ return IntVec( D==0?a:0, D==1?a:0, D==2?a:0 ); }
#define IMIN(a,b) ((a)<(b)?(a):(b))
#endif
