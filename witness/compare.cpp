// F04: comparisons of fields
#include "fld.h"
#include <boost/math/special_functions/next.hpp>
// units in the last place between two numbers
extern "C" double vp_dist( double, double ) __attribute__((const));
namespace boost{ namespace math{ template<> inline double float_distance<double,double>( const double& a, const double& b ){ return vp_dist(a,b); } } }
#include <spatialops/structured/FieldComparisons.h>
typedef SVolField F;
#define WARGS int gx,int gy,int gz,int ox,int oy,int oz,int ex,int ey,int ez
#define WPRE vp_assume(ex>0); vp_assume(ey>0); vp_assume(ez>0); vp_assume(ox>=0); vp_assume(oy>=0); vp_assume(oz>=0); \
  vp_assume(ox+ex<=gx); vp_assume(oy+ey<=gy); vp_assume(oz+ez<=gz)
#define BASE WPRE; vp_assume(p!=0); vp_assume(q!=0); const BoundaryCellInfo bc = BoundaryCellInfo::build<F>(false,false,false); const MemoryWindow w( IntVec(gx,gy,gz), IntVec(ox,oy,oz), IntVec(ex,ey,ez) ); const GhostData z(0); \
  const F f( w, bc, z, p, ExternalStorage ), g( w, bc, z, q, ExternalStorage )
// x: the value of the reference at the point, y: the value compared with it
#define ALL2(DIFF) for( F::const_iterator i = f.begin(), j = g.begin(), e = f.end(); i != e; ++i, ++j ){ const double x = *i, y = *j; if( DIFF ){ r = false; break; } }
#define ALL1(DIFF) for( F::const_iterator i = f.begin(), e = f.end(); i != e; ++i ){ const double x = d, y = *i; if( DIFF ){ r = false; break; } }
#define REL(t,a) std::abs(x-y)/(std::abs(x)+(a)) > std::abs(t)
#define DIST std::abs(boost::math::float_distance(x,y))
#define ARGS (WARGS,double*p,double*q,double d,double tol,double at,unsigned ulps)
// EQ: the code says equal; NE: the code says unequal
#define CMP(n,X,TAIL,ALL,ZERO,EXACT,NEAR) \
bool impl_##n##_eq ARGS { BASE; return field_equal##X TAIL; } \
bool spec_##n##_eq ARGS { BASE; bool r = true; if( ZERO ){ ALL(EXACT) } else{ ALL(NEAR) } return r; } \
bool impl_##n##_ne ARGS { BASE; return field_not_equal##X TAIL; } \
bool spec_##n##_ne ARGS { BASE; bool r = true; if( ZERO ){ ALL(EXACT) } else{ ALL(NEAR) } return !r; }
#define NORM const double a = nebo_norm(f)*std::abs(tol)*.000001
#define DEFAULT(n,ALL,...) \
bool impl_##n##_eq ARGS { BASE; return field_equal(__VA_ARGS__,tol); } \
bool spec_##n##_eq ARGS { BASE; bool r = true; if( tol==0 ){ ALL(x!=y) } else{ NORM; ALL(REL(tol,a)) } return r; } \
bool impl_##n##_ne ARGS { BASE; return field_not_equal(__VA_ARGS__,tol); } \
bool spec_##n##_ne ARGS { BASE; bool r = true; if( tol==0 ){ ALL(x!=y) } else{ NORM; ALL(REL(tol,a)) } return !r; }
extern "C" {
CMP(rel, , (f,g,tol,at), ALL2, tol==0, x!=y, REL(tol,at))
CMP(relval, , (d,f,tol,at), ALL1, tol==0, x!=y, REL(tol,at))
CMP(abs, _abs, (f,g,tol), ALL2, tol==0, x!=y, std::abs(x-y) > std::abs(tol))
CMP(absval, _abs, (d,f,tol), ALL1, tol==0, x!=y, std::abs(x-y) > std::abs(tol))
CMP(ulp, _ulp, (f,g,ulps), ALL2, ulps==0, boost::math::float_distance(x,y)!=0, DIST > ulps)
CMP(ulpval, _ulp, (d,f,ulps), ALL1, ulps==0, boost::math::float_distance(x,y)!=0, DIST > ulps)
DEFAULT(def, ALL2, f,g)
DEFAULT(defval, ALL1, d,f)
CMP(exact, , (f,g), ALL2, true, x!=y, x!=y)
CMP(exactval, , (d,f), ALL1, true, x!=y, x!=y)
CMP(exactabs, _abs, (f,g), ALL2, true, x!=y, x!=y)
bool bad_rel_eq ARGS { BASE; bool r = true; if( tol==0 ){ ALL2(x!=y) } else{ ALL2(std::abs(x-y)/(std::abs(y)+at) > std::abs(tol)) } return r; }
// fields of different windows are not compared
#define W2 BASE; vp_assume(ex2>0); vp_assume(ey2>0); vp_assume(ez2>0); vp_assume(ox2>=0); vp_assume(oy2>=0); vp_assume(oz2>=0); vp_assume(ox2+ex2<=gx2); vp_assume(oy2+ey2<=gy2); vp_assume(oz2+ez2<=gz2); \
  const MemoryWindow w2( IntVec(gx2,gy2,gz2), IntVec(ox2,oy2,oz2), IntVec(ex2,ey2,ez2) ); const F h( w2, bc, z, q, ExternalStorage )
#define SIZE(n,CALL) \
bool impl_size_##n(WARGS,double*p,double*q,int gx2,int gy2,int gz2,int ox2,int oy2,int oz2,int ex2,int ey2,int ez2,double tol,double at,unsigned ulps){ W2; return CALL || true; } \
bool spec_size_##n(WARGS,double*p,double*q,int gx2,int gy2,int gz2,int ox2,int oy2,int oz2,int ex2,int ey2,int ez2,double tol,double at,unsigned ulps){ W2; if( gx!=gx2||gy!=gy2||gz!=gz2||ox!=ox2||oy!=oy2||oz!=oz2||ex!=ex2||ey!=ey2||ez!=ez2 ) throw 1; return true; }
SIZE(rel, field_equal(f,h,tol,at))
SIZE(abs, field_equal_abs(f,h,tol))
SIZE(ulp, field_equal_ulp(f,h,ulps))
}
VP_ANCHOR(rel,"spatialops/structured/FieldComparisons.h field_equal, field_not_equal") VP_ANCHOR(def,"spatialops/structured/FieldComparisons.h field_equal, field_not_equal with default absolute tolerance") VP_ANCHOR(abs,"spatialops/structured/FieldComparisons.h field_equal_abs, field_not_equal_abs") VP_ANCHOR(ulp,"spatialops/structured/FieldComparisons.h field_equal_ulp, field_not_equal_ulp") VP_ANCHOR(size,"spatialops/structured/FieldComparisons.h field_equal: window check") VP_ANCHOR(exact,"spatialops/structured/FieldComparisons.h exact comparison")
