// E01: analytic functions of a field and their derivatives
#include "fld.h"
#include <spatialops/FieldFunctions.h>
typedef SVolField F;
#define WARGS int ex,int ey,int ez
#define PRE vp_assume(ex>0); vp_assume(ey>0); vp_assume(ez>0); vp_assume(p!=0); vp_assume(q!=0)
#define FIELDS const BoundaryCellInfo bc = BoundaryCellInfo::build<F>(false,false,false); const MemoryWindow w( IntVec(ex,ey,ez) ); const GhostData z(0); \
  F f( w, bc, z, p, ExternalStorage ); const F x( w, bc, z, q, ExternalStorage )
#define WALK(EXPR) F::iterator i = f.begin(); F::const_iterator j = x.begin(); const F::iterator e = f.end(); for( ; i!=e; ++i, ++j ){ const double x = *j; *i = EXPR; }
#define FUN(n,ARGS,CTOR,OP,EXPR) \
void impl_##n(WARGS,double*p,double*q,ARGS){ PRE; FIELDS; CTOR; u.OP( f ); } \
void spec_##n(WARGS,double*p,double*q,ARGS){ PRE; FIELDS; WALK(EXPR) }
#define A2 double a,double b
#define A3 double a,double b,double c
#define A4 double a,double b,double c,double d
#define COMMA ,
#define GE std::exp( -(x-c)*(x-c)/(2*b*b) )
extern "C" {
FUN(lin_val, A2, LinearFunction1D<F> u(x COMMA a COMMA b), evaluate, a*x+b)
FUN(lin_dx,  A2, LinearFunction1D<F> u(x COMMA a COMMA b), dx, a)
FUN(lin_d2x, A2, LinearFunction1D<F> u(x COMMA a COMMA b), d2x, 0.0)
FUN(sin_val, A3, SinFunction<F> u(x COMMA a COMMA b COMMA c), evaluate, a*std::sin(b*x)+c)
FUN(sin_val0,A2, SinFunction<F> u(x COMMA a COMMA b), evaluate, a*std::sin(b*x))
FUN(sin_dx,  A3, SinFunction<F> u(x COMMA a COMMA b COMMA c), dx, a*b*std::cos(b*x))
FUN(sin_d2x, A3, SinFunction<F> u(x COMMA a COMMA b COMMA c), d2x, -a*b*b*std::sin(b*x))
FUN(gau_val, A4, GaussianFunction<F> u(x COMMA a COMMA b COMMA c COMMA d), evaluate, d+a*GE)
FUN(gau_val0,A3, GaussianFunction<F> u(x COMMA a COMMA b COMMA c), evaluate, a*GE)
// d/dx of a*exp(-(x-c)^2/(2 b^2)) + d
FUN(gau_dx,  A4, GaussianFunction<F> u(x COMMA a COMMA b COMMA c COMMA d), dx, -a*(x-c)/(b*b)*GE)
FUN(gau_d2x, A4, GaussianFunction<F> u(x COMMA a COMMA b COMMA c COMMA d), d2x, (a*(x-c)*(x-c)/(b*b*b*b)-a/(b*b))*GE)
FUN(tanh_val,A4, HyperTanFunction<F> u(x COMMA a COMMA b COMMA c COMMA d), evaluate, a/4*(1+std::tanh((x-c)/b))*(1-std::tanh((x-d)/b)))
void bad_sin_d2x(WARGS,double*p,double*q,A3){ PRE; FIELDS; WALK(-a*b*std::sin(b*x)) }
// coordinates are handed back unchanged
struct Two : FieldFunction2D<F>{ Two( const F& x, const F& y ) : FieldFunction2D<F>(x,y){} void evaluate( F& ) const{} };
struct Three : FieldFunction3D<F>{ Three( const F& x, const F& y, const F& z ) : FieldFunction3D<F>(x,y,z){} void evaluate( F& ) const{} };
bool prove_coords(WARGS,double*p,double*q){ PRE; FIELDS; const F y(f); LinearFunction1D<F> l(x,1,2); Two t(x,y); Three s(y,x,f); return &l.get_x()==&x && &t.get_x()==&x && &t.get_y()==&y && &s.get_x()==&y && &s.get_y()==&x && &s.get_z()==&f; }
}
VP_ANCHOR(lin,"spatialops/FieldFunctions.h LinearFunction1D") VP_ANCHOR(sin,"spatialops/FieldFunctions.h SinFunction") VP_ANCHOR(gau,"spatialops/FieldFunctions.h GaussianFunction") VP_ANCHOR(tanh,"spatialops/FieldFunctions.h HyperTanFunction") VP_ANCHOR(coords,"spatialops/FieldFunctions.h FieldFunction1D/2D/3D")
