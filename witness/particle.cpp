// P02 particle operators: real fields over caller-provided memory, a one-dimensional mesh.
#define VP_NO_POOL
#include "fld.h"
#include <spatialops/particles/ParticleFieldTypes.h>
#include <spatialops/particles/ParticleOperators.h>
typedef Particle::ParticleField P; typedef SVolField C;
#define MESH const BoundaryCellInfo cb=BoundaryCellInfo::build<C>(false,false,false), pb=BoundaryCellInfo::build<P>(false,false,false); const GhostData cg(0), pg(0); \
  const MemoryWindow xw( IntVec(6,1,1) ), cw( IntVec(n,1,1) ), pw( IntVec(m,1,1) ); C xc( xw, cb, cg, mx, ExternalStorage ), cv( cw, cb, cg, c, ExternalStorage ); P pv( pw, pb, pg, v, ExternalStorage ), px( pw, pb, pg, x, ExternalStorage ), ps( pw, pb, pg, s, ExternalStorage )
#define ARGS int n,int m,double x0,double dx,double*c,double*x,double*s,double*v
#define APRE vp_assume(n>2); vp_assume(m>0); vp_assume(c!=0); vp_assume(x!=0); vp_assume(s!=0); vp_assume(v!=0); vp_assume(dx>0); double mx[6]={ x0, x0+dx, x0+2*dx, x0+3*dx, x0+4*dx, x0+5*dx }
extern "C" {
// every particle lies inside the mesh
#define INSIDE(M) for( int k=0; k<M; ++k ){ vp_assume( x[k]-s[k]/2 >= x0-dx/2 ); vp_assume( x[k]+s[k]/2 <= x0+dx*5.5 ); vp_assume( s[k]>=0 ); }
VP_ANCHOR(c2p,"spatialops/particles/ParticleOperators.h CellToParticle::apply_to_field")
#define C2P(N,M,IN) \
void impl_c2p##N(ARGS){ APRE; IN; m=M; MESH; const Particle::CellToParticle<C> op( xc ); op.apply_to_field( px, ps, cv, pv ); } \
void spec_c2p##N(ARGS){ APRE; IN; m=M; \
  for( int k=0; k<m; ++k ){ double l=x[k]-s[k]/2; const double r=x[k]+s[k]/2; int q=int( std::floor( (l-x0)/dx+0.5 ) ); v[k]=0; \
    while( l<r ){ double e=mx[q]+dx/2; if( e>r ) e=r; v[k] += c[q]*(e-l)/s[k]; ++q; l=e; } } }
VP_ANCHOR(p2c,"spatialops/particles/ParticleOperators.h ParticleToCell::apply_to_field")
#define P2C(N,M,IN) \
void impl_p2c##N(ARGS){ APRE; IN; M; MESH; const Particle::ParticleToCell<C> op( xc ); op.apply_to_field( px, ps, pv, cv ); } \
void spec_p2c##N(ARGS){ APRE; IN; M; for( int q=0; q<n; ++q ) c[q]=0; \
  for( int k=0; k<m; ++k ){ double l=x[k]-s[k]/2; const double r=x[k]+s[k]/2; int q=int( std::floor( (l-x0)/dx+0.5 ) ); \
    while( l<r ){ double e=mx[q]+dx/2; if( e>r ) e=r; c[q] += v[k]*(e-l)/s[k]; ++q; l=e; } } }
C2P(1,1,INSIDE(1))
C2P(2,2,INSIDE(2))
C2P(3,3,INSIDE(3))
P2C(1,m=1,INSIDE(1))
P2C(m,,)
void bad_c2p1(ARGS){ APRE; INSIDE(1); m=1; for( int k=0; k<m; ++k ){ double l=x[k]-s[k]/2; const double r=x[k]+s[k]/2; int q=int( std::floor( (l-x0)/dx+0.5 ) ); v[k]=0; while( l<r ){ double e=mx[q]+dx/2; v[k] += c[q]*(e-l)/s[k]; ++q; l=e; } } }
VP_ANCHOR(ctor,"spatialops/particles/ParticleOperators.h CellToParticle::CellToParticle, ParticleToCell::ParticleToCell")
#define CTOR(N,O) bool impl_ctor##N(double a,double b,double c,double d){ vp_assume(b>a); double mx[4]={a,b,c,d}; const C xc( MemoryWindow( IntVec(4,1,1) ), BoundaryCellInfo::build<C>(false,false,false), GhostData(0), mx, ExternalStorage ); const Particle::O<C> op( xc ); return true; } \
bool spec_ctor##N(double a,double b,double c,double d){ vp_assume(b>a); if( std::fabs((b-a)-(c-b))/(b-a)>1e-6 || std::fabs((b-a)-(d-c))/(b-a)>1e-6 ) throw 1; return true; }
CTOR(c,CellToParticle)
CTOR(p,ParticleToCell)
}
