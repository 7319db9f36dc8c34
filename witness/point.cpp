// P01: point operators copy exactly the listed cells, in the order listed.
#include <vector>
#include <new>
// lists of flat indices: a plain growing array stands for std::vector<size_t>
namespace std{ template<> class vector<unsigned long>{ unsigned long *b,*e,*a; public: typedef const unsigned long* const_iterator; typedef unsigned long* iterator; typedef unsigned long value_type; typedef size_t size_type;
  vector(){ a=b=e=new unsigned long[4096]; } vector( unsigned long* x, unsigned long* y ) : b(x), e(y), a(0) {} ~vector(){ if( a ) delete[] a; } void push_back( const unsigned long x ){ *e=x; ++e; } const_iterator begin() const{ return b; } const_iterator end() const{ return e; } iterator begin(){ return b; } iterator end(){ return e; } size_t size() const{ return e-b; } bool empty() const{ return e==b; }
  const unsigned long& operator[]( const size_t i ) const{ return b[i]; } unsigned long& operator[]( const size_t i ){ return b[i]; } vector( const vector& o ) : b(o.b), e(o.e), a(0) {} vector& operator=( const vector& o ){ b=o.b; e=o.e; return *this; } void reserve( size_t ){} void clear(){ e=b; } const unsigned long& at( const size_t i ) const{ return b[i]; } void swap( vector& o ){ unsigned long*t=b; b=o.b; o.b=t; t=e; e=o.e; o.e=t; t=a; a=o.a; o.a=t; } const unsigned long& front() const{ return *b; } const unsigned long& back() const{ return e[-1]; } };
}
#define VP_NO_POOL
#include "fld.h"
#include <spatialops/pointfield/PointFieldTypes.h>
#include <spatialops/pointfield/PointOperators.h>
typedef Point::PointField P; typedef SVolField C; typedef std::vector<unsigned long> L;
#define MESH const BoundaryCellInfo cb=BoundaryCellInfo::build<C>(false,false,false), pb=BoundaryCellInfo::build<P>(false,false,false); const GhostData cg(0), pg(0); \
  const MemoryWindow cw( IntVec(nx,ny,nz) ), pw( IntVec(m,1,1) ); C f( cw, cb, cg, c, ExternalStorage ); P pt( pw, pb, pg, v, ExternalStorage ); const L l( ix, ix+m )
#define ARGS NARGS,int m,double*c,double*v,unsigned long*ix
#define APRE NPRE; vp_assume(m>0); vp_assume(c!=0); vp_assume(v!=0); vp_assume(ix!=0)
extern "C" {
VP_ANCHOR(f2p,"spatialops/pointfield/PointOperators.h FieldToPoint::apply_to_field")
void impl_f2p(ARGS){ APRE; MESH; const Point::FieldToPoint<C> op( l ); op.apply_to_field( f, pt ); }
void spec_f2p(ARGS){ APRE; for( int k=0; k<m; ++k ) v[k]=c[ix[k]]; }
void bad_f2p(ARGS){ APRE; for( int k=0; k<m; ++k ) v[k]=c[k]; }
VP_ANCHOR(p2f,"spatialops/pointfield/PointOperators.h PointToField::apply_to_field")
void impl_p2f(ARGS){ APRE; MESH; const Point::PointToField<C> op( l ); op.apply_to_field( pt, f ); }
void spec_p2f(ARGS){ APRE; for( int k=0; k<m; ++k ) c[ix[k]]=v[k]; }
// a field of flags names the points: the cells that are not zero, in flat order
VP_ANCHOR(flag,"spatialops/pointfield/PointOperators.h PointToField::PointToField, FieldToPoint::FieldToPoint")
#define FLAGS(N,A,B,CC,M) void impl_flagf##N(double*c,double*g,double*v){ vp_assume(c!=0); vp_assume(g!=0); vp_assume(v!=0); const int nx=A,ny=B,nz=CC; int m=0; for( int q=0; q<A*B*CC; ++q ) if( g[q]!=0 ) ++m; vp_assume(m==M); m=M; unsigned long*ix=0; MESH; const C fl( cw, cb, cg, g, ExternalStorage ); const Point::FieldToPoint<C> op( fl ); op.apply_to_field( f, pt ); } \
void spec_flagf##N(double*c,double*g,double*v){ vp_assume(c!=0); vp_assume(g!=0); vp_assume(v!=0); int m=0; for( int q=0; q<A*B*CC; ++q ) if( g[q]!=0 ) ++m; vp_assume(m==M); m=0; for( int q=0; q<A*B*CC; ++q ) if( g[q]!=0 ) v[m++]=c[q]; } \
void impl_flagp##N(double*c,double*g,double*v){ vp_assume(c!=0); vp_assume(g!=0); vp_assume(v!=0); const int nx=A,ny=B,nz=CC; int m=0; for( int q=0; q<A*B*CC; ++q ) if( g[q]!=0 ) ++m; vp_assume(m==M); m=M; unsigned long*ix=0; MESH; const C fl( cw, cb, cg, g, ExternalStorage ); const Point::PointToField<C> op( fl ); op.apply_to_field( pt, f ); } \
void spec_flagp##N(double*c,double*g,double*v){ vp_assume(c!=0); vp_assume(g!=0); vp_assume(v!=0); int m=0; for( int q=0; q<A*B*CC; ++q ) if( g[q]!=0 ) ++m; vp_assume(m==M); m=0; for( int q=0; q<A*B*CC; ++q ) if( g[q]!=0 ) c[q]=v[m++]; }
FLAGS(21,2,1,1,1)
FLAGS(22,1,2,1,2)
FLAGS(31,1,3,1,1)
FLAGS(32,3,1,1,2)
FLAGS(41,2,1,2,1)
FLAGS(43,2,2,1,3)
}
