// T02: a thread-parallel assignment schedules every chunk of its region once, waits for all of them, and each chunk is
// what the sequential assignment does on these cells. The pool is replaced by one that runs each task at once; the
// field by a plain one with the same interface (window, ghosts, boundary, memory).
#include "fld.h"
typedef const IntVec& IVr;
struct Fd{ double* m; MemoryWindow w; BoundaryCellInfo bc; GhostData gh, vg; int parts;
  typedef Fd field_type; typedef double value_type; typedef SVolField::Location Location; typedef MemoryWindow memory_window;
  typedef FieldIterator<Fd> iterator; typedef ConstFieldIterator<Fd> const_iterator;
  Fd( double* p, const MemoryWindow& a, const BoundaryCellInfo& b, const GhostData& g ) : m(p),w(a),bc(b),gh(g),vg(g),parts(1) {}
  Fd( const MemoryWindow& a, const Fd& o ) : m(o.m),w(a),bc(o.bc),gh(o.gh),vg(o.vg),parts(o.parts) {}
  Fd( const Fd& o ) : m(o.m),w(o.w),bc(o.bc),gh(o.gh),vg(o.vg),parts(o.parts) {}
  const MemoryWindow& window_with_ghost() const{ return w; } const GhostData& get_ghost_data() const{ return gh; } const GhostData& get_valid_ghost_data() const{ return vg; } const BoundaryCellInfo& boundary_info() const{ return bc; } int get_partition_count() const{ return parts; }
  Fd reshape( IVr e, IVr s ) const{ return Fd( MemoryWindow( w.glob_dim(), w.offset()+s, w.extent()+e ), *this ); }
  void reset_valid_ghosts( const GhostData& g ){ const IntVec d=w.ghost_dims(), f=(vg.get_minus()-g.get_minus())*d; w=MemoryWindow( w.glob_dim(), w.offset()+f, w.extent()-f-(vg.get_plus()-g.get_plus())*d ); vg=g; }
  const double* field_values( MemoryType=LOCAL_RAM, short=0 ) const{ return m; } double* field_values( MemoryType=LOCAL_RAM, short=0 ){ return m; } MemoryType memory_device_type() const{ return LOCAL_RAM; } unsigned short device_index() const{ return 0; } bool find_consumer( MemoryType, unsigned short ) const{ return true; }
  iterator begin(){ return iterator( m, w ); } iterator end(){ iterator i( m, MemoryWindow( w.glob_dim(), w.offset(), w.extent() ) ); i+=w.extent(0)*w.extent(1)*w.extent(2); return i; } const_iterator begin() const{ return const_iterator( m, w ); } const_iterator end() const{ const_iterator i( m, w ); i+=w.extent(0)*w.extent(1)*w.extent(2); return i; } };

#define GARGS int am,int ap,int bm,int bp
#define GPRE vp_assume(am>=0); vp_assume(ap>=0); vp_assume(bm>=0); vp_assume(bp>=0); vp_assume(am<9); vp_assume(ap<9); vp_assume(bm<9);vp_assume(bp<9)
template<int D> struct Face; template<> struct Face<0>{ typedef SSurfXField T; }; template<> struct Face<1>{ typedef SSurfYField T; }; template<> struct Face<2>{ typedef SSurfZField T; };
#define FIELDS(D,fb,gb) const IntVec n(nx,ny,nz); vp_assume((D==0?nx:D==1?ny:nz)>1); const int fx=fb?1:0, gx=gb?1:0; (void)fx; (void)gx; \
  const BoundaryCellInfo fbc=BoundaryCellInfo::build<Face<D>::T>( fb&&D==0,fb&&D==1,fb&&D==2 ), gbc=BoundaryCellInfo::build<Face<D>::T>( gb&&D==0,gb&&D==1,gb&&D==2 ); \
  Fd f( p, MemoryWindow( n+dv<D>(am+ap+fx) ), fbc, GhostData( dv<D>(am), dv<D>(ap) ) ); \
  const Fd g( q, MemoryWindow( n+dv<D>(bm+bp+gx) ), gbc, GhostData( dv<D>(bm), dv<D>(bp) ) )
typedef NeboField<Initial,Fd> L; typedef NeboConstField<Initial,Fd> R;
typedef SumOp<Initial,R,NeboScalar<Initial,double> > Sum;
template<int D> INL MemoryWindow reg( const IntVec& n, int m, int p, int lo, int hi ){ return MemoryWindow( n+dv<D>(m+p), dv<D>(m-lo), n+dv<D>(lo+hi) ); }
INL void walk( Fd fv, const Fd gv, int how, double c ){ Fd::iterator it=fv.begin(); const Fd::iterator e=fv.end(); Fd::const_iterator ig=gv.begin(); for( ; it!=e; it++, ig++ ) *it = how==0 ? c : how==1 ? *ig : *ig+c; }
#define ROOM(E,t) vp_assume( (E==0?nx:E==1?ny:nz)+(D==E?lo+hi:0) >= t )
#define THIN(E,t) vp_assume( (E==0?nx:E==1?ny:nz)+(D==E?lo+hi:0) < t )
#define PRE(DD) NPRE; GPRE; vp_watch.on=0; enum{ D=DD }; const int lo=IMIN(am,bm), hi=IMIN(ap,bp);
#define ON vp_assume( vp_capacity(0)>0 )
#define E2(t) ROOM(2,t)
#define E1(t) THIN(2,t); ROOM(1,t)
#define E0(t) THIN(2,t); THIN(1,t); ROOM(0,t)
extern "C" {
// the spec: t chunks along E, each assigned the way the sequential assignment does it
#define CASES(N,DD,E,t,pre,fb,gb,useg,how,RHS) \
void impl_par_##N(NARGS,GARGS,double*p,double*q,double c){ PRE(DD) const int h2=IMIN(ap+(fb),bp+(gb)); (void)h2; (void)hi; ON; pre; FIELDS(DD,fb,gb); f.parts=t; L(f).assign( useg, RHS ); } \
void spec_par_##N(NARGS,GARGS,double*p,double*q,double c){ PRE(DD) const int h2=IMIN(ap+(fb),bp+(gb)); (void)h2; (void)hi; ON; pre; FIELDS(DD,fb,gb); \
  const int l0=useg?(how?lo:am):0, l1=useg?(how?h2:ap+fx):fx; \
  for( int k=0; k<t; ++k ) walk( Fd( reg<D>(n,am,ap+fx,l0,l1).refine( IntVec(1,1,1)+dv<E>(t-1), dv<E>(k) ), f ), Fd( how?reg<D>(n,bm,bp+gx,l0,l1).refine( IntVec(1,1,1)+dv<E>(t-1), dv<E>(k) ):g.w, g ), how, c ); }
VP_ANCHOR(par,"spatialops/NeboLhs.h thread_parallel_assign")
// a two-point stencil along z: the operand is read at the same cell and at the one below
typedef NeboStencilPointCollection<IndexTriplet<0,0,-1>,NeboNil>::AddPoint<IndexTriplet<0,0,0> >::Result Pts; typedef NeboStencil<Initial,Pts,R,Fd> Sten;
INL void walk2( Fd fv, const Fd gv, const Fd hv, double c, double d ){ Fd::iterator it=fv.begin(); const Fd::iterator e=fv.end(); Fd::const_iterator ig=gv.begin(), ih=hv.begin(); for( ; it!=e; it++, ig++, ih++ ) *it = *ig*c+*ih*d; }
#define STEN(N,E,t,fb,pre) \
void impl_par_##N(NARGS,GARGS,double*p,double*q,double c,double d){ PRE(2) (void)lo; (void)hi; ON; vp_assume(bm>=1); pre; FIELDS(2,fb,false); f.parts=t; L(f).assign( true, Sten( R(g), build_two_point_coef_collection(c,d) ) ); } \
void spec_par_##N(NARGS,GARGS,double*p,double*q,double c,double d){ PRE(2) (void)lo; (void)hi; ON; vp_assume(bm>=1); pre; FIELDS(2,fb,false); const int l0=IMIN(am,bm-1), l1=IMIN(ap+fx,bp); \
  for( int k=0; k<t; ++k ){ const IntVec s=IntVec(1,1,1)+dv<E>(t-1), o=dv<E>(k); const MemoryWindow w=reg<2>(n,bm,bp,l0,l1); \
    walk2( Fd( reg<2>(n,am,ap+fx,l0,l1).refine( s, o ), f ), Fd( MemoryWindow( w.glob_dim(), w.offset()-dv<2>(1), w.extent() ).refine( s, o ), g ), Fd( w.refine( s, o ), g ), c, d ); } }
STEN(sten2,2,2,false,vp_assume(am<=bm-1);vp_assume(ap<=bp);vp_assume(nz+am+ap>=2))
STEN(sten2b,2,2,true,vp_assume(am==0);vp_assume(ap==0);vp_assume(bp==1);vp_assume(nz>=2))
#define SUM Sum( R(g), NeboScalar<Initial,double>(c) )
#define SAME vp_assume(am==0); vp_assume(ap==0); vp_assume(bm==0); vp_assume(bp==0)
CASES(zz2,2,2,2,E2(2),false,false,true,2,SUM)
CASES(zz1,2,2,1,,false,false,true,2,SUM)
CASES(xx2,0,0,2,E0(2),false,false,true,2,SUM)
CASES(yy2,1,1,2,SAME;E1(2),false,false,true,2,SUM)
CASES(zcopy2,2,2,2,E2(2),false,false,true,1,R(g))
CASES(yscalar2,1,1,2,vp_assume(nz<2);vp_assume(ny+am+ap>=2),false,false,true,0,(NeboScalar<Initial,double>(c)))
CASES(zint2,2,2,2,vp_assume(nz>=2),false,false,false,2,SUM)
CASES(zbc2,2,2,2,E2(2),true,true,true,2,SUM)
CASES(zz3,2,2,3,SAME;E2(3),false,false,true,2,SUM)
CASES(yy3,1,1,3,SAME;E1(3),false,false,true,0,(NeboScalar<Initial,double>(c)))
CASES(xx3,0,0,3,SAME;E0(3),false,false,true,2,SUM)
CASES(xz2,0,2,2,SAME;E2(2),false,false,true,2,SUM)
CASES(xy2,0,1,2,SAME;E1(2),false,false,true,0,(NeboScalar<Initial,double>(c)))
CASES(zz4s,2,2,4,SAME;E2(4),false,false,true,0,(NeboScalar<Initial,double>(c)))
// a task announces that it is done only when its stores have been made: what any cell holds then is what it holds in the end
#define POSTED(N,RHS,V) double impl_parpost_##N(double*p,double*q,double c){ vp_assume( vp_capacity(0)>0 ); vp_watch.p=p; vp_watch.on=1; const MemoryWindow w( IntVec(1,1,1) ); const BoundaryCellInfo b=BoundaryCellInfo::build<SVolField>(); const GhostData o(0); Fd f( p, w, b, o ); const Fd g( q, w, b, o ); f.parts=1; L(f).assign( true, RHS ); return vp_watch.v; } \
double spec_parpost_##N(double*p,double*q,double c){ vp_assume( vp_capacity(0)>0 ); vp_watch.p=p; vp_watch.on=1; *p = V; vp_watch.v=V; return V; }
VP_ANCHOR(parpost,"spatialops/NeboLhs.h thread_parallel_assign_task")
POSTED(sum,SUM,*q+c)
POSTED(scal,(NeboScalar<Initial,double>(c)),c)
void bad_par_zz1(NARGS,GARGS,double*p,double*q,double c){ PRE(2) (void)lo; (void)hi; ON; FIELDS(2,false,false); walk( Fd( reg<2>(n,am,ap,lo,hi-1), f ), Fd( reg<2>(n,bm,bp,lo,hi-1), g ), 2, c ); }
}
