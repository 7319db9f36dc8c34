// F05: reference-counted field pointers. SpatFldPtr is instantiated over a token field that records
// how often it was destroyed and how often its storage was handed back.
#include "vp.h"
#include <spatialops/structured/MemoryWindow.h>
#include <spatialops/structured/GhostData.h>
#include <spatialops/structured/MemoryPool.h>
#include <spatialops/structured/SpatialFieldStore.h>
using namespace SpatialOps;
struct Tok { int puts; int mt; };
extern char vp_pool[];
namespace SpatialOps{ namespace structured{
template<> Pool<Tok>& Pool<Tok>::self(){ return *reinterpret_cast< Pool<Tok>* >( vp_pool ); }
template<> void Pool<Tok>::put( const MemoryType m, Tok* t ){ ++t->puts; t->mt = m; }
}}
struct Stub{
  typedef Tok value_type;
  Tok* t_; int* destroyed_; MemoryType m_; unsigned short d_;
  Stub( Tok* t, int* destroyed, MemoryType m, unsigned short d ) : t_(t), destroyed_(destroyed), m_(m), d_(d) {}
  ~Stub(){ ++*destroyed_; }
  MemoryType memory_device_type() const{ return m_; }
  unsigned short device_index() const{ return d_; }
  const Tok* field_values() const{ return t_; }
  const Tok* field_values( const MemoryType, const unsigned short = 0 ) const{ return t_; }
  Tok* field_values(){ return t_; }
  Tok* field_values( const MemoryType, const unsigned short = 0 ){ return t_; }
};
typedef SpatFldPtr<Stub> P;
struct Env{ Tok a, b; int da, db; Env() : da(0), db(0) { a.puts = b.puts = 0; a.mt = b.mt = -7; } };
#define NEWA new Stub(&e.a,&e.da,LOCAL_RAM,0)
#define NEWB new Stub(&e.b,&e.db,LOCAL_RAM,0)
#define KIND(k,n) vp_assume(k>=0); vp_assume(k<=n)
// sharing pattern k of pointer x over field f: 0 null, 1 sole owner, 2 shared with y, 3 shared with y and z
#define SHARE(k,x,y,z,NEW,st,f) Stub* f = 0; if( k>0 ){ f = NEW; P tmp(f,st); x = tmp; } if( k>1 ) y = x; if( k>2 ) z = x
#define ONCE(k,st,D,T) ( e.D==(k>0?1:0) && e.T.puts==(k>0&&st?1:0) )
extern "C" {
bool prove_make( int how, bool st ){
  KIND(how,3); Env e; bool ok = true;
  {
    Stub* f = 0; if( how!=3 ) f = NEWA;
    if( how==0 ){ P p(f);                ok = ok && p.count()==1 && !p.isnull() && p.operator->()==f && &*p==f && !p.built_from_store(); }
    if( how==1 ){ P p(f,st);             ok = ok && p.count()==1 && !p.isnull() && p.operator->()==f && p.built_from_store()==st; }
    if( how==3 ){ P p;                   ok = ok && p.count()==0 && p.isnull() && !p.built_from_store(); }
    if( how==2 ){ P p; p = f;            ok = ok && p.count()==1 && !p.isnull() && p.operator->()==f && !p.built_from_store(); }
  }
  const bool fromstore = st && how==1;
  return ok && e.da==(how!=3?1:0) && e.a.puts==(fromstore?1:0) && e.a.mt==(fromstore?LOCAL_RAM:-7);
}
bool prove_copy( int k, bool st ){
  KIND(k,3); Env e; bool ok = true;
  {
    P p, y, z; SHARE(k,p,y,z,NEWA,st,A);
    {
      P q(p);
      ok = ok && q.isnull()==(k==0) && q.operator->()==A && q.count()==(k==0?0:k+1) && p.count()==q.count() && q.built_from_store()==p.built_from_store() && e.da==0 && e.a.puts==0;
    }
    ok = ok && p.operator->()==A && p.count()==k && e.da==0 && e.a.puts==0;
  }
  return ok && ONCE(k,st,da,a);
}
// p (pattern pk over A) receives q (pattern qk over B)
bool prove_assign( int pk, int qk, bool sp, bool sq ){
  KIND(pk,2); KIND(qk,2); Env e; bool ok = true;
  {
    P p, q, r, s, z; SHARE(pk,p,r,z,NEWA,sp,A); SHARE(qk,q,s,z,NEWB,sq,B);
    p = q;
    ok = ok && p.operator->()==B && q.operator->()==B && p.isnull()==(qk==0) && p.count()==(qk==0?0:qk+1) && q.count()==p.count()
            && r.count()==(pk==2?1:0) && (pk!=2 || r.operator->()==A)
            && e.da==(pk==1?1:0) && e.a.puts==(pk==1&&sp?1:0) && e.db==0 && e.b.puts==0;
    if( qk>0 ) ok = ok && p.built_from_store()==sq;
  }
  return ok && ONCE(pk,sp,da,a) && ONCE(qk,sq,db,b);
}
// assigning a pointer that already shares the same field, including itself
bool prove_selfassign( int k, bool st, bool viacopy ){
  KIND(k,3); Env e; bool ok = true;
  {
    P p, y, z; SHARE(k,p,y,z,NEWA,st,A);
    if( viacopy ) p = y; else p = p;
    const bool drop = viacopy && k==1;    // y is null then
    ok = ok && p.operator->()==(drop?0:A) && p.count()==(drop?0:k) && e.da==(drop?1:0);
  }
  return ok && ONCE(k,st,da,a);
}
bool prove_raw( int k, bool st, bool null ){
  KIND(k,3); Env e; bool ok = true;
  {
    P p, y, z; SHARE(k,p,y,z,NEWA,st,A); Stub* B = 0; if( !null ) B = NEWB;
    p = B;
    ok = ok && p.operator->()==B && p.count()==1 && !p.built_from_store() && y.count()==(k>1?k-1:0) && (k<2 || y.operator->()==A)
            && e.da==(k==1?1:0) && e.a.puts==(k==1&&st?1:0) && e.db==0;
  }
  return ok && ONCE(k,st,da,a) && e.db==(null?0:1) && e.b.puts==0;
}
bool prove_detach( int k, bool st ){
  KIND(k,3); Env e; bool ok = true;
  {
    P p, y, z; SHARE(k,p,y,z,NEWA,st,A);
    p.detach();
    ok = ok && p.isnull() && p.count()==0 && y.count()==(k>1?k-1:0) && (k<2 || y.operator->()==A) && e.da==(k==1?1:0) && e.a.puts==(k==1&&st?1:0);
    p.detach();                       // a second time is harmless
    ok = ok && p.isnull() && y.count()==(k>1?k-1:0) && e.da==(k==1?1:0);
  }
  return ok && ONCE(k,st,da,a);
}
// three sharers let go one after the other; the field lives until the last one does
bool prove_release( int order, bool st ){
  KIND(order,5); Env e; bool ok = true;
  {
    P p, y, z; const int k = 3; SHARE(k,p,y,z,NEWA,st,A);
    P* const a = order<2 ? &p : order<4 ? &y : &z;
    P* const b = order==0 ? &y : order==1 ? &z : order==2 ? &z : order==3 ? &p : order==4 ? &p : &y;
    P* const c = order==0 ? &z : order==1 ? &y : order==2 ? &p : order==3 ? &z : order==4 ? &y : &p;
    a->detach();         ok = ok && b->count()==2 && c->count()==2 && e.da==0;
    *b = *a;             ok = ok && b->isnull() && c->count()==1 && e.da==0 && c->operator->()==A;
    c->detach();         ok = ok && e.da==1 && e.a.puts==(st?1:0);
  }
  return ok && e.da==1 && e.a.puts==(st?1:0);
}
// a pointer can be reused after it was emptied
bool prove_reuse( bool st, bool st2 ){
  Env e; bool ok = true;
  {
    P p( NEWA, st ); p.detach();
    ok = ok && e.da==1 && p.isnull();
    { P q( NEWB, st2 ); p = q; ok = ok && q.count()==2; }
    ok = ok && p.count()==1 && e.db==0;
  }
  return ok && e.da==1 && e.db==1 && e.a.puts==(st?1:0) && e.b.puts==(st2?1:0);
}
// positive controls
bool bad_gone( bool st ){ Env e; { P p( NEWA, st ); P q( p ); p.detach(); return e.da==1; } }
bool bad_uaf( bool st ){ Env e; P p( NEWA, st ); Stub* s = p.operator->(); p.detach(); return s->device_index()==0; }
}
VP_ANCHOR(make,"spatialops/structured/SpatialFieldStore.h SpatFldPtr constructors") VP_ANCHOR(copy,"spatialops/structured/SpatialFieldStore.h SpatFldPtr copy constructor")
VP_ANCHOR(assign,"spatialops/structured/SpatialFieldStore.h SpatFldPtr::operator=") VP_ANCHOR(selfassign,"spatialops/structured/SpatialFieldStore.h SpatFldPtr::operator=")
VP_ANCHOR(raw,"spatialops/structured/SpatialFieldStore.h SpatFldPtr::operator=(FieldT*)") VP_ANCHOR(detach,"spatialops/structured/SpatialFieldStore.h SpatFldPtr::detach")
VP_ANCHOR(release,"spatialops/structured/SpatialFieldStore.h SpatFldPtr") VP_ANCHOR(reuse,"spatialops/structured/SpatialFieldStore.h SpatFldPtr")
