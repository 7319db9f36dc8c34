// M01: the memory pool. Blocks come from four numbered slots, so that every
// allocation and release made by the pool can be told apart.
#include <new>
#include <cstddef>
#include <utility>
#include <map>
#include <stack>
#include <string>
#include <sstream>
#include <stdexcept>
namespace std{
// every container has four numbered places; a place is always selected by comparing, never by an index
template<class T> class stack<T*>{ T *a_,*b_,*c_,*d_; int n_; public: typedef T* value_type; typedef size_t size_type; stack():a_(NULL),b_(NULL),c_(NULL),d_(NULL),n_(0){} bool empty() const{ return n_==0; } size_t size() const{ return n_; }
  void push( T* const t ){ if( n_==0 ) a_=t; else if( n_==1 ) b_=t; else if( n_==2 ) c_=t; else d_=t; ++n_; } template<class U> void emplace( U t ){ push(t); } void pop(){ --n_; }
  T*& top(){ return n_==1 ? a_ : n_==2 ? b_ : n_==3 ? c_ : d_; } T* const& top() const{ return n_==1 ? a_ : n_==2 ? b_ : n_==3 ? c_ : d_; } };
// sorted by size
template<class T> class map<size_t,stack<T*> >{ public: typedef stack<T*> Q; struct value_type{ size_t first; Q second; }; typedef size_t key_type; typedef Q mapped_type; typedef size_t size_type;
 private: value_type b_[4]; bool u_[4];
  template<class V,class M> static V* low( M* m, const size_t k, const bool eq, V* b ){ V* r=NULL; for( int i=0; i<4; ++i ) if( m->u_[i] && ( eq ? b[i].first>=k : b[i].first>k ) && ( r==NULL || b[i].first<r->first ) ) r=b+i; return r; }
  value_type* add( const size_t k ){ for( int i=0; i<4; ++i ) if( !u_[i] ){ u_[i]=true; b_[i].first=k; return b_+i; } return NULL; }
 public: struct iterator{ map* m; value_type* p; value_type* operator->() const{ return p; } value_type& operator*() const{ return *p; } bool operator==( const iterator& o ) const{ return p==o.p; } bool operator!=( const iterator& o ) const{ return p!=o.p; } iterator& operator++(){ p=low(m,p->first,false,m->b_); return *this; } iterator operator++(int){ iterator o=*this; ++*this; return o; } };
  struct const_iterator{ const map* m; const value_type* p; const_iterator( const map* a, const value_type* b ):m(a),p(b){} const_iterator( const iterator& i ):m(i.m),p(i.p){} const value_type* operator->() const{ return p; } const value_type& operator*() const{ return *p; } bool operator==( const const_iterator& o ) const{ return p==o.p; } bool operator!=( const const_iterator& o ) const{ return p!=o.p; } const_iterator& operator++(){ p=low(m,p->first,false,m->b_); return *this; } const_iterator operator++(int){ const_iterator o=*this; ++*this; return o; } };
 private: iterator it( value_type* p ){ iterator r={ this,p }; return r; } const_iterator it( const value_type* p ) const{ return const_iterator(this,p); }
 public: map(){ for( int i=0; i<4; ++i ) u_[i]=false; }
  iterator begin(){ return it(low(this,0,true,b_)); } iterator end(){ return it(NULL); } const_iterator begin() const{ return it(low(this,0,true,b_)); } const_iterator end() const{ return it(NULL); } const_iterator cbegin() const{ return begin(); } const_iterator cend() const{ return end(); }
  size_t size() const{ return u_[0]+u_[1]+u_[2]+u_[3]; } bool empty() const{ return !u_[0]; }
  iterator lower_bound( const size_t k ){ return it(low(this,k,true,b_)); } const_iterator lower_bound( const size_t k ) const{ return it(low(this,k,true,b_)); } iterator upper_bound( const size_t k ){ return it(low(this,k,false,b_)); }
  iterator find( const size_t k ){ value_type* r=NULL; for( int i=0; i<4; ++i ) if( u_[i] && b_[i].first==k ) r=b_+i; return it(r); }
  size_t count( const size_t k ){ return find(k)!=end(); }
  template<class P> std::pair<iterator,bool> insert( const P& p ){ iterator i=find(p.first); if( i.p!=NULL ) return std::pair<iterator,bool>(i,false); return std::pair<iterator,bool>(it(add(p.first)),true); }
  template<class P> iterator insert( iterator, const P& p ){ return insert( p ).first; }
  Q& operator[]( const size_t k ){ iterator i=find(k); return i.p!=NULL ? i.p->second : add(k)->second; } Q& at( const size_t k ){ return find(k).p->second; }
 private: map( const map& ); map& operator=( const map& ); };
// keys are block addresses
template<class T> class map<T*,size_t>{ public: struct value_type{ T* first; size_t second; }; typedef value_type* iterator; typedef const value_type* const_iterator; typedef T* key_type; typedef size_t mapped_type; typedef size_t size_type; private: value_type b_[4]; bool u_[4];
  value_type* add( T* const k, const size_t n ){ for( int i=0; i<4; ++i ) if( !u_[i] ){ u_[i]=true; b_[i].first=k; b_[i].second=n; return b_+i; } return NULL; }
 public: map(){ for( int i=0; i<4; ++i ) u_[i]=false; } iterator end(){ return NULL; } const_iterator end() const{ return NULL; }
  iterator find( T* const k ){ iterator r=NULL; for( int i=0; i<4; ++i ) if( u_[i] && b_[i].first==k ) r=b_+i; return r; } const_iterator find( T* const k ) const{ const_iterator r=NULL; for( int i=0; i<4; ++i ) if( u_[i] && b_[i].first==k ) r=b_+i; return r; } size_t count( T* const k ) const{ return find(k)!=NULL; }
  size_t& operator[]( T* const k ){ iterator i=find(k); return i!=NULL ? i->second : add(k,0)->second; } size_t& at( T* const k ){ return find(k)->second; } const size_t& at( T* const k ) const{ return find(k)->second; }
  template<class P> std::pair<iterator,bool> insert( const P& p ){ iterator i=find(p.first); if( i!=NULL ) return std::pair<iterator,bool>(i,false); return std::pair<iterator,bool>(add(p.first,p.second),true); }
  void erase( iterator i ){ for( int j=0; j<4; ++j ) if( i==b_+j ) u_[j]=false; } size_t erase( T* const k ){ iterator i=find(k); if( i==NULL ) return 0; erase(i); return 1; }
 private: map( const map& ); map& operator=( const map& ); };
}
#include "vp.h"
#include <boost/type_traits.hpp>
#include <spatialops/SpatialOpsConfigure.h>
#define class struct
#include <spatialops/structured/MemoryPool.h>
#undef class
#include <spatialops/structured/MemoryPool.cpp>
using namespace SpatialOps; using namespace SpatialOps::structured;
typedef unsigned long ul;
struct Blk; struct St{ int n; int freed[4]; bool fail; }; static St S;
struct Blk{ ul bytes; static void* operator new[]( size_t s ); static void operator delete[]( void* p ); }; static Blk arena[4];
inline void* Blk::operator new[]( size_t s ){ if( S.fail ) throw std::bad_alloc(); arena[S.n].bytes=s; return arena+S.n++; }
inline void Blk::operator delete[]( void* p ){ for( int i=0; i<4; ++i ) if( p==arena+i ){ ++S.freed[i]; return; } vp_reject(); }
typedef Pool<Blk> P;
#define INL static inline __attribute__((always_inline))
INL void start(){ S.n=0; S.fail=false; for( int i=0; i<4; ++i ){ arena[i].bytes=0; S.freed[i]=0; } P::destroyed_=false; }
INL ul cap( Blk* b ){ return b->bytes/8; }
#define SZ(n) vp_assume( n>0 ); vp_assume( n<(1ul<<40) )
VP_ANCHOR(cap,"spatialops/structured/MemoryPool.cpp Pool::get") VP_ANCHOR(reuse,"spatialops/structured/MemoryPool.cpp Pool::get, Pool::put") VP_ANCHOR(count,"spatialops/structured/MemoryPool.cpp Pool::active; MemoryPool.h Pool::total") VP_ANCHOR(gone,"spatialops/structured/MemoryPool.cpp Pool::~Pool, Pool::put") VP_ANCHOR(kind,"spatialops/structured/MemoryPool.cpp Pool::get, Pool::put") VP_ANCHOR(fail,"spatialops/structured/MemoryPool.cpp Pool::get")
#define GET(n) p.get(LOCAL_RAM,n)
#define PUT(b) p.put(LOCAL_RAM,b)
#define N1 SZ(n); start()
#define N2 SZ(n); SZ(m); start()
#define N3 SZ(n); SZ(m); SZ(k); start()
INL bool is( const P& p, ul act, ul tot ){ return p.active()==act && p.total()==tot; }
INL bool freed( int a, int b, int c, int d ){ return S.freed[0]==a && S.freed[1]==b && S.freed[2]==c && S.freed[3]==d; }
static char room[sizeof(P)] __attribute__((aligned(16)));
#define POOL P& p=*new(room) P
extern "C" {
// a block handed out is at least as large as requested and is nobody else's
bool prove_cap_first( ul n ){ N1; POOL; Blk* const a=GET(n); return cap(a)>=n; }
bool prove_cap_second( ul n, ul m ){ N2; POOL; GET(n); Blk* const b=GET(m); return cap(b)>=m; }
bool prove_cap_distinct( ul n, ul m ){ N2; POOL; Blk* const a=GET(n); Blk* const b=GET(m); return a!=b; }
bool prove_cap_again( ul n, ul m ){ N2; POOL; Blk* const a=GET(n); PUT(a); Blk* const b=GET(m); return cap(b)>=m; }
bool prove_cap_third( ul n, ul m, ul k ){ N3; POOL; Blk* const a=GET(n); Blk* const b=GET(m); PUT(a); Blk* const c=GET(k); return cap(c)>=k; }
bool prove_cap_other( ul n, ul m, ul k ){ N3; POOL; Blk* const a=GET(n); Blk* const b=GET(m); PUT(b); Blk* const c=GET(k); return c!=a && cap(c)>=k; }
bool prove_cap_three( ul n, ul m, ul k ){ N3; POOL; Blk* const a=GET(n); Blk* const b=GET(m); Blk* const c=GET(k); return a!=b && b!=c && a!=c && cap(c)>=k; }
// two blocks returned: the next two requests never get the same one
bool prove_cap_pair( ul n, ul m, ul k, ul l ){ N3; SZ(l); POOL; Blk* const a=GET(n); Blk* const b=GET(m); PUT(a); PUT(b); Blk* const c=GET(k); Blk* const d=GET(l); return c!=d && cap(c)>=k && cap(d)>=l; }
// a returned block serves the next request that fits
bool prove_reuse_same( ul n, ul m ){ N2; vp_assume( m<=n ); POOL; Blk* const a=GET(n); PUT(a); return GET(m)==a && S.n==1; }
bool prove_reuse_twice( ul n, ul m ){ N2; vp_assume( m<=n ); POOL; Blk* const a=GET(n); PUT(a); PUT(GET(m)); return GET(n)==a && S.n==1; }
bool prove_reuse_second( ul n, ul m ){ N2; vp_assume( m<=n ); POOL; GET(n); Blk* const b=GET(m); PUT(b); return GET(m)==b && S.n==2; }
bool prove_reuse_larger( ul n, ul m ){ N2; vp_assume( m>n ); POOL; GET(n); Blk* const b=GET(m); PUT(b); return GET(m)==b && S.n==2; }
// total: blocks allocated so far; active: those not returned
bool prove_count_none(){ start(); POOL; return is(p,0,0); }
bool prove_count_one( ul n ){ N1; POOL; Blk* const a=GET(n); if( !is(p,1,1) ) return false; PUT(a); return is(p,0,1); }
bool prove_count_two( ul n, ul m ){ N2; POOL; Blk* const a=GET(n); GET(m); if( !is(p,2,2) ) return false; PUT(a); return is(p,1,2); }
bool prove_count_both( ul n, ul m ){ N2; POOL; Blk* const a=GET(n); Blk* const b=GET(m); PUT(b); PUT(a); return is(p,0,2); }
bool prove_count_again( ul n, ul m ){ N2; POOL; PUT(GET(n)); GET(m); return p.active()==1 && p.total()==(ul)S.n; }
bool prove_count_three( ul n, ul m, ul k ){ N3; POOL; Blk* const a=GET(n); GET(m); PUT(a); GET(k); return p.active()==2 && p.total()==(ul)S.n; }
// the pool releases what was returned, once each; blocks still in use are left alone, and may be returned too late
bool prove_gone_one( ul n ){ N1; { P p; PUT(GET(n)); } return freed(1,0,0,0); }
bool prove_gone_both( ul n, ul m ){ N2; { P p; Blk* const a=GET(n); Blk* const b=GET(m); PUT(a); PUT(b); } return freed(1,1,0,0); }
bool prove_gone_some( ul n, ul m ){ N2; { P p; GET(n); Blk* const b=GET(m); PUT(b); } return freed(0,1,0,0); }
bool prove_gone_late( ul n ){ N1; P* p; Blk* a; { P q; a=q.get(LOCAL_RAM,n); p=&q; } p->put(LOCAL_RAM,a); return freed(0,0,0,0); }
// memory of a kind that is not configured is refused, and nothing changes
bool prove_kind_get( ul n, int t ){ N1; vp_assume( t!=LOCAL_RAM ); POOL; bool r=false; try{ p.get((MemoryType)t,n); }catch( std::runtime_error& ){ r=true; } return r && is(p,0,0) && S.n==0; }
bool prove_kind_put( ul n, int t ){ N1; vp_assume( t!=LOCAL_RAM ); POOL; Blk* const a=GET(n); bool r=false; try{ p.put((MemoryType)t,a); }catch( std::runtime_error& ){ r=true; } return r && is(p,1,1); }
// an allocation that fails is reported and leaves the counts right; the pool remains usable
bool prove_fail_first( ul n ){ N1; POOL; S.fail=true; bool r=false; try{ GET(n); }catch( std::bad_alloc& ){ r=true; } return r && is(p,0,0); }
bool prove_fail_later( ul n, ul m ){ N2; POOL; GET(n); S.fail=true; bool r=false; try{ GET(m); }catch( std::bad_alloc& ){ r=true; } return r && is(p,1,1); }
bool prove_fail_retry( ul n ){ N1; POOL; S.fail=true; try{ GET(n); }catch( std::bad_alloc& ){} S.fail=false; Blk* const a=GET(n); return cap(a)>=n && is(p,1,1); }
// controls
bool bad_cap_more( ul n ){ N1; POOL; Blk* const a=GET(n); return a==0; }
bool bad_gone_both( ul n, ul m ){ N2; { P p; GET(n); Blk* const b=GET(m); PUT(b); } return freed(1,1,0,0); }
}
