// T03: the two shared pools behind their size settings. The registry of pools is any registry that agrees with the pools;
// every access to it, and every change of a pool, has to happen while its lock is held.
#include <cstddef>
#include <cstdio>
#include <utility>
#include <map>
#include <algorithm>
#include "vp.h"
int vp_made, vp_depth, vp_bad;
namespace std{
template<> class map<void*,int>{ public: struct value_type{ void* first; int second; }; typedef value_type* iterator; typedef const value_type* const_iterator; typedef void* key_type; typedef int mapped_type; typedef size_t size_type; value_type b_[2]; bool u_[2];
  void held() const{ if( vp_depth!=1 ) vp_bad=1; } value_type* get( void* k ){ held(); value_type* r=NULL; for( int i=0; i<2; ++i ) if( u_[i] && b_[i].first==k ) r=b_+i; return r; }
  value_type* add( void* k, int n ){ held(); for( int i=0; i<2; ++i ) if( !u_[i] ){ u_[i]=true; b_[i].first=k; b_[i].second=n; return b_+i; } vp_bad=1; return NULL; }
  map(){ for( int i=0; i<2; ++i ) u_[i]=false; } iterator end(){ return NULL; } const_iterator end() const{ return NULL; } iterator find( void* k ){ return get(k); } size_t count( void* k ){ return get(k)!=NULL; }
  int& operator[]( void* k ){ iterator i=get(k); return i!=NULL ? i->second : add(k,0)->second; } int& at( void* k ){ return get(k)->second; } void erase( iterator i ){ held(); if( i==b_ ) u_[0]=false; else u_[1]=false; } size_t erase( void* k ){ iterator i=get(k); if( i==NULL ) return 0; erase(i); return 1; }
  template<class P> std::pair<iterator,bool> insert( const P& p ){ iterator i=get((void*)p.first); if( i!=NULL ) return std::pair<iterator,bool>(i,false); return std::pair<iterator,bool>(add((void*)p.first,p.second),true); }
  template<class K> std::pair<iterator,bool> emplace( K k, int n ){ return insert( std::make_pair((void*)k,n) ); } };
}
#define private public
#include <spatialops/SpatialOpsTools.h>
#include <spatialops/ThreadPool.cpp>
#undef private
using namespace SpatialOps; typedef ThreadPoolResourceManager RM;
#define INL static inline __attribute__((always_inline))
// the pools are registered or not (r), have the recorded numbers of workers (c) and some limit (a)
#define ARGS bool rf,bool rp,int cf,int cp,int af,int ap,int n
INL void setup(ARGS){ vp_depth=0; vp_bad=0; ThreadPoolFIFO& f=ThreadPoolFIFO::self(); ThreadPool& p=ThreadPool::self(); vp_assume(cf>0); vp_assume(cp>0); vp_assume(af>0); vp_assume(ap>0); 
  RM& m=RM::self(); m.resourceMap_.u_[0]=rf; m.resourceMap_.u_[1]=rp; m.resourceMap_.b_[0].first=&f; m.resourceMap_.b_[1].first=&p; m.resourceMap_.b_[0].second=cf; m.resourceMap_.b_[1].second=cp; f.count=cf; f.act=af; p.count=cp; p.act=ap; f.init_=true; p.init_=true; vp_depth=0; vp_bad=0; }
#define SET setup(rf,rp,cf,cp,af,ap,n)
INL int one( int n ){ return n<1 ? 1 : n; }
struct Seen{ bool rf,rp; int cf,cp; size_t nf,np,af,ap; int depth, bad; };
INL void see( Seen* o, bool keys=true ){ RM& m=RM::self(); o->rf=m.resourceMap_.u_[0]; o->rp=m.resourceMap_.u_[1]; o->cf=m.resourceMap_.b_[0].second; o->cp=m.resourceMap_.b_[1].second; ThreadPoolFIFO& f=ThreadPoolFIFO::self(); ThreadPool& p=ThreadPool::self(); o->nf=f.count; o->np=p.count; o->af=f.act; o->ap=p.act; o->depth=vp_depth; o->bad=vp_bad; }
extern "C"{
VP_ANCHOR(size, "spatialops/ThreadPool.cpp ThreadPoolResourceManager")
#define S(N,CALL,R,RES,CH) int impl_size_##N(ARGS,Seen*o){ vp_assume(o!=0); SET; const int x=CALL; see(o); SET; return x; } int spec_size_##N(ARGS,Seen*o){ vp_assume(o!=0); SET; int x=-1; o->rf=rf; o->rp=rp; o->cf=cf; o->cp=cp; o->nf=cf; o->np=cp; o->af=af; o->ap=ap; o->depth=0; o->bad=0; if( R ){ x=RES; CH; } return x; }
S(cap_fifo,ThreadPoolFIFO::set_pool_capacity(n),rf,one(n),o->cf=one(n);o->nf=one(n))
S(cap_prio,ThreadPool::set_pool_capacity(n),rp,one(n),o->cp=one(n);o->np=one(n))
S(act_fifo,ThreadPoolFIFO::resize_pool(n),rf,one(n),o->af=one(n))
S(act_prio,ThreadPool::resize_pool(n),rp,one(n),o->ap=one(n))
S(getcap_fifo,ThreadPoolFIFO::get_pool_capacity(),rf,cf,)
S(getcap_prio,ThreadPool::get_pool_capacity(),rp,cp,)
S(getact_fifo,ThreadPoolFIFO::get_pool_size(),rf,af,)
S(getact_prio,ThreadPool::get_pool_size(),rp,ap,)
S(soft,set_soft_thread_count(n),rf,one(n),o->af=one(n))
S(hard,set_hard_thread_count(n),rf,one(n),o->cf=one(n);o->nf=one(n))
S(getsoft,get_soft_thread_count(),rf,af,)
S(gethard,get_hard_thread_count(),rf,cf,)
int bad_size_soft(ARGS,Seen*o){ vp_assume(o!=0); SET; see(o); if( rf ) o->af=one(n)+1; return rf?one(n):-1; }
// registering and leaving
bool impl_size_insert(ARGS,Seen*o){ vp_assume(o!=0); SET; const bool x=RM::insert<boost::threadpool::fifo_pool>(ThreadPoolFIFO::self(),n); see(o); SET; return x; }
bool spec_size_insert(ARGS,Seen*o){ vp_assume(o!=0); SET; see(o); o->rf=true; if( !rf ) o->cf=one(n); return !rf; }
bool impl_size_remove(ARGS,Seen*o){ vp_assume(o!=0); SET; const bool x=RM::remove(ThreadPool::self(),n); see(o); SET; return x; }
bool spec_size_remove(ARGS,Seen*o){ vp_assume(o!=0); SET; see(o); o->rp=false; return rp; }
// one instance each; made with the configured number of workers; registered under the address the settings use
VP_ANCHOR(one, "spatialops/ThreadPool.cpp self")
#define ONE(N,P,C) bool prove_one_##N##_same(){ vp_depth=0; vp_bad=0; vp_made=-1; P& a=P::self(); const int made=vp_made; vp_made=-1; P& b=P::self(); return &a==&b && a.init_ && vp_made==-1 && ( made==-1 || made==NTHREADS ); } \
bool prove_one_##N##_reg(ARGS){ SET; P& a=P::self(); a.init_=false; RM::self().resourceMap_.u_[0]=false; RM::self().resourceMap_.u_[1]=false; P& b=P::self(); vp_depth=1; std::map<void*,int>::iterator i=RM::self().resourceMap_.find(&b); return &a==&b && i!=NULL && i->second==NTHREADS && a.init_ && RM::self().resourceMap_.u_[1]==false && vp_bad==0; } \
bool prove_one_##N##_set(ARGS){ SET; P& a=P::self(); a.init_=false; RM::self().resourceMap_.u_[0]=false; RM::self().resourceMap_.u_[1]=false; a.count=NTHREADS; a.act=NTHREADS; vp_assume(n>0); const int x=P::set_pool_capacity(n); return x==n && a.count==(size_t)n && P::get_pool_capacity()==n && P::get_pool_size()==NTHREADS && vp_bad==0; }
ONE(fifo,ThreadPoolFIFO,f) ONE(prio,ThreadPool,p)
bool bad_one_x(ARGS){ SET; return ThreadPoolFIFO::get_pool_capacity()!=7; }
}
