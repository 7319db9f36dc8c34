// T01: the thread pool as a monitor. The state guarded by the pool's lock is whatever the other threads left there: each time
// the lock is taken (or a wait returns) it becomes a fresh unknown of the event number, and each release records it.
#include <cstddef>
#include <vector>
#include <deque>
#include <queue>
#include <queue>
#include <utility>
#define VP_TASK_ONLY
#include <vpthread.h>
#include "vp.h"
#include <boost/bind.hpp>
#include <boost/static_assert.hpp>
#include <boost/type_traits.hpp>
#define INL static inline __attribute__((always_inline))
typedef size_t ul;
namespace boost{ namespace threadpool{ namespace detail{} } }
extern "C"{
void vp_lock_ev( int clock, int one, int two ); void vp_rel_ev( int how, int clock, int depth, ul w, ul tw, ul a, ul ta, int q, ul tg, bool term, int v, int one, int two, long t ); void vp_run_ev( int id, int clock, int depth ); void vp_spawn_ev( const void* pool, int clock, int depth ); void vp_join_ev( int id, int clock, int depth ); void vp_end_ev( int clock, int depth, int one, int two );
ul vp_env_nn( int clock, int field ); int vp_env_i( int clock, int field ); bool vp_env_b( int clock, int field );
bool vp_q_ok( int q, int t ); int vp_q_push( int q, int t ); int vp_q_pop( int q ); int vp_q_top( int q ); ul vp_q_size_nn( int q ); bool vp_q_empty( int q ); int vp_q_clear( int q );
int vp_v_push( int v, const void* ); int vp_v_at( int v, ul i ); ul vp_v_size_nn( int v ); int vp_v_clear( int v );
}
namespace std{ template<class T> struct vp_vector{ int v; vp_vector():v(0){} typedef T value_type;
  struct iterator{ ul i; int v; mutable T cur; T& operator*() const{ cur.id=vp_v_at(v,i); return cur; } T* operator->() const{ return &**this; } bool operator!=( const iterator& o ) const{ return i!=o.i; } bool operator==( const iterator& o ) const{ return i==o.i; } iterator& operator++(){ ++i; return *this; } iterator operator++(int){ iterator r=*this; ++i; return r; } }; typedef iterator const_iterator;
  void push_back( const T& t ){ v=vp_v_push(v,t.px); } iterator at_( ul i ) const{ iterator r; r.i=i; r.v=v; return r; } iterator begin(){ return at_(0); } iterator end(){ return at_(vp_v_size_nn(v)); } iterator begin() const{ return at_(0); } iterator end() const{ return at_(vp_v_size_nn(v)); } ul size() const{ return vp_v_size_nn(v); } bool empty() const{ return vp_v_size_nn(v)==0; } void clear(){ v=vp_v_clear(v); } T operator[]( ul i ) const{ T r; r.id=vp_v_at(v,i); return r; } }; }
#define vector vp_vector
#define private public
#define protected public
#include <spatialops/threadpool/threadpool/detail/worker_thread.hpp>
#include <spatialops/threadpool/threadpool/detail/pool_core.hpp>
#include <spatialops/threadpool/threadpool/size_policies.hpp>
#include <spatialops/threadpool/threadpool/shutdown_policies.hpp>
#include <spatialops/threadpool/threadpool/pool.hpp>
#undef vector
#undef private
#undef protected
using namespace boost; namespace tp=boost::threadpool;
template<class T> struct Q{ int q; mutable T cur; Q():q(0){} bool push( T const& t ){ if( !vp_q_ok(q,t.id) ) return false; q=vp_q_push(q,t.id); return true; } void pop(){ q=vp_q_pop(q); } T const& top() const{ cur.id=vp_q_top(q); return cur; } ul size() const{ return vp_q_size_nn(q); } bool empty() const{ return vp_q_size_nn(q)==0; } void clear(){ q=vp_q_clear(q); } };
#ifndef SHUT
#define SHUT tp::wait_for_all_tasks
#endif
typedef tp::detail::pool_core<Task,Q,tp::dynamic_resize_policy,tp::resize_controller,SHUT> P;
typedef tp::detail::worker_thread<P> Worker;
namespace boost{ template<> struct shared_ptr<Worker>{ const void* px; int id; shared_ptr():px(0),id(0){} explicit shared_ptr( const void* p ):px(p),id(0){} void join() const; const shared_ptr* operator->() const{ return this; } const shared_ptr& operator*() const{ return *this; } };
namespace threadpool{ namespace detail{ template<> class worker_thread<P>{ public: static void create_and_attach( shared_ptr<P> const& p ); }; } } }
static ul no_such_count;
template<class X> INL auto tw_( X* p, int ) -> decltype((p->m_terminating_worker_count)){ return p->m_terminating_worker_count; }
template<class X> INL ul& tw_( X*, long ){ return no_such_count; }
#define TW(p) tw_(p,0)
static vpm* M; static bool lax;
INL P* pool(){ return (P*)( (char*)static_cast<recursive_mutex*>(M) - __builtin_offsetof(P,m_monitor) ); }
INL void fresh(){ P* p=pool(); const int c=++M->clock; p->m_worker_count=vp_env_nn(c,0); p->m_target_worker_count=vp_env_nn(c,1); p->m_active_worker_count=vp_env_nn(c,2); p->m_target_active_worker_count=vp_env_nn(c,3); TW(p)=vp_env_nn(c,9); p->m_scheduler.q=vp_env_i(c,4); p->m_terminate_all_workers=vp_env_b(c,5); p->m_terminated_workers.v=vp_env_i(c,6); }
INL int sent( int n ){ return lax ? n>0 : n; }
INL void release( int how, long t ){ P* p=pool(); vp_rel_ev( how, M->clock, M->depth, p->m_worker_count, p->m_target_worker_count, p->m_active_worker_count, p->m_target_active_worker_count, p->m_scheduler.q, TW(p), p->m_terminate_all_workers, p->m_terminated_workers.v, how ? sent(M->one) : 0, how ? sent(M->two) : 0, t ); fresh(); }
namespace boost{
void vp_made( vpm* m ){ M=m; }
void vp_lock( const vpm* m ){ if( m!=M ) vp_reject(); if( M->depth==0 ){ vp_lock_ev( M->clock, sent(M->one), sent(M->two) ); M->one=M->two=0; fresh(); } ++M->depth; }
void vp_unlock( const vpm* m ){ if( m!=M ) vp_reject(); --M->depth; if( M->depth==0 ) release( 0, 0 ); }
int vp_which( const vpm*, const void* c ){ return c==&pool()->m_worker_idle_or_terminated_event ? 1 : 2; }
void vp_wait( const vpm* m, int which ){ if( m!=M ) vp_reject(); release( which, 0 ); M->one=M->two=0; }
bool vp_twait( const vpm* m, int which, long t ){ vp_wait( m, which+2 ); return vp_env_b( M->clock, 7 ); }
void vp_notify( const void* c, int n ){ if( c==&pool()->m_worker_idle_or_terminated_event ){ if( n>M->one ) M->one=n; } else { if( n>M->two ) M->two=n; } }
void shared_ptr<Worker>::join() const{ vp_join_ev( id, M->clock, M->depth>0 ); }
namespace threadpool{ namespace detail{ void worker_thread<P>::create_and_attach( shared_ptr<P> const& p ){ vp_spawn_ev( p.px, M->clock, M->depth>0 ); const int c=M->clock++; if( vp_env_b( c, 8 ) ) throw thread_resource_error(); } } }
}
void Task::operator()() const{ vp_run_ev( id, M->clock, M->depth ); ++M->clock; }
// ---- roots
struct Env{ P* p; tp::dynamic_resize_policy<P> sp; Env( P* a, bool l=false ):p(a),sp(*a){ M=&a->m_monitor; M->depth=M->clock=M->one=M->two=0; lax=l; a->m_size_policy.px=&sp; }
  ~Env(){ vp_end_ev( M->clock, M->depth, sent(M->one), sent(M->two) ); p->m_size_policy.px=0; p->m_scheduler.cur.id=0; M->depth=M->clock=M->one=M->two=0; M=0; lax=false; } };
#define POS(n) vp_assume( (long)n>=0 );
#define SP extern "C"
INL void lock(){ vp_lock(M); } INL void unlock(){ vp_unlock(M); } INL void idle(){ vp_notify(&pool()->m_worker_idle_or_terminated_event,2); } INL void work( int n ){ vp_notify(&pool()->m_task_or_terminate_workers_event,n); }
VP_ANCHOR(sched,"spatialops/threadpool/threadpool/detail/pool_core.hpp schedule")
SP bool impl_sched( P* p, const Task* t ){ Env e(p,true); return p->schedule(*t); }
SP bool spec_sched( P* p, const Task* t ){ Env e(p,true); lock(); const bool ok=p->m_scheduler.push(*t); if( ok ) work(1); unlock(); return ok; }
SP bool bad_sched( P* p, const Task* t ){ Env e(p,true); lock(); const bool ok=p->m_scheduler.push(*t); unlock(); return ok; }
VP_ANCHOR(ask,"spatialops/threadpool/threadpool/detail/pool_core.hpp pending")
SP ul impl_ask_pending( const P* p ){ Env e((P*)p); return p->pending(); }
SP ul spec_ask_pending( const P* p ){ Env e((P*)p); lock(); const ul n=p->m_scheduler.size(); unlock(); return n; }
SP ul bad_ask_pending( const P* p ){ Env e((P*)p); const ul n=p->m_scheduler.size(); lock(); unlock(); return n; }
SP bool impl_ask_empty( const P* p ){ Env e((P*)p); return p->empty(); }
SP bool spec_ask_empty( const P* p ){ Env e((P*)p); lock(); const bool n=p->m_scheduler.empty(); unlock(); return n; }
SP ul impl_ask_size( const P* p ){ Env e((P*)p); return p->size(); }
SP ul spec_ask_size( const P* p ){ Env e((P*)p); return p->m_worker_count; }
SP ul impl_ask_max( const P* p ){ Env e((P*)p); return p->max_active(); }
SP ul spec_ask_max( const P* p ){ Env e((P*)p); return p->m_target_active_worker_count; }
SP ul impl_ask_active( const P* p ){ Env e((P*)p); return p->active(); }
SP ul spec_ask_active( const P* p ){ Env e((P*)p); return p->m_active_worker_count; }
VP_ANCHOR(clear,"spatialops/threadpool/threadpool/detail/pool_core.hpp clear")
SP void impl_clear( P* p ){ Env e(p); p->clear(); }
SP void spec_clear( P* p ){ Env e(p); lock(); p->m_scheduler.clear(); unlock(); }
VP_ANCHOR(wait,"spatialops/threadpool/threadpool/detail/pool_core.hpp wait")
INL bool busy( P* p, ul n ){ return n==0 ? p->m_active_worker_count!=0 || !p->m_scheduler.empty() : p->m_active_worker_count+p->m_scheduler.size()>n; }
INL void swait( P* p, ul n ){ lock(); if( n==0 ){ while( busy(p,0) ) vp_wait(M,1); } else { while( n < p->m_active_worker_count+p->m_scheduler.size() ) vp_wait(M,1); } unlock(); }
SP void impl_wait( P* p, const ul n ){ POS(n) Env e(p); p->wait(n); }
SP void spec_wait( P* p, const ul n ){ POS(n) Env e(p); swait(p,n); }
SP void bad_wait( P* p, const ul n ){ POS(n) Env e(p); if( n==0 ) swait(p,0); else{ lock(); while( n <= p->m_active_worker_count+p->m_scheduler.size() ) vp_wait(M,1); unlock(); } }
SP void impl_wait_all( P* p ){ Env e(p); p->wait(); }
SP void spec_wait_all( P* p ){ Env e(p); swait(p,0); }
SP void bad_wait_all( P* p ){ Env e(p); lock(); if( busy(p,0) ) vp_wait(M,1); unlock(); }
SP bool impl_wait_timed( P* p, const xtime* t, const ul n ){ POS(n) Env e(p); return p->wait(*t,n); }
SP bool spec_wait_timed( P* p, const xtime* t, const ul n ){ POS(n) Env e(p); lock(); if( n==0 ){ while( busy(p,0) ) if( !vp_twait(M,1,t->t) ){ unlock(); return false; } } else { while( n < p->m_active_worker_count+p->m_scheduler.size() ) if( !vp_twait(M,1,t->t) ){ unlock(); return false; } } unlock(); return true; }
VP_ANCHOR(term,"spatialops/threadpool/threadpool/detail/pool_core.hpp terminate_all_workers")
INL void sterm( P* p, const bool w ){ lock(); p->m_terminate_all_workers=true; p->m_target_worker_count=0; work(2);
  if( w ){ while( p->m_worker_count>0 ) vp_wait(M,1); for( ul i=0; i<vp_v_size_nn(p->m_terminated_workers.v); ++i ) vp_join_ev( vp_v_at(p->m_terminated_workers.v,i), M->clock, true ); p->m_terminated_workers.clear(); } unlock(); }
SP void impl_term( P* p, const bool w ){ Env e(p); p->terminate_all_workers(w); }
SP void spec_term( P* p, const bool w ){ Env e(p); sterm(p,w); }
SP void bad_term( P* p, const bool w ){ Env e(p); lock(); p->m_terminate_all_workers=true; p->m_target_worker_count=0; work(1); if( w ){ while( p->m_worker_count>0 ) vp_wait(M,1); p->m_terminated_workers.clear(); } unlock(); }
VP_ANCHOR(resize,"spatialops/threadpool/threadpool/detail/pool_core.hpp resize")
INL bool sresize( P* p, const ul n ){ lock(); bool ok=!p->m_terminate_all_workers;
  if( ok ){ p->m_target_worker_count=n;
    if( p->m_worker_count>n+TW(p) ) work(2);
    else while( p->m_worker_count<n+TW(p) ){ vp_spawn_ev( p, M->clock, 1 ); const int c=M->clock++; if( vp_env_b( c, 8 ) ){ unlock(); return false; } p->m_worker_count=p->m_worker_count+1; p->m_active_worker_count=p->m_active_worker_count+1; } }
  unlock(); return ok; }
SP bool impl_resize( P* p, const ul n ){ POS(n) Env e(p); return p->resize(n); }
SP bool spec_resize( P* p, const ul n ){ POS(n) Env e(p); return sresize(p,n); }
SP bool bad_resize( P* p, const ul n ){ POS(n) Env e(p); lock(); p->m_target_worker_count=n; unlock(); return true; }
SP bool impl_resize_policy( P* p, const ul n ){ POS(n) Env e(p); return p->size_controller().resize(n); }
SP bool spec_resize_policy( P* p, const ul n ){ POS(n) Env e(p); return sresize(p,n); }
VP_ANCHOR(limit,"spatialops/threadpool/threadpool/detail/pool_core.hpp resize_active")
INL bool slimit( P* p, const ul n ){ lock(); p->m_target_active_worker_count = n<p->m_worker_count ? n : p->m_worker_count; work(2); unlock(); return true; }
SP bool impl_limit( P* p, const ul n ){ POS(n) Env e(p); return p->resize_active(n); }
SP bool spec_limit( P* p, const ul n ){ POS(n) Env e(p); return slimit(p,n); }
SP bool impl_limit_policy( P* p, const ul n ){ POS(n) Env e(p); return p->size_controller().resize_active(n); }
SP bool spec_limit_policy( P* p, const ul n ){ POS(n) Env e(p); return slimit(p,n); }
SP void impl_limit_init( P* p, const ul n ){ POS(n) Env e(p); tp::dynamic_resize_policy<P>::init(*p,n); }
SP void spec_limit_init( P* p, const ul n ){ POS(n) Env e(p); sresize(p,n); slimit(p,n); }
VP_ANCHOR(gone,"spatialops/threadpool/threadpool/detail/pool_core.hpp worker_died_unexpectedly")
SP void impl_gone_died( P* p, const Worker* w ){ Env e(p); p->worker_died_unexpectedly(shared_ptr<Worker>(w)); }
SP void spec_gone_died( P* p, const Worker* w ){ Env e(p); lock(); p->m_worker_count=p->m_worker_count-1; p->m_active_worker_count=p->m_active_worker_count-1; idle(); if( p->m_terminate_all_workers ) p->m_terminated_workers.push_back(shared_ptr<Worker>(w)); else sresize(p,p->m_worker_count-TW(p)+1); unlock(); }
SP void impl_gone_ended( P* p, const Worker* w ){ Env e(p); p->worker_destructed(shared_ptr<Worker>(w)); }
INL void sended( P* p, const Worker* w, const bool wake ){ lock(); p->m_worker_count=p->m_worker_count-1; TW(p)=TW(p)-1; p->m_active_worker_count=p->m_active_worker_count-1; idle(); if( wake ) work(2); if( p->m_terminate_all_workers ) p->m_terminated_workers.push_back(shared_ptr<Worker>(w)); unlock(); }
SP void spec_gone_ended( P* p, const Worker* w ){ Env e(p); sended(p,w,true); }
SP void bad_gone_ended( P* p, const Worker* w ){ Env e(p); sended(p,w,false); }
VP_ANCHOR(exec,"spatialops/threadpool/threadpool/detail/pool_core.hpp execute_task")
INL bool sexec( P* p, const bool late ){ lock(); if( p->m_worker_count>p->m_target_worker_count+TW(p) ){ TW(p)=TW(p)+1; unlock(); return false; }
  while( p->m_scheduler.empty() || p->m_active_worker_count>p->m_target_active_worker_count ){ if( p->m_worker_count>p->m_target_worker_count+TW(p) ){ TW(p)=TW(p)+1; unlock(); return false; }
    p->m_active_worker_count=p->m_active_worker_count-1; idle(); vp_wait(M,2); p->m_active_worker_count=p->m_active_worker_count+1; }
  Task t; t.id=vp_q_top(p->m_scheduler.q); p->m_scheduler.pop(); if( late ) t(); unlock(); if( !late ) t(); return true; }
SP bool impl_exec( P* p ){ Env e(p); return p->execute_task(); }
SP bool spec_exec( P* p ){ Env e(p); return sexec(p,false); }
SP bool bad_exec( P* p ){ Env e(p); return sexec(p,true); }
VP_ANCHOR(stop,"spatialops/threadpool/threadpool/shutdown_policies.hpp shutdown")
SP void impl_stop_all( P* p ){ Env e(p); tp::wait_for_all_tasks<P>::shutdown(*p); }
SP void spec_stop_all( P* p ){ Env e(p); swait(p,0); sterm(p,true); }
SP void impl_stop_pool( P* p ){ Env e(p); p->shutdown(); }
SP void spec_stop_pool( P* p ){ Env e(p); swait(p,0); sterm(p,true); }
INL void sdrop( P* p ){ lock(); p->m_scheduler.clear(); unlock(); }
SP void impl_stop_active( P* p ){ Env e(p); tp::wait_for_active_tasks<P>::shutdown(*p); }
SP void spec_stop_active( P* p ){ Env e(p); sdrop(p); swait(p,0); sterm(p,true); }
SP void impl_stop_now( P* p ){ Env e(p); tp::immediately<P>::shutdown(*p); }
SP void spec_stop_now( P* p ){ Env e(p); sdrop(p); sterm(p,false); }
VP_ANCHOR(made,"spatialops/threadpool/threadpool/detail/pool_core.hpp pool_core")
SP bool prove_made(){ P* p=new P; const bool r = p->m_worker_count==0 && p->m_target_worker_count==0 && p->m_active_worker_count==0 && p->m_target_active_worker_count==0 && TW(p)==0 && !p->m_terminate_all_workers && p->m_scheduler.q==vp_q_clear(0) && p->m_size_policy.px!=NULL && p->m_terminated_workers.v==0 && M->depth==0; M=0; return r; }
SP bool bad_made(){ P* p=new P; M=0; return p->m_terminate_all_workers; }
// ---- the pool handle forwards every request to its pool
typedef tp::thread_pool<Task,Q,tp::dynamic_resize_policy,tp::resize_controller,tp::wait_for_all_tasks> H;
VP_ANCHOR(handle,"spatialops/threadpool/threadpool/pool.hpp thread_pool")
#define HAND(n,T,args,call,sp) SP T impl_handle_##n args { Env e((*(shared_ptr<P>*)h).px); return h->call; } SP T spec_handle_##n args { P* p=(*(shared_ptr<P>*)h).px; Env e(p); return sp; }
INL bool ssched( P* p, const Task& t ){ lock(); const bool ok=p->m_scheduler.push(t); if( ok ) work(1); unlock(); return ok; }
INL ul spend( P* p ){ lock(); const ul n=p->m_scheduler.size(); unlock(); return n; } INL bool sempty( P* p ){ lock(); const bool n=p->m_scheduler.empty(); unlock(); return n; }
HAND(sched,bool,( H* h, const Task* t ),schedule(*t),ssched(p,*t)) HAND(pending,ul,( H* h ),pending(),spend(p)) HAND(empty,bool,( H* h ),empty(),sempty(p)) HAND(clear,void,( H* h ),clear(),sdrop(p)) HAND(wait,void,( H* h, const ul n ),wait(n),swait(p,n))
HAND(size,ul,( H* h ),size(),p->m_worker_count) HAND(max,ul,( H* h ),max_active(),p->m_target_active_worker_count) HAND(active,ul,( H* h ),active(),p->m_active_worker_count)
HAND(resize,bool,( H* h, const ul n ),size_controller().resize(n),sresize(p,n)) HAND(limit,bool,( H* h, const ul n ),size_controller().resize_active(n),slimit(p,n))
// making a handle starts its workers; releasing the last one finishes all tasks and joins the workers
SP void impl_handle_life( const ul n ){ POS(n) M=0; { H h(n); } vp_end_ev( M->clock, M->depth, M->one, M->two ); M=0; }
SP void spec_handle_life( const ul n ){ POS(n) M=0; P* p=new P; sresize(p,n); slimit(p,n); swait(p,0); sterm(p,true); vp_end_ev( M->clock, M->depth, M->one, M->two ); M=0; }
SP void bad_handle_life( const ul n ){ POS(n) M=0; P* p=new P; sresize(p,n); slimit(p,n); sterm(p,true); vp_end_ev( M->clock, M->depth, M->one, M->two ); M=0; }
