// T01: the worker thread, its exception guard and the semaphore.
#include <cstddef>
#include <utility>
#include <vpthread.h>
#include "vp.h"
#define private public
#include <spatialops/threadpool/threadpool/detail/worker_thread.hpp>
#include <spatialops/Semaphore.h>
#undef private
using namespace boost; namespace tp=boost::threadpool;
#define SP extern "C"
#define INL static inline __attribute__((always_inline))
extern "C"{ void vp_exec_ev( const void* pool, int clock ); void vp_died_ev( const void* pool, const void* w, int clock ); void vp_ended_ev( const void* pool, const void* w, int clock ); void vp_spawn_ev( int clock ); void vp_spawned_ev( int clock ); void vp_join_ev( int id, int clock ); void vp_end_ev( int clock, int thrown );
 bool vp_env_b( int clock, int f ); int vp_env_i( int clock, int f ); void vp_lock_ev( int clock, int n ); void vp_rel_ev( int how, int clock, int val, int n ); }
static int clk;
struct FP;
typedef tp::detail::worker_thread<FP> W;
struct FP: enable_shared_from_this<FP>{ int x;
  bool execute_task() volatile{ const int c=clk++; vp_exec_ev( (const void*)this, c ); if( vp_env_b(c,1) ) throw 1; return vp_env_b(c,0); }
  void worker_died_unexpectedly( shared_ptr<W> w ) volatile{ vp_died_ev( (const void*)this, w.px, clk++ ); } void worker_destructed( shared_ptr<W> w ) volatile{ vp_ended_ev( (const void*)this, w.px, clk++ ); } };
namespace boost{ template<class F> thread::thread( F f ){ vp_spawn_ev( clk++ ); f(); vp_spawned_ev( clk++ ); } void thread::join(){ vp_join_ev( id, clk++ ); } }
INL void begin(){ clk=0; } INL void end( int thrown ){ vp_end_ev( clk, thrown ); clk=0; }
VP_ANCHOR(run,"spatialops/threadpool/threadpool/detail/worker_thread.hpp run")
// the worker takes tasks until told to stop; it reports its end, or its death by an exception, exactly once
INL void srun( FP* p, W* w ){ for(;;){ const int c=clk++; vp_exec_ev( p, c ); if( vp_env_b(c,1) ){ vp_died_ev( p, w, clk++ ); throw 1; } if( !vp_env_b(c,0) ) break; } vp_ended_ev( p, w, clk++ ); }
SP void impl_run( W* w ){ begin(); int t=0; try{ w->run(); } catch( ... ){ t=1; } end(t); }
SP void spec_run( W* w ){ begin(); int t=0; try{ srun(w->m_pool.px,w); } catch( ... ){ t=1; } end(t); }
SP void bad_run( W* w ){ begin(); int t=0; FP* p=w->m_pool.px; for(;;){ const int c=clk++; vp_exec_ev( p, c ); if( vp_env_b(c,1) ){ t=1; break; } if( !vp_env_b(c,0) ) break; } vp_ended_ev( p, w, clk++ ); end(t); }
VP_ANCHOR(join,"spatialops/threadpool/threadpool/detail/worker_thread.hpp join")
SP void impl_join( W* w ){ begin(); w->join(); end(0); }
SP void spec_join( W* w ){ begin(); w->m_thread.px->join(); end(0); }
VP_ANCHOR(spawn,"spatialops/threadpool/threadpool/detail/worker_thread.hpp create_and_attach")
SP void impl_spawn( FP* p ){ begin(); try{ W::create_and_attach(shared_ptr<FP>(p)); } catch( ... ){} end(0); }
SP void spec_spawn( FP* p ){ begin(); try{ W* w=new W(shared_ptr<FP>(p)); thread* t=(thread*)::operator new(sizeof(thread)); vp_spawn_ev( clk++ ); srun(p,w); vp_spawned_ev( clk++ ); w->m_thread.px=t; } catch( ... ){} end(0); }
// ---- semaphore
typedef SpatialOps::Semaphore S;
static const S* SM; static int sentn;
INL void sfresh(){ S* s=(S*)SM; s->val_=vp_env_i(++clk,0); }
namespace boost{
void vp_made( vpm* ){}
void vp_lock( const vpm* m ){ if( m!=&SM->mut_ || m->depth!=0 ) vp_reject(); vp_lock_ev( clk, sentn>0 ); sentn=0; sfresh(); ++m->depth; }
void vp_unlock( const vpm* m ){ if( m!=&SM->mut_ ) vp_reject(); --m->depth; vp_rel_ev( 0, clk, SM->val_, 0 ); sfresh(); }
int vp_which( const vpm*, const void* ){ return 1; }
void vp_wait( const vpm* m, int ){ vp_rel_ev( 1, clk, SM->val_, sentn>0 ); sentn=0; sfresh(); }
bool vp_twait( const vpm* m, int w, long t ){ vp_wait(m,w); return vp_env_b(clk,1); }
void vp_notify( const void* c, int n ){ if( n>sentn ) sentn=n; }
}
struct SEnv{ S* s; SEnv( S* a ):s(a){ SM=a; clk=0; sentn=0; s->mut_.depth=0; } ~SEnv(){ vp_rel_ev( 9, clk, s->mut_.depth, sentn>0 ); SM=0; clk=0; sentn=0; s->mut_.depth=0; } };
VP_ANCHOR(sem,"spatialops/Semaphore.h post")
SP void impl_sem_post( S* s ){ SEnv e(s); s->post(); }
SP void spec_sem_post( S* s ){ SEnv e(s); vp_lock(&s->mut_); s->val_=s->val_+1; vp_notify(0,1); vp_unlock(&s->mut_); }
SP void bad_sem_post( S* s ){ SEnv e(s); vp_notify(0,1); vp_lock(&s->mut_); s->val_=s->val_+1; vp_unlock(&s->mut_); }
SP void impl_sem_wait( S* s ){ SEnv e(s); s->wait(); }
SP void spec_sem_wait( S* s ){ SEnv e(s); vp_lock(&s->mut_); while( s->val_<=0 ) vp_wait(&s->mut_,1); s->val_=s->val_-1; vp_unlock(&s->mut_); }
SP void bad_sem_wait( S* s ){ SEnv e(s); vp_lock(&s->mut_); if( s->val_<=0 ) vp_wait(&s->mut_,1); s->val_=s->val_-1; vp_unlock(&s->mut_); }
SP int impl_sem_init( const int n ){ S s(n); return s.val_; }
SP int spec_sem_init( const int n ){ return n; }
SP int impl_sem_init0(){ S s; return s.val_; }
SP int spec_sem_init0(){ return 0; }
