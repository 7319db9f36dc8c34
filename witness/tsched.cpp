// T01: scheduling policies. Containers have three places, selected by comparing.
#include <cstddef>
#include <deque>
#include <queue>
#include <list>
#include <vector>
#include <utility>
#define VP_TASK_ONLY
#include <vpthread.h>
#include "vp.h"
namespace std{
template<class T> struct vp_deque{ T a,b,c; int n; vp_deque():n(0){} typedef T value_type; typedef size_t size_type;
  void push_back( const T& t ){ if( n==0 ) a=t; else if( n==1 ) b=t; else c=t; ++n; } void push_front( const T& t ){ c=b; b=a; a=t; ++n; }
  void pop_front(){ a=b; b=c; --n; } void pop_back(){ --n; } const T& front() const{ return a; } T& front(){ return a; } const T& back() const{ return n==1 ? a : n==2 ? b : c; } T& back(){ return n==1 ? a : n==2 ? b : c; } size_t size() const{ return n; } bool empty() const{ return n==0; } void clear(){ n=0; } };
template<class T> struct vp_cell{ union{ T v; }; vp_cell(){} ~vp_cell(){} vp_cell& operator=( const vp_cell& o ){ new((void*)&v) T(o.v); return *this; } vp_cell& operator=( const T& t ){ new((void*)&v) T(t); return *this; } operator const T&() const{ return v; } bool operator<( const vp_cell& o ) const{ return v<o.v; } };
template<class T> struct vp_priority_queue{ vp_cell<T> a,b,c; int n; vp_priority_queue():n(0){} typedef T value_type; typedef size_t size_type;
  void push( const T& t ){ if( n==0 ) a=t; else if( n==1 ) b=t; else c=t; ++n; }
  const T& top() const{ if( n==1 ) return a; if( n==2 ) return a<b ? b : a; if( a<b ) return b<c ? c : b; return a<c ? c : a; }
  void pop(){ if( n==2 ){ if( !(a<b) ) a=b; } else if( n==3 ){ if( a<b ){ if( !(b<c) ) b=c; } else { if( a<c ){} else a=c; } } --n; } size_t size() const{ return n; } bool empty() const{ return n==0; } };
}
#define deque vp_deque
#define priority_queue vp_priority_queue
#define private public
#define protected public
#include <spatialops/threadpool/threadpool/scheduling_policies.hpp>
#undef private
#undef protected
#undef deque
#undef priority_queue
namespace boost{ void vp_made( vpm* ){} }
using namespace boost; namespace tp=boost::threadpool;
#define SP extern "C"
typedef tp::fifo_scheduler<Task> F; typedef tp::lifo_scheduler<Task> L; typedef tp::prio_scheduler<tp::prio_task_func> Pr; typedef tp::prio_task_func PT;
extern "C" void vp_ran_ev( int id );
void Task::operator()() const{ vp_ran_ev( id ); }
struct Out{ int n; int id[3]; bool ok; };
template<class S> static inline void drain( S& s, Out* o ){ o->n=0; for( int i=0; i<3; ++i ) if( !s.empty() ){ o->id[i]=s.top().id; s.pop(); o->n=i+1; } }
static inline Task mk( int id ){ Task t; t.id=id; return t; }
VP_ANCHOR(fifo,"spatialops/threadpool/threadpool/scheduling_policies.hpp fifo_scheduler")
SP void impl_fifo( Out* o, const int x, const int y, const int z ){ F s; o->ok = s.push(mk(x)) && s.push(mk(y)) && s.push(mk(z)); drain(s,o); }
SP void spec_fifo( Out* o, const int x, const int y, const int z ){ o->ok=true; o->n=3; o->id[0]=x; o->id[1]=y; o->id[2]=z; }
SP void bad_fifo( Out* o, const int x, const int y, const int z ){ o->ok=true; o->n=3; o->id[0]=z; o->id[1]=y; o->id[2]=x; }
SP void impl_fifo_mixed( Out* o, const int x, const int y, const int z ){ F s; o->ok = s.push(mk(x)) && s.push(mk(y)); o->id[0]=s.top().id; s.pop(); s.push(mk(z)); o->id[1]=s.top().id; s.pop(); o->id[2]=s.top().id; s.pop(); o->n=s.empty(); }
SP void spec_fifo_mixed( Out* o, const int x, const int y, const int z ){ o->ok=true; o->id[0]=x; o->id[1]=y; o->id[2]=z; o->n=1; }
VP_ANCHOR(lifo,"spatialops/threadpool/threadpool/scheduling_policies.hpp lifo_scheduler")
SP void impl_lifo( Out* o, const int x, const int y, const int z ){ L s; o->ok = s.push(mk(x)) && s.push(mk(y)) && s.push(mk(z)); drain(s,o); }
SP void spec_lifo( Out* o, const int x, const int y, const int z ){ o->ok=true; o->n=3; o->id[0]=z; o->id[1]=y; o->id[2]=x; }
SP void impl_lifo_mixed( Out* o, const int x, const int y, const int z ){ L s; o->ok = s.push(mk(x)) && s.push(mk(y)); o->id[0]=s.top().id; s.pop(); s.push(mk(z)); o->id[1]=s.top().id; s.pop(); o->id[2]=s.top().id; s.pop(); o->n=s.empty(); }
SP void spec_lifo_mixed( Out* o, const int x, const int y, const int z ){ o->ok=true; o->id[0]=y; o->id[1]=z; o->id[2]=x; o->n=1; }
VP_ANCHOR(count,"spatialops/threadpool/threadpool/scheduling_policies.hpp size")
template<class S,class T> static inline bool counts( const T& x, const T& y ){ S s; bool ok = s.empty() && s.size()==0; s.push(x); ok = ok && !s.empty() && s.size()==1; s.push(y); ok = ok && !s.empty() && s.size()==2; s.pop(); ok = ok && !s.empty() && s.size()==1; s.push(x); s.clear(); return ok && s.empty() && s.size()==0; }
SP bool prove_count_fifo( const int x, const int y ){ return counts<F>(mk(x),mk(y)); }
SP bool prove_count_lifo( const int x, const int y ){ return counts<L>(mk(x),mk(y)); }
SP bool prove_count_prio( const unsigned x, const unsigned y ){ return counts<Pr>(PT(x,mk(1)),PT(y,mk(2))); }
SP bool bad_count_prio( const unsigned x, const unsigned y ){ Pr s; s.push(PT(x,mk(1))); return s.empty(); }
VP_ANCHOR(prio,"spatialops/threadpool/threadpool/scheduling_policies.hpp prio_scheduler")
SP bool prove_prio( const unsigned x, const unsigned y, const unsigned z ){ vp_assume( (int)x>=0 && (int)y>=0 && (int)z>=0 ); Pr s; s.push(PT(x,mk(1))); s.push(PT(y,mk(2))); s.push(PT(z,mk(3)));
  const unsigned p=s.top().m_priority; const int i=s.top().m_function.t.id; s.pop(); const unsigned q=s.top().m_priority; const int j=s.top().m_function.t.id; s.pop(); const unsigned r=s.top().m_priority; const int k=s.top().m_function.t.id; s.pop();
  return p>=q && q>=r && i!=j && i!=k && j!=k && s.empty() && ( i==1 ? p==x : i==2 ? p==y : p==z ) && ( k==1 ? r==x : k==2 ? r==y : r==z ); }
SP bool bad_prio( const unsigned x, const unsigned y ){ vp_assume( (int)x>=0 && (int)y>=0 ); Pr s; s.push(PT(x,mk(1))); s.push(PT(y,mk(2))); const unsigned p=s.top().m_priority; s.pop(); return p<=s.top().m_priority; }
SP void impl_prio_run( const unsigned x, const int id ){ PT t(x,mk(id)); t(); }
SP void spec_prio_run( const unsigned x, const int id ){ vp_ran_ev(id); }
SP void impl_prio_none( const unsigned x ){ PT t(x,tp::task_func()); t(); }
SP void spec_prio_none( const unsigned x ){}
