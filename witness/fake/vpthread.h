// stand-ins for the thread, smart pointer and function facilities of Boost: every operation on them becomes an event
#ifndef VPTHREAD_H
#define VPTHREAD_H
#include <cstddef>
#include <cassert>
#include <new>
#include <utility>
#include <boost/ref.hpp>
#include <boost/noncopyable.hpp>
#include <boost/utility.hpp>
#include <boost/utility/result_of.hpp>
#include <boost/bind.hpp>
#include <boost/type_traits.hpp>
#define VPI inline __attribute__((always_inline))
namespace boost{
namespace detail{ struct thread_data_base; }
struct vpm{ mutable int depth, clock, one, two; };     // how often held, events so far, wake-ups sent per condition since the last release
struct recursive_mutex; struct mutex;
VPI void vp_made( vpm* ); VPI void vp_lock( const vpm* ); VPI void vp_unlock( const vpm* ); VPI void vp_wait( const vpm*, int which ); VPI bool vp_twait( const vpm*, int which, long t ); VPI void vp_notify( const void* cond, int n ); VPI int vp_which( const vpm*, const void* cond );
template<class M> struct unique_lock{ M* m; bool own; explicit unique_lock( M& a ):m(&a),own(true){ m->lock(); } ~unique_lock(){ if( own ) m->unlock(); } void lock(){ m->lock(); own=true; } void unlock(){ m->unlock(); own=false; } M* mutex() const{ return m; } bool owns_lock() const{ return own; } private: unique_lock( const unique_lock& ); void operator=( const unique_lock& ); };
template<class M> struct lock_guard{ M* m; explicit lock_guard( M& a ):m(&a){ m->lock(); } ~lock_guard(){ m->unlock(); } private: lock_guard( const lock_guard& ); void operator=( const lock_guard& ); };
struct recursive_mutex: vpm{ recursive_mutex(){ depth=clock=one=two=0; vp_made(this); } typedef unique_lock<recursive_mutex> scoped_lock; void lock(){ vp_lock(this); } void unlock(){ vp_unlock(this); } };
struct mutex: vpm{ mutex(){ depth=clock=one=two=0; } typedef unique_lock<mutex> scoped_lock; void lock(){ vp_lock(this); } void unlock(){ vp_unlock(this); } };
struct xtime{ long t, sec, nsec; }; enum{ TIME_UTC_=1 }; int xtime_get( xtime*, int );
struct condition_variable_any{ int id;
  template<class L> void wait( L& l ){ vp_wait( l.m, vp_which( l.m, this ) ); }
  template<class L,class P> void wait( L& l, P p ){ while( !p() ) wait( l ); }
  template<class L> bool timed_wait( L& l, const xtime& t ){ return vp_twait( l.m, vp_which( l.m, this ), t.t ); }
  void notify_one(){ vp_notify( this, 1 ); } void notify_all(){ vp_notify( this, 2 ); } };
typedef condition_variable_any condition; typedef condition_variable_any condition_variable;
struct thread_resource_error{};
template<class T> struct scoped_ptr{ T* px; explicit scoped_ptr( T* p=0 ):px(p){} ~scoped_ptr(){ delete px; } void reset( T* p=0 ){ T* o=px; px=p; delete o; } T* operator->() const{ return px; } T& operator*() const{ return *px; } T* get() const{ return px; } private: scoped_ptr( const scoped_ptr& ); void operator=( const scoped_ptr& ); };
template<class T> struct shared_ptr{ typedef T element_type; T* px; shared_ptr():px(0){} explicit shared_ptr( T* p ):px(p){} template<class U> shared_ptr( const shared_ptr<U>& o ):px(o.px){} void reset(){ px=0; } template<class U> void reset( U* p ){ px=p; } T* operator->() const{ return px; } T& operator*() const{ return *px; } T* get() const{ return px; } explicit operator bool() const{ return px!=0; } bool operator!() const{ return px==0; } bool operator==( const shared_ptr& o ) const{ return px==o.px; } };
template<class T> T* get_pointer( const shared_ptr<T>& p ){ return p.px; }
template<class R> struct vp_fn{ long o[6]; R (*f)( long, long, long, long, long, long ); vp_fn( const vp_fn& x ):f(x.f){ o[0]=x.o[0]; o[1]=x.o[1]; o[2]=x.o[2]; o[3]=x.o[3]; o[4]=x.o[4]; o[5]=x.o[5]; } vp_fn( vp_fn& x ):f(x.f){ o[0]=x.o[0]; o[1]=x.o[1]; o[2]=x.o[2]; o[3]=x.o[3]; o[4]=x.o[4]; o[5]=x.o[5]; } void operator=( const vp_fn& x ){ f=x.f; o[0]=x.o[0]; o[1]=x.o[1]; o[2]=x.o[2]; o[3]=x.o[3]; o[4]=x.o[4]; o[5]=x.o[5]; }
  template<class F> struct Call{ static VPI R run( long a, long b, long c, long d, long e, long g ){ long o[6]={a,b,c,d,e,g}; return (*(F*)(void*)o)(); } };
  vp_fn():f(0){} template<class F> vp_fn( F x ):f(&Call<F>::run){ static_assert( sizeof(F)<=48, "" ); o[0]=o[1]=o[2]=o[3]=o[4]=o[5]=0; new((void*)o) F(x); }
  R operator()() const{ return f(o[0],o[1],o[2],o[3],o[4],o[5]); } explicit operator bool() const{ return f!=0; } bool empty() const{ return f==0; } bool operator!() const{ return f==0; } };
#ifdef VP_TASK_ONLY
}
struct Task{ int id; void operator()() const; };
namespace boost{
template<class R> struct function0{ Task t; bool set; function0():set(false){ t.id=0; } function0( const Task& x ):t(x),set(true){} template<class F> function0( F );
  R operator()() const{ t(); } explicit operator bool() const{ return set; } bool empty() const{ return !set; } bool operator!() const{ return !set; } void clear(){ set=false; } };
#else
template<class R> struct function0: vp_fn<R>{ function0(){} template<class F> function0( F x ):vp_fn<R>(x){} };
#endif
template<> struct shared_ptr<void>{ vp_fn<void> d; shared_ptr(){} template<class D> shared_ptr( void*, D x ):d(x){} ~shared_ptr(){ if( d ) d(); } private: shared_ptr( const shared_ptr& ); void operator=( const shared_ptr& ); };
template<class T> struct enable_shared_from_this{ shared_ptr<T> shared_from_this(){ return shared_ptr<T>(static_cast<T*>(this)); } shared_ptr<const T> shared_from_this() const{ return shared_ptr<const T>(static_cast<const T*>(this)); } };
template<class S> struct function; template<class R> struct function<R()>: function0<R>{ function(){} template<class F> function( F x ):function0<R>(x){} };
struct thread{ int id; static void sleep( const xtime& ); static void yield(); template<class F> explicit thread( F f ); void join(); };
}
#endif
