// stand-in for the pools behind the shared singletons: they only remember the sizes they were given (their own behaviour is T01)
#ifndef VP_FAKE_TPOOL
#define VP_FAKE_TPOOL
#include <cstddef>
#include <map>
#include <algorithm>
extern int vp_made, vp_depth, vp_bad;
namespace boost{ namespace threadpool{
struct vp_pool{ size_t count, act; int made;
  struct sizer{ vp_pool* p; bool resize( size_t n ){ if( vp_depth!=1 ) vp_bad=1; p->count=n; return true; } bool resize_active( size_t n ){ if( vp_depth!=1 ) vp_bad=1; p->act=n; return true; } };
  vp_pool( int n ):count(n),act(n){ vp_made=n; } ~vp_pool(){} sizer size_controller(){ sizer s={ this }; return s; } size_t size() const{ return count; } size_t max_active() const{ return act; } };
struct prio_pool: vp_pool{ prio_pool( int n ):vp_pool(n){} }; struct fifo_pool: vp_pool{ fifo_pool( int n ):vp_pool(n){} };
} }
#endif
