// a pool that runs each scheduled task at once
#ifndef VP_FAKE_POOL
#define VP_FAKE_POOL
#include <spatialops/SpatialOpsConfigure.h>
#include <map>
#include <cstdio>
extern "C" int vp_capacity( int );
extern "C" int vp_active( int );
extern "C" void vp_pool_event( int );
namespace SpatialOps{
struct ThreadPoolFIFO{ static ThreadPoolFIFO& self(){ static ThreadPoolFIFO p; return p; }
  template<class F> bool schedule( F const& f ) const{ F g(f); g(); return true; }
  static int get_pool_capacity(){ return vp_capacity(0); } static int get_pool_size(){ return vp_active(0); }
  static int resize_pool( const int n ){ return n; } static int set_pool_capacity( const int n ){ return n; } };
typedef ThreadPoolFIFO ThreadPool;
}
#endif
