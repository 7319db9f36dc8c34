// a count; waiting for a post nobody can make any more is reported, and so are posts nobody waited for
#ifndef VP_FAKE_SEM
#define VP_FAKE_SEM
extern "C" void vp_pool_event( int );
struct VpWatch{ const double* p; double v; int on; }; extern VpWatch vp_watch;
namespace SpatialOps{ class Semaphore{ long n_; Semaphore( const Semaphore& ); public: explicit Semaphore( int n=0 ):n_(n){} ~Semaphore(){ if( n_!=0 ) vp_pool_event( 2 ); } void post(){ ++n_; if( vp_watch.on ) vp_watch.v = *vp_watch.p; } void wait(){ if( n_<=0 ) vp_pool_event( 1 ); --n_; } }; }
#endif
