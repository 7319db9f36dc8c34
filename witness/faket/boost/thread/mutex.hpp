#ifndef VP_FAKE_MUTEX
#define VP_FAKE_MUTEX
extern int vp_made, vp_depth, vp_bad;
namespace boost{ struct mutex{ struct scoped_lock{ bool own; explicit scoped_lock( mutex& ):own(true){ if( vp_depth!=0 ) vp_bad=1; ++vp_depth; } ~scoped_lock(){ unlock(); } void unlock(){ if( own ) --vp_depth; own=false; } private: scoped_lock( const scoped_lock& ); }; };
template<class M> struct lock_guard: mutex::scoped_lock{ explicit lock_guard( M& m ):mutex::scoped_lock(m){} }; template<class M> struct unique_lock: mutex::scoped_lock{ explicit unique_lock( M& m ):mutex::scoped_lock(m){} }; }
#endif
