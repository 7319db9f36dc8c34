TP = 'spatialops/threadpool/threadpool/'
MALLOC = '#include <malloc.h>\n'
seed('m01-small-block', 'M01', [(S_ + 'MemoryPool.cpp', ('      n = ifq->first;\n', 1), '')],
     'a block requested while all larger ones are in use, returned, and a larger request afterwards', 'a block smaller than requested is handed out', MALLOC + PRE + '''
#include <spatialops/structured/MemoryPool.h>
int main(){ Pool<float>& p=Pool<float>::self(); float* a=p.get(LOCAL_RAM,1000); float* b=p.get(LOCAL_RAM,50); p.put(LOCAL_RAM,b); float* c=p.get(LOCAL_RAM,1000);
 REQ(malloc_usable_size(c)>=1000*sizeof(float)); p.put(LOCAL_RAM,a); p.put(LOCAL_RAM,c); return 0; }''')
seed('g01-inf-flag', 'G01', [(S_ + 'GhostData.cpp', '        *this = rhs;\n', '        minus_ = rhs.minus_;\n        plus_  = rhs.plus_;\n')],
     'a sum that becomes unlimited by its second operand, used on the right of a subtraction', 'subtracting unlimited ghost data is not rejected', PRE + '''
int main(){ GhostData a(1); a+=GhostData(GHOST_MAX); bool t=false; try{ GhostData b(2); b-=a; } catch( std::runtime_error& ){ t=true; } REQ(t); return 0; }''', flags='-DNDEBUG')
seed('f05-store-flag', 'F05', [(S_ + 'SpatialFieldStore.h', ('  builtFromStore_ = p.builtFromStore_;', 1), '  if( p.builtFromStore_ ) builtFromStore_ = true;')],
     'a pointer that held a scratch field is assigned one that does not come from the store', 'memory that is not the pool\'s is handed to the pool', PRE + '''
int main(){ Fld a(IntVec(3,3,3),GhostData(1)); double* mem=new double[1000]; { SpatFldPtr<SVolField> p=SpatialFieldStore::get<SVolField>(a.f); SpatFldPtr<SVolField> q(new SVolField(a.w,nobc(),a.g,mem,ExternalStorage));
 p=q; q.detach(); REQ(!p.built_from_store()); } return 0; }''', flags='-DNDEBUG')
seed('f06-window-kept', 'F06', [(S_ + 'SpatialFieldStore.h', 'const structured::MemoryWindow mw( window.extent(),\n                                       structured::IntVec(0,0,0),\n                                       window.extent() );', 'const structured::MemoryWindow mw( window );')],
     'a prototype whose valid ghosts were reduced', 'the scratch field keeps the padding of its prototype', PRE + '''
int main(){ Fld a(IntVec(3,4,5),GhostData(2)); a.f.reset_valid_ghosts(GhostData(1)); SpatFldPtr<SVolField> p=SpatialFieldStore::get<SVolField>(a.f);
 REQ(p->window_with_ghost().offset()==IntVec(0,0,0)); REQ(p->window_with_ghost().glob_dim()==IntVec(5,6,7)); return 0; }''')
seed('f01-view-block', 'F01', [(S_ + 'SpatialField.h', 'window.glob_dim(0) * window.glob_dim(1) * window.glob_dim(2) );//', 'window.local_npts() );//')],
     'a field with its own storage on a window smaller than its parent', 'the block taken is smaller than the parent window', MALLOC + PRE + '''
int main(){ const MemoryWindow w(IntVec(20,20,20),IntVec(2,2,2),IntVec(5,5,5)); double* big=new double[8000]; SVolField f(w,nobc(),GhostData(1),NULL,InternalStorage);
 REQ(malloc_usable_size(f.field_values())>=8000*sizeof(double)); delete[] big; return 0; }''', flags='-DNDEBUG')
seed('f03-view-of-view', 'F03', [(S_ + 'SpatialField.h', ('  disableInterior_( other.disableInterior_ ),', 2), '  disableInterior_( false ),')],
     'a whole-memory view made of a view that cuts into the interior', 'interior ranges of the second view are not refused', PRE + '''
int main(){ Fld a(IntVec(4,4,4),GhostData(1)); SVolField v(MemoryWindow(a.w.glob_dim(),IntVec(2,2,2),IntVec(2,2,2)),a.f); SVolField u(a.w,v);
 bool t=false; try{ u.interior_begin(); } catch( std::runtime_error& ){ t=true; } REQ(t); return 0; }''', flags='-DNDEBUG')
seed('e01-sin-d2x', 'E01', [('spatialops/FieldFunctions.h', 'f <<= -a_*b_*b_ * sin(x*b_);', 'f <<= -a_*b_*std::abs(b_) * sin(x*b_);')],
     'a sine with negative frequency', 'the second derivative has the wrong sign', '''#include <cmath>
''' + PRE + '''
#include <spatialops/FieldFunctions.h>
int main(){ Fld x(IntVec(4,3,2),GhostData(0),0.1), f(IntVec(4,3,2),GhostData(0)); SinFunction<SVolField> s(x.f,2.0,-3.0,0.5); s.d2x(f.f);
 for(size_t i=0;i<f.v.size();++i) REQ(std::abs(f.v[i]+2.0*9.0*std::sin(-3.0*x.v[i]))<1e-10); return 0; }''')
seed('f04-window-extent', 'F04', [(S_ + 'FieldComparisons.h', ('if(w1 != w2)', 2), 'if(w1.extent() != w2.extent())')],
     'two fields with equal extents on windows with another parent or offset', 'fields with different windows are compared instead of refused', PRE + '''
#include <spatialops/structured/FieldComparisons.h>
int main(){ Fld a(IntVec(4,4,4),GhostData(0)), b(IntVec(6,6,6),GhostData(0)); SVolField v(MemoryWindow(b.w.glob_dim(),IntVec(1,1,1),IntVec(4,4,4)),b.f);
 bool t=false; try{ field_equal_abs(a.f,v,1.0); } catch( std::runtime_error& ){ t=true; } REQ(t); return 0; }''')
seed('s03-grad-z', 'S03', [(S_ + 'stencil/StencilBuilder.cpp', 'OperatorTypeBuilder<GradientZ,   YVolField,YVolField>::type( coefHalfDz )', 'OperatorTypeBuilder<GradientZ,   YVolField,YVolField>::type( coefHalfDy )')],
     'different spacings in y and z, and the z gradient of a y volume field', 'one finite-difference operator is weighted with the spacing of another direction', PRE + '''
#include <spatialops/OperatorDatabase.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
int main(){ OperatorDatabase db; build_stencils(4,5,6,1.0,2.0,3.5,db); typedef OperatorTypeBuilder<GradientZ,YVolField,YVolField>::type Op;
 REQ(std::abs(db.retrieve_operator<Op>()->coefs().get_coef(1)-0.5*6/3.5)<1e-12); return 0; }''')
seed('o01-unknown-id', 'O01', [('spatialops/OperatorDatabase.h', 'iop = opMap_.find( id );', 'iop = opMap_.lower_bound( id );')],
     'an identifier smaller than every one handed out', 'an operator is returned for an identifier that was never handed out', '''#include <spatialops/OperatorDatabase.h>
#include <iostream>
using namespace SpatialOps; struct Op{ int k; Op(int i):k(i){} };
int main(){ OperatorDatabase db; const int a=db.register_new_operator(new Op(1)), b=db.register_new_operator(new Op(2)); if( db.retrieve_operator<Op>(a)->k!=1 || db.retrieve_operator<Op>(b)->k!=2 ) return 1;
 for( int i=-9; i<9; ++i ) if( i!=a && i!=b ){ bool t=false; try{ db.retrieve_operator<Op>(i); } catch( std::exception& ){ t=true; } if(!t){ std::cout<<"returned an operator for "<<i<<std::endl; return 1; } } return 0; }''')
TPH = '''#include <spatialops/threadpool/threadpool.hpp>
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#include <iostream>
#include <unistd.h>
using namespace boost::threadpool;
#define REQ(c) do{ if(!(c)){ std::cout << "FAILED: " #c << std::endl; _exit(1); } }while(0)
volatile bool go=false; void hold(){ while(!go) usleep(1000); }
'''
seed('t01-wait-threshold', 'T01', [(TP + 'detail/pool_core.hpp', ('while(task_threshold < self->m_active_worker_count + self->m_scheduler.size())', 1), 'while(task_threshold < self->m_scheduler.size() || self->m_scheduler.size() > self->m_active_worker_count)')],
     'waiting for at most one unfinished task while two are running and none is queued', 'wait returns with more unfinished tasks than asked for', TPH + '''
volatile bool back=false; void waiter( pool* p ){ p->wait(1); back=true; }
int main(){ pool p(3); p.schedule(&hold); p.schedule(&hold); while( p.pending()>0 || p.active()<2 ) usleep(1000); usleep(50000);
 boost::thread t(boost::bind(&waiter,&p)); usleep(500000); REQ(!back); go=true; t.join(); p.wait(); return 0; }''')
seed('t01-timed-wait', 'T01', [(TP + 'detail/pool_core.hpp', ('while(0 != self->m_active_worker_count || !self->m_scheduler.empty())', 2), 'while(!self->m_scheduler.empty())')],
     'a timed wait while a task is still running and none is queued', 'the timed wait reports completion too early', TPH + '''
int main(){ pool p(2); p.schedule(&hold); while( p.pending()>0 ) usleep(1000); usleep(50000); boost::xtime x; boost::xtime_get(&x,boost::TIME_UTC_); x.sec+=1;
 REQ(!p.wait(x)); go=true; p.wait(); return 0; }''')
seed('t01-lost-wakeup', 'T01', [(TP + 'detail/pool_core.hpp', ('            lockedThis->m_worker_idle_or_terminated_event.notify_all();\n            lockedThis->m_task', 1), '            if(m_active_worker_count == 0) lockedThis->m_worker_idle_or_terminated_event.notify_all();\n            lockedThis->m_task')],
     'a thread waiting for at most n>0 unfinished tasks while others keep running', 'the waiting thread is not woken when the threshold is reached', TPH + '''
volatile bool go2=false, back=false; void hold2(){ while(!go2) usleep(1000); }
void waiter( pool* p ){ p->wait(1); back=true; }
int main(){ pool p(2); p.schedule(&hold); p.schedule(&hold2); while( p.pending()>0 || p.active()<2 ) usleep(1000);
 boost::thread t(boost::bind(&waiter,&p)); usleep(300000); go2=true; usleep(700000); const bool ok=back; go=true; REQ(ok); t.join(); p.wait(); return 0; }''')
seed('t02-early-post', 'T02', [('spatialops/NeboLhs.h', '''                    init(split, location).assign(rhs.init(''', '''                    semaphore->post();

                    init(split, location).assign(rhs.init('''), ('spatialops/NeboLhs.h', '''location));

                    semaphore->post();''', '''location));''')],
     'a reader that looks at the last cells right after a threaded assignment', 'the assignment returns before its chunks are done', PRE.replace('<IntVec n','<IntVec n') + '''
int main(){ const IntVec n(150,150,150); const GhostData g(0); const MemoryWindow w=get_window_with_ghost(n,g,nobc()); SVolField a(w,nobc(),g,NULL,InternalStorage); a.set_partition_count(4);
 for( int r=1; r<12; ++r ){ a <<= double(r); const double* p=a.field_values(); const size_t m=w.glob_npts(); for( int k=1; k<5; ++k ) REQ(p[m*k/4-1]==double(r)); usleep(100000); } return 0; }'''.replace('int main','#include <unistd.h>\nint main'), cfg='threads')
seed('n04-reject-y', 'N04', [('spatialops/NeboBasic.h', 'rhs.get_plus(1) < bc.has_extra(1)', 'rhs.get_plus(1) < bc.has_extra(0)')],
     'a y-face field at a physical boundary assigned from an operand without any plus ghost', 'an operand that does not cover the destination is not rejected', PRE + '''
int main(){ const BoundaryCellInfo bc=BoundaryCellInfo::build<SSurfYField>(false,true,false); const GhostData g(0); const IntVec n(3,3,3); const MemoryWindow w=get_window_with_ghost(n,g,bc), u=get_window_with_ghost(n,g,nobc());
 std::vector<double> v(w.glob_npts(),0.0), x(u.glob_npts()+9,2.0); const BoundaryCellInfo nb=BoundaryCellInfo::build<SSurfYField>(false,false,false); SSurfYField f(w,bc,g,&v[0],ExternalStorage), h(u,nb,g,&x[0],ExternalStorage);
 bool t=false; try{ f <<= h*1.0; } catch( std::runtime_error& ){ t=true; } REQ(t); return 0; }''')
seed('b02-scalar-side', 'B02', [('spatialops/NeboStencilBuilder.h', '(*this)(mask, phi, GammaExpr(GammaScalar(gamma)), minus);', '(*this)(mask, phi, GammaExpr(GammaScalar(gamma)), minus || !(gamma != 0.0));')],
     'a zero boundary value given as a number, on the plus side', 'the cell on the minus side is changed', PRE + '''
#include <spatialops/OperatorDatabase.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
int main(){ Fld a(IntVec(4,4,4),GhostData(1)); std::vector<IntVec> p; p.push_back(IntVec(4,1,1)); const BoundaryCellInfo bc=BoundaryCellInfo::build<SSurfXField>(false,false,false); const MemoryWindow w=get_window_with_ghost(IntVec(4,4,4),a.g,bc);
 const SpatialMask<SSurfXField> m(w,bc,a.g,p); typedef BasicOpTypes<SVolField>::DivX D; typedef NeboBoundaryConditionBuilder<IndexTriplet<0,0,0>,IndexTriplet<-1,0,0>,SVolField,SSurfXField> BC; (void)sizeof(D);
 const std::vector<double> old(a.v); const BC b(2.0,1.0); b(m,a.f,0.0,false); const size_t ig=a.w.flat_index(IntVec(5,2,2)); const size_t ii=a.w.flat_index(IntVec(4,2,2));
 for(size_t i=0;i<old.size();++i) if( i!=ig ) REQ(a.v[i]==old[i]); (void)ii; return 0; }''')
