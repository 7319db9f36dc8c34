PRE = '''#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/Nebo.h>
#include <iostream>
#include <vector>
#include <cmath>
using namespace SpatialOps; using namespace SpatialOps::structured;
#define REQ(c) do{ if(!(c)){ std::cout << "FAILED: " #c << std::endl; return 1; } }while(0)
static BoundaryCellInfo nobc(){ return BoundaryCellInfo::build<SVolField>(false,false,false); }
// a field over (nx,ny,nz) interior cells with the given ghosts, on external memory holding 0,1,2,...
struct Fld{ GhostData g; MemoryWindow w; std::vector<double> v; SVolField f;
  Fld(IntVec n, GhostData gd, double s=1.0): g(gd), w(get_window_with_ghost(n,gd,nobc())), v(w.glob_npts()), f(w,nobc(),gd,(init(v,s),&v[0]),ExternalStorage) {}
  static void init(std::vector<double>& v,double s){ for(size_t i=0;i<v.size();++i) v[i]=s*(i+1); } };
'''
S_ = 'spatialops/structured/'
MW = S_ + 'MemoryWindow'
seed('w02-refine-offset', 'W02', [(MW + '.cpp', 'offset_[1] + stdExtent[1] * location[1] + (location[1] < nextra[1] ? location[1] : nextra[1])',
      'offset_[1] + stdExtent[1] * location[1] + (location[1] < nextra[1] ? location[1] : (nextra[1] > 0 ? 1 : 0))')],
     'a y extent whose remainder modulo the split is at least two', 'sub-windows overlap in y', PRE + '''
int main(){ const MemoryWindow w(IntVec(2,11,3)); std::vector<int> seen(w.glob_npts(),0);
 for(int j=0;j<4;++j){ const MemoryWindow r=w.refine(IntVec(1,4,1),IntVec(0,j,0)); for(int i=0;i<r.local_npts();++i) seen[r.flat_index(r.ijk_index_from_local(i))]++; }
 for(size_t i=0;i<seen.size();++i) REQ(seen[i]==1); return 0; }''')
seed('w03-iter-pluseq-boundary', 'W03', [(MW + '.h', ('-change < xIndex_) ){', 1), '-change <= xIndex_ + 1) ){')],
     'a backward jump of exactly one more than the position in the row', 'the iterator steps into the padding of the parent instead of the previous row', PRE + '''
int main(){ Fld a(IntVec(4,3,2),GhostData(1)); SVolField::iterator b=a.f.interior_begin(); const int n=24;
 for(int k=0;k<n;++k) for(int d=-k; k+d<n; ++d){ SVolField::iterator i=b; for(int s=0;s<k;++s) ++i; if(d) i+=d; SVolField::iterator e=b; for(int s=0;s<k+d;++s) ++e; REQ(&*i==&*e); }
 return 0; }''', flags='-DNDEBUG')
N_ = 'spatialops/Nebo'
seed('n04-bc-extra-dir', 'N04', [(N_ + 'Basic.h', 'min(lhs_w_extra, rhs)', 'min(rhs, bc.has_bc(0) ? lhs_w_extra : lhs)')],
     'a physical boundary on the y or z side only, on a field type with an extra boundary cell there', 'the extra boundary layer is not assigned', PRE + '''
int main(){ const BoundaryCellInfo bc=BoundaryCellInfo::build<SSurfYField>(false,true,false); const GhostData g(1);
 const MemoryWindow w=get_window_with_ghost(IntVec(3,3,3),g,bc); std::vector<double> v(w.glob_npts(),0.0), u(w.glob_npts(),2.0);
 SSurfYField f(w,bc,g,&v[0],ExternalStorage), h(w,bc,g,&u[0],ExternalStorage); f <<= h*1.0; for(size_t i=0;i<v.size();++i) REQ(v[i]==2.0); return 0; }''')
seed('k01-mask-word', 'K01', [(S_ + 'BitField.h', ('blockPosition_ = flatPosition / NEBO_INT_BIT;', 1), 'blockPosition_ += bitPosition_ < 0 ? -1 : 1;')],
     'a single step of the mask walk that skips a whole storage word (wide ghost padding, or a long jump)', 'the mask walk reads the wrong storage word', PRE + '''
int main(){ const GhostData g(20); Fld a(IntVec(2,2,2),g); std::vector<IntVec> pts; pts.push_back(IntVec(0,0,1));
 const SpatialMask<SVolField> m(a.f,pts); SpatialMask<SVolField>::const_interior_iterator i=m.interior_begin(); int k=0; for(;i!=m.interior_end();++i,++k) REQ(*i==(k==4)); REQ(k==8); return 0; }''')
RED = 'struct %s<Reduction, '
def inred(op, old, new):
    """edit inside the Reduction specialisation of an operator"""
    f = N_ + 'Operators.h'; t = open('/repo/' + f, newline='').read()
    i = t.index('struct %s<Reduction,' % op); j = t.index(old, i)
    return (f, (old, t[:j].count(old) + 1), new)
def inmode(op, mode, old, new, f=None):
    f = f or N_ + 'Operators.h'; t = open('/repo/' + f, newline='').read()
    i = t.index('struct %s<%s,' % (op, mode)); j = t.index(old, i)
    return (f, (old, t[:j].count(old) + 1), new)
seed('n02-or-reduction', 'N02', [inmode('OrOp', 'Reduction', '(operand1_.eval() || operand2_.eval())', '(operand1_.eval() != operand2_.eval())')],
     'a reduction over a conditional whose condition is an or of two clauses that are both true somewhere', 'or behaves as exclusive or inside reductions', PRE + '''
int main(){ Fld a(IntVec(3,2,2),GhostData(0)); const double s=nebo_sum(cond((a.f>2.0)||(a.f>5.0),1.0)(0.0)); REQ(s==10.0); return 0; }''')
seed('n01-div-ghosts', 'N01', [inmode('DivOp', 'Initial', 'return min(operand1_.possible_ghosts(), operand2_.possible_ghosts());', 'return operand1_.possible_ghosts();')],
     'a quotient whose divisor has fewer valid ghost cells than the dividend', 'the quotient claims ghost cells its divisor does not have', PRE + '''
int main(){ Fld a(IntVec(3,3,3),GhostData(2)), b(IntVec(3,3,3),GhostData(1)); REQ((a.f/b.f).expr().possible_ghosts()==GhostData(1)); REQ((b.f/a.f).expr().possible_ghosts()==GhostData(1)); return 0; }''')
seed('n07-norm-interior', 'N07', [(N_ + 'Reductions.h', 'std::sqrt(nebo_sum_interior(pow(fexpr, 2)))', 'std::sqrt(nebo_sum(pow(fexpr, 2)))')],
     'an interior norm of a field with ghost cells', 'the interior norm includes ghost cells', PRE + '''
int main(){ Fld a(IntVec(1,1,3),GhostData(IntVec(0,0,1),IntVec(0,0,1))); REQ(std::fabs(nebo_norm_interior(a.f)-std::sqrt(4.0+9.0+16.0))<1e-12); return 0; }''')
