// K01: the bit-packed representation of masks; N09: masks inside expressions.
#include "fld.h"
#include <spatialops/structured/BitField.h>
#define WARGS int gx,int gy,int gz,int ox,int oy,int oz,int ex,int ey,int ez
#define WPRE vp_assume(ex>0); vp_assume(ey>0); vp_assume(ez>0); vp_assume(ox>=0); vp_assume(oy>=0); vp_assume(oz>=0); \
  vp_assume(ox+ex<=gx); vp_assume(oy+ey<=gy); vp_assume(oz+ez<=gz)
#define WIN const MemoryWindow w( IntVec(gx,gy,gz), IntVec(ox,oy,oz), IntVec(ex,ey,ez) )
#define IJK int i,int j,int k
#define IJKPRE vp_assume(i>=0); vp_assume(j>=0); vp_assume(k>=0); vp_assume(i<ex); vp_assume(j<ey); vp_assume(k<ez)
#define AT ConstMaskIterator it( p, w ); it += i + ex*( j + ey*k )
INL bool bit( const unsigned*p, const int f ){ return (p[f/32] & (1u<<(f%32)))!=0; }
#define POS(i,j,k) ((ox+(i)) + gx*( (oy+(j)) + gy*(oz+(k)) ))
#define INC vp_assume( !(i==ex-1 && j==ey-1 && k==ez-1) ); AT; int a=i+1,b=j,c=k; if( a==ex ){ a=0; ++b; if( b==ey ){ b=0; ++c; } }
#define DEC vp_assume( !(i==0 && j==0 && k==0) ); AT; int a=i-1,b=j,c=k; if( a<0 ){ a=ex-1; --b; if( b<0 ){ b=ey-1; --c; } }
extern "C" {
bool impl_mit_begin(WARGS,unsigned*p){ WPRE; WIN; ConstMaskIterator it(p,w); return *it; }
bool spec_mit_begin(WARGS,unsigned*p){ WPRE; return bit(p,POS(0,0,0)); }
bool impl_mit_at(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; WIN; AT; return *it; }
bool spec_mit_at(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; return bit(p,POS(i,j,k)); }
#define CASE(n,CI,CD) \
bool impl_mit_inc##n(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; vp_assume(CI); WIN; INC; ++it; return *it; } \
bool spec_mit_inc##n(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; vp_assume(CI); WIN; INC; return bit(p,POS(a,b,c)); } \
bool impl_mit_dec##n(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; vp_assume(CD); WIN; DEC; --it; return *it; } \
bool spec_mit_dec##n(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; vp_assume(CD); WIN; DEC; return bit(p,POS(a,b,c)); }
CASE(row,i<ex-1,i>0)
CASE(plane,i==ex-1&&j<ey-1,i==0&&j>0)
CASE(vol,i==ex-1&&j==ey-1,i==0&&j==0)
// stepping over the end of a row or a plane and back
#define ROUND(n,C,NOT,A,B) bool impl_mit_round##n(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; vp_assume(C); WIN; vp_assume(NOT); AT; A; B; return *it; } bool spec_mit_round##n(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; vp_assume(C); vp_assume(NOT); return bit(p,POS(i,j,k)); }
#define LAST ox==0 && oy==0 && oz==0 && !(i==ex-1 && j==ey-1 && k==ez-1)
#define FIRST !(i==0 && j==0 && k==0)
ROUND(incplane,i==ex-1&&j<ey-1,LAST,++it,it-=1)
ROUND(incvol,i==ex-1&&j==ey-1,LAST,++it,--it)
ROUND(decplane,i==0&&j>0,FIRST,--it,++it)
ROUND(decvol,i==0&&j==0,FIRST,--it,++it)
#define RWI vp_assume(i<ex-1); WIN; AT
bool prove_mit_postinc(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; RWI; ConstMaskIterator o=it++; return it-o==1; }
bool impl_mit_postold(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; RWI; ConstMaskIterator o=it++; return *o; }
bool spec_mit_postold(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; RWI; return bit(p,POS(i,j,k)); }
bool prove_mit_dist(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; RWI; ConstMaskIterator b0(p,w); ++it; return (it-b0)==1+i+ex*(j+ey*k); }
#define EQO(nm,E) bool prove_mit_cmp##nm(WARGS,int c,int d,unsigned*p){ WPRE; vp_assume(c>=0); vp_assume(d>=0); vp_assume(c<ex); vp_assume(d<ex); WIN; ConstMaskIterator it(p,w), n(p,w); it+=c; n+=d; return (E); }
EQO(eq,(it==n)==(c==d)) EQO(ne,(it!=n)==(c!=d)) EQO(lt,(it<n)==(c<d)) EQO(gt,(it>n)==(c>d)) EQO(le,(it<=n)==(c<=d)) EQO(ge,(it>=n)==(c>=d))
bool impl_mit_idx(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; WIN; ConstMaskIterator it(p,w); return it[i+ex*(j+ey*k)]; }
bool spec_mit_idx(WARGS,IJK,unsigned*p){ WPRE; IJKPRE; return bit(p,POS(i,j,k)); }
bool impl_mit_jx(WARGS,IJK,int a,unsigned*p){ WPRE; IJKPRE; vp_assume(a>=0); vp_assume(a<ex); WIN; AT; it += a-i; return *it; }
bool spec_mit_jx(WARGS,IJK,int a,unsigned*p){ WPRE; IJKPRE; vp_assume(a>=0); vp_assume(a<ex); return bit(p,POS(a,j,k)); }
bool impl_mit_jz(WARGS,IJK,int a,unsigned*p){ WPRE; IJKPRE; vp_assume(a>=0); vp_assume(a<ez); WIN; AT; it -= ex*ey*(k-a); return *it; }
bool spec_mit_jz(WARGS,IJK,int a,unsigned*p){ WPRE; IJKPRE; vp_assume(a>=0); vp_assume(a<ez); return bit(p,POS(i,j,a)); }
// construction from a list of points, then a query
#define GH int m0,int m1,int m2,int p0,int p1,int p2
#define GHP vp_assume(m0>=0&&m1>=0&&m2>=0&&p0>=0&&p1>=0&&p2>=0); vp_assume(ox>=m0); vp_assume(oy>=m1); vp_assume(oz>=m2); vp_assume(ox+ex+p0<=gx); vp_assume(oy+ey+p1<=gy); vp_assume(oz+ez+p2<=gz)
#define QP vp_assume(i>=-m0); vp_assume(j>=-m1); vp_assume(k>=-m2); vp_assume(i<ex+p0); vp_assume(j<ey+p1); vp_assume(k<ez+p2)
bool impl_bits(WARGS,GH,IJK,const std::vector<IntVec>& pts){ WPRE; GHP; QP; WIN; BitField b( pts, w, GhostData(IntVec(m0,m1,m2),IntVec(p0,p1,p2)), LOCAL_RAM, 0 ); return b( IntVec(i,j,k) ); }
bool spec_bits(WARGS,GH,IJK,const std::vector<IntVec>& pts){ WPRE; GHP; QP;
  const unsigned long nw = (gx*gy*gz+31)/32; unsigned* v = Pool<unsigned int>::self().get(LOCAL_RAM,nw);
  for( unsigned long x=0; x<nw; ++x ) v[x]=0;
  for( std::vector<IntVec>::const_iterator q=pts.begin(); q!=pts.end(); ++q ){ if( v==NULL ) throw 1; const int f=POS((*q)[0],(*q)[1],(*q)[2]); v[f/32] = v[f/32] | (1u<<(f%32)); }
  if( v==NULL ) throw 1; const bool r = bit(v,POS(i,j,k)); Pool<unsigned int>::self().put(LOCAL_RAM,v); return r; }
}
