// O01: the operator database. The containers it uses are replaced by plain
// array models with the documented behaviour.
#include <new>
#include <cstddef>
#include <typeinfo>
#include <utility>
#include <map>
#include <list>
#include <string>
#include <sstream>
#include <stdexcept>
namespace std{
// keys are inserted in increasing order by the code under analysis; a present key is not replaced
template<class T> class map<int,T*>{ public: typedef std::pair<int,T*> value_type; typedef value_type* iterator; typedef const value_type* const_iterator; typedef size_t size_type; typedef int key_type; typedef T* mapped_type; private: value_type b_[4]; int n_;
 public: map():n_(0){} iterator begin(){ return b_; } iterator end(){ return b_+n_; } const_iterator begin() const{ return b_; } const_iterator end() const{ return b_+n_; } const_iterator cbegin() const{ return b_; } const_iterator cend() const{ return b_+n_; }
  size_t size() const{ return n_; } bool empty() const{ return n_==0; } void clear(){ n_=0; }
  iterator find( const int k ){ for( int i=0; i<n_; ++i ) if( b_[i].first==k ) return b_+i; return end(); } const_iterator find( const int k ) const{ for( int i=0; i<n_; ++i ) if( b_[i].first==k ) return b_+i; return end(); }
  size_t count( const int k ) const{ return find(k)!=end(); }
  iterator lower_bound( const int k ){ iterator r=end(); for( int i=0; i<n_; ++i ) if( b_[i].first>=k && r==end() ) r=b_+i; return r; } const_iterator lower_bound( const int k ) const{ return const_cast<map*>(this)->lower_bound(k); } iterator upper_bound( const int k ){ iterator r=end(); for( int i=0; i<n_; ++i ) if( b_[i].first>k && r==end() ) r=b_+i; return r; } const_iterator upper_bound( const int k ) const{ return const_cast<map*>(this)->upper_bound(k); }
  template<class P> std::pair<iterator,bool> insert( const P& p ){ iterator i=find(p.first); if( i!=end() ) return std::pair<iterator,bool>(i,false); b_[n_].first=p.first; b_[n_].second=p.second; ++n_; return std::pair<iterator,bool>(b_+n_-1,true); }
  template<class U> std::pair<iterator,bool> emplace( int k, U p ){ return insert( std::pair<int,T*>(k,p) ); }
  T*& operator[]( const int k ){ iterator i=find(k); if( i!=end() ) return i->second; b_[n_].first=k; b_[n_].second=NULL; ++n_; return b_[n_-1].second; }
  T* const& at( const int k ) const{ return find(k)->second; }
 private: map( const map& ); map& operator=( const map& ); };
}
// values of any type behind a type tag
#define BOOST_ANY_INCLUDED
#define BOOST_ANYS_ANY_HPP_INCLUDED
#define BOOST_SMART_PTR_SHARED_PTR_HPP_INCLUDED
#define BOOST_SHARED_PTR_HPP_INCLUDED
namespace boost{
struct typeref{ const std::type_info* t; }; inline bool operator==( const std::type_info& a, const typeref b ){ return &a==b.t; } inline bool operator==( const typeref b, const std::type_info& a ){ return &a==b.t; } inline bool operator!=( const std::type_info& a, const typeref b ){ return &a!=b.t; } inline bool operator!=( const typeref b, const std::type_info& a ){ return &a!=b.t; }
struct bad_any_cast : std::bad_cast {};
class any{ public: const std::type_info* t_; void* p_; int k_; // k_: which of the stored types, so that no call goes through a pointer
  any():t_(NULL),p_(NULL),k_(0){} template<class T> any( const T& v ); ~any(); bool empty() const{ return p_==NULL; } typeref type() const{ typeref r={ t_ }; return r; } private: any( const any& ); any& operator=( const any& ); };
template<class T> T any_cast( const any& a ){ if( a.t_!=&typeid(T) ) throw bad_any_cast(); return *static_cast<T*>(a.p_); }
template<class T> T* any_cast( any* a ){ return a->t_==&typeid(T) ? static_cast<T*>(a->p_) : NULL; } template<class T> const T* any_cast( const any* a ){ return a->t_==&typeid(T) ? static_cast<const T*>(a->p_) : NULL; }
template<class T> class shared_ptr{ T* p_; int* c_; void rel(){ if( c_ && --*c_==0 ){ delete p_; delete c_; } } public: typedef T element_type;
  shared_ptr():p_(NULL),c_(NULL){} explicit shared_ptr( T* p ):p_(p),c_(new int(1)){} shared_ptr( const shared_ptr& o ):p_(o.p_),c_(o.c_){ if(c_) ++*c_; } shared_ptr& operator=( const shared_ptr& o ){ if(o.c_) ++*o.c_; rel(); p_=o.p_; c_=o.c_; return *this; } ~shared_ptr(){ rel(); }
  T* get() const{ return p_; } T* operator->() const{ return p_; } T& operator*() const{ return *p_; } operator bool() const{ return p_!=NULL; } void reset(){ rel(); p_=NULL; c_=NULL; } void reset( T* p ){ rel(); p_=p; c_=new int(1); } };
template<class T> shared_ptr<T> make_shared(){ return shared_ptr<T>( new T() ); }
}
namespace std{
template<> class list<boost::any>{ boost::any* b_[4]; int n_; 
 public: struct const_iterator{ boost::any* const* i; const_iterator& operator++(){ ++i; return *this; } const_iterator operator++(int){ const_iterator o=*this; ++i; return o; } bool operator==( const const_iterator& o ) const{ return i==o.i; } bool operator!=( const const_iterator& o ) const{ return i!=o.i; } const boost::any& operator*() const{ return **i; } const boost::any* operator->() const{ return *i; } };
  struct iterator{ boost::any** i; iterator& operator++(){ ++i; return *this; } iterator operator++(int){ iterator o=*this; ++i; return o; } bool operator==( const iterator& o ) const{ return i==o.i; } bool operator!=( const iterator& o ) const{ return i!=o.i; } boost::any& operator*() const{ return **i; } boost::any* operator->() const{ return *i; } operator const_iterator() const{ const_iterator r={ i }; return r; } };
  list():n_(0){} ~list(){ clear(); } iterator begin(){ iterator r={ b_ }; return r; } iterator end(){ iterator r={ b_+n_ }; return r; } const_iterator begin() const{ const_iterator r={ b_ }; return r; } const_iterator end() const{ const_iterator r={ b_+n_ }; return r; }
  template<class T> void push_back( const T& v ){ b_[n_++]=new boost::any(v); } template<class T> void push_front( const T& v ){ for( int i=n_; i>0; --i ) b_[i]=b_[i-1]; ++n_; b_[0]=new boost::any(v); } size_t size() const{ return n_; } bool empty() const{ return n_==0; } boost::any& back(){ return *b_[n_-1]; }
  void clear(){ for( int i=0; i<n_; ++i ) delete b_[i]; n_=0; }
 private: list( const list& ); list& operator=( const list& ); };
}
#include "vp.h"
#include <spatialops/SpatialOpsConfigure.h>
#define class struct
#include <spatialops/OperatorDatabase.h>
#undef class
using namespace SpatialOps;
// two operator types; their destruction is counted
struct Parts{ int*g; double c; };
template<int K> struct Op{ typedef Parts Assembler; int*gone; double c; explicit Op(int*g):gone(g),c(0){} explicit Op(const Parts&p):gone(p.g),c(p.c){} ~Op(){ ++gone[K]; } };
typedef Op<0> A; typedef Op<1> B;
namespace boost{
template<class T> struct Kind; template<> struct Kind< shared_ptr<OperatorDatabase::OpStore<A> > >{ enum{ k=1 }; }; template<> struct Kind< shared_ptr<OperatorDatabase::OpStore<B> > >{ enum{ k=2 }; };
template<class T> inline any::any( const T& v ) : t_(&typeid(T)), p_(new T(v)), k_(Kind<T>::k) {}
inline any::~any(){ if( k_==1 ) delete static_cast<shared_ptr<OperatorDatabase::OpStore<A> >*>(p_); if( k_==2 ) delete static_cast<shared_ptr<OperatorDatabase::OpStore<B> >*>(p_); }
}
VP_ANCHOR(ret,"spatialops/OperatorDatabase.h register_new_operator, retrieve_operator") VP_ANCHOR(unk,"spatialops/OperatorDatabase.h OpStore::get") VP_ANCHOR(own,"spatialops/OperatorDatabase.h OpStore::~OpStore, empty_database")
#define HIT(k,e,w) o[k]=( e )==( w )
extern "C" {
// every identifier handed out retrieves its own operator
void impl_ret_ids(int*g,bool*o){ OperatorDatabase db; A*a0=new A(g); const int i0=db.register_new_operator(a0); B*b0=new B(g); const int j0=db.register_new_operator(b0); A*a1=new A(g); const int i1=db.register_new_operator(a1); A*a2=new A(g); const int i2=db.register_new_operator(a2); B*b1=new B(g); const int j1=db.register_new_operator(b1);
  HIT(0,db.retrieve_operator<A>(i0),a0); HIT(1,db.retrieve_operator<A>(i1),a1); HIT(2,db.retrieve_operator<A>(i2),a2); HIT(3,db.retrieve_operator<B>(j0),b0); HIT(4,db.retrieve_operator<B>(j1),b1); o[5]= i0!=i1 && i1!=i2 && i0!=i2 && j0!=j1; o[6]= i0!=-1 && i1!=-1 && i2!=-1 && j0!=-1 && j1!=-1; }
void spec_ret_ids(int*g,bool*o){ for(int i=0;i<4;++i) o[i]=true; o[4]=true; o[5]=true; o[6]=true; g[0]+=3; g[1]+=2; }
void bad_ret_ids(int*g,bool*o){ for(int i=0;i<4;++i) o[i]=true; o[4]=true; o[5]=true; o[6]=true; g[0]+=3; g[1]+=3; }
// without an identifier: the only operator of its type
void impl_ret_one(int*g,bool*o){ OperatorDatabase db; A*a0=new A(g); const int i0=db.register_new_operator(a0); B*b0=new B(g); db.register_new_operator(b0); HIT(0,db.retrieve_operator<A>(),a0); HIT(1,db.retrieve_operator<B>(),b0); HIT(2,db.retrieve_operator<A>(i0),a0); const OperatorDatabase& c=db; HIT(3,c.retrieve_operator<B>(-1),b0); }
void spec_ret_one(int*g,bool*o){ for(int i=0;i<4;++i) o[i]=true; ++g[0]; ++g[1]; }
// refusals: nothing of this type, several without an identifier, an identifier never handed out
void impl_unk_none(int*g,bool*o){ OperatorDatabase db; bool t=false; try{ db.retrieve_operator<A>(); }catch( std::runtime_error& ){ t=true; } o[0]=t; }
void spec_unk_none(int*g,bool*o){ o[0]=true; }
void impl_unk_type(int*g,int id,bool*o){ OperatorDatabase db; db.register_new_operator( new A(g) ); bool t=false; try{ db.retrieve_operator<B>(id); }catch( std::runtime_error& ){ t=true; } o[0]=t; }
void spec_unk_type(int*g,int id,bool*o){ o[0]=true; ++g[0]; }
void impl_unk_many(int*g,bool*o){ OperatorDatabase db; db.register_new_operator( new A(g) ); db.register_new_operator( new A(g) ); bool t=false; try{ db.retrieve_operator<A>(); }catch( std::runtime_error& ){ t=true; } o[0]=t; }
void spec_unk_many(int*g,bool*o){ o[0]=true; g[0]+=2; }
void impl_unk_id(int*g,int id,bool*o){ OperatorDatabase db; const int i0=db.register_new_operator( new A(g) ), i1=db.register_new_operator( new A(g) ); db.register_new_operator( new B(g) ); vp_assume( id!=i0 ); vp_assume( id!=i1 ); bool t=false; try{ db.retrieve_operator<A>(id); }catch( std::runtime_error& ){ t=true; } o[0]=t; }
void spec_unk_id(int*g,int id,bool*o){ o[0]=true; g[0]+=2; ++g[1]; }
void impl_unk_one(int*g,int id,bool*o){ OperatorDatabase db; const int i0=db.register_new_operator( new A(g) ); vp_assume( id!=i0 ); vp_assume( id!=-1 ); bool t=false; try{ db.retrieve_operator<A>(id); }catch( std::runtime_error& ){ t=true; } o[0]=t; }
void spec_unk_one(int*g,int id,bool*o){ o[0]=true; ++g[0]; }
// an operator built from its parts is registered like any other
void impl_ret_parts(int*g,double c,bool*o){ OperatorDatabase db; A*a0=new A(g); const int i0=db.register_new_operator(a0); Parts p={ g, c }; const int i1=db.register_new_operator<A>(p); HIT(0,db.retrieve_operator<A>(i0),a0); o[1]=db.retrieve_operator<A>(i1)->c==c; o[2]=i0!=i1; }
void spec_ret_parts(int*g,double c,bool*o){ o[0]=o[1]=o[2]=true; g[0]+=2; }
// operators are deleted once: when the database is emptied or goes away
void impl_own_empty(int*g,bool*o){ OperatorDatabase db; db.register_new_operator( new A(g) ); db.register_new_operator( new A(g) ); db.register_new_operator( new B(g) ); db.empty_database(); o[0]=g[0]==2; o[1]=g[1]==1; bool t=false; try{ db.retrieve_operator<A>(1); }catch( std::runtime_error& ){ t=true; } o[2]=t; A*a=new A(g); db.register_new_operator( a ); HIT(3,db.retrieve_operator<A>(),a); }
void spec_own_empty(int*g,bool*o){ o[0]=g[0]+2==2; o[1]=g[1]+1==1; o[2]=true; o[3]=true; g[0]+=3; ++g[1]; }
}
