// A naive model of a rectangular multidimensional array, and glue to compare it
// with nusquids::marray.
#ifndef MARRAY_MODEL_H
#define MARRAY_MODEL_H
#include "pbt.h"
#include <nuSQuIDS/marray.h>
#include <memory>
#include <list>
using nusquids::marray;
typedef std::vector<size_t> Ext;

inline size_t prod(const Ext& e){ size_t p=1; for(size_t x: e) p*=x; return p; }
// odometer over all multi-indices, last index fastest; returns false when exhausted
inline bool next_index(Ext& i,const Ext& e){ for(size_t d=e.size(); d-->0;){ if(++i[d]<e[d]) return true; i[d]=0; } return false; }
inline size_t flat(const Ext& i,const Ext& e){ size_t o=0; for(size_t d=0; d<e.size(); d++) o=o*e[d]+i[d]; return o; }

template<typename T> struct Model{
  Ext ext; std::vector<T> v;
  Model(){}
  explicit Model(const Ext& e,const T& x=T()):ext(e),v(prod(e),x){}
  const T& at(const Ext& i) const{ return v[flat(i,ext)]; }
  T& at(const Ext& i){ return v[flat(i,ext)]; }
  // num copies of val before position pos of dimension dim
  void insert(size_t dim,size_t pos,size_t num,const T& val){
    Ext ne=ext; ne[dim]+=num; Model n(ne,val);
    if(prod(ne)){ Ext i(ne.size(),0); do{ if(i[dim]<pos) n.at(i)=at(i); else if(i[dim]>=pos+num){ Ext j=i; j[dim]-=num; n.at(i)=at(j); } }while(next_index(i,ne)); }
    *this=n;
  }
  void erase(size_t dim,size_t pos,size_t num){
    Ext ne=ext; ne[dim]-=num; Model n(ne);
    if(prod(ne)){ Ext i(ne.size(),0); do{ Ext j=i; if(j[dim]>=pos) j[dim]+=num; n.at(i)=at(j); }while(next_index(i,ne)); }
    *this=n;
  }
  void resize(size_t dim,size_t size){ if(size<ext[dim]) erase(dim,size,ext[dim]-size); else if(size>ext[dim]) insert(dim,ext[dim],size-ext[dim],T()); }
};

template<unsigned R> std::array<size_t,R> arr(const Ext& e){ std::array<size_t,R> a; std::copy(e.begin(),e.end(),a.begin()); return a; }
template<size_t R> Ext ext_of(const std::array<size_t,R>& a){ return Ext(a.begin(),a.end()); }

// extents whose product stays small; zeros and ones are common
inline Ext gen_ext(pbt::Src& s,unsigned R,size_t cap=200){
  Ext e(R); 
  for(;;){ for(auto& x: e) x= s.chance(1,12)?0: s.chance(1,5)?1: 1+s.below(R==1?12:5); 
    if(prod(e)<=cap) return e; }
}
template<unsigned R> struct ByList;
template<> struct ByList<1>{ template<typename A,typename... X> static A* make(const Ext& e,X&&... x){ return new A({e[0]},std::forward<X>(x)...); } };
template<> struct ByList<2>{ template<typename A,typename... X> static A* make(const Ext& e,X&&... x){ return new A({e[0],e[1]},std::forward<X>(x)...); } };
template<> struct ByList<3>{ template<typename A,typename... X> static A* make(const Ext& e,X&&... x){ return new A({e[0],e[1],e[2]},std::forward<X>(x)...); } };
template<> struct ByList<4>{ template<typename A,typename... X> static A* make(const Ext& e,X&&... x){ return new A({e[0],e[1],e[2],e[3]},std::forward<X>(x)...); } };

template<typename T,unsigned R,typename A> void expect_same(pbt::Case& c,const marray<T,R,A>& a,const Model<T>& m,const char* where){
  std::string w=std::string(" after ")+where;
  PBT_CHECK(c,a.rank()==R,"rank"+w);
  PBT_CHECK(c,a.get_extents()==arr<R>(m.ext),"extents are "+pbt::strv(a.get_extents())+" but should be "+pbt::strv(m.ext)+w);
  for(unsigned d=0; d<R; d++) PBT_CHECK(c,a.extent(d)==m.ext[d],"extent(d)"+w);
  PBT_CHECK(c,a.size()==m.v.size(),"size() is "+pbt::str(a.size())+" but should be "+pbt::str(m.v.size())+w);
  PBT_CHECK(c,a.empty()==m.v.empty(),"empty()"+w);
  size_t k=0; for(const auto& x: a){ PBT_CHECK(c,k<m.v.size() && x==m.v[k],"element "+pbt::str(k)+" (iteration order) is "+pbt::str(x)+" but should be "+(k<m.v.size()?pbt::str(m.v[k]):"absent")+w+", shape "+pbt::strv(m.ext)); k++; }
  PBT_CHECK(c,k==m.v.size(),"number of elements iterated"+w);
}
#endif
