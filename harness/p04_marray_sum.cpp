// P04: sums over all elements and along one dimension.
#include "marray_model.h"
using namespace pbt;
template<typename T> T val(Src& s);
template<> int val<int>(Src& s){ int v=(int)s.below(20001); return (v&1)?-(v+1)/2:v/2; }
template<> unsigned long val<unsigned long>(Src& s){ return s.chance(1,4)? s.below(~0ULL): s.below(1000); }
// multiples of 1/8 of bounded size: every order of addition gives the same double
template<> double val<double>(Src& s){ return s.dyadic(100000,3); }

template<typename T,unsigned R> struct Sums{ static void go(Case& c,const marray<T,R>& a,const Model<T>& m,unsigned d){
  Ext e; for(unsigned k=0;k<R;k++) if(k!=d) e.push_back(m.ext[k]); Model<T> w(e,T(0)); if(m.v.size()){ Ext i(R,0); do{ Ext j; for(unsigned k=0;k<R;k++) if(k!=d) j.push_back(i[k]); w.at(j)+=m.at(i); }while(next_index(i,m.ext)); }
  marray<T,R-1> r=a.sum(d); expect_same(c,r,w,("sum over dimension "+str(d)).c_str()); } };
template<typename T> struct Sums<T,1>{ static void go(Case&,const marray<T,1>&,const Model<T>&,unsigned){} };

template<typename T,unsigned R> void sums(Src& s,Case& c){
  Ext e=gen_ext(s,R,400); Model<T> m(e); for(auto& x: m.v) x=val<T>(s); marray<T,R> a(e); std::copy(m.v.begin(),m.v.end(),a.begin());
  size_t big=0; for(auto x: e) big+=x>1; c.nontrivial(big>=std::min<size_t>(R,2)); c.log("shape "+strv(e)+" values "+strv(m.v,12));
  if(m.v.empty()) c.label("empty");
  T tot(0); for(const auto& x: m.v) tot+=x; PBT_CHECK(c,a.sum()==tot,"total is "+str(a.sum())+", should be "+str(tot));
  for(unsigned d=0; d<R; d++){
    Sums<T,R>::go(c,a,m,d);
    Ext k=e; k[d]=1; Model<T> w(k,T(0)); if(m.v.size()){ Ext i(R,0); do{ Ext j=i; j[d]=0; w.at(j)+=m.at(i); }while(next_index(i,e)); }
    expect_same(c,a.sum_same_rank(d),w,("rank-preserving sum over dimension "+str(d)).c_str());
    if(e[d]){ PBT_CHECK(c,a.sum_same_rank(d).sum()==tot,"sum of partial sums"); }
  }
  expect_same(c,a,m,"summing");
}
PBT_PROP(int1,0.5){ sums<int,1>(s,c); }
PBT_PROP(int2,1){ sums<int,2>(s,c); }
PBT_PROP(double2,1){ sums<double,2>(s,c); }
PBT_PROP(double3,1){ sums<double,3>(s,c); }
PBT_PROP(ulong4,1){ sums<unsigned long,4>(s,c); }
PBT_PROP(double5,1){ sums<double,5>(s,c); }
