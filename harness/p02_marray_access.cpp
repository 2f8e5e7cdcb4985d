// P02: every way of naming an element reaches the same, row-major, element.
#include "marray_model.h"
using namespace pbt;

template<typename T,unsigned R> struct Chain;
template<typename T> struct Chain<T,1>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[0]){ return a[i[0]]; } };
template<typename T> struct Chain<T,2>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[0][0]){ return a[i[0]][i[1]]; } };
template<typename T> struct Chain<T,3>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[0][0][0]){ return a[i[0]][i[1]][i[2]]; } };
template<typename T> struct Chain<T,4>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[0][0][0][0]){ return a[i[0]][i[1]][i[2]][i[3]]; } };
template<typename T> struct Chain<T,5>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[0][0][0][0][0]){ return a[i[0]][i[1]][i[2]][i[3]][i[4]]; } };
template<unsigned R> struct List;
template<> struct List<1>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[{0}]){ return a[{i[0]}]; } };
template<> struct List<2>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[{0,0}]){ return a[{i[0],i[1]}]; } };
template<> struct List<3>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[{0,0,0}]){ return a[{i[0],i[1],i[2]}]; } };
template<> struct List<4>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[{0,0,0,0}]){ return a[{i[0],i[1],i[2],i[3]}]; } };
template<> struct List<5>{ template<typename A> static auto get(A& a,const Ext& i)->decltype(a[{0,0,0,0,0}]){ return a[{i[0],i[1],i[2],i[3],i[4]}]; } };

template<typename T> T mk(int64_t k){ return (T)k; }
template<> std::string mk<std::string>(int64_t k){ return "element number "+std::to_string(k); }

template<typename T,unsigned R> marray<T,R> build(Src& s,Case& c,Model<T>& m){
  Ext e=gen_ext(s,R,300); 
  if(s.chance(1,10)){ std::fill(e.begin(),e.end(),1); e[s.below(R)]=1+s.below(300); }
  m=Model<T>(e); for(size_t i=0;i<m.v.size();i++) m.v[i]=mk<T>(i+1);
  c.log("shape "+strv(e));
  marray<T,R> a(e); std::copy(m.v.begin(),m.v.end(),a.begin());
  // optionally reach the same state through reshape or a grown and shrunk dimension
  int how=s.below(4);
  if(how==1){ Ext o(R,1); o[s.below(R)]=prod(e); marray<T,R> b(o); std::copy(m.v.begin(),m.v.end(),b.begin()); b.reshape(e); c.log("via reshape"); return b; }
  if(how==2){ size_t d=s.below(R); a.insert(d,s.below(e[d]+1),0); a.insert(d,e[d],2); a.erase(d,e[d],2); c.log("via insert+erase"); }
  return a;
}

template<typename T,unsigned R> void access(Src& s,Case& c){
  Model<T> m; marray<T,R> a=build<T,R>(s,c,m); const marray<T,R>& ca=a; const Ext& e=m.ext; size_t n=m.v.size();
  size_t big=0; for(auto x: e) big+=x>1; c.nontrivial(n>0 && big>=std::min<size_t>(R,2));
  if(n){
    Ext i(R,0); size_t k=0;
    do{
      PBT_CHECK(c,flat(i,e)==k,"harness: odometer");
      std::string w="element "+strv(i)+" of an array of shape "+strv(e)+" ";
      PBT_CHECK(c,(Chain<T,R>::get(a,i)==m.v[k]),w+"by chained subscripts");
      PBT_CHECK(c,(Chain<T,R>::get(ca,i)==m.v[k]),w+"by chained subscripts (const)");
      PBT_CHECK(c,(&Chain<T,R>::get(a,i)==&*(a.begin()+k)),w+": chained subscripts do not refer to the stored element");
      PBT_CHECK(c,List<R>::get(a,i)==m.v[k],w+"by index list");
      PBT_CHECK(c,List<R>::get(ca,i)==m.v[k],w+"by index list (const)");
      PBT_CHECK(c,a[i]==m.v[k],w+"by index vector"); PBT_CHECK(c,ca[i]==m.v[k],w+"by index vector (const)");
      PBT_CHECK(c,a[arr<R>(i)]==m.v[k],w+"by index array"); PBT_CHECK(c,ca[arr<R>(i)]==m.v[k],w+"by index array (const)");
      PBT_CHECK(c,a.get_data()[k]==m.v[k],w+"through the data pointer");
      for(unsigned d=0; d<R; d++){
        PBT_CHECK(c,a.getCoordinate(a.begin()+k,d)==i[d],w+": coordinate "+str(d)+" of the iterator to it is "+str(a.getCoordinate(a.begin()+k,d)));
      }
      k++;
    }while(next_index(i,e));
    PBT_CHECK(c,k==n,"number of elements");
    PBT_CHECK(c,a.front()==m.v.front() && ca.front()==m.v.front(),"front()");
    PBT_CHECK(c,a.back()==m.v.back(),"back()"); PBT_CHECK(c,ca.back()==m.v.back(),"back() of a const array");
    // writes through each way are seen through the others
    for(int r=0;r<4;r++){
      Ext j(R); for(unsigned d=0; d<R; d++) j[d]=s.below(e[d]); size_t f=flat(j,e); T v=mk<T>(1000+r); m.v[f]=v;
      switch(s.below(6)){ case 0: Chain<T,R>::get(a,j)=v; break; case 1: List<R>::get(a,j)=v; break; case 2: a[j]=v; break; case 3: a[arr<R>(j)]=v; break; case 4: a.begin()[f]=v; break; case 5: *(a.rbegin()+(n-1-f))=v; break; }
      expect_same(c,a,m,"a write");
    }
    a.front()=mk<T>(5001); m.v.front()=mk<T>(5001); a.back()=mk<T>(5002); m.v.back()=mk<T>(5002); expect_same(c,a,m,"writes through front() and back()");
  }
  // iteration in both directions
  std::vector<T> f,r; for(auto it=a.begin(); it!=a.end(); ++it) f.push_back(*it); PBT_CHECK(c,f==m.v,"forward iteration");
  f.clear(); for(auto it=ca.begin(); it!=ca.end(); it++) f.push_back(*it); PBT_CHECK(c,f==m.v,"forward iteration (const)");
  f.clear(); for(auto it=a.cbegin(); it<a.cend(); it+=1) f.push_back(*it); PBT_CHECK(c,f==m.v,"forward iteration (cbegin)");
  if(n){
    std::vector<T> rev(m.v.rbegin(),m.v.rend());
    for(auto it=a.rbegin(); it!=a.rend(); ++it) r.push_back(*it); PBT_CHECK(c,r==rev,"reverse iteration");
    r.clear(); for(auto it=ca.rbegin(); it!=ca.rend(); it++) r.push_back(*it); PBT_CHECK(c,r==rev,"reverse iteration (const)");
    r.clear(); for(auto it=a.crbegin(); it<a.crend(); it+=1) r.push_back(*it); PBT_CHECK(c,r==rev,"reverse iteration (crbegin)");
  }
}

// random walks of an iterator, compared with an integer position
template<typename It,typename Get> void walk(Src& s,Case& c,It b,It e,size_t n,Get at){
  It it=b; int64_t p=0; unsigned steps=s.size(1,20);
  PBT_CHECK(c,(size_t)(e-b)==n,"distance from begin to end");
  for(unsigned k=0;k<steps;k++){
    int64_t t=s.range(0,n); int64_t d=t-p; It o=b+t;
    switch(s.below(8)){
      case 0: if(p<(int64_t)n){ It& q=++it; PBT_CHECK(c,&q==&it,"++it returns the iterator"); p++; } break;
      case 1: if(p<(int64_t)n){ It q=it++; PBT_CHECK(c,q-b==p,"it++ returns the old position"); p++; } break;
      case 2: if(p>0){ It& q=--it; PBT_CHECK(c,&q==&it,"--it returns the iterator"); p--; } break;
      case 3: if(p>0){ It q=it--; PBT_CHECK(c,q-b==p,"it-- returns the old position"); p--; } break;
      case 4:{ It& q=(it+=d); PBT_CHECK(c,&q==&it,"it+=n returns the iterator"); p=t; break; }
      case 5:{ It& q=(it-=-d); PBT_CHECK(c,&q==&it,"it-=n returns the iterator"); p=t; break; }
      case 6: if(s.boolean()) it=d+it; else if(s.boolean()) it=it-(-d); else it=it+d; p=t; break;
      case 7: if(t<(int64_t)n) PBT_CHECK(c,it[d]==at(t),"it[n]"); break;
    }
    PBT_CHECK(c,it-b==p,"position after moving"); PBT_CHECK(c,e-it==(int64_t)n-p,"distance to the end");
    if(p<(int64_t)n) PBT_CHECK(c,*it==at(p),"dereference at "+str(p));
    PBT_CHECK(c,(it==o)==(p==t) && (it!=o)==(p!=t) && (it<o)==(p<t) && (it>o)==(p>t) && (it<=o)==(p<=t) && (it>=o)==(p>=t),"comparison of positions "+str(p)+" and "+str(t));
    PBT_CHECK(c,o-it==t-p && it-o==p-t,"distance between positions "+str(p)+" and "+str(t));
  }
}
template<typename T,unsigned R> void walks(Src& s,Case& c){
  Model<T> m; marray<T,R> a=build<T,R>(s,c,m); const marray<T,R>& ca=a; size_t n=m.v.size(); c.nontrivial(n>2);
  auto fw=[&](size_t i)->const T&{ return m.v[i]; }; auto bw=[&](size_t i)->const T&{ return m.v[n-1-i]; };
  switch(s.below(4)){
    case 0: walk(s,c,a.begin(),a.end(),n,fw); break;
    case 1: walk(s,c,ca.begin(),ca.end(),n,fw); break;
    case 2: if(n) walk(s,c,a.rbegin(),a.rend(),n,bw); break;
    default: if(n) walk(s,c,ca.rbegin(),ca.rend(),n,bw);
  }
  if(n){ // algorithms over the iterators
    std::sort(a.begin(),a.end()); std::vector<T> v=m.v; std::sort(v.begin(),v.end()); PBT_CHECK(c,std::equal(v.begin(),v.end(),a.begin()),"std::sort over the array");
    std::reverse(a.begin(),a.end()); std::reverse(v.begin(),v.end()); PBT_CHECK(c,std::equal(v.begin(),v.end(),a.begin()),"std::reverse over the array");
    std::sort(a.rbegin(),a.rend()); PBT_CHECK(c,std::equal(v.begin(),v.end(),a.begin()),"std::sort over the reversed array");
  }
}
PBT_PROP(int_rank1,1){ access<int,1>(s,c); }
PBT_PROP(double_rank2,1){ access<double,2>(s,c); }
PBT_PROP(int_rank3,1){ access<int,3>(s,c); }
PBT_PROP(string_rank3,0.5){ access<std::string,3>(s,c); }
PBT_PROP(int_rank4,1){ access<int,4>(s,c); }
PBT_PROP(double_rank5,1){ access<double,5>(s,c); }
PBT_PROP(iterators_int2,1){ walks<int,2>(s,c); }
PBT_PROP(iterators_string3,1){ walks<std::string,3>(s,c); }
