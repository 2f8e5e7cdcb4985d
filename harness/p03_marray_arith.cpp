// P03: arithmetic on arrays is elementwise, with the documented broadcasting.
#include "marray_model.h"
#include <numeric>
using namespace pbt;

template<typename T> T val(Src& s);
template<> int val<int>(Src& s){ int v=(int)s.below(2001); return (v&1)?-(v+1)/2:v/2; }
template<> long val<long>(Src& s){ return val<int>(s)*1000L+val<int>(s); }
template<> double val<double>(Src& s){ return s.chance(1,3)? s.real(-10,10): s.dyadic(); }
template<> float val<float>(Src& s){ return (float)s.dyadic(); }
// values that may stand in a denominator
template<typename T> T nz(Src& s){ T v=val<T>(s); return v==0?T(3):v; }
// T with nontrivial special members: operations take the initialising path
struct Num{ std::unique_ptr<double> p; Num(double d=0):p(new double(d)){} Num(const Num& o):p(new double(*o.p)){} Num& operator=(const Num& o){ *p=*o.p; return *this; }
  Num& operator+=(const Num& o){ *p+=*o.p; return *this; } Num& operator-=(const Num& o){ *p-=*o.p; return *this; } Num& operator*=(const Num& o){ *p*=*o.p; return *this; } Num& operator/=(const Num& o){ *p/=*o.p; return *this; } };
inline Num operator+(const Num& a,const Num& b){ return *a.p+*b.p; } inline Num operator-(const Num& a,const Num& b){ return *a.p-*b.p; } inline Num operator*(const Num& a,const Num& b){ return *a.p**b.p; } inline Num operator/(const Num& a,const Num& b){ return *a.p / *b.p; }
inline Num operator-(const Num& a){ return -*a.p; }
inline bool operator==(const Num& a,const Num& b){ return *a.p==*b.p; } inline std::ostream& operator<<(std::ostream& o,const Num& n){ return o<<*n.p; }
template<> Num val<Num>(Src& s){ return Num(s.dyadic()); }

template<typename T,unsigned R> marray<T,R> to_array(const Model<T>& m){ marray<T,R> a(m.ext); std::copy(m.v.begin(),m.v.end(),a.begin()); return a; }
template<typename T> void fill(Src& s,Model<T>& m,bool denom){ for(auto& x: m.v) x=denom?nz<T>(s):val<T>(s); }
inline bool bitsame(double a,double b){ return same(a,b); }

// shapes that broadcast together (or, sometimes, do not)
inline void shapes(Src& s,unsigned R1,unsigned R2,Ext& e1,Ext& e2,bool& ok){
  unsigned R=std::max(R1,R2);
  do{ e1.assign(R1,1); e2.assign(R2,1); ok=true; bool bad=s.chance(1,8); unsigned badd=s.below(std::min(R1,R2));
    for(unsigned k=0;k<R;k++){ // k-th dimension from the end
      size_t x= s.chance(1,20)?0: 1+s.below(5);
      if(k<R1) e1[R1-1-k]=x; if(k<R2) e2[R2-1-k]=x;
      if(k<R1 && k<R2){ int w=s.below(5); if(w==1) e1[R1-1-k]=1; else if(w==2) e2[R2-1-k]=1; if(bad&&k==badd){ e1[R1-1-k]=x+2; e2[R2-1-k]=x+3; ok=false; } }
    }
  }while(prod(e1)>400||prod(e2)>400);
}
template<typename T1,typename T2,typename F> auto broadcast(const Model<T1>& a,const Model<T2>& b,F f)->Model<decltype(f(a.v[0],b.v[0]))>{
  typedef decltype(f(a.v[0],b.v[0])) O; size_t R1=a.ext.size(),R2=b.ext.size(),R=std::max(R1,R2); Ext e(R);
  for(size_t k=0;k<R;k++){ size_t x= k<R1?a.ext[R1-1-k]:1, y= k<R2?b.ext[R2-1-k]:1; e[R-1-k]= k>=R1?y: k>=R2?x: x==y?x: x==1?y:x; }
  Model<O> r(e); if(prod(e)){ Ext i(R,0); do{ Ext i1(R1),i2(R2); for(size_t k=0;k<R;k++){ if(k<R1) i1[R1-1-k]= a.ext[R1-1-k]==1?0:i[R-1-k]; if(k<R2) i2[R2-1-k]= b.ext[R2-1-k]==1?0:i[R-1-k]; }
    r.at(i)=f(a.at(i1),b.at(i2)); }while(next_index(i,e)); }
  return r; }

template<typename T1,unsigned R1,typename T2,unsigned R2> void binary(Src& s,Case& c){
  Ext e1,e2; bool ok; shapes(s,R1,R2,e1,e2,ok); int op=s.below(5); bool denom=op==3;
  Model<T1> m1(e1); Model<T2> m2(e2); fill(s,m1,false); fill(s,m2,denom);
  c.log("shapes "+strv(e1)+" "+strv(e2)+" op "+"+-*/f"[op]); c.nontrivial(ok && e1!=e2 && m1.v.size()>1 && m2.v.size()>1);
  marray<T1,R1> a=to_array<T1,R1>(m1); marray<T2,R2> b=to_array<T2,R2>(m2); const marray<T1,R1> ca=a; const marray<T2,R2> cb=b;
  if(!ok) c.label("incompatible shapes"); else if(e1!=e2) c.label("broadcast"); else c.label("same shape");
  int cv=s.below(4); // constness of the operands selects among the overloads
  auto run=[&](auto f,const char* name){ 
    auto want=ok?broadcast(m1,m2,f):broadcast(m1,m1,[&](const T1& x,const T1&){ return f(x,T2(1)); });
    bool threw=false; 
    try{
      typedef decltype(f(m1.v[0],m2.v[0])) O; constexpr unsigned OR=R1>R2?R1:R2;
      auto go=[&]()->marray<O,OR>{
      switch(op){ 
        case 0: return cv==0?a+b:cv==1?ca+b:cv==2?a+cb:ca+cb;
        case 1: return cv==0?a-b:cv==1?ca-b:cv==2?a-cb:ca-cb;
        case 2: return cv==0?a*b:cv==1?ca*b:cv==2?a*cb:ca*cb;
        case 3: return cv==0?a/b:cv==1?ca/b:cv==2?a/cb:ca/cb;
        default: return nusquids::applyOp(ca,cb,f); } };
      marray<O,OR> r=go();
      if(ok) expect_same(c,r,want,name);
    }catch(std::logic_error&){ threw=true; }
    PBT_CHECK(c,threw==!ok,std::string(name)+": arrays of shape "+strv(e1)+" and "+strv(e2)+(threw?" were refused":" were accepted"));
  };
  switch(op){ case 0: run([](const T1& x,const T2& y){ return x+y; },"+"); break; case 1: run([](const T1& x,const T2& y){ return x-y; },"-"); break; case 2: run([](const T1& x,const T2& y){ return x*y; },"*"); break; case 3: run([](const T1& x,const T2& y){ return x/y; },"/"); break;
    default: run([](const T1& x,const T2& y){ return x-y*x; },"applyOp"); }
  expect_same(c,a,m1,"use as a left operand"); expect_same(c,b,m2,"use as a right operand");
}

template<typename T,unsigned R> void assign_forms(Src& s,Case& c){
  Ext e=gen_ext(s,R,200); Model<T> m(e),o(e); int op=s.below(4); fill(s,m,false); fill(s,o,op==3); bool self=s.chance(1,8); if(self){ if(op==3) fill(s,m,true); o=m; }
  marray<T,R> a=to_array<T,R>(m),b=to_array<T,R>(o); c.log("shape "+strv(e)+" op "+"+-*/"[op]+"="+(self?" self":"")); c.nontrivial(m.v.size()>1);
  Model<T> w=broadcast(m,o,[&](const T& x,const T& y){ T r=x; switch(op){ case 0: r+=y; break; case 1: r-=y; break; case 2: r*=y; break; default: r/=y; } return r; });
  const marray<T,R>& rhs=self?a:b;
  if(s.boolean()){ marray<T,R>* p; switch(op){ case 0: p=&(a+=rhs); break; case 1: p=&(a-=rhs); break; case 2: p=&(a*=rhs); break; default: p=&(a/=rhs); } PBT_CHECK(c,p==&a,"the assignment form returns its left operand"); expect_same(c,a,w,"assignment form"); }
  else{ marray<T,R> r; switch(op){ case 0: r=(marray<T,R>(a)+=rhs); break; case 1: r=(marray<T,R>(a)-=rhs); break; case 2: r=(marray<T,R>(a)*=rhs); break; default: r=(marray<T,R>(a)/=rhs); } expect_same(c,r,w,"assignment form on a temporary"); expect_same(c,a,m,"use as an operand"); }
  if(!self) expect_same(c,b,o,"use as a right operand");
}

template<typename T,unsigned R,typename U> void scalars(Src& s,Case& c){
  Ext e=gen_ext(s,R,200); Model<T> m(e); int op=s.below(12); bool dr=op==9||op==10||op==11; 
  for(auto& x: m.v) x= op==10?nz<T>(s):val<T>(s); U f= dr?nz<U>(s):val<U>(s); marray<T,R> a=to_array<T,R>(m);
  c.log("shape "+strv(e)+" scalar "+str(f)+" op "+str(op)); c.nontrivial(m.v.size()>1 && !(f==U(0)) );
  // the scalar forms are defined through the element's own assignment operators
  auto ref=[&](int k){ Model<T> w=m; for(auto& x: w.v) switch(k){ case 0: x+=f; break; case 1: x-=f; break; case 2: x*=f; break; case 3: x/=f; break; case 4: x=-x; x+=f; break; default: x=f/x; } return w; };
  switch(op){
    case 0: expect_same(c,a+f,ref(0),"array+scalar"); break; case 1: expect_same(c,f+a,ref(0),"scalar+array"); break; case 2:{ auto& r=(a+=f); PBT_CHECK(c,&r==&a,"+= returns its left operand"); expect_same(c,a,ref(0),"array+=scalar"); return; }
    case 3: expect_same(c,a-f,ref(1),"array-scalar"); break; case 4: expect_same(c,f-a,ref(4),"scalar-array"); break; case 5:{ auto& r=(a-=f); PBT_CHECK(c,&r==&a,"-= returns its left operand"); expect_same(c,a,ref(1),"array-=scalar"); return; }
    case 6: expect_same(c,a*f,ref(2),"array*scalar"); break; case 7: expect_same(c,f*a,ref(2),"scalar*array"); break; case 8:{ auto& r=(a*=f); PBT_CHECK(c,&r==&a,"*= returns its left operand"); expect_same(c,a,ref(2),"array*=scalar"); return; }
    case 9: expect_same(c,a/f,ref(3),"array/scalar"); break; case 10: expect_same(c,f/a,ref(5),"scalar/array"); break; 
    default: if(s.boolean()){ auto& r=(a/=f); PBT_CHECK(c,&r==&a,"/= returns its left operand"); expect_same(c,a,ref(3),"array/=scalar"); return; }
      switch(s.below(4)){ case 0: expect_same(c,marray<T,R>(marray<T,R>(a)+=f),ref(0),"temporary+=scalar"); break; case 1: expect_same(c,marray<T,R>(marray<T,R>(a)-=f),ref(1),"temporary-=scalar"); break; case 2: expect_same(c,marray<T,R>(marray<T,R>(a)*=f),ref(2),"temporary*=scalar"); break; default: expect_same(c,marray<T,R>(marray<T,R>(a)/=f),ref(3),"temporary/=scalar"); } }
  expect_same(c,a,m,"use as an operand");
}

#define EACH_UNARY(X) X(cos) X(sin) X(tan) X(acos) X(asin) X(atan) X(cosh) X(sinh) X(tanh) X(acosh) X(asinh) X(atanh) X(exp) X(exp2) X(log) X(log2) X(log10) X(sqrt) X(cbrt) X(erf) X(erfc) X(tgamma) X(lgamma) X(ceil) X(floor) X(trunc) X(round) X(abs)
template<unsigned R> void unary(Src& s,Case& c){
  Ext e=gen_ext(s,R,60); Model<double> m(e); bool pos=s.boolean(); for(auto& x: m.v){ x= s.chance(1,3)?s.real(-1,1): s.chance(1,2)?s.real(-20,20):s.dyadic(); if(pos) x=std::fabs(x)+(s.boolean()?1:0); }
  marray<double,R> a=to_array<double,R>(m); const marray<double,R> ca=a; c.log("shape "+strv(e)); c.nontrivial(m.v.size()>1);
  // the reference must be computed by the same library function: only the mapping is under test
  #define ONE(f) { Model<double> w=m; for(auto& x: w.v) x=std::f(x); marray<double,R> r=nusquids::f(ca),r2=nusquids::f(marray<double,R>(ca)); PBT_CHECK(c,r.get_extents()==ca.get_extents()&&r2.get_extents()==ca.get_extents(),"shape after " #f); for(size_t i=0;i<w.v.size();i++) PBT_CHECK(c,close(r.begin()[i],w.v[i],1e-14)&&close(r2.begin()[i],w.v[i],1e-14),#f " of element "+str(i)+" = "+str(m.v[i])+" gave "+str(r.begin()[i])+", should be "+str(w.v[i])); }
  EACH_UNARY(ONE)
  Model<double> w=m; for(auto& x: w.v) x=-x; expect_same(c,-ca,w,"negation"); expect_same(c,-marray<double,R>(ca),w,"negation of a temporary");
  expect_same(c,ca,m,"use as an operand");
}
template<unsigned R1,unsigned R2> void binary_func(Src& s,Case& c){
  Ext e1,e2; bool ok; shapes(s,R1,R2,e1,e2,ok); if(!ok) e2=Ext(R2,1); if(R1==R2&&s.chance(1,3)) e2=Ext(e1.begin(),e1.end());
  Model<double> m1(e1),m2(e2); for(auto& x: m1.v) x=s.real(0.1,5); for(auto& x: m2.v) x=s.real(-3,3); if(R1!=R2) c.label("ranks differ"); if(e1==e2) c.label("same shape");
  marray<double,R1> a=to_array<double,R1>(m1); marray<double,R2> b=to_array<double,R2>(m2); c.log("shapes "+strv(e1)+" "+strv(e2)); c.nontrivial(m1.v.size()>1&&m2.v.size()>1);
  #define TWO(f) { auto w=broadcast(m1,m2,[](double x,double y){ return std::f(x,y); }); auto r=nusquids::f(a,b); PBT_CHECK(c,ext_of(r.get_extents())==w.ext,"shape of " #f); for(size_t i=0;i<w.v.size();i++) PBT_CHECK(c,close(r.begin()[i],w.v[i],1e-14),#f " element "+str(i)); }
  TWO(atan2) TWO(pow) TWO(hypot)
}
PBT_PROP(int2_int2,1){ binary<int,2,int,2>(s,c); }
PBT_PROP(double1_double3,1){ binary<double,1,double,3>(s,c); }
PBT_PROP(double3_double2,1){ binary<double,3,double,2>(s,c); }
PBT_PROP(double3_double3,1){ binary<double,3,double,3>(s,c); }
PBT_PROP(int2_double3,1){ binary<int,2,double,3>(s,c); }
PBT_PROP(double2_int2,1){ binary<double,2,int,2>(s,c); }
PBT_PROP(num2_num2,1){ binary<Num,2,Num,2>(s,c); }
PBT_PROP(double1_double1,0.5){ binary<double,1,double,1>(s,c); }
PBT_PROP(assign_double2,1){ assign_forms<double,2>(s,c); }
PBT_PROP(assign_int3,1){ assign_forms<int,3>(s,c); }
PBT_PROP(assign_num1,0.5){ assign_forms<Num,1>(s,c); }
PBT_PROP(scalar_double2,1){ scalars<double,2,double>(s,c); }
PBT_PROP(scalar_double3_int,1){ scalars<double,3,int>(s,c); }
PBT_PROP(scalar_int2,1){ scalars<int,2,int>(s,c); }
PBT_PROP(scalar_long1,0.5){ scalars<long,1,long>(s,c); }
PBT_PROP(unary2,0.3){ unary<2>(s,c); }
PBT_PROP(unary3,0.3){ unary<3>(s,c); }
PBT_PROP(func22,0.5){ binary_func<2,2>(s,c); }
PBT_PROP(func12,0.5){ binary_func<1,2>(s,c); }
PBT_PROP(func32,0.5){ binary_func<3,2>(s,c); }
