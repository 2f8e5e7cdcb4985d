// P10: the one-dimensional spline against a long-double reference.
#include "akima_ref.h"
#include <nuSQuIDS/tools.h>
using namespace pbt; using nusquids::marray; using nusquids::AkimaSpline;
static void compare(Src& s,Case& c,const AkimaSpline& sp,const std::vector<double>& x,const std::vector<double>& y,bool exact){
  size_t n=x.size(); std::vector<LD> Y(y.begin(),y.end()); AkimaRef r(x,Y,std::vector<LD>(n,0),exact); LD scale=0; for(auto v: y) scale=std::max<LD>(scale,fabsl(v));
  auto ax=sp.getAbscissas(),ay=sp.getOrdinates(); PBT_CHECK(c,ax.size()==n&&ay.size()==n,"the number of knots changed"); for(size_t i=0;i<n;i++) PBT_CHECK(c,ax[i]==x[i]&&ay[i]==y[i],"knot "+str(i)+" is not the one given");
  auto d=sp.getAbscissaDerivatives(); PBT_CHECK(c,d.size()==n,"the number of slopes"); marray<double,1> d2; if(s.boolean()) d2=marray<double,1>({s.below(20)}); 
  sp.getAbscissaDerivatives(d2); PBT_CHECK(c,d2.size()==n,"the number of slopes (into an array)"); for(size_t i=0;i<n;i++) PBT_CHECK(c,same(d[i],d2[i]),"the two ways to get slopes differ");
  for(size_t i=0;i<n;i++){ LD w=r.rightDer(i); LD e=4*r.rightErr(i)+1e-14L*fabsl(w); if(i+1==n){ LD h=x[n-1]-x[n-2],m=fabsl(y[n-1]-y[n-2])/h; e+=1e-14L*(6*m+4*fabsl(r.right[n-2])+2*fabsl(w))+8*r.eright[n-2]; } e+=1e-300L; if(r.rightErr(i)>1e-6L*(1+fabsl(w))) c.label("ill-conditioned slope (not compared)"); else PBT_CHECK(c,fabsl(d[i]-w)<=e,fmt("slope at knot %zu is %.17g, should be %.17Lg",i,d[i],w)); }
  for(size_t i=0;i<n;i++) PBT_CHECK(c,fabsl((LD)sp(x[i])-y[i])<=1e-12L*scale,fmt("the spline misses knot %zu: %.17g instead of %.17g",i,sp(x[i]),y[i]));
  unsigned q=8+s.below(10); double len=x[n-1]-x[0];
  for(unsigned k=0;k<q;k++){ double X; switch(s.below(5)){ case 0: X=x[0]-s.real(0,0.6)*len; c.label("left of the range"); break; case 1: X=x[n-1]+s.real(0,0.6)*len; c.label("right of the range"); break; case 2:{ size_t i=s.below(n); X=std::nextafter(x[i],s.boolean()?1e9:-1e9); break; } default: X=s.real(x[0],x[n-1]); }
    LD v,e,der; size_t sg=r.find(X); r.segment(sg,X,v,e,der); if(e>1e-6L*(scale+fabsl(v))){ c.label("ill-conditioned point (not compared)"); continue; }
    e=4*e+1e-15L*fabsl(v)+1e-300L; double got=sp(X); PBT_CHECK(c,fabsl(got-v)<=e,fmt("value at %.17g (segment %zu) is %.17g, should be %.17Lg +- %.3Lg",X,sg,got,v,e)); }
}
PBT_PROP(value,1){
  bool exact=s.boolean(); size_t n=3+s.size(0,40); auto x=knots(s,n,exact); std::string w; auto y=ordinates(s,x,exact,w); c.log((exact?"exact ":"real ")+w+" n="+str(n)+" x="+strv(x,10)+" y="+strv(y,10)); c.label(w); c.nontrivial(n>3);
  int how=s.below(4); 
  if(how==0){ AkimaSpline sp(x,y); compare(s,c,sp,x,y,exact); }
  else if(how==1){ AkimaSpline sp(x.data(),y.data(),n); AkimaSpline cp(sp); compare(s,c,cp,x,y,exact); }
  else if(how==2){ AkimaSpline sp; sp.initialize(x.data(),y.data(),n); AkimaSpline mv(std::move(sp)); compare(s,c,mv,x,y,exact); }
  else { // re-initialized with other data
    size_t n0=3+s.size(0,40); auto x0=knots(s,n0,false); std::string w0; auto y0=ordinates(s,x0,false,w0); AkimaSpline sp(x0,y0); sp.initialize(x.data(),y.data(),n); c.label("re-initialized"); compare(s,c,sp,x,y,exact); }
}
PBT_PROP(refused,0.3){
  size_t n=3+s.size(0,10); auto x=knots(s,n,true); std::string w; auto y=ordinates(s,x,true,w); unsigned k=s.below(4); std::string what; c.nontrivial();
  auto bad=[&](std::function<void()> f){ PBT_CHECK(c,throws<std::runtime_error>(f),what+" was accepted"); };
  switch(k){
    case 0:{ n=s.below(3); x.resize(n); y.resize(n); what="a spline of "+str(n)+" points"; break; }
    case 1:{ size_t i=s.below(n-1); x[i+1]=x[i]; what="a repeated abscissa"; break; }
    case 2:{ size_t i=s.below(n-1),j=i+1+s.below(n-1-i); std::swap(x[i],x[j]); what="unordered abscissas"; break; }
    default:{ size_t m=3+s.below(12); if(m==n) m++; y.resize(m); what="data of "+str(n)+" and "+str(m)+" points"; } }
  c.log(what+" x="+strv(x));
  bad([&]{ AkimaSpline sp(x,y); }); if(k!=3) bad([&]{ AkimaSpline sp; sp.initialize(x.data(),y.data(),x.size()); });
}
