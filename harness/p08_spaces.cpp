// P08: sample spaces have the requested size, exact ends, equal steps.
#include "util.h"
#include <nuSQuIDS/tools.h>
using namespace pbt; using nusquids::marray;
template<bool LOG> void space(Src& s,Case& c){
  unsigned n; switch(s.below(8)){ case 0: n=s.below(3); break; case 1: n=2+s.below(2); break; case 2: n=s.range(2,20000); break; default: n=s.range(2,300); }
  double a,b;
  if(LOG){ a=s.logreal(1e-12,1e20); b= s.boolean()? s.logreal(1e-12,1e20): a*s.pick({10.0,1e3,1e6,1.0,2.0,1.0001,1e-3,1e9}); if(s.chance(1,3)){ a=std::pow(10.0,s.range(-3,12)); b=std::pow(10.0,s.range(-3,18)); } }
  else { a=s.boolean()?s.real(-1e3,1e3):s.dyadic(); b=s.boolean()?s.real(-1e3,1e3):s.dyadic(); if(s.chance(1,6)){ a=s.anyfinite()*1e-5; b=s.anyfinite()*1e-5; } if(s.chance(1,10)) b=a; }
  c.log(fmt("%s(%.17g,%.17g,%u)",LOG?"logspace":"linspace",a,b,n)); c.nontrivial(n>2&&a!=b); if(a>b) c.label("descending");
  auto f=[&]{ return LOG?nusquids::logspace(a,b,n):nusquids::linspace(a,b,n); };
  if(n==0){ PBT_CHECK(c,throws<std::length_error>([&]{ f(); }),"no samples were requested and granted"); return; }
  marray<double,1> x=f(); PBT_CHECK(c,x.size()==n,"asked for "+str(n)+" samples, got "+str(x.size()));
  if(n==1){ PBT_CHECK(c,x[0]==a||x[0]==b,"the only sample is neither end"); return; }
  PBT_CHECK(c,x[0]==a,fmt("first sample %.17g is not the lower end %.17g",x[0],a)); PBT_CHECK(c,x[n-1]==b,fmt("last sample %.17g is not the upper end %.17g",x[n-1],b));
  const double eps=2.3e-16; long double la=LOG?logl(a):a,lb=LOG?logl(b):b; double scale=std::max(fabsl(la),fabsl(lb));
  for(unsigned i=1;i+1<n;i++){ long double w=la+(lb-la)*i/(n-1); double tol=eps*(4+2*n)*scale+n*5e-324; // each addition may lose one rounding
    if(!LOG) PBT_CHECK(c,fabsl(x[i]-w)<=tol,fmt("sample %u is %.17g, should be %.17Lg",i,x[i],w));
    else PBT_CHECK(c,x[i]>0&&fabsl(logl(x[i])-w)<=tol+8*eps,fmt("sample %u is %.17g, should be %.17Lg",i,x[i],expl(w))); }
  // ordered, without repeats, whenever the step is well above the rounding
  if(fabsl(lb-la)/(n-1)>eps*(100+8*n)*scale+(LOG?1e-13:n*1e-322)) for(unsigned i=0;i+1<n;i++) PBT_CHECK(c,a<b? x[i]<x[i+1]: x[i]>x[i+1],fmt("samples %u and %u are not in order",i,i+1));
}
PBT_PROP(linear,1){ space<false>(s,c); }
PBT_PROP(logarithmic,1){ space<true>(s,c); }
