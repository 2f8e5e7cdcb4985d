// P16: the one-dimensional integrals of smooth functions to the accuracy asked for.
#include "util.h"
#include <gsl/gsl_errno.h>
#include <nuSQuIDS/tools.h>
using namespace pbt;
struct Term{ int kind; double A,p,q; };
struct Sum{ std::vector<Term> t;
  static double one(const Term& k,double x){ switch(k.kind){ case 0: return pow(x-k.q,k.p); case 1: return exp(k.p*(x-k.q)); case 2: return sin(k.p*(x-k.q)); case 3: return 1/(1+(x-k.q)*(x-k.q)/(k.p*k.p)); default: return exp(-(x-k.q)*(x-k.q)/(2*k.p*k.p)); } }
  static long double prim(const Term& k,long double x){ long double u=x-(long double)k.q,p=k.p; switch(k.kind){ case 0: return powl(u,p+1)/(p+1); case 1: return expm1l(p*u)/p; case 2: return (1-cosl(p*u))/p; case 3: return p*atanl(u/p); default: return p*sqrtl(acosl(-1)/2)*erfl(u/(p*sqrtl(2))); } }
  double operator()(double x) const{ double r=0; for(auto& k: t) r+=k.A*one(k,x); return r; }
  long double integral(double a,double b) const{ long double r=0; for(auto& k: t) r+=k.A*(prim(k,b)-prim(k,a)); return r; } };
PBT_PROP(value,1){
  static bool off=(gsl_set_error_handler_off(),true); (void)off;
  double a=s.boolean()?s.real(-10,10):s.dyadic(),L=s.logreal(1e-3,30),b=a+L; Sum f; unsigned n=1+s.below(4); double acc=s.pick({1e-7,1e-4,1e-3,1e-9}); long double mag=0;
  // every term is positive, so that a relative accuracy is meaningful
  for(unsigned i=0;i<n;i++){ Term t; t.A=s.real(0.1,4); t.kind=s.below(5); t.q=s.real(a,b); switch(t.kind){ case 0: t.p=s.below(8); t.q=a-s.real(0,1)*L; t.A/=pow(L,t.p); break; case 1: t.p=s.real(-8,8)/L; if(t.p==0) t.p=1; break; case 2: t.p=s.real(0.05,1.5)/L; t.q=a-L*0.2; break; default: t.p=L*s.real(0.05,2); } f.t.push_back(t); }
  c.log(str(n)+" terms"+fmt(" on [%.17g,%.17g] accuracy %g",a,b,acc)); for(auto& t: f.t) c.log(fmt("kind %d A=%.17g p=%.17g q=%.17g",t.kind,t.A,t.p,t.q)); c.nontrivial(n>1); bool rev=s.boolean(); mag=fabsl(f.integral(a,b));
  unsigned calls=0; double lo=1e300,hi=-1e300; auto h=[&](double x){ calls++; lo=std::min(lo,x); hi=std::max(hi,x); return f(x); }; double x0=rev?b:a,x1=rev?a:b; long double w=f.integral(x0,x1);
  double r; int how=s.below(3); switch(how){ case 0: r=nusquids::integrate(h,x0,x1,acc); break; case 1:{ nusquids::IntegrateWorkspace ws(5000); r=nusquids::integrate(ws,h,x0,x1,acc); break; } default:{ nusquids::IntegrateWorkspace ws(200); double other=nusquids::integrate(ws,[](double x){ return sqrt(fabs(x-0.3)); },0.,1.,1e-3,200); (void)other; r=nusquids::integrate(ws,h,x0,x1,acc,200); c.label("workspace used before"); } }
  PBT_CHECK(c,fabsl(r-w)<=acc*mag+1e-13L*mag*(1+std::max(fabs(a),fabs(b))/L),fmt("the integral is %.17g, should be %.17Lg within %g",r,w,acc)); PBT_CHECK(c,lo>=a&&hi<=b,"the function was evaluated outside the interval");
  if(acc==1e-7&&how==0) PBT_CHECK(c,nusquids::integrate(f,x0,x1)==r,"the default accuracy is not 1e-7, or repeating changed the result");
  PBT_CHECK(c,nusquids::integrate(f,a,a,acc)==0,"an empty interval has a non-zero integral");
  if(acc<1e-6){ double m=s.real(a,b); double p=nusquids::integrate(f,a,m,acc)+nusquids::integrate(f,m,b,acc); PBT_CHECK(c,fabsl(p-f.integral(a,b))<=4*acc*mag,"the integrals over two parts do not add up"); }
}
