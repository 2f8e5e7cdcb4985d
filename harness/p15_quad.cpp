// P15: adaptive quadrature against functions whose integrals are known.
#include "util.h"
#include <nuSQuIDS/AdaptiveQuad.h>
using namespace pbt;
#ifndef ACC
#define ACC(s) ((s)?1000.0L:1e30L)
#endif
struct Term{ int kind; double A,p,q; };
struct Sum{ std::vector<Term> t; double a,b;
  double operator()(double x) const{ double r=0; for(auto& k: t) r+=k.A*one(k,x); return r; }
  static double one(const Term& k,double x){ switch(k.kind){ case 0: return pow(x-k.q,k.p); case 1: return exp(k.p*(x-k.q)); case 2: return sin(k.p*(x-k.q)); case 3: return 1/(1+(x-k.q)*(x-k.q)/(k.p*k.p)); case 4: return exp(-(x-k.q)*(x-k.q)/(2*k.p*k.p)); case 5: return fabs(x-k.q); case 6: return x<k.q?0:1; default: return sqrt(fabs(x-k.q)); } }
  // integral from q to x
  static long double prim(const Term& k,long double x){ long double u=x-(long double)k.q,p=k.p; switch(k.kind){ case 0: return powl(u,p+1)/(p+1); case 1: return expm1l(p*u)/p; case 2: return (1-cosl(p*u))/p; case 3: return p*atanl(u/p); case 4: return p*sqrtl(acosl(-1)/2)*erfl(u/(p*sqrtl(2))); case 5: return u*fabsl(u)/2; case 6: return u>0?u:0; default: return (u<0?-1:1)*2.0L/3*powl(fabsl(u),1.5L); } }
  long double integral(double x0,double x1) const{ long double r=0; for(auto& k: t) r+=k.A*(prim(k,x1)-prim(k,x0)); return r; }
  long double absolute() const{ long double r=0; const int N=400; for(int i=0;i<N;i++){ double x=a+(b-a)*(i+0.5)/N; for(auto& k: t) r+=fabsl(k.A*one(k,x)); } return r*(b-a)/N; }
  std::string text() const{ static const char* n[]={"power","exp","sin","lorentz","gauss","kink","step","sqrt"}; std::string s; for(auto& k: t) s+=fmt("%s(A=%.9g,p=%.9g,q=%.9g) ",n[k.kind],k.A,k.p,k.q); return s+fmt("on [%.17g,%.17g]",a,b); } };
static Sum gen(Src& s,bool smooth,bool poly){
  Sum f; f.a=s.boolean()?s.real(-10,10):s.dyadic(); double L=s.logreal(1e-3,30); f.b=f.a+L; unsigned n=1+s.below(4); double m=(f.a+f.b)/2;
  for(unsigned i=0;i<n;i++){ Term t; t.A=s.boolean()?s.real(-4,4):(double)s.range(1,5); int k= poly?0: smooth? s.below(5): i==0? 5+s.below(3): 0; t.kind=k; t.q=s.real(f.a,f.b); switch(k){ case 0: t.p=s.below(poly?10:smooth?8:6); t.q=m+s.real(-1,1)*L/2; t.A/=pow(L/2,t.p); break; case 1: t.p=s.real(-8,8)/L; if(t.p==0) t.p=1/L; break; case 2: t.p=s.real(0.1,12)/L; break; case 3: case 4: t.p=L*s.real(0.2,2); break; default: t.p=0; } f.t.push_back(t); }
  return f; }
static double tolerance(Src& s){ return s.pick({1e-6,1e-4,1e-3,1e-8,1e-10,1e-2}); }

// exact up to rounding on polynomials of degree nine, whatever the tolerance
PBT_PROP(polynomials,1){
  Sum f=gen(s,true,true); double tol=tolerance(s); c.log(f.text()+" tol "+str(tol)); bool rev=s.boolean(); long double w=f.integral(f.a,f.b),S=f.absolute(); for(auto& t: f.t) S+=fabsl(t.A)*powl(std::max(fabs(f.a-t.q),fabs(f.b-t.q)),t.p)*(f.b-f.a)*1e-1; c.nontrivial(f.t.size()>1);
  double got= rev? -AdaptiveQuad::integrate(f,f.b,f.a,tol): AdaptiveQuad::integrate(f,f.a,f.b,tol); PBT_CHECK(c,fabsl(got-w)<=1e-12L*S*(1+std::max(fabs(f.a),fabs(f.b))/(f.b-f.a)),fmt("integral of a polynomial is %.17g, should be %.17Lg",got,w));
}
static void accuracy(Src& s,Case& c,bool smooth){
  Sum f=gen(s,smooth,false); double tol=tolerance(s); c.log(f.text()+" tol "+str(tol)); c.nontrivial(); AdaptiveQuad::Options o; o.outOfTolerance=s.boolean(); unsigned long calls=0; double lo=1e300,hi=-1e300; auto h=[&](double x){ calls++; lo=std::min(lo,x); hi=std::max(hi,x); return f(x); };
  double got=AdaptiveQuad::integrate(h,f.a,f.b,tol,&o); long double w=f.integral(f.a,f.b),S=f.absolute(); if(!smooth){ S=0; for(auto& t: f.t) S+=fabsl(t.A)*std::max(Sum::one(t,f.a),std::max(fabs(Sum::one(t,f.b)),fabs(Sum::one(t,f.a))))*(f.b-f.a); } if(calls>13) c.label("subdivided"); long double err=fabsl(got-w);
  PBT_CHECK(c,lo>=f.a&&hi<=f.b,fmt("the function was evaluated outside the interval, at %.17g or %.17g",lo,hi));
  if(getenv("PBT_STAT")){ static double mx=0; double r=err/(tol*S+1e-14L*S); if(r>mx){ mx=r; fprintf(stderr,"%g %s tol %g calls %lu\n",r,f.text().c_str(),tol,calls); } return; }
  PBT_CHECK(c,err<=std::min(0.05L,ACC(smooth)*tol+1e-7L)*S+1e-13L*S*(1+std::max(fabs(f.a),fabs(f.b))/(f.b-f.a)),fmt("integral is %.17g, should be %.17Lg: off by %.3Lg with tolerance %g",got,w,err,tol));
  PBT_CHECK(c,o.fa==f(f.a)&&o.fb==f(f.b),"the end point values reported are not those of the function"); PBT_CHECK(c,!(o.uncertainty<0)&&std::isfinite(o.uncertainty),"the uncertainty is not a finite number"); if(smooth) PBT_CHECK(c,o.inTolerance(),"a smooth function was reported out of tolerance");
  // known end points save two evaluations and change nothing; reversing the limits changes the sign only
  AdaptiveQuad::Options k; k.fa=f(f.a); k.fb=f(f.b); unsigned long calls0=calls; calls=0; double again=AdaptiveQuad::integrate(h,f.a,f.b,tol,&k); PBT_CHECK(c,again==got,"knowing the end point values changed the result"); PBT_CHECK(c,calls+2==calls0,"knowing the end point values did not save two evaluations");
  AdaptiveQuad::Options r; double neg=AdaptiveQuad::integrate(h,f.b,f.a,tol,&r); PBT_CHECK(c,neg==-got,fmt("reversed limits give %.17g instead of %.17g",neg,-got)); PBT_CHECK(c,r.fa==f(f.b)&&r.fb==f(f.a),"end point values of a reversed interval"); PBT_CHECK(c,r.inTolerance()==o.inTolerance(),"reversing the limits changed the verdict"); PBT_CHECK(c,AdaptiveQuad::integrate(h,f.b,f.a,tol,&r)==neg,"re-using the end point values of a reversed interval changed the result");
  PBT_CHECK(c,AdaptiveQuad::integrate(f,f.a,f.b,tol)==got,"asking for details changed the result");
}
PBT_PROP(smooth,1){ accuracy(s,c,true); }
PBT_PROP(rough,0.4){ accuracy(s,c,false); }
// a kink, jump or root singularity can mislead the stopping rule, but only for few of its possible positions
PBT_PROP(rough_mostly,0.1){
  Sum f=gen(s,false,false); double tol=s.pick({1e-4,1e-6,1e-8}); c.log(f.text()+" tol "+str(tol)+", singular point moved 20 times"); c.nontrivial(); unsigned good=0; std::string worst; double u=s.unit();
  for(unsigned k=0;k<20;k++){ f.t[0].q=f.a+(f.b-f.a)*(0.05+0.9*(k+u)/20); long double S=0; for(auto& t: f.t) S+=fabsl(t.A)*std::max(fabs(Sum::one(t,f.b)),fabs(Sum::one(t,f.a)))*(f.b-f.a); double got=AdaptiveQuad::integrate(f,f.a,f.b,tol); long double w=f.integral(f.a,f.b); if(fabsl(got-w)<=50*tol*S) good++; else worst=fmt("%.17g instead of %.17Lg with the singular point at %.17g",got,w,f.t[0].q); }
  PBT_CHECK(c,good>=12,"only "+str(good)+" of 20 integrals are accurate: "+worst);
}
// a jump or a pole is found out of tolerance exactly when an interval cannot be divided further
PBT_PROP(refused,0.2){
  double a=s.real(-10,10); unsigned k=s.below(3); c.nontrivial(); auto f=[](double x){ return x; };
  if(k==0){ double tol=s.pick({0.0,-1e-3,1e-17,2e-16}); c.log("tolerance "+str(tol)); PBT_CHECK(c,throws<std::runtime_error>([&]{ AdaptiveQuad::integrate(f,a,a+1,tol); }),"an impossible tolerance was accepted"); }
  else { double b=a; unsigned n=k==1?0:1+s.below(10); for(unsigned i=0;i<n;i++) b=std::nextafter(b,1e9); c.log(fmt("[%.17g,%.17g]",a,b)); if(fabs(a)>1e-300) PBT_CHECK(c,throws<std::runtime_error>([&]{ AdaptiveQuad::integrate(f,a,b); })&&throws<std::runtime_error>([&]{ AdaptiveQuad::integrate(f,b,a); }),"an interval without room for the nodes was accepted"); }
}
