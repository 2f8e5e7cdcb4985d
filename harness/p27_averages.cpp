// P27: averages over energy bins are averages.
#include "xs_gen.h"
using namespace pbt; using namespace xsgen;
typedef long double LD;
// monotone, positive, with known integrals: sum of powers (and logarithmic tilt in the outgoing energy)
struct Poly: public NX{ std::vector<double> a,p; double s0=1; mutable std::vector<double> seen; mutable double lo=1e300,hi=-1e300;
  LD f(LD x) const{ LD r=0; for(size_t i=0;i<a.size();i++) r+=a[i]*powl(x,p[i]); return r; }
  LD F(LD x,LD y) const{ LD r=0; for(size_t i=0;i<a.size();i++) r+=a[i]*(p[i]==-1? logl(y/x): (powl(y,p[i]+1)-powl(x,p[i]+1))/(p[i]+1)); return r; }
  int wantF,wantT,wantC; double E1; 
  void who(NeutrinoFlavor f,NeutrinoType t,Current c) const{ if(f!=wantF||t!=wantT||c!=wantC) throw Failure{"the average asked for another flavor, type or current"}; }
  double TotalCrossSection(double E,NeutrinoFlavor f_,NeutrinoType t,Current c) const override{ who(f_,t,c); lo=std::min(lo,E); hi=std::max(hi,E); return (double)f(E); }
  double SingleDifferentialCrossSection(double e1,double E,NeutrinoFlavor f_,NeutrinoType t,Current c) const override{ who(f_,t,c); if(e1!=E1) throw Failure{"the average changed the incoming energy"}; lo=std::min(lo,E); hi=std::max(hi,E); return (double)f(E); } };
PBT_PROP(generic,3){
  Poly x; int n=(int)s.range(1,3); bool up=s.boolean(); for(int i=0;i<n;i++){ x.a.push_back(s.logreal(0.01,100)); x.p.push_back(up? s.real(0,3): s.real(-3,0)); } if(s.chance(1,6)) x.p.assign(n,0);
  x.wantF=(int)s.below(4); x.wantT=(int)s.below(2); x.wantC=(int)s.below(3); double a=s.logreal(1e-3,1e3); double ratio=s.boolean()? s.real(1.01,3): s.logreal(1.001,100); 
  // powers of the energy in units near the bin, so that no term is negligible
  double scale=s.logreal(1e6,1e18); for(size_t i=0;i<x.a.size();i++) x.a[i]/=std::pow(scale,x.p[i]); double lo=a*scale,hi=lo*ratio; x.E1=hi*2; LD want=x.F(lo,hi)/((LD)hi-lo);
  c.log(fmt("%d terms, bin %.6g..%.6g (ratio %.4g)",n,lo,hi,ratio)); c.nontrivial(n>1); c.label(ratio<3?"narrow":"wide");
  bool tot=s.boolean(); double got= tot? x.AverageTotalCrossSection(lo,hi,(NX::NeutrinoFlavor)x.wantF,(NX::NeutrinoType)x.wantT,(NX::Current)x.wantC): x.AverageSingleDifferentialCrossSection(x.E1,lo,hi,(NX::NeutrinoFlavor)x.wantF,(NX::NeutrinoType)x.wantT,(NX::Current)x.wantC);
  PBT_CHECK(c,x.lo>=lo*(1-1e-12)&&x.hi<=hi*(1+1e-12),fmt("energies from %.17g to %.17g were asked for, outside the bin",x.lo,x.hi));
  PBT_CHECK(c,std::fabs(got/(double)want-1)<=(ratio<3?5e-3:5e-2),fmt("the average is %.17g, not %.17Lg (%.3g off)",got,want,std::fabs(got/(double)want-1))); }
static LD simpson(const std::function<double(double)>& f,double a,double b,int n){ LD r=0; for(int i=0;i<n;i++){ double x=a+(b-a)*i/n,y=a+(b-a)*(i+1)/n; r+=((LD)f(x)+4*(LD)f((x+y)/2)+f(y))/6/n; } return r; }
PBT_PROP(tables,1){
  h5quiet(); Tables t=genTables(s,true); Dir dir; auto file=dir.file("x.h5"); writeH5Tables(t,file,0,true); NeutrinoDISCrossSectionsFromTables x(file); c.log(t.str()); c.nontrivial();
  for(int q=0;q<6;q++){ auto f=FL[s.below(3)]; auto k=TY[s.below(2)]; auto cu=CU[s.below(2)]; double R=x.GetEmax()/x.GetEmin(); double ratio=1+std::min(1.5,R-1)*(0.01+0.9*s.unit()); double lo=x.GetEmin()*std::pow(R/ratio,s.unit()),hi=std::min(lo*ratio,x.GetEmax());
    LD w=simpson([&](double e){ return x.TotalCrossSection(std::min(e,x.GetEmax()),f,k,cu); },lo,hi,60); double g=x.AverageTotalCrossSection(lo,hi,f,k,cu); PBT_CHECK(c,std::fabs(g/(double)w-1)<2e-2,fmt("average total cross section from %.6g to %.6g is %.17g, not %.17Lg",lo,hi,g,w));
    double E1=x.GetEmin()+(x.GetEmax()-x.GetEmin())*(0.05+0.9*s.unit()); double a=x.GetEmin()+(E1-x.GetEmin())*s.unit(),b=x.GetEmin()+(E1-x.GetEmin())*s.unit(); if(std::fabs(a-b)<1e-3*E1) continue;
    w=simpson([&](double e){ return x.SingleDifferentialCrossSection(E1,e,f,k,cu); },std::min(a,b),std::max(a,b),60); g=x.AverageSingleDifferentialCrossSection(E1,a,b,f,k,cu); PBT_CHECK(c,std::fabs(g/(double)w-1)<2e-2,fmt("average differential cross section at %.6g from %.6g to %.6g is %.17g, not %.17Lg",E1,a,b,g,w));
    PBT_CHECK(c,x.AverageSingleDifferentialCrossSection(E1,a,a,f,k,cu)==x.SingleDifferentialCrossSection(E1,a,f,k,cu),"the average over a point is not the value there"); } }
