// Interactions and sources: the cascade equations on the nodes, for P30 and after.
#ifndef NU_INT_H
#define NU_INT_H
#include "nu_ref.h"
#include <functional>
namespace nuref{
typedef NeutrinoCrossSections XS;
static const double GEV1=1e9;
// Cross sections in closed form; every argument changes the value, and averages are not the values at either end.
struct TestXS: XS{
  double s[3]={0,0,0},p=0,E0=1e9,gf[3]={1,1,1},gt[2]={1,1},k[3]={0,0,0},q=0,cut=0; // per current: total and yield; cut: no daughters below cut*E1
  double bad=0; int badWhat=-1; // badWhat: 0 total, 1 differential
  double base(double E,int f,int t,Current c) const{ if(f>=3) return c==GR?0:1e-20; if(c==GR&&(f!=0||t!=1)) return 1e-20; return s[c]*gf[f]*gt[t]*std::pow(E/E0,p); }
  double TotalCrossSection(double E,NeutrinoFlavor f,XS::NeutrinoType t,Current c) const override{ if(badWhat==0&&(int)f<3) return bad; return base(E,f,t,c); }
  double SingleDifferentialCrossSection(double E1,double E2,NeutrinoFlavor f,XS::NeutrinoType t,Current c) const override{
    if(badWhat==1&&(int)f<3) return bad; if(E2<cut*E1||E2>E1) return 0; return base(E1,f,t,c)*k[c]*std::pow(E2/E1,q)/(E2/GEV1); }
  double AverageTotalCrossSection(double a,double b,NeutrinoFlavor f,XS::NeutrinoType t,Current c) const override{ if(badWhat==0&&(int)f<3) return bad; return base(std::sqrt(a*b),f,t,c)*(1+0.2*(b-a)/(a+b)); }
  double AverageSingleDifferentialCrossSection(double E1,double a,double b,NeutrinoFlavor f,XS::NeutrinoType t,Current c) const override{
    if(badWhat==1&&(int)f<3) return bad; if(b<cut*E1) return 0; return base(E1,f,t,c)*k[c]*std::pow(b/E1,q)/(std::sqrt(a*b)/GEV1)*(1+0.1*(b-a)/(a+b)); }
};
inline std::shared_ptr<XS> sxs(const TestXS& x){ return std::make_shared<TestXS>(x); }
struct Cascade{
  bool on=true,tau=false,gr=false,osc=true,perNucleon=false;
  TestXS iso,pr,ne,el;
  std::shared_ptr<CrossSectionLibrary> library(bool withIso=true) const{ auto l=std::make_shared<CrossSectionLibrary>();
    if(perNucleon){ l->addTarget(proton,sxs(pr)); l->addTarget(neutron,sxs(ne)); }
    if(!perNucleon||withIso) l->addTarget(isoscalar_nucleon,sxs(iso));
    l->addTarget(electron,sxs(el)); return l; }
  std::string str() const{ auto o=[](const char* n,const TestXS& x){ return pbt::fmt(" %s CC %.4g/%.3g NC %.4g/%.3g GR %.4g/%.3g p %.3g q %.3g cut %.3g f %.3g %.3g %.3g t %.3g",n,x.s[0],x.k[0],x.s[1],x.k[1],x.s[2],x.k[2],x.p,x.q,x.cut,x.gf[0],x.gf[1],x.gf[2],x.gt[1]); };
    return std::string("interactions")+(tau?" tau":"")+(gr?" glashow":"")+(osc?"":" no oscillations")+(perNucleon?o("p",pr)+o("n",ne):o("iso",iso))+o("e",el); }
};
// optical depth tau at most, over a length L of density rho
inline TestXS genXS(pbt::Src& s,const Setup& p,double depth,double nL,bool gr){
  TestXS x; x.E0=p.E[0]; x.p=s.real(-0.5,1); x.q=s.real(-0.5,2); x.cut= s.chance(1,3)?s.real(0,0.8):0;
  for(double& g: x.gf) g=s.real(0.3,1); x.gt[1]=s.real(0.3,1);
  double top=std::max(1.0,std::pow(p.E.back()/p.E[0],x.p)),unit=depth/(nL*top)/(U0.cm*U0.cm)/1.2;
  if(gr){ x.s[2]=s.chance(1,16)?0:unit*s.real(0.2,1); x.k[2]=s.real(0.05,0.4); }
  else{ x.s[0]=unit*(s.chance(1,8)?0.01:s.real(0.2,1)); x.s[1]=unit*(s.chance(1,8)?0.01:s.real(0.2,1)); x.k[0]=s.real(0.1,1); x.k[1]=s.real(0.1,1); if(s.chance(1,8)) x.k[s.below(2)]=0; if(s.chance(1,12)) x.s[s.below(2)]=0; }
  return x; }
inline double nucleons(double rho){ return U0.gr*std::pow(U0.cm,-3)*rho*2/(U0.electron_mass+U0.proton_mass+U0.neutron_mass); }
inline Cascade genCascade(pbt::Src& s,const Setup& p,double rho,double L){
  Cascade k; k.osc=s.chance(3,4); k.perNucleon=s.boolean(); k.gr=s.boolean(); if(p.NT==both) k.tau=s.boolean();
  double nL=nucleons(std::max(rho,1e-3))*L,depth=s.logreal(0.02,2.5);
  k.iso=genXS(s,p,depth,nL,false); k.pr=genXS(s,p,depth,nL,false); k.ne=genXS(s,p,depth,nL,false); k.el=genXS(s,p,depth,nL,true); return k; }
// what happens per length at one density and composition
struct Tables{ // [target][rho][flavor][energy][daughter]
  std::vector<std::vector<std::vector<V>>> cc,nc; std::vector<std::vector<std::vector<std::vector<V>>>> dcc,dnc; V gr; std::vector<V> dgr; std::vector<std::vector<V>> tall,tlep; bool per; V dE; };
inline Tables tables(const Setup& p,const Cascade& k){
  Tables T; size_t ne=p.E.size(); unsigned nr=p.nrho(); const double cm2=U0.cm*U0.cm; T.per=k.perNucleon;
  std::vector<const TestXS*> xs; if(k.perNucleon) xs={&k.pr,&k.ne}; else xs={&k.iso};
  for(size_t e=0;e+1<ne;e++) T.dE.push_back(p.E[e+1]-p.E[e]);
  auto total=[&](const TestXS* x,size_t e,int f,int t,XS::Current c){ return cm2*(e? x->AverageTotalCrossSection(p.E[e-1],p.E[e],(XS::NeutrinoFlavor)f,(XS::NeutrinoType)t,c): x->TotalCrossSection(p.E[0],(XS::NeutrinoFlavor)f,(XS::NeutrinoType)t,c)); };
  auto diff=[&](const TestXS* x,size_t e,size_t d,int f,int t,XS::Current c){ return cm2/GEV1*(d? x->AverageSingleDifferentialCrossSection(p.E[e],p.E[d-1],p.E[d],(XS::NeutrinoFlavor)f,(XS::NeutrinoType)t,c): x->SingleDifferentialCrossSection(p.E[e],p.E[0],(XS::NeutrinoFlavor)f,(XS::NeutrinoType)t,c)); };
  for(auto* x: xs){ std::vector<std::vector<V>> a,b; std::vector<std::vector<std::vector<V>>> da,db;
    for(unsigned r=0;r<nr;r++){ int t=p.anti(r); std::vector<V> ar,br; std::vector<std::vector<V>> dar,dbr;
      for(int f=0;f<3;f++){ V af,bf; std::vector<V> daf,dbf;
        for(size_t e=0;e<ne;e++){ af.push_back(total(x,e,f,t,XS::CC)); bf.push_back(total(x,e,f,t,XS::NC)); V d1,d2;
          for(size_t d=0;d<e;d++){ double u=diff(x,e,d,f,t,XS::CC),v=diff(x,e,d,f,t,XS::NC); d1.push_back(u==0?0:u/af[e]); d2.push_back(v==0?0:v/bf[e]); }
          daf.push_back(d1); dbf.push_back(d2); }
        ar.push_back(af); br.push_back(bf); dar.push_back(daf); dbr.push_back(dbf); }
      a.push_back(ar); b.push_back(br); da.push_back(dar); db.push_back(dbr); }
    T.cc.push_back(a); T.nc.push_back(b); T.dcc.push_back(da); T.dnc.push_back(db); }
  for(size_t e=0;e<ne;e++){ T.gr.push_back(total(&k.el,e,0,1,XS::GR)); V d; for(size_t q=0;q<e;q++){ double u=diff(&k.el,e,q,0,1,XS::GR); d.push_back(u==0?0:u/T.gr[e]); } T.dgr.push_back(d); }
  if(k.tau){ TauDecaySpectra tds; tds.Init(p.energies()); T.tall.assign(2,std::vector<V>(ne)); T.tlep=T.tall; for(unsigned r=0;r<2;r++) for(size_t e=0;e<ne;e++) for(size_t d=0;d<e;d++){ T.tall[r][e].push_back(tds.dNdEnu_All(e,d,r)/GEV1); T.tlep[r][e].push_back(tds.dNdEnu_Lep(e,d,r)/GEV1); } }
  return T; }
typedef std::function<double(size_t e,unsigned r,unsigned f,double x)> Source;
// d rho/dx, flavor basis
inline void rates(const Setup& p,const Cascade& k,const Tables& T,double density,double ye,const Source* src,double x,const Rho& R,Rho& D){
  size_t ne=p.E.size(); unsigned nr=p.nrho(),n=p.n; double grcm=U0.gr*std::pow(U0.cm,-3)*density;
  V dens,frac; double nel=0;
  if(!T.per){ double m=grcm*2/(U0.electron_mass+U0.proton_mass+U0.neutron_mass); if(m<1e-10) m=U0.Na*std::pow(U0.cm,-3)*1e-10; dens={m}; frac={1}; nel=m*ye; }
  else{ double np=0,nn; if(ye==0) nn=grcm/U0.neutron_mass; else{ np=grcm/(U0.electron_mass+U0.proton_mass+U0.neutron_mass*(1-ye)/ye); nn=(1-ye)*np/ye; } dens={np,nn}; frac={ye,1-ye}; nel=np; }
  std::vector<std::vector<V>> lam(nr,std::vector<V>(n,V(ne,0.0))),src_(nr,std::vector<V>(n,V(ne,0.0)));
  if(k.on) for(unsigned r=0;r<nr;r++) for(unsigned f=0;f<3;f++) for(size_t e=0;e<ne;e++){ double c=0,m=0; for(size_t t=0;t<dens.size();t++){ c+=dens[t]*T.cc[t][r][f][e]; m+=dens[t]*T.nc[t][r][f][e]; }
    lam[r][f][e]=c+m; double flux=R[e][r](f,f).real();
    if(e) for(size_t t=0;t<dens.size();t++) for(size_t d=0;d<e;d++) src_[r][f][d]+=flux*m*T.dE[e-1]*frac[t]*T.dnc[t][r][f][e][d]; }
  if(k.on&&k.gr) for(unsigned r=0;r<nr;r++) if(p.anti(r)) for(size_t e=0;e<ne;e++){ double l=T.gr[e]*nel; lam[r][0][e]+=l; double flux=R[e][r](0,0).real(); if(e) for(size_t d=0;d<e;d++) for(unsigned f=0;f<3;f++) src_[r][f][d]+=flux*l*T.dE[e-1]*T.dgr[e][d]; }
  if(k.on&&k.tau){ std::vector<V> made(2,V(ne,0.0));
    for(size_t e=1;e<ne;e++){ double a=R[e][0](2,2).real(),b=R[e][1](2,2).real(); if(a<=0&&b<=0) continue;
      for(unsigned r=0;r<2;r++){ double c=0; for(size_t t=0;t<dens.size();t++) c+=dens[t]*T.cc[t][r][2][e]; for(size_t t=0;t<dens.size();t++) for(size_t d=1;d<e;d++) made[r][d]+=(r?b:a)*c*T.dE[e-1]*frac[t]*T.dcc[t][r][2][e][d]*T.dE[d-1]; } }
    for(size_t e=1;e<ne;e++) for(size_t d=0;d<e;d++) for(unsigned r=0;r<2;r++){ src_[r][2][d]+=made[r][e]*T.tall[r][e][d]; for(unsigned f=0;f<2;f++) src_[1-r][f][d]+=made[r][e]*T.tlep[r][e][d]; } }
  for(size_t e=0;e<ne;e++) for(unsigned r=0;r<nr;r++){
    M H=p.matter(density,ye,r); if(k.osc) H+=p.vacuum(p.E[e],r); M& d=D[e][r]; d=H*R[e][r]-R[e][r]*H; d*=C(0,-1);
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) d(i,j)-=0.5*(lam[r][i][e]+lam[r][j][e])*R[e][r](i,j);
    for(unsigned f=0;f<n;f++){ d(f,f)+=src_[r][f][e]; if(src) d(f,f)+=(*src)(e,r,f,x); } } }
inline double norm(const Rho& R){ double m=0; for(auto& a: R) for(auto& b: a) for(auto& z: b.a) m=std::max(m,std::abs(z)); return m; }
// classical Runge-Kutta over [x0,x1]; returns the largest component met
template<typename F> double cascade(const Setup& p,const Cascade& k,const Tables& T,Rho& R,F densityYe,const Source* src,double x0,double x1,int steps){
  Rho k1=R,k2=R,k3=R,k4=R,y=R; double h=(x1-x0)/steps,top=norm(R);
  auto add=[&](const Rho& b,double f){ for(size_t e=0;e<R.size();e++) for(size_t r=0;r<R[e].size();r++) for(size_t i=0;i<R[e][r].a.size();i++) y[e][r].a[i]=R[e][r].a[i]+f*b[e][r].a[i]; };
  for(int i=0;i<steps;i++){ double x=x0+i*h; std::pair<double,double> a=densityYe(x),b=densityYe(x+h/2),c=densityYe(x+h);
    rates(p,k,T,a.first,a.second,src,x,R,k1); add(k1,h/2); rates(p,k,T,b.first,b.second,src,x+h/2,y,k2); add(k2,h/2); rates(p,k,T,b.first,b.second,src,x+h/2,y,k3); add(k3,h); rates(p,k,T,c.first,c.second,src,x+h,y,k4);
    for(size_t e=0;e<R.size();e++) for(size_t r=0;r<R[e].size();r++) for(size_t j=0;j<R[e][r].a.size();j++) R[e][r].a[j]+=h/6*(k1[e][r].a[j]+2.0*k2[e][r].a[j]+2.0*k3[e][r].a[j]+k4[e][r].a[j]);
    top=std::max(top,norm(R)); }
  return top; }
inline double frequency(const Setup& p){ double k=p.dmmax(); return (k==0?2.5e-3:k)/(2*p.E[0]); }
}
#endif
