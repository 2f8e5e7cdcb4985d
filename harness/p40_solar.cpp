// P40: solar tables and the daytime survival of solar electron neutrinos against plain matrices
#include "nu_ref.h"
#include "SolarProbabilities.h"
#include <fstream>
#include <sys/stat.h>
using namespace pbt; using namespace nuref;
static const double RSUN=69662651411.1,EMIN=3464,EMAX=1.8784e7,LINE[2]={1.44e6,0.8618e6};
static const char* SPEC[8]={"pp",nullptr,"hep",nullptr,"b8","n13","o15","f17"};
static const double LIM[8][2]={{0.00504e6,0.42341e6},{1.44e6,1.44e6},{1.8784e4,1.8784e7},{0.8618e6,0.8618e6},{0.02e6,16.56e6},{5.9950e3,1.1990e6},{3.4640e3,1.7320e6},{3.4800e3,1.7400e6}};
static double lin(const V& x,const V& y,double a){ if(a<=x.front()) return y.front(); if(a>=x.back()) return y.back(); size_t k=std::upper_bound(x.begin(),x.end(),a)-x.begin(); return y[k-1]+(y[k]-y[k-1])*(a-x[k-1])/(x[k]-x[k-1]); }
// the tables, as they are written
struct SunTables{ V r; std::vector<V> col=std::vector<V>(10); std::vector<V> e=std::vector<V>(8),f=std::vector<V>(8);
  double radial(int i,double R) const{ return lin(r,col[i],R*RSUN); }
  double flux(double R,double E,int i) const{ if(E<EMIN||E>EMAX) return 0; if(!SPEC[i]) return radial(i,R); if(!(E>LIM[i][0]&&E<LIM[i][1])) return 0; return radial(i,R)*lin(e[i],f[i],E*1e-6); } // MeV
};
static void put(std::ofstream& o,double x){ char b[40]; snprintf(b,40,"%.17g",x); o<<b; }
struct Here{ char old[4096]; std::string at; explicit Here(const std::string& d):at(d){ if(!getcwd(old,4096)||chdir(d.c_str())) throw std::logic_error("no such directory"); } ~Here(){ if(chdir(old)){} } };
struct Tables{ std::string d; Tables(){ Scratch s(".d"); d=s.path; mkdir(d.c_str(),0755); mkdir((d+"/SM").c_str(),0755); mkdir((d+"/SM/T").c_str(),0755); mkdir((d+"/SM/NuSpec").c_str(),0755); }
  ~Tables(){ for(int i=0;i<8;i++) if(SPEC[i]) unlink((d+"/SM/NuSpec/"+SPEC[i]+".dat").c_str()); unlink((d+"/SM/T/radial.dat").c_str()); rmdir((d+"/SM/T").c_str()); rmdir((d+"/SM/NuSpec").c_str()); rmdir((d+"/SM").c_str()); rmdir(d.c_str()); }
  void write(Src& s,const SunTables& t){ { std::ofstream o(d+"/SM/T/radial.dat"); if(s.boolean()) o<<"# made for a test\n\n"; for(size_t k=0;k<t.r.size();k++){ put(o,t.r[k]); for(int i=0;i<10;i++){ o<<(s.chance(1,8)?"\t":" "); put(o,t.col[i][k]); } o<<"\n"; } }
    for(int i=0;i<8;i++) if(SPEC[i]){ std::ofstream o(d+"/SM/NuSpec/"+SPEC[i]+".dat"); for(size_t k=0;k<t.e[i].size();k++){ put(o,t.e[i][k]); o<<" "; put(o,t.f[i][k]); o<<"\n"; } } } };
static SunTables genSun(Src& s,unsigned rows){ SunTables t; double x= s.boolean()?0:RSUN*s.logreal(1e-5,2e-2); std::vector<double> u; for(unsigned k=0;k<rows;k++) u.push_back(0.05+s.unit()); double sum=0; for(unsigned k=1;k<rows;k++) sum+=u[k]; double end= s.chance(1,3)?RSUN*s.real(0.8,0.999):RSUN*s.real(1.0,1.02); t.r.push_back(x); double at=x; for(unsigned k=1;k<rows;k++){ at+=(end-x)*u[k]/sum; t.r.push_back(k+1==rows?end:at); }
  for(int i=0;i<8;i++){ bool none=i!=6&&s.chance(1,6); double norm=s.logreal(1,1e6); for(unsigned k=0;k<rows;k++) t.col[i].push_back(none?0:norm*(0.02+s.unit())); }
  double top= s.chance(1,8)?0:s.logreal(1,2e3); bool falls=s.boolean(); for(unsigned k=0;k<rows;k++) t.col[8].push_back(falls?top*std::exp(-8.0*k/rows):top*s.unit()); for(unsigned k=0;k<rows;k++) t.col[9].push_back(s.unit());
  for(int i=0;i<8;i++) if(SPEC[i]){ unsigned n=(unsigned)s.range(2,6); V w; for(unsigned k=1;k<n;k++) w.push_back(0.05+s.unit()); double q=0; for(double y: w) q+=y; double a=LIM[i][0]*1e-6*(s.boolean()?0.999999:0.5),b=LIM[i][1]*1e-6*(s.boolean()?1.000001:1.5),p=a; t.e[i].push_back(a); for(unsigned k=1;k<n;k++){ p+=(b-a)*w[k-1]/q; t.e[i].push_back(k+1==n?b:p); } for(unsigned k=0;k<n;k++) t.f[i].push_back(0.01+s.unit()); }
  return t; }
static SunTables shipped(const std::string& name){ SunTables t; std::string d=repodir()+"/resources/user_contributions/SolarTransitions/SM/"; auto rows=[&](const std::string& p){ std::ifstream in(p); std::vector<V> v; std::string l; while(std::getline(in,l)){ V x; const char* q=l.c_str(); char* e; for(;;){ double y=strtod(q,&e); if(e==q) break; x.push_back(y); q=e; } if(!x.empty()) v.push_back(x); } return v; };
  for(auto& x: rows(d+name+"/radial.dat")){ t.r.push_back(x[0]); for(int i=0;i<10;i++) t.col[i].push_back(x.at(i+1)); } for(int i=0;i<8;i++) if(SPEC[i]) for(auto& x: rows(d+"NuSpec/"+SPEC[i]+".dat")){ t.e[i].push_back(x[0]); t.f[i].push_back(x.at(1)); } return t; }
static double genE(Src& s){ switch(s.below(6)){ case 0: return LINE[s.below(2)]*(1+s.real(-0.02,0.02)); case 1: { int i=(int)s.below(8); double l=LIM[i][s.below(2)]; return l*(1+s.pick({-1e-9,-1e-3,0.0,1e-3,1e-9})); } case 2: return s.real(1e5,EMAX); default: return s.logreal(3000,2.2e7); } }
struct Pee{ double p=0,gap=0; };
static Pee survival(const Setup& p,double E,double ne){ M H=p.vacuum(E,0); H(0,0)+=HIC*ne; Eigen e=eigen(H); M u=p.mixing(0); std::vector<unsigned> o(p.n); for(unsigned i=0;i<p.n;i++) o[i]=i; std::sort(o.begin(),o.end(),[&](unsigned i,unsigned j){ return p.dm[i]<p.dm[j]; }); Pee r; double w=e.value.back()-e.value.front(); r.gap=1; for(unsigned i=0;i<p.n;i++){ r.p+=std::norm(e.vector(0,i))*std::norm(u(0,o[i])); if(i) r.gap=std::min(r.gap,(e.value[i]-e.value[i-1])/w); } return r; }
static Setup genMixing(Src& s){ Setup p=genSetup(s,true,6,1,neutrino); bool random=s.boolean(); for(unsigned j=1;j<p.n;j++) for(unsigned i=0;i<j;i++){ if(random) p.th[i][j]=s.real(0.05,1.5); if(p.th[i][j]<0.05) p.th[i][j]=0.05; } for(unsigned j=1;j<p.n;j++) p.dm[j]= j==1?7.5e-5*s.logreal(0.1,10):s.logreal(1e-5,1e-1); for(unsigned j=1;j<p.n;j++) if(s.chance(1,4)) p.dm[j]=-p.dm[j]; return p; }

// takes an object to the parameters of `p`: one way or another
static void give(Src& s,SOP& o,const Setup& p,std::string& log){ if(s.boolean()){ log+=" had a state"; Setup q=genMixing(s); if(q.n==p.n){ q.parameters(o); } o.Set_E(1e6*(1+s.unit())); o.Set_Body(std::make_shared<Vacuum>()); o.Set_Track(std::make_shared<Vacuum::Track>(1.0)); marray<double,1> v{p.n}; for(unsigned i=0;i<p.n;i++) v[i]=0; v[s.below(p.n)]=1; o.Set_initial_state(v,s.boolean()?flavor:mass); } p.parameters(o); if(s.chance(1,4)){ log+=" state again"; o.Set_E(1e6); o.Set_Body(std::make_shared<Vacuum>()); o.Set_Track(std::make_shared<Vacuum::Track>(1.0)); marray<double,1> v{p.n}; for(unsigned i=0;i<p.n;i++) v[i]=1; o.Set_initial_state(v,flavor); } }

PBT_PROP(tables,5){ // what the files say is what the model answers, from the center to the surface
  Tables d; SunTables t; std::string name="T",dir=d.d; bool own=!s.chance(1,10); if(own){ t=genSun(s,(unsigned)s.range(2,40)); d.write(s,t); } else{ name=s.boolean()?"Standard":"AGSS09"; t=shipped(name); dir=repodir()+"/resources/user_contributions/SolarTransitions"; } c.log(own?fmt("%zu rows",t.r.size()):name); std::shared_ptr<SolarModel> m; { Here h(dir); m=std::make_shared<SolarModel>(name); } unsigned in=0,comps=m->NumComp(); PBT_CHECK(c,comps==8,"components");
  for(int k=0;k<40;k++){ double R; switch(s.below(6)){ case 0: R=s.pick({0.0,1.0,0.5}); break; case 1: R=t.r[s.below(t.r.size())]/RSUN; break; case 2: R=s.logreal(1e-7,1); break; default: R=s.unit(); } double E=genE(s); int i=(int)s.below(8); c.log(fmt("%.17g %.17g %d",R,E,i));
    if(R>1||s.chance(1,20)){ double bad=R>1?R:s.boolean()?1+s.unit()+1e-9:-s.unit()-1e-9; PBT_CHECK(c,throws<std::runtime_error>([&]{ (void)m->eDensity(bad); })&&throws<std::runtime_error>([&]{ (void)m->DMDensity(bad); })&&throws<std::runtime_error>([&]{ (void)m->nuFlux(bad,E,SolarModel::FluxType(i)); }),"a radius outside of the Sun was accepted"); continue; }
    double a=m->eDensity(R),b=t.radial(8,R); if(!(std::fabs(a-b)<=1e-9*std::fabs(b)+1e-9*t.col[8][0])) c.fail(fmt("electron density %.12g, the table says %.12g",a,b)); a=m->DMDensity(R); b=t.radial(9,R); if(!(std::fabs(a-b)<=1e-9*(std::fabs(b)+1))) c.fail(fmt("dark matter density %.12g, the table says %.12g",a,b));
    bool edge=false; if(SPEC[i]) for(double l: LIM[i]) if(std::fabs(E/l-1)<1e-12) edge=true; if(edge) continue; double top=0; for(double y: t.col[i]) top=std::max(top,y); double ft=1; if(SPEC[i]) for(double y: t.f[i]) ft=std::max(ft,y); a=m->nuFlux(R,E,SolarModel::FluxType(i)); b=t.flux(R,E,i); if(b) in++; if(!(std::fabs(a-b)<=1e-9*std::fabs(b)+1e-11*top*ft)) c.fail(fmt("flux of component %d: %.12g, the table says %.12g",i,a,b)); if(E>EMIN&&E<EMAX) PBT_CHECK(c,throws<std::exception>([&]{ (void)m->nuFlux(R,E,SolarModel::Electron); })&&throws<std::exception>([&]{ (void)m->nuFlux(R,E,SolarModel::DM); }),"densities were taken for fluxes"); }
  if(!own) c.label("shipped"); c.nontrivial(in>4); }

PBT_PROP(probability,6){ // adiabatic survival: matter states at production, vacuum states at the surface
  Tables d; SunTables t=genSun(s,(unsigned)s.range(2,12)); d.write(s,t); Setup p=genMixing(s); c.log(p.str()); std::shared_ptr<SolarModel> m; { Here h(d.d); m=std::make_shared<SolarModel>("T"); } SOP o(p.n); PBT_CHECK(c,throws<std::runtime_error>([&]{ (void)o.SolarOscillationProbability(1e6,0.5); })&&throws<std::runtime_error>([&]{ (void)o.GetSolarModel(); }),"a probability without a Sun"); o.SetSolarModel(m); PBT_CHECK(c,o.GetSolarModel()==m,"the model given"); std::string log; give(s,o,p,log); c.log(log); bool matter=false;
  for(int k=0;k<12;k++){ double E=s.logreal(1e4,2e8),R=s.chance(1,5)?s.pick({0.0,1.0}):s.unit(); if(k==6){ unsigned j=1+(unsigned)s.below(p.n-1),i=(unsigned)s.below(j); p.th[i][j]=0.05+s.unit(); p.del[i][j]=6*s.unit(); p.dm[j]=s.logreal(1e-5,1e-1)*(s.chance(1,3)?-1:1); o.Set_MixingAngle(i,j,p.th[i][j]); o.Set_CPPhase(i,j,p.del[i][j]); o.Set_SquareMassDifference(j,p.dm[j]); c.log(fmt("%u %u: %.6g %.6g %.6g",i,j,p.th[i][j],p.del[i][j],p.dm[j])); }
    double ne=t.radial(8,R); Pee w=survival(p,E,ne),v=survival(p,E,0); if(w.gap<1e-7||v.gap<1e-7) continue; double got=o.SolarOscillationProbability(E,R); if(std::fabs(w.p-v.p)>0.01) matter=true; if(!(std::fabs(got-w.p)<=1e-12/w.gap+1e-9)) c.fail(fmt("survival of %.6g eV from %.6g of the radius (electron density %.6g): %.10g, must be %.10g",E,R,ne,got,w.p)); if(!(got>=-1e-12&&got<=1+1e-12)) c.fail(fmt("survival %.10g is no probability",got)); }
  c.nontrivial(matter); }

// integral over [0,0.99] of a function that is smooth between the rows
template<typename F> double radial(const SunTables& t,F f){ static const double X[5]={-0.9061798459386640,-0.5384693101056831,0,0.5384693101056831,0.9061798459386640},W[5]={0.2369268850561891,0.4786286704993665,0.5688888888888889,0.4786286704993665,0.2369268850561891}; V b{0,0.99}; for(double r: t.r){ double R=r/RSUN; if(R>0&&R<0.99) b.push_back(R); } std::sort(b.begin(),b.end()); double z=0; for(size_t k=1;k<b.size();k++){ int n=1+(int)(60*(b[k]-b[k-1])); double h=(b[k]-b[k-1])/n; for(int q=0;q<n;q++) for(int g=0;g<5;g++) z+=W[g]*h/2*f(b[k-1]+h*(q+0.5+X[g]/2)); } return z; }
PBT_PROP(average,3){ // over the region of production, with the lines where they are
  Tables d; SunTables t=genSun(s,(unsigned)s.range(2,6)); d.write(s,t); Setup p=genMixing(s); for(unsigned j=1;j<p.n;j++) for(unsigned i=0;i<j;i++) p.th[i][j]=std::max(p.th[i][j],0.15); c.log(p.str()); std::shared_ptr<SolarModel> m; { Here h(d.d); m=std::make_shared<SolarModel>("T"); } SOP o(p.n); o.SetSolarModel(m); std::string log; give(s,o,p,log); c.log(log); bool any=false;
  for(int k=0;k<3;k++){ double E=genE(s); bool edge=false; for(int i=0;i<8;i++) for(double l: LIM[i]) if(std::fabs(E/l-1)<1e-12) edge=true; for(double l: LINE) if(std::fabs(std::fabs(E-l)/E-1e-2)<1e-9) edge=true; if(edge) continue; c.log(fmt("E=%.12g",E));
    bool level=true; auto weight=[&](double R,bool probability){ double z=0; for(int i=0;i<8;i++){ double En=E; if(!SPEC[i]){ if(!(std::fabs(E-LIM[i][0])/E<1e-2)) continue; En=LIM[i][0]; } double f=t.flux(R,En,i); if(probability&&f!=0){ Pee w=survival(p,En,t.radial(8,R)); if(w.gap<1e-6) level=false; f*=w.p; } z+=f; } return z; };
    double norm=radial(t,[&](double R){ return weight(R,false); }); double got=o.RadialIntegratedFluxes(E); if(!(std::fabs(got-norm)<=1e-2*norm)) c.fail(fmt("flux at %.8g eV: %.8g, must be %.8g",E,got,norm)); if(!(norm>0)) continue;
    double want=radial(t,[&](double R){ return weight(R,true); })/norm; if(!level) continue; got=o.PeeSquare(E); any=true; for(int i=0;i<8;i++) if(!SPEC[i]&&std::fabs(E-LIM[i][0])/E<1e-2) c.label("line"); if(!(std::fabs(got-want)<=1e-2*want+3e-3)) c.fail(fmt("mean survival at %.8g eV: %.8g, must be %.8g",E,got,want)); }
  c.nontrivial(any); }
