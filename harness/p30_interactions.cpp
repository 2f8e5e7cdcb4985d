// P30: attenuation, neutral current and tau regeneration and the Glashow resonance follow the cascade equations
#include "nu_int.h"
using namespace pbt; using namespace nuref;
struct Wavy: Body{ double r0,a,k,y0,b; Wavy(double r0,double a,double k,double y0,double b):r0(r0),a(a),k(k),y0(y0),b(b){}
  void Serialize(hid_t) const{} double density(const GenericTrack& t) const{ return r0*(1+a*std::sin(k*t.GetX())); } double ye(const GenericTrack& t) const{ return y0*(1+b*std::cos(2*k*t.GetX())); } };
struct Leg{ std::shared_ptr<Body> body; std::shared_ptr<Track> track; std::function<std::pair<double,double>(double)> at; double x0,x1,rho; std::string name; };
static Leg genLeg(Src& s,double w,double phase){
  Leg l; double L=s.logreal(0.05,1)*phase/w; double rho= w*s.logreal(0.01,2)/HIC; l.x0= s.boolean()?0:s.real(0,2)*L; l.x1=l.x0+L; l.rho=rho;
  switch(s.below(8)){
    case 0: l.body=std::make_shared<Vacuum>(); l.track=std::make_shared<Vacuum::Track>(l.x0,l.x1); l.at=[](double){ return std::make_pair(0.0,1.0); }; l.name="vacuum"; l.rho=rho; break;
    case 1: case 2: { double a=s.real(0,0.9),k=s.real(0.5,6)/L,y0=s.real(0.1,0.6),b=s.real(0,0.6); auto y=std::make_shared<Wavy>(rho,a,k,y0,b); l.body=y; l.track=std::make_shared<ConstantDensity::Track>(l.x0,l.x1); l.at=[=](double x){ return std::make_pair(rho*(1+a*std::sin(k*x)),y0*(1+b*std::cos(2*k*x))); }; l.name=fmt("wavy rho %g a %g k %g ye %g b %g",rho,a,k,y0,b); break; }
    default: { double ye= s.chance(1,8)?0:s.chance(1,8)?1.0:s.real(0.05,1); l.body=std::make_shared<ConstantDensity>(rho,ye); l.track=std::make_shared<ConstantDensity::Track>(l.x0,l.x1); l.at=[=](double){ return std::make_pair(rho,ye); }; l.name=fmt("constant rho %g ye %g",rho,ye); } }
  l.name+=fmt(" from %g to %g",l.x0,l.x1); return l; }
static int steps(const Setup& p,const Cascade& k,double w,const Leg& l){ double pot=HIC*l.rho*2; return 60+(int)(30*((k.osc?w:0)+pot)*(l.x1-l.x0)); }

PBT_PROP(cascades,8){
  Setup p=genSetup(s,false,4,6,(NeutrinoType)0,1); Init in=genInit(s,p); double w=frequency(p); unsigned nl=(unsigned)s.range(1,2); std::vector<Leg> legs; for(unsigned i=0;i<nl;i++) legs.push_back(genLeg(s,w,4));
  Cascade k=genCascade(s,p,legs[0].rho,legs[0].x1-legs[0].x0), old=genCascade(s,p,legs[0].rho,legs[0].x1-legs[0].x0); bool mb=s.chance(1,6); bool withIso=s.boolean(); int how=(int)s.below(4); int optAt=(int)s.below(3);
  for(unsigned i=1;i<nl;i++){ double f=nucleons(legs[i].rho)*(legs[i].x1-legs[i].x0)/(nucleons(legs[0].rho)*(legs[0].x1-legs[0].x0)); if(f>1) return; } // not too deep
  c.log(p.str()+" init "+in.str()+(mb?" mass basis":"")); c.log(k.str()+fmt(" made %d options %d",how,optAt)); for(auto& l: legs) c.log(l.name);
  // the cross sections may be given at once, later, or replaced after they were tabulated
  auto lib=k.library(withIso);
  nuSQUIDS nu(p.energies(),p.n,p.NT,true,how==0?lib:how==1?nullptr:old.library(withIso));
  auto options=[&]{ if(k.tau) nu.Set_TauRegeneration(true); if(k.gr) nu.Set_GlashowResonance(true); };
  if(how==1) nu.SetNeutrinoCrossSections(lib);
  if(optAt==0) options();
  if(how>=2){ nu.InitializeInteractions(); if(optAt==1) options(); nu.SetNeutrinoCrossSections(lib); if(how==3) nu.InitializeInteractions(); }
  else if(optAt==1){ nu.InitializeInteractions(); options(); }
  if(optAt==2) options();
  p.parameters(nu); precision(nu,1e-9,in.scale); nu.Set_IncludeOscillations(k.osc); if(mb&&k.osc) nu.Set_Basis(mass);
  Tables T=tables(p,k); Rho r=start(p,in); double top=0;
  for(unsigned i=0;i<nl;i++){ Leg& l=legs[i]; nu.Set_Body(l.body); nu.Set_Track(l.track); if(i==0) setInitial(nu,p,in);
    nu.EvolveState(); top=std::max(top,cascade(p,k,T,r,l.at,nullptr,l.x0,l.x1,steps(p,k,w,l)));
    if(!matches(c,nu,p,r,4e-6*std::max(top,total(in)),fmt("after leg %u (%s)",i,l.name.c_str()))) return; }
  auto is=nu.GetInteractionStructure(); PBT_CHECK(c,is&&is->targets.size()==(k.perNucleon?2u:1u),"targets of the tables");
  c.label(k.perNucleon?"protons and neutrons":"isoscalar"); if(k.tau) c.label("tau regeneration"); if(k.gr) c.label("glashow"); if(!k.osc) c.label("no oscillations"); c.label(fmt("%zu energies",p.E.size()));
  c.nontrivial(p.E.size()>1); }

// nothing comes back: fluxes fall exponentially with the depth, however deep
PBT_PROP(attenuation,2){
  Setup p=genSetup(s,false,5,5); Init in=genInit(s,p); in.basis=flavor; Cascade k; k.osc=false; k.perNucleon=s.boolean(); double rho=s.logreal(0.1,20),ye=s.real(0.05,1),L=s.logreal(1,1e4)*U0.km,depth=s.logreal(0.01,25);
  k.iso=genXS(s,p,depth,nucleons(rho)*L,false); k.pr=genXS(s,p,depth,nucleons(rho)*L,false); k.ne=genXS(s,p,depth,nucleons(rho)*L,false); for(TestXS* x: {&k.iso,&k.pr,&k.ne}) x->k[0]=x->k[1]=0;
  c.log(p.str()+" init "+in.str()+" "+k.str()+fmt(" rho %g ye %g L %g",rho,ye,L));
  nuSQUIDS nu(p.energies(),p.n,p.NT,true,k.library()); p.parameters(nu); precision(nu,1e-9,in.scale); nu.Set_IncludeOscillations(false);
  nu.Set_Body(std::make_shared<ConstantDensity>(rho,ye)); nu.Set_Track(std::make_shared<ConstantDensity::Track>(L)); setInitial(nu,p,in); nu.EvolveState();
  double me=U0.electron_mass,mp=U0.proton_mass,mn=U0.neutron_mass,g=U0.gr*std::pow(U0.cm,-3)*rho,np=g*ye/((me+mp)*ye+mn*(1-ye)),nn=g*(1-ye)/((me+mp)*ye+mn*(1-ye)),cm2=U0.cm*U0.cm;
  for(size_t e=0;e<p.E.size();e++) for(unsigned r=0;r<p.nrho();r++) for(unsigned f=0;f<p.n;f++){
    auto sig=[&](const TestXS& x){ double t=0; for(XS::Current cu: {XS::CC,XS::NC}) t+= e? x.AverageTotalCrossSection(p.E[e-1],p.E[e],(XS::NeutrinoFlavor)f,(XS::NeutrinoType)p.anti(r),cu): x.TotalCrossSection(p.E[0],(XS::NeutrinoFlavor)f,(XS::NeutrinoType)p.anti(r),cu); return t*cm2; };
    double lam= f>2?0: k.perNucleon? np*sig(k.pr)+nn*sig(k.ne): nucleons(rho)*sig(k.iso),want=in.v[e][r][f]*std::exp(-lam*L),got=nu.EvalFlavorAtNode(f,e,r);
    PBT_CHECK(c,std::fabs(got-want)<=2e-6*total(in),fmt("flavor %u energy %zu rho %u: got %.10g want %.10g",f,e,r,got,want)); }
  c.nontrivial(depth>0.1); }

// what cannot be done is refused
PBT_PROP(refused,1){
  Setup p=genSetup(s,false,4,4,(NeutrinoType)0,2); Cascade k=genCascade(s,p,3,100*U0.km); int what=(int)s.below(6); c.log(p.str()+fmt(" what %d",what)); c.nontrivial(true);
  Init in=genInit(s,p); auto body=std::make_shared<ConstantDensity>(3,0.5); auto track=std::make_shared<ConstantDensity::Track>(U0.km);
  auto go=[&](nuSQUIDS& nu){ precision(nu,1e-6,in.scale); nu.Set_Body(body); nu.Set_Track(track); setInitial(nu,p,in); nu.EvolveState(); };
  if(what==0){ // unusable cross sections
    Cascade b=k; double bad=s.pick({-1e-40,HUGE_VAL,std::nan("")}); int w=(int)s.below(2); TestXS& x= b.perNucleon?(s.boolean()?b.pr:b.ne):b.iso; x.bad=bad; x.badWhat=w;
    nuSQUIDS nu(p.energies(),p.n,p.NT,true,b.library()); PBT_CHECK(c,throws<std::runtime_error>([&]{ go(nu); }),fmt("cross sections with %s %g were used",w?"differential":"total",bad)); c.label("bad values");
    PBT_CHECK(c,throws<std::runtime_error>([&]{ nu.EvolveState(); }),fmt("cross sections with %s %g were used the second time",w?"differential":"total",bad)); }
  else if(what==1){ auto l=std::make_shared<CrossSectionLibrary>(); if(s.boolean()) l->addTarget(s.boolean()?proton:neutron,sxs(k.pr)); l->addTarget(electron,sxs(k.el));
    nuSQUIDS nu(p.energies(),p.n,p.NT,true,l); PBT_CHECK(c,throws<std::runtime_error>([&]{ go(nu); }),"evolved without nucleons to hit"); c.label("no nucleons"); PBT_CHECK(c,throws<std::runtime_error>([&]{ nu.EvolveState(); }),"evolved without nucleons to hit the second time"); }
  else if(what==2){ auto l=std::make_shared<CrossSectionLibrary>(); l->addTarget(isoscalar_nucleon,sxs(k.iso)); nuSQUIDS nu(p.energies(),p.n,p.NT,true,l); bool late=s.boolean();
    if(p.NT==neutrino){ nu.Set_GlashowResonance(true); c.label("glashow without effect"); go(nu); }
    else{ PBT_CHECK(c,throws<std::runtime_error>([&]{ if(late) nu.InitializeInteractions(); nu.Set_GlashowResonance(true); go(nu); }),"the Glashow resonance without electrons to hit"); c.label("no electrons"); if(late){ go(nu); for(unsigned f=0;f<p.n;f++) for(size_t e=0;e<p.E.size();e++) PBT_CHECK(c,std::isfinite(nu.EvalFlavorAtNode(f,e,0)),"evolved after the resonance was refused"); } } }
  else if(what==3){ nuSQUIDS nu(p.energies(),p.n,p.NT,false,k.library()); PBT_CHECK(c,throws<std::runtime_error>([&]{ nu.Set_TauRegeneration(true); }),"tau regeneration without interactions"); PBT_CHECK(c,throws<std::runtime_error>([&]{ nu.Set_GlashowResonance(true); }),"Glashow resonance without interactions"); nu.Set_TauRegeneration(false); nu.Set_GlashowResonance(false);
    p.parameters(nu); precision(nu,1e-9,in.scale); nu.Set_Body(body); nu.Set_Track(track); setInitial(nu,p,in); nu.EvolveState(); Rho r=start(p,in); constantStep(p,r,3,0.5,U0.km); if(!matches(c,nu,p,r,3e-6*total(in),"without interactions")) return; c.label("off"); }
  else if(what==4){ if(p.NT==both) return; nuSQUIDS nu(p.energies(),p.n,p.NT,true,k.library()); PBT_CHECK(c,throws<std::runtime_error>([&]{ nu.Set_TauRegeneration(true); }),"tau regeneration of only neutrinos or antineutrinos"); c.label("tau of one kind"); }
  else{ nuSQUIDS nu(p.n,s.boolean()?neutrino:antineutrino); PBT_CHECK(c,throws<std::runtime_error>([&]{ nu.Set_TauRegeneration(true); })&&throws<std::runtime_error>([&]{ nu.Set_GlashowResonance(true); }),"interactions of a single energy"); c.label("single energy"); } }
