// P29: evolution through matter that varies along the track
#include "nu_ref.h"
using namespace pbt; using namespace nuref;

static const double KM=U0.km;
// a body of the user's own
struct Wavy: Body{ double r0,a,k,y0,b; Wavy(double r0,double a,double k,double y0,double b):r0(r0),a(a),k(k),y0(y0),b(b){}
  void Serialize(hid_t) const{} double density(const GenericTrack& t) const{ return r0*(1+a*std::sin(k*t.GetX())); } double ye(const GenericTrack& t) const{ return y0*(1+b*std::cos(2*k*t.GetX())); } };
struct Way{ std::shared_ptr<Body> body; std::shared_ptr<Track> track; std::string name; int slices; double tol; bool constant=false; };
static std::shared_ptr<Body> earth(){ static std::shared_ptr<Body> e=std::make_shared<Earth>(); return e; }
static std::shared_ptr<EarthAtm> earthAtm(){ static std::shared_ptr<EarthAtm> e=std::make_shared<EarthAtm>(); return e; }
static std::shared_ptr<Body> sun(){ static std::shared_ptr<Body> e=std::make_shared<Sun>(); return e; }
static Way genWay(Src& s,double w){ // w: the fastest vacuum frequency
  Way y; double phase=s.logreal(0.1,8),L=phase/w; double pot=w*s.logreal(0.05,1.5),rho=pot/HIC; int kind=(int)s.below(7);
  auto span=[&](double lo,double len){ double a=lo,b=lo+len; return std::make_pair(a,b); };
  switch(kind){
    case 0: case 1: { double a=s.real(0,0.9),k=s.real(0.5,10)/L,y0=s.real(0.1,0.6),b=s.real(0,0.6),off=s.boolean()?s.real(0,3)*L:0; y.body=std::make_shared<Wavy>(rho,a,k,y0,b); auto x=span(off,L); y.track=std::make_shared<ConstantDensity::Track>(x.first,x.second); y.name=fmt("wavy rho %g a %g k %g ye %g b %g",rho,a,k,y0,b); y.slices=300; y.tol=2e-6; break; }
    case 2: { int n=(int)s.range(5,12); V x(n),r(n),ye(n); double f=0; for(int i=0;i<n;i++){ x[i]=f; f+=0.2+s.unit(); } for(int i=0;i<n;i++){ x[i]*=L/x[n-1]; r[i]=rho*s.real(0.2,1.5); ye[i]=s.real(0.1,0.9); } x[n-1]=L; double from=s.boolean()?0:s.real(0,0.4)*L,to=s.boolean()?L:s.real(0.6,1)*L;
      y.body=std::make_shared<VariableDensity>(x,r,ye); y.track=std::make_shared<VariableDensity::Track>(from,to); y.name="variable "+strv(x,5)+strv(r,5)+strv(ye,5); y.slices=1500; y.tol=2e-4; break; }
    case 3: { double b=KM*s.real(100,12742); if(b*w>12) b=12/w; y.body=earth(); y.track=std::make_shared<Earth::Track>(b); y.name="earth"; y.slices=3000; y.tol=2e-3; break; }
    case 4: { double cz=s.boolean()?s.real(-1,1):s.real(-1,-0.8); auto t=earthAtm()->MakeTrackWithCosine(cz); double len=t.GetFinalX(); if(len*w>12) cz=1; y.body=earthAtm(); y.track=std::make_shared<EarthAtm::Track>(earthAtm()->MakeTrackWithCosine(cz)); y.name=fmt("earthatm cos %g",cz); y.slices=3000; y.tol=2e-3; break; }
    case 5: { double a=s.real(0.05,0.8)*695980*KM,len=std::min(L,500*KM); y.body=sun(); y.track=std::make_shared<Sun::Track>(a,a+len); y.name="sun"; y.slices=400; y.tol=1e-4; break; }
    default: { double off=s.boolean()?s.real(0,3)*L:0,ye=s.unit(); y.body=std::make_shared<ConstantDensity>(rho,ye); y.track=std::make_shared<ConstantDensity::Track>(off,off+L); y.name=fmt("constant %g ye %g",rho,ye); y.slices=1; y.tol=2e-6; y.constant=true; } }
  y.name+=fmt(" track %g..%g",y.track->GetInitialX(),y.track->GetFinalX());
  return y; }
static std::shared_ptr<Track> copyTrack(const Way& y){ // the harness's own copy to read densities with
  if(auto* t=dynamic_cast<Earth::Track*>(y.track.get())) return std::make_shared<Earth::Track>(*t);
  if(auto* t=dynamic_cast<EarthAtm::Track*>(y.track.get())) return std::make_shared<EarthAtm::Track>(*t);
  if(auto* t=dynamic_cast<VariableDensity::Track*>(y.track.get())) return std::make_shared<VariableDensity::Track>(*t);
  if(auto* t=dynamic_cast<Sun::Track*>(y.track.get())) return std::make_shared<Sun::Track>(*t);
  return std::make_shared<ConstantDensity::Track>(*dynamic_cast<ConstantDensity::Track*>(y.track.get())); }
static void follow(const Setup& p,Rho& r,const Way& y,double x0,double x1){ auto t=copyTrack(y);
  variableStep(p,r,[&](double d){ t->SetX(x0+d); return std::make_pair(y.body->density(*t),y.body->ye(*t)); },x1-x0,y.slices); }
static std::unique_ptr<nuSQUIDS> make(const Setup& p,const Init& in,bool massBasis){
  std::unique_ptr<nuSQUIDS> nu(p.single? new nuSQUIDS(p.n,p.NT): new nuSQUIDS(p.energies(),p.n,p.NT));
  p.parameters(*nu); if(p.single) nu->Set_E(p.E[0]); precision(*nu,1e-9,in.scale); if(massBasis) nu->Set_Basis(mass); return nu; }
static double freq(const Setup& p){ double k=p.dmmax(); return (k==0?2.5e-3:k)/(2*p.E[0]); }

// several bodies one after another, against slices
PBT_PROP(against_slices,5){
  Setup p=genSetup(s,s.boolean(),4,2); Init in=genInit(s,p); bool mb=s.chance(1,5); double w=freq(p);
  c.log(p.str()+" init "+in.str()+(mb?" mass basis":"")); auto nu=make(p,in,mb); Rho r=start(p,in); double tol=0; unsigned nl=(unsigned)s.range(1,2);
  for(unsigned i=0;i<nl;i++){ Way y=genWay(s,w); bool rev=s.chance(1,6); c.log(y.name+(rev?" backwards":"")); if(rev) y.track->ReverseTrack(); double x0=y.track->GetInitialX(),x1=y.track->GetFinalX();
    nu->Set_Body(y.body); nu->Set_Track(y.track); if(i==0) setInitial(*nu,p,in);
    nu->EvolveState(); follow(p,r,y,x0,x1); tol+=y.tol*total(in);
    if(!matches(c,*nu,p,r,tol,fmt("after leg %u",i))) return;
    PBT_CHECK(c,close(nu->GetTrack()->GetX(),x1,1e-9,1e-9*std::fabs(x1-x0)),fmt("the track stands at %g of %g..%g",nu->GetTrack()->GetX(),x0,x1));
    c.label(y.name.substr(0,y.name.find(' '))); }
  c.nontrivial(p.dmmax()>0); }

// a track evolved whole, and in pieces
PBT_PROP(pieces,2){
  Setup p=genSetup(s,s.boolean(),4,2); Init in=genInit(s,p); double w=freq(p);
  double phase=s.logreal(0.5,10),L=phase/w,rho=w*s.logreal(0.05,1.5)/HIC,a=s.real(0,0.9),k=s.real(0.5,10)/L,y0=s.real(0.1,0.6),b=s.real(0,0.6),off=s.boolean()?s.real(0,3)*L:0;
  auto body=std::make_shared<Wavy>(rho,a,k,y0,b); unsigned m=(unsigned)s.range(2,4); V cut{off}; for(unsigned i=1;i<m;i++) cut.push_back(off+L*s.unit()); cut.push_back(off+L); std::sort(cut.begin(),cut.end());
  bool sameTrack=s.boolean();
  c.log(p.str()+" init "+in.str()+fmt(" rho %g a %g k %g ye %g b %g cuts ",rho,a,k,y0,b)+strv(cut,6));
  auto A=make(p,in,false),B=make(p,in,false);
  A->Set_Body(body); A->Set_Track(std::make_shared<ConstantDensity::Track>(cut.front(),cut.back())); setInitial(*A,p,in); A->EvolveState();
  B->Set_Body(body); B->Set_Track(std::make_shared<ConstantDensity::Track>(cut[0],cut[1])); setInitial(*B,p,in); B->EvolveState();
  for(unsigned i=1;i<m;i++){ B->Set_Track(std::make_shared<ConstantDensity::Track>(cut[i],cut[i+1])); if(sameTrack) B->Set_Body(body); B->EvolveState(); }
  for(size_t e=0;e<p.E.size();e++) for(unsigned q=0;q<p.nrho();q++) for(unsigned f=0;f<p.n;f++){
    double x=p.single?A->EvalFlavor(f):A->EvalFlavorAtNode(f,e,q),z=p.single?B->EvalFlavor(f):B->EvalFlavorAtNode(f,e,q); PBT_CHECK(c,std::fabs(x-z)<=5e-6*total(in),fmt("flavor %u energy %zu rho %u: whole %.10g in pieces %.10g",f,e,q,x,z));
    double u=p.single?A->EvalMass(f):A->EvalMassAtNode(f,e,q),v=p.single?B->EvalMass(f):B->EvalMassAtNode(f,e,q); PBT_CHECK(c,std::fabs(u-v)<=5e-6*total(in),fmt("mass %u energy %zu rho %u: whole %.10g in pieces %.10g",f,e,q,u,v)); }
  c.nontrivial(p.dmmax()>0); }

// there and back again
PBT_PROP(back,2){
  Setup p=genSetup(s,s.boolean(),5,2); Init in=genInit(s,p); bool mb=s.chance(1,5); double w=freq(p);
  c.log(p.str()+" init "+in.str()+(mb?" mass basis":"")); auto nu=make(p,in,mb); unsigned nl=(unsigned)s.range(1,3); std::vector<Way> ways; Rho r=start(p,in);
  for(unsigned i=0;i<nl;i++){ Way y=genWay(s,w); c.log(y.name); ways.push_back(y); nu->Set_Body(y.body); nu->Set_Track(y.track); if(i==0) setInitial(*nu,p,in); nu->EvolveState(); }
  for(unsigned i=nl;i-->0;){ auto t=copyTrack(ways[i]); t->ReverseTrack(); t->SetX(t->GetInitialX()); nu->Set_Body(ways[i].body); nu->Set_Track(t); nu->EvolveState(); }
  if(!matches(c,*nu,p,r,2e-5*total(in),"there and back")) return;
  c.nontrivial(p.dmmax()>0); }

// the low-pass filter removes the matter term's fast oscillating parts and nothing else
PBT_PROP(lowpass,1){
  Setup p=genSetup(s,s.boolean(),4,2); Init in=genInit(s,p); double w=freq(p),L=s.logreal(0.3,6)/w,rho=w*s.logreal(0.05,1.5)/HIC,ye=s.real(0.1,0.9);
  V om; for(double e: p.E) for(unsigned i=0;i<p.n;i++) for(unsigned j=i+1;j<p.n;j++) om.push_back(std::fabs(p.dm[i]-p.dm[j])/(2*e)); double top=*std::max_element(om.begin(),om.end());
  double cut= top*s.pick({1.5,0.7,0.3,0.05}),ramp= s.boolean()?0:cut*s.real(0.1,1);
  c.log(p.str()+" init "+in.str()+fmt(" L %g rho %g ye %g cutoff %g ramp %g",L,rho,ye,cut,ramp));
  for(double o: om) if(std::fabs(o-cut)<1e-6*cut) return; // rounding would decide
  if(top==0) return;
  auto nu=make(p,in,false); nu->Set_EvolLowPassCutoff(cut); nu->Set_EvolLowPassScale(ramp); nu->Set_Body(std::make_shared<ConstantDensity>(rho,ye)); nu->Set_Track(std::make_shared<ConstantDensity::Track>(L)); setInitial(*nu,p,in); nu->EvolveState();
  Rho r=start(p,in); int steps=2500; double h=L/steps;
  for(size_t e=0;e<p.E.size();e++) for(unsigned k=0;k<p.nrho();k++){
    M u=p.mixing(k),g=u.dag()*r[e][k]*u,v=u.dag()*p.matter(rho,ye,k)*u; // mass basis, interaction picture
    for(unsigned i=0;i<p.n;i++) for(unsigned j=0;j<p.n;j++) if(i!=j){ double o=std::fabs(p.dm[i]-p.dm[j])/(2*p.E[e]),f=1; if(o>cut) f=0; else if(ramp>0&&o>cut-ramp) f=(cut-o)/ramp; v(i,j)*=f; }
    auto H=[&](double t){ M x(v); for(unsigned i=0;i<p.n;i++) for(unsigned j=0;j<p.n;j++) x(i,j)*=std::polar(1.0,(p.dm[i]-p.dm[j])/(2*p.E[e])*t); return x; };
    for(int q=0;q<steps;q++){ const double z=std::sqrt(3.0)/6; M A=H((q+0.5-z)*h),B=H((q+0.5+z)*h); M a=C(0.25+z)*A+C(0.25-z)*B,b=C(0.25-z)*A+C(0.25+z)*B; M s1=propagator(b,h)*propagator(a,h); g=s1*g*s1.dag(); }
    V d(p.n); for(unsigned i=0;i<p.n;i++) d[i]=p.dm[i]/(2*p.E[e]); M s0=propagator(M::diag(d),L); g=s0*g*s0.dag(); r[e][k]=u*g*u.dag(); }
  if(!matches(c,*nu,p,r,1e-5*total(in),fmt("cutoff %g of the highest frequency",cut/top))) return;
  c.nontrivial(cut<top); }
