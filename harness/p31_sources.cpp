// P31: what bodies inject is added, where and when they inject it
#include "nu_int.h"
using namespace pbt; using namespace nuref;
struct Shape{ V a; unsigned nr=1,n=3; double r0=0,ra=0,y0=0.5,k=0,ph=0,x0=0; int form=0; // form: 0 steady, 1 wave, 2 on and off
  double amount(double x) const{ return form==0?1: form==1?1+0.7*std::sin(k*(x-x0)+ph): std::pow(std::max(0.0,std::sin(k*(x-x0)+ph)),4); }
  double value(size_t e,unsigned r,unsigned f,double x) const{ return a.empty()?0:a[(e*nr+r)*n+f]*amount(x); }
  std::pair<double,double> at(double x) const{ return {r0*(1+ra*std::sin(k*(x-x0))),y0}; } };
struct Emitter: Body{ Shape q; int how; mutable int calls=0; mutable std::string wrong; const nuSQUIDS* owner=nullptr; size_t ne; bool flat;
  Emitter(const Shape& q,int how,size_t ne,bool flat):q(q),how(how),ne(ne),flat(flat){ if(flat) is_constant_density=true; }
  void Serialize(hid_t) const{} double density(const GenericTrack& t) const{ return q.at(t.GetX()).first; } double ye(const GenericTrack&) const{ return q.y0; }
  void injected_neutrino_flux(marray<double,3>& flux,const GenericTrack& t,const nuSQUIDS& nu) override{ calls++;
    if(&nu!=owner) wrong="asked on behalf of another object";
    if(flux.extent(0)!=ne||flux.extent(1)!=q.nr||flux.extent(2)!=q.n){ wrong="the container has the wrong extents"; return; }
    double x=t.GetX(); if(how==2&&q.amount(x)==0) return; // nothing here
    for(size_t e=0;e<ne;e++) for(unsigned r=0;r<q.nr;r++) for(unsigned f=0;f<q.n;f++){ double v=q.value(e,r,f,x); if(how>=1&&v==0) continue; flux[e][r][f]=v; } } };
struct Quiet: Body{ Shape q; Quiet(const Shape& q):q(q){} void Serialize(hid_t) const{} double density(const GenericTrack& t) const{ return q.at(t.GetX()).first; } double ye(const GenericTrack&) const{ return q.y0; } };
static Shape genShape(Src& s,const Setup& p,double scale,double x0,double L,double rho){
  Shape q; q.nr=p.nrho(); q.n=p.n; q.x0=x0; q.form=(int)s.below(3); q.k=s.real(1,8)/L; q.ph=s.real(0,6); q.r0=rho; q.ra= s.boolean()?s.real(0,0.9):0; q.y0=s.real(0.05,0.95);
  int sparse=(int)s.below(3); q.a.assign(p.E.size()*q.nr*q.n,0.0); for(double& v: q.a){ bool z= sparse==1?s.chance(1,2):sparse==2?s.chance(7,8):false; double u=s.unit(); if(!z) v=scale/L*u*(s.chance(1,10)?-1:1); } if(sparse==2) q.a[s.below(q.a.size())]=scale/L;
  return q; }

PBT_PROP(sources,1){
  bool single=s.chance(1,4); Setup p=genSetup(s,single,5,5); Init in=genInit(s,p); if(s.chance(1,5)) for(auto& a: in.v) for(auto& b: a) for(double& v: b) v=0;
  double w=frequency(p); bool inter= !single&&s.chance(3,5); unsigned nl=(unsigned)s.range(1,3); bool mb=s.chance(1,5),fast=s.boolean(),early=s.boolean();
  double L0=s.logreal(0.05,1)*4/w,rho0=w*s.logreal(0.01,1)/HIC; Cascade k; if(inter) k=genCascade(s,p,rho0,L0*nl); else{ k.on=false; k.osc=s.chance(3,4); }
  if(!k.osc) mb=false;
  std::unique_ptr<nuSQUIDS> nu(single? new nuSQUIDS(p.n,p.NT): inter? new nuSQUIDS(p.energies(),p.n,p.NT,true,k.library()): new nuSQUIDS(p.energies(),p.n,p.NT));
  c.log(p.str()+" init "+in.str()+(mb?" mass basis":"")+(fast?" fast":"")); if(inter) c.log(k.str());
  if(inter){ if(k.tau) nu->Set_TauRegeneration(true); if(k.gr) nu->Set_GlashowResonance(true); }
  if(early) nu->Set_NeutrinoSources(true);
  p.parameters(*nu); if(single) nu->Set_E(p.E[0]); precision(*nu,1e-9,in.scale); nu->Set_IncludeOscillations(k.osc); if(mb) nu->Set_Basis(mass); nu->Set_AllowConstantDensityOscillationOnlyEvolution(fast);
  Tables T=tables(p,k); Rho r=start(p,in); double top=total(in),rounding=0; bool on=early,some=false;
  for(unsigned i=0;i<nl;i++){
    double x0= s.boolean()?0:s.real(0,2)*L0,x1=x0+L0*s.real(0.3,1); bool rev= !inter&&s.chance(1,6); int kind=(int)s.below(4); bool want= !s.chance(1,4);
    Shape q=genShape(s,p,in.scale*s.logreal(0.01,3),x0,x1-x0,rho0*s.real(0.2,1)); int how=(int)s.below(3); bool flat=s.boolean(); if(flat) q.ra=0;
    std::shared_ptr<Body> body; std::shared_ptr<Emitter> em;
    if(kind==0){ q.a.clear(); q.ra=0; body=std::make_shared<ConstantDensity>(q.r0,q.y0); }
    else if(kind==1&&i>0){ q.a.clear(); body=std::make_shared<Quiet>(q); }
    else{ em=std::make_shared<Emitter>(q,how,p.E.size(),flat); em->owner=nu.get(); body=em; }
    auto track=std::make_shared<ConstantDensity::Track>(x0,x1); if(rev) track->ReverseTrack(); double a=track->GetInitialX(),b=track->GetFinalX();
    c.log(fmt("leg %g to %g rho %g/%g ye %g k %g form %d how %d%s%s %s ",a,b,q.r0,q.ra,q.y0,q.k,q.form,how,flat?" flat":"",em?"":" silent",want?"on":"off")+strv(q.a,3));
    nu->Set_Body(body); nu->Set_Track(track); if(want!=on||s.chance(1,8)){ nu->Set_NeutrinoSources(want); on=want; } if(i==0) setInitial(*nu,p,in);
    PBT_CHECK(c,nu->Get_NeutrinoSources()==on,"Get_NeutrinoSources");
    if(em) em->calls=0; nu->Set_h((x1-x0)/80); nu->Set_h_max((x1-x0)/40); // not to step over a source that sets in
    nu->EvolveState(); Source src=[&](size_t e,unsigned rr,unsigned f,double x){ return q.value(e,rr,f,x); };
    double pot=HIC*rho0*2; int st=80+(int)(30*((k.osc?w:0)+pot+(em?q.k:0)+q.k*(q.ra>0))*std::fabs(b-a));
    top=std::max(top,cascade(p,k,T,r,[&](double x){ return q.at(x); },on&&em?&src:nullptr,a,b,st)); top=std::max(top,in.scale*0.05); rounding+=4e-6*top;
    if(em&&on){ PBT_CHECK(c,em->wrong.empty(),em->wrong); PBT_CHECK(c,em->calls>0,"the body was never asked"); some=true; }
    if(em&&!on) PBT_CHECK(c,em->calls==0,"the body was asked although sources are off");
    if(!matches(c,*nu,p,r,rounding,fmt("after leg %u",i))) return; }
  if(inter) c.label("interactions"); if(!k.osc) c.label("no oscillations"); if(single) c.label("single energy"); c.label(fmt("%u legs",nl));
  c.nontrivial(some); }
