// objects with histories: what to make, and up to three legs through bodies
#ifndef PBT_NU_WHAT_H
#define PBT_NU_WHAT_H
#include "nu_int.h"
#include <sstream>
#include <iostream>
namespace nuref{ using pbt::Src; using pbt::fmt;
struct Silence{ Silence(){ static std::ostringstream sink; std::cout.rdbuf(sink.rdbuf()); std::cerr.rdbuf(sink.rdbuf()); } }; static Silence silence;
struct What{ Setup p; Init in; Cascade k; double w,L,rho; bool mb,fast; std::vector<std::pair<std::shared_ptr<Body>,std::function<std::shared_ptr<Track>()>>> legs; unsigned before; bool again=false; std::string s; }; // again: the initial state is set once more after the legs before
inline What genWhat(Src& s,bool wantInter=false,const Setup* like=nullptr){
  What q; bool single= !like&&!wantInter&&s.chance(1,4); q.p=genSetup(s,single,5,6); if(like){ Setup o=*like; q.p=o; } q.in=genInit(s,q.p); q.w=frequency(q.p); q.L=s.logreal(0.05,1)*3/q.w; q.rho=q.w*s.logreal(0.01,1)/HIC; bool inter= !q.p.single&&(wantInter||s.boolean());
  if(inter) q.k=genCascade(s,q.p,q.rho,q.L*3); else{ q.k.on=false; q.k.osc=s.chance(7,8); } q.mb=q.k.osc&&s.chance(1,5); q.fast=s.boolean(); q.before=(unsigned)s.below(3); q.s=q.p.str()+" init "+q.in.str()+(inter?" "+q.k.str():q.k.osc?"":" no oscillations")+(q.mb?" mass":"")+(q.fast?" fast":"");
  for(unsigned i=0;i<3;i++){ double x0=s.boolean()?0:s.real(0,2)*q.L,x1=x0+q.L*s.real(0.3,1),rho=q.rho*s.real(0.2,1),ye=s.real(0.05,0.95); bool rev= !inter&&s.chance(1,8); std::shared_ptr<Body> b; std::function<std::shared_ptr<Track>()> t; int kind=(int)s.below(4);
    auto turn=[rev](std::shared_ptr<Track> t){ if(rev) t->ReverseTrack(); return t; };
    if(kind==0){ b=std::make_shared<Vacuum>(); t=[=]{ return turn(std::make_shared<Vacuum::Track>(x0,x1)); }; }
    else if(kind==1){ V x,r,y; for(int j=0;j<8;j++){ x.push_back(x1*1.01*j/7); r.push_back(rho*(1+0.4*std::sin(j+ye*6))); y.push_back(0.3+0.2*std::cos(j*ye)); } b=std::make_shared<VariableDensity>(x,r,y); t=[=]{ return turn(std::make_shared<VariableDensity::Track>(x0,x1)); }; }
    else{ b=std::make_shared<ConstantDensity>(rho,ye); t=[=]{ return turn(std::make_shared<ConstantDensity::Track>(x0,x1)); }; }
    q.s+=fmt("; leg %s %g..%g%s rho %g ye %g",kind==0?"vacuum":kind==1?"variable":"constant",x0,x1,rev?" reversed":"",rho,ye); q.legs.push_back({b,t}); }
  q.s+=fmt("; %u legs before",q.before); return q; }
template<typename N> std::unique_ptr<N> build(const What& q){
  std::unique_ptr<N> nu(q.p.single? new N(q.p.n,q.p.NT): q.k.on? new N(q.p.energies(),q.p.n,q.p.NT,true,q.k.library()): new N(q.p.energies(),q.p.n,q.p.NT));
  if(q.k.on){ if(q.k.tau) nu->Set_TauRegeneration(true); if(q.k.gr) nu->Set_GlashowResonance(true); } q.p.parameters(*nu); if(q.p.single) nu->Set_E(q.p.E[0]); nu->Set_IncludeOscillations(q.k.osc); if(q.mb) nu->Set_Basis(mass); return nu; }
template<typename N> void settings(N& nu,const What& q){ precision(nu,1e-9,q.in.scale); nu.Set_AllowConstantDensityOscillationOnlyEvolution(q.fast); }
template<typename N> void leg(N& nu,const What& q,unsigned i,bool first){ nu.Set_Body(q.legs[i].first); nu.Set_Track(q.legs[i].second()); if(first) setInitial(nu,q.p,q.in); }
}
#endif
