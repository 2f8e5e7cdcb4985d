// P32: the positivity constraint removes negative fluxes at its steps and does nothing else
#include "nu_int.h"
using namespace pbt; using namespace nuref;
struct Matter: Body{ double r0,a,k,y0,x0; V q; unsigned nr,n; bool inject=false; Matter(double r0,double a,double k,double y0,double x0,bool flat):r0(r0),a(a),k(k),y0(y0),x0(x0),nr(1),n(3){ if(flat) is_constant_density=true; }
  void Serialize(hid_t) const{} double density(const GenericTrack& t) const{ return r0*(1+a*std::sin(k*(t.GetX()-x0))); } double ye(const GenericTrack&) const{ return y0; }
  void injected_neutrino_flux(marray<double,3>& f,const GenericTrack&,const nuSQUIDS&) override{ if(inject) for(size_t i=0;i<q.size();i++) f[i/(nr*n)][(i/n)%nr][i%n]=q[i]; } };
static double clip(const Setup& p,Rho& r){ double m=0; for(auto& e: r) for(auto& k: e) for(unsigned f=0;f<p.n;f++){ double v=k(f,f).real(); if(v<0){ m=std::max(m,-v); k(f,f)-=v; } } return m; }

PBT_PROP(positive,40){
  bool single=s.chance(1,4); Setup p=genSetup(s,single,5,4); bool neg=s.chance(3,4); Init in=genInit(s,p,!neg); double w=frequency(p); bool inter= !single&&s.chance(1,3),mb=s.chance(1,5),sources=s.chance(1,3); unsigned nl=(unsigned)s.range(1,2);
  double L0=s.logreal(0.1,1)*4/w,rho0=w*s.logreal(0.01,1)/HIC; Cascade k; if(inter) k=genCascade(s,p,rho0,L0*nl); else{ k.on=false; k.osc=s.chance(3,4); } if(!k.osc) mb=false; if(k.tau){ neg=false; for(auto& e: in.v) for(auto& r: e) for(double& v: r) v=std::fabs(v); } // whether negative tau fluxes regenerate depends on rounding
  double step= L0*s.pick({0.02,0.1,0.25,0.5,1.0,3.0})*(s.boolean()?1.0:s.real(0.5,1)); bool on=true; bool dflt=s.chance(1,16); if(dflt) step=300*U0.km; if(L0*2/step>200) return;
  std::unique_ptr<nuSQUIDS> nu(single? new nuSQUIDS(p.n,p.NT): inter? new nuSQUIDS(p.energies(),p.n,p.NT,true,k.library()): new nuSQUIDS(p.energies(),p.n,p.NT));
  c.log(p.str()+" init "+in.str()+(mb?" mass basis":"")+fmt(" step %g",step)); if(inter) c.log(k.str());
  if(inter){ if(k.tau) nu->Set_TauRegeneration(true); if(k.gr) nu->Set_GlashowResonance(true); } if(sources) nu->Set_NeutrinoSources(true);
  p.parameters(*nu); if(single) nu->Set_E(p.E[0]); precision(*nu,1e-9,in.scale); nu->Set_IncludeOscillations(k.osc); if(mb) nu->Set_Basis(mass); nu->Set_PositivityConstrain(true); if(!dflt) nu->Set_PositivityConstrainStep(step); nu->Set_AllowConstantDensityOscillationOnlyEvolution(!neg&&s.boolean());
  Tables T=tables(p,k); Rho r=start(p,in); double top=total(in),rounding=0,removed=0; size_t steps=0;
  for(unsigned i=0;i<nl;i++){
    if(i&&s.chance(1,4)){ on=!on; nu->Set_PositivityConstrain(on); }
    double x0= s.boolean()?0:s.real(0,2)*L0,x1=x0+(s.chance(1,4)?step*(double)s.range(1,4):L0*s.real(0.3,1)); bool flat=s.boolean(),rev= !inter&&s.chance(1,5); if((x1-x0)*std::max(w,HIC*rho0)>40) return;
    auto b=std::make_shared<Matter>(rho0*s.real(0.1,1),flat?0:s.real(0,0.9),s.real(1,8)/L0,s.real(0.05,0.95),x0,flat); b->nr=p.nrho(); b->n=p.n;
    if(sources){ b->inject=true; b->q.assign(p.E.size()*b->nr*b->n,0.0); for(double& v: b->q){ double u=s.real(-1,1); if(s.boolean()) v=in.scale*(k.tau?std::fabs(u):u)/L0; } }
    auto track=std::make_shared<ConstantDensity::Track>(x0,x1); if(rev) track->ReverseTrack(); double a=track->GetInitialX(),e=track->GetFinalX(),len=e-a;
    c.log(fmt("leg %g to %g rho %g/%g k %g ye %g%s%s ",a,e,b->r0,b->a,b->k,b->y0,flat?" flat":"",on?"":" off")+strv(b->q,3));
    nu->Set_Body(b); nu->Set_Track(track); if(i==0) setInitial(*nu,p,in); nu->EvolveState();
    double st= on?step:std::fabs(len); int m=(int)std::floor(std::fabs(len)/st*(1+1e-12)); double done=0; Source src=[&](size_t en,unsigned rr,unsigned f,double){ return b->q[(en*b->nr+rr)*b->n+f]; };
    auto at=[&](double x){ return std::make_pair(b->r0*(1+b->a*std::sin(b->k*(x-x0))),b->y0); };
    for(int j=0;j<=m;j++){ double h= j<m?st:std::fabs(len)-done; if(h<=1e-9*std::fabs(len)) break; double f0=a+(len>0?done:-done),f1=a+(len>0?done+h:-done-h); done+=h;
      int ns=12+(int)(30*((k.osc?w:0)+HIC*b->r0*2+(flat?0:b->k))*h); top=std::max(top,cascade(p,k,T,r,at,sources?&src:nullptr,f0,f1,ns)); steps++; if(on) removed=std::max(removed,clip(p,r)); }
    rounding+=4e-6*top+1e-8*top*m;
    if(!matches(c,*nu,p,r,rounding,fmt("after leg %u",i))) return;
    if(on) for(size_t en=0;en<p.E.size();en++) for(unsigned rr=0;rr<p.nrho();rr++) for(unsigned f=0;f<p.n;f++){ double v=single?nu->EvalFlavor(f):nu->EvalFlavorAtNode(f,en,rr); PBT_CHECK(c,v>=-1e-9*top,fmt("flavor %u energy %zu rho %u is %g",f,en,rr,v)); } }
  c.label(removed>1e-4*top?"something negative removed":"nothing negative"); if(inter) c.label("interactions"); if(sources) c.label("sources"); c.label(steps>nl?"several steps":"one step");
  c.nontrivial(removed>1e-4*top&&steps>nl); }

PBT_PROP(refused,1){
  nuSQUIDS nu(3,neutrino); double bad=s.pick({0.0,-1.0,-0.0,-HUGE_VAL,std::nan("")}); c.log(fmt("step %g",bad)); c.nontrivial(true);
  PBT_CHECK(c,throws<std::runtime_error>([&]{ nu.Set_PositivityConstrainStep(bad); }),fmt("step %g accepted",bad)); }
