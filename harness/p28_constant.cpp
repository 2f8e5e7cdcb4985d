// P28: evolution in vacuum and in matter of constant density is the exact solution
#include "nu_ref.h"
using namespace pbt; using namespace nuref;

struct Leg{ double rho,ye,L; int kind; }; // kind 0 vacuum, 1 constant density
static Leg genLeg(Src& s,const Setup& p,double phase){
  Leg l; l.kind= s.chance(1,3)?0:1; double k=p.dmmax(); if(k==0) k=2.5e-3; double w=k/(2*p.E[0]); // the fastest vacuum frequency
  l.L=s.logreal(0.02,1)*phase/w; l.rho=l.ye=0;
  if(l.kind){ l.ye= s.chance(1,8)?0: s.chance(1,10)?1e-11: s.chance(1,8)?1.0: s.real(0.05,1); double pot=w*s.logreal(0.01,2); l.rho= s.chance(1,16)?0: pot/HIC; if(s.chance(1,6)) l.L=s.logreal(0.02,1)*phase/(w+pot); }
  return l; }
static std::pair<std::shared_ptr<Body>,std::shared_ptr<Track>> make(const Leg& l,double x0,double x1){
  if(l.kind==0) return {std::make_shared<Vacuum>(),std::make_shared<Vacuum::Track>(x0,x1)};
  return {std::make_shared<ConstantDensity>(l.rho,l.ye),std::make_shared<ConstantDensity::Track>(x0,x1)}; }
static void legs(Src& s,Case& c,bool single){
  Setup p=genSetup(s,single,6,3);
  Init in=genInit(s,p);
  int mode=(int)s.below(4); // interaction basis, mass basis, fast, mixed
  bool osc=!s.chance(1,8);
  unsigned nl=(unsigned)s.range(1,3); std::vector<Leg> L; std::vector<double> x0; std::vector<int> dir,fast;
  for(unsigned i=0;i<nl;i++){ L.push_back(genLeg(s,p,mode==2?200:single?12:6)); double xo=s.chance(1,2)?0: s.real(0,1); x0.push_back(xo*L[i].L); dir.push_back(s.chance(1,5)?-1:1); int fs=(int)s.below(2); fast.push_back(mode==2?1:mode==3?fs:0); }
  c.log(fmt("%s init %s mode %d osc %d",p.str().c_str(),in.str().c_str(),mode,osc));
  for(unsigned i=0;i<nl;i++) c.log(fmt("leg %s rho %g ye %g from %g length %g%s%s",L[i].kind?"matter":"vacuum",L[i].rho,L[i].ye,x0[i],L[i].L,dir[i]<0?" backwards":"",fast[i]?" fast":""));
  std::unique_ptr<nuSQUIDS> nu(p.single? new nuSQUIDS(p.n,p.NT): new nuSQUIDS(p.energies(),p.n,p.NT));
  p.parameters(*nu); if(p.single) nu->Set_E(p.E[0]);
  precision(*nu,1e-9,in.scale); if(mode==1) nu->Set_Basis(mass); nu->Set_IncludeOscillations(osc);
  Rho r=start(p,in); double tol=2e-6*total(in)+1e-300; unsigned fasts=0;
  for(unsigned i=0;i<nl;i++){
    auto bt=make(L[i],dir[i]>0?x0[i]:x0[i]+L[i].L,dir[i]>0?x0[i]+L[i].L:x0[i]);
    nu->Set_Body(bt.first); nu->Set_Track(bt.second);
    if(i==0){ setInitial(*nu,p,in); if(!matches(c,*nu,p,r,1e-12*total(in),"before evolving")) return;
      for(size_t e=0;e<p.E.size();e++) for(unsigned k=0;k<p.nrho();k++){ // the Hamiltonian, seen through the flavor projectors
        squids::SU_vector h=nu->GetHamiltonian(e,k); M H=p.matter(L[0].rho,L[0].ye,k); if(osc) H+=p.vacuum(p.E[e],k); double sc=0; for(auto& z: H.a) sc=std::max(sc,std::abs(z));
        for(unsigned f=0;f<p.n;f++) PBT_CHECK(c,std::fabs(nu->GetFlavorProj(f,k)*h-H(f,f).real())<=1e-9*sc,"GetHamiltonian in flavor "+std::to_string(f)+": "+std::to_string((nu->GetFlavorProj(f,k)*h)/sc)+" want "+std::to_string(H(f,f).real()/sc)); } }
    nu->Set_AllowConstantDensityOscillationOnlyEvolution(fast[i]); fasts+=fast[i];
    nu->EvolveState();
    constantStep(p,r,L[i].kind?L[i].rho:0,L[i].kind?L[i].ye:1,dir[i]*L[i].L,osc);
    if(!matches(c,*nu,p,r,tol*(i+1),"after leg "+std::to_string(i))) return;
    // nothing is created or lost
    for(size_t e=0;e<p.E.size();e++) for(unsigned k=0;k<p.nrho();k++){ double t=0,w=0; for(unsigned f=0;f<p.n;f++){ t+=p.single?nu->EvalFlavor(f):nu->EvalFlavorAtNode(f,e,k); w+=in.v[e][k][f]; } PBT_CHECK(c,std::fabs(t-w)<=1e-7*total(in),"the flavors do not add up to the initial flux"); }
  }
  if(nl>1) c.label("several legs"); if(fasts&&fasts<nl) c.label("mixed ways"); if(p.n>3) c.label("sterile");
  c.nontrivial(osc&&p.dmmax()>0);
}
PBT_PROP(single,5){ legs(s,c,true); }
PBT_PROP(multi,4){ legs(s,c,false); }
