// P38: parameters, states and energies: what is accepted, what it means for the state, and what is refused without a trace
#include "nu_atm.h"
#include <new>
using namespace pbt; using namespace nuref;
// what is known about the object
struct Model{ Setup p; bool E=false,body=false,null=false,track=false,state=false; std::vector<std::vector<M>> rho; double t0=0,end=0; std::shared_ptr<Track> tr; double top=1; // rho: in the flavor basis
  void forget(){ state=false; } };
#define NEED(cond,msg) do{ if(!(cond)){ c.fail(msg); return false; } }while(0)
static bool agree(Case& c,nuSQUIDS& nu,const Model& m,const std::string& when){ // everything the object tells
  const Setup& p=m.p; NEED(nu.GetNumNeu()==p.n&&nu.GetNumE()==p.E.size()&&nu.GetNumRho()==p.nrho()&&!nu.GetUseInteractions(),when+": sizes");
  for(unsigned j=1;j<p.n;j++){ NEED(nu.Get_SquareMassDifference(j)==p.dm[j],when+fmt(": mass difference %u is %g, set to %g",j,nu.Get_SquareMassDifference(j),p.dm[j])); for(unsigned i=0;i<j;i++) NEED(nu.Get_MixingAngle(i,j)==p.th[i][j]&&nu.Get_CPPhase(i,j)==p.del[i][j],when+fmt(": mixing %u %u is %g / %g, set to %g / %g",i,j,nu.Get_MixingAngle(i,j),nu.Get_CPPhase(i,j),p.th[i][j],p.del[i][j])); }
  if(m.E){ auto E=nu.GetERange(); NEED(E.size()==p.E.size(),when+": energies"); for(size_t e=0;e<p.E.size();e++) NEED(E[e]==p.E[e],when+": energies"); }
  { Setup q=p; if(p.NT==antineutrino) q.NT=neutrino; auto U=nu.GetTransformationMatrix(); M u=q.mixing(0); for(unsigned i=0;i<p.n;i++) for(unsigned j=0;j<p.n;j++){ gsl_complex z=gsl_matrix_complex_get(U.get(),i,j); NEED(std::abs(C(GSL_REAL(z),GSL_IMAG(z))-u(i,j))<1e-12,when+": the transformation between flavor and mass"); } }
  std::vector<bool> avr(p.n); double scale=1e300;
  for(unsigned e=0;e<p.E.size();e++) for(unsigned r=0;r<p.nrho();r++) for(unsigned f=0;f<p.n;f++) for(int k=0;k<6;k++){ double got=0,want=0; bool t=false,expect=m.state&&m.E; try{
      switch(k){ case 0: got=nu.EvalFlavorAtNode(f,e,r); break; case 1: got=nu.EvalMassAtNode(f,e,r); break; case 2: got=p.single?nu.EvalFlavor(f):nu.EvalFlavor(f,p.E[e],r); break; case 3: got=p.single?nu.EvalMass(f):nu.EvalMass(f,p.E[e],r); break; case 4: got=p.single?nu.EvalFlavor(f,scale,avr):nu.EvalFlavor(f,p.E[e],r,scale,avr); break; default: got=p.single?nu.EvalMass(f,scale,avr):nu.EvalMass(f,p.E[e],r,scale,avr); } }catch(const std::runtime_error& x){ t=true; }
    NEED(!(t&&expect),when+fmt(": evaluation %d refused although there is a state",k)); NEED(m.E||t,when+fmt(": evaluation %d although there is no energy",k)); if(!expect) continue; M u=p.mixing(r); const M& x=m.rho[e][r]; want=k&1?(u.dag()*x*u)(f,f).real():x(f,f).real();
    if(!(std::fabs(got-want)<=2e-6*m.top)){ c.fail(when+fmt(": evaluation %d of %u at energy %u rho %u is %.10g, must be %.10g",k,f,e,r,got,want)); return false; } }
  return true; }

PBT_PROP(history,8){
  bool single=s.chance(1,3); Model m; Setup& p=m.p; { Setup g=genSetup(s,single,6,4); p=g; } c.log(p.str()); Setup fresh=p; // start from the defaults
  p.th.assign(p.n,V(p.n,0.0)); p.del=p.th; p.dm.assign(p.n,0.0); auto defaults=[&]{ p.th[0][1]=0.583638; p.th[0][2]=0.149575; p.th[1][2]=0.855211; p.dm[1]=7.42e-5; p.dm[2]=2.514e-3; p.del[0][2]=0; }; defaults();
  std::unique_ptr<nuSQUIDS> nu(single? new nuSQUIDS(p.n,p.NT): new nuSQUIDS(p.energies(),p.n,p.NT)); m.E=!single; if(single) for(unsigned i=0;i<p.n;i++) for(unsigned j=i+1;j<p.n;j++) p.del[i][j]=nu->Get_CPPhase(i,j)==0?nu->Get_CPPhase(i,j):1e9; // minus zero
  nu->Set_rel_error(1e-9); nu->Set_abs_error(1e-9); if(s.boolean()) nu->Set_Basis(mass); std::string log; if(!agree(c,*nu,m,"new")) return; unsigned ops=(unsigned)s.range(4,16); bool evolved=false,refused=false; double L=1/(frequency(fresh)+1e-30);
  for(unsigned k=0;k<ops;k++){ int o=(int)s.below(24); double x=s.unit(); bool good=s.chance(3,4); unsigned i=(unsigned)s.below(p.n-1),j=i+1+(unsigned)s.below(p.n-1-i),bad=p.n+(unsigned)s.below(3); std::string at=fmt("step %u (%d %s)",k,o,good?"good":"bad"); log=at; bool threw=false,expect=false,any=false;
    auto attempt=[&](bool ok,std::function<void()> f){ expect=!ok; try{ f(); }catch(const std::runtime_error& e){ threw=true; }catch(const std::logic_error& e){ threw=any=true; } };
    switch(o){
      case 0: { int kind=(int)s.below(3); std::shared_ptr<Body> b; if(kind==0) b=std::make_shared<Vacuum>(); else if(kind==1) b=std::make_shared<ConstantDensity>(0.0,0.5); else if(good) b=std::make_shared<VariableDensity>(std::vector<double>{0,1,2,3},std::vector<double>(4,0.0),std::vector<double>(4,0.5)); attempt(b!=nullptr,[&]{ nu->Set_Body(b); }); if(!threw){ m.body=true; m.null=!b; expect=false; m.tr=nullptr; m.track=false; } if(!threw&&b){ // with a track to go with it
          double x0=s.boolean()?0:L*s.unit(),x1=x0+L*(0.1+x)*3; if(kind==0) m.tr=std::make_shared<Vacuum::Track>(x0,x1); else if(kind==1) m.tr=std::make_shared<ConstantDensity::Track>(x0,x1); else m.tr=std::make_shared<VariableDensity::Track>(x0,x1); m.tr->SetX(x0+(x1-x0)*s.unit()); nu->Set_Track(m.tr); m.track=true; if(m.tr->GetX()!=x0){ c.fail(at+": the track was not put to its start"); return; } } break; }
      case 1: attempt(false,[&]{ nu->Set_Track(nullptr); }); break;
      case 2: case 3: { double En=p.E[0]*(0.5+x); bool ok=p.E.size()==1; attempt(ok,[&]{ nu->Set_E(En); }); if(ok){ p.E[0]=En; m.E=true; m.forget(); } break; }
      case 4: case 5: { double v=1.5*x; if(good){ attempt(true,[&]{ nu->Set_MixingAngle(i,j,v); }); p.th[i][j]=v; m.forget(); } else switch(s.below(3)){ case 0: attempt(false,[&]{ nu->Set_MixingAngle(i,bad,v); }); break; case 1: attempt(false,[&]{ nu->Set_MixingAngle(bad,j,v); }); break; default: attempt(false,[&]{ nu->Set_MixingAngle(j,i,v); }); } break; }
      case 6: { double v=6*x; if(good){ attempt(true,[&]{ nu->Set_CPPhase(i,j,v); }); p.del[i][j]=v; m.forget(); } else switch(s.below(3)){ case 0: attempt(false,[&]{ nu->Set_CPPhase(i,bad,v); }); break; case 1: attempt(false,[&]{ nu->Set_CPPhase(bad,j,v); }); break; default: attempt(false,[&]{ nu->Set_CPPhase(j,i,v); }); } break; }
      case 7: { double v=fresh.dm[j]*(0.5+x); if(good){ attempt(true,[&]{ nu->Set_SquareMassDifference(j,v); }); p.dm[j]=v; m.forget(); } else attempt(false,[&]{ nu->Set_SquareMassDifference(s.boolean()?0:bad,v); }); break; }
      case 8: attempt(true,[&]{ nu->Set_MixingParametersToDefault(); }); defaults(); m.forget(); break;
      case 9: attempt(false,[&]{ switch(s.below(4)){ case 0: (void)nu->Get_MixingAngle(i,bad); break; case 1: (void)nu->Get_CPPhase(bad,j); break; case 2: (void)nu->Get_CPPhase(i,bad); break; default: (void)nu->Get_SquareMassDifference(bad); } }); break;
      case 10: attempt(false,[&]{ nu->Set_TauRegeneration(true); }); break; case 11: attempt(false,[&]{ nu->Set_GlashowResonance(true); }); break; case 12: attempt(true,[&]{ nu->Set_TauRegeneration(false); nu->Set_GlashowResonance(false); }); break;
      case 13: attempt(false,[&]{ nu->Set_Basis(flavor); }); break; case 14: if(s.boolean()) attempt(false,[&]{ nu->Set_PositivityConstrainStep(s.boolean()?0:-x-1e-9); }); else attempt(false,[&]{ (void)nu->GetInteractionStructure(); }); break;
      case 15: attempt(true,[&]{ nu->Set_ProgressBar(good); nu->Set_Debug(false); }); break;
      case 16: case 17: case 18: case 19: case 20: { // a state, of any shape
        int rank= p.nrho()==2?3:single?1:2; if(!good&&s.boolean()) rank=(int)s.range(1,3); Setup like=p; Init in=genInit(s,like); Basis b=in.basis; if(!good&&s.chance(1,4)) b=interaction; std::vector<size_t> d; if(rank>1) d.push_back(p.E.size()); if(rank==3) d.push_back(p.nrho()); d.push_back(p.n); if(!good&&s.boolean()){ size_t w=s.below(d.size()); if(s.boolean()) d[w]+=1+s.below(2); else d[w]=d[w]?d[w]-1:1; }
        bool shape= d.back()==p.n&&(rank==1?p.E.size()==1&&p.NT!=both: d[0]==p.E.size()&&(rank==2?p.NT!=both: p.NT==both&&d[1]==p.nrho())); bool ok=shape&&m.E&&m.body&&m.track&&b!=interaction; at+=fmt(" rank %d basis %d",rank,(int)b); log=at;
        auto get=[&](size_t e,size_t r,size_t f){ return e<in.v.size()&&r<in.v[e].size()&&f<p.n?in.v[e][r][f]:0.5; };
        if(rank==1){ marray<double,1> v{d[0]}; for(size_t f=0;f<d[0];f++) v[f]=get(0,0,f); attempt(ok,[&]{ nu->Set_initial_state(v,b); }); } else if(rank==2){ marray<double,2> v{d[0],d[1]}; for(size_t e=0;e<d[0];e++) for(size_t f=0;f<d[1];f++) v[e][f]=get(e,0,f); attempt(ok,[&]{ nu->Set_initial_state(v,b); }); } else{ marray<double,3> v{d[0],d[1],d[2]}; for(size_t e=0;e<d[0];e++) for(size_t r=0;r<d[1];r++) for(size_t f=0;f<d[2];f++) v[e][r][f]=get(e,r,f); attempt(ok,[&]{ nu->Set_initial_state(v,b); }); }
        if(ok){ m.state=true; m.rho.clear(); m.top=std::max(total(in),in.scale); nu->Set_abs_error(1e-9*m.top); for(size_t e=0;e<p.E.size();e++){ std::vector<M> y; for(unsigned r=0;r<p.nrho();r++) y.push_back(p.initial(in.v[e][r],b,r)); m.rho.push_back(y); } nu->Set_h(L*0.01); nu->Set_h_max(1e300); }
        break; }
      default: { bool ok=m.state&&m.E&&m.body&&m.track&&!m.null; double len=ok?m.tr->GetFinalX()-m.tr->GetInitialX():0; attempt(ok,[&]{ nu->EvolveState(); }); if(ok&&!threw){ evolved=true; for(size_t e=0;e<p.E.size();e++) for(unsigned r=0;r<p.nrho();r++){ M u=p.mixing(r),x=u.dag()*m.rho[e][r]*u; for(unsigned a=0;a<p.n;a++) for(unsigned b=0;b<p.n;b++) x(a,b)=x(a,b)*std::polar(1.0,-(p.dm[a]-p.dm[b])/(2*p.E[e])*len); m.rho[e][r]=u*x*u.dag(); } } break; } }
    c.log(log); if(threw) refused=true; if(threw!=expect){ c.fail(at+(threw?": refused":": not refused")); return; } if(!agree(c,*nu,m,at)) return; (void)any; }
  if(evolved) c.label("evolved"); if(refused) c.label("refused"); if(single) c.label("single"); c.nontrivial(evolved&&refused); }

PBT_PROP(construction,3){
  unsigned n=(unsigned)s.below(12); NeutrinoType NT=s.pick({neutrino,antineutrino,both}); int how=(int)s.below(4); c.nontrivial(true); bool inter=s.boolean(); size_t ne=s.below(6); marray<double,1> E{ne}; double e=1e9; for(size_t i=0;i<ne;i++){ e*=1.1+s.unit(); E[i]=e; } bool sorted=true; if(ne>1&&s.chance(1,3)){ size_t i=s.below(ne-1); std::swap(E[i],E[i+1]); sorted=false; } c.log(fmt("n %u NT %d %d inter %d energies %zu %s",n,(int)NT,how,inter,ne,sorted?"":"not sorted")); bool size=n>=3&&n<=SQUIDS_MAX_HILBERT_DIM;
  if(how==0){ bool ok=size&&NT!=both; PBT_CHECK(c,throws<std::runtime_error>([&]{ nuSQUIDS nu(n,NT); PBT_CHECK(c,nu.GetNumE()==1&&nu.GetNumNeu()==n,"sizes"); })!=ok,ok?"a valid object was refused":"an invalid object was made"); c.label(ok?"single":"refused"); }
  else if(how<3){ bool ok=size&&ne>0&&sorted; PBT_CHECK(c,throws<std::runtime_error>([&]{ nuSQUIDS nu(E,n,NT,inter); PBT_CHECK(c,nu.GetNumE()==ne&&nu.GetNumNeu()==n&&nu.GetNumRho()==(NT==both?2u:1u)&&nu.GetUseInteractions()==inter&&nu.GetUseOscillations(),"sizes"); })!=ok,ok?"a valid object was refused":"an invalid object was made"); c.label(ok?"several":"refused"); }
  else{ size_t nc=s.below(4); marray<double,1> z{nc}; for(size_t i=0;i<nc;i++) z[i]=-1+0.5*i; bool ok=size&&ne>0&&sorted&&nc>0; PBT_CHECK(c,throws<std::runtime_error>([&]{ Atm a(z,E,n,NT,inter); PBT_CHECK(c,a.GetNumCos()==nc&&a.GetNumE()==ne,"sizes"); if(size&&ne){ PBT_CHECK(c,throws<std::runtime_error>([&]{ a.Set_EarthModel(nullptr); }),"an Earth model that does not exist was accepted"); } })!=ok,ok?"a valid ensemble was refused":"an invalid ensemble was made"); c.label(ok?"ensemble":"refused"); } }

PBT_PROP(hamiltonian,3){ // that of the parameters, energies and place of now, with a state or without
  bool single=s.chance(1,2); Setup p=genSetup(s,single,5,3); std::unique_ptr<nuSQUIDS> nu(single? new nuSQUIDS(p.n,p.NT): new nuSQUIDS(p.energies(),p.n,p.NT)); nu->Set_rel_error(1e-9); bool massBasis=s.chance(1,3); if(massBasis) nu->Set_Basis(mass); c.log(p.str()+(massBasis?" mass basis":"")); unsigned ops=(unsigned)s.range(2,6),changes=0; bool osc=true,evolved=false; double rho=0,ye=0; bool any=false;
  Init in=genInit(s,p); nu->Set_abs_error(1e-9*in.scale); if(single) nu->Set_E(p.E[0]); p.parameters(*nu); std::shared_ptr<Track> tr; bool slow=false;
  auto place=[&]{ rho=s.chance(1,4)?0:s.logreal(0.1,200); ye=s.unit(); double L=1e-2/(p.dmmax()/p.E[0]+HIC*rho+1e-30); nu->Set_Body(std::make_shared<ConstantDensity>(rho,ye)); tr=std::make_shared<ConstantDensity::Track>(s.boolean()?0:L,2*L); nu->Set_Track(tr); nu->Set_h(0.1*L); nu->Set_h_max(L); slow=true; }; place(); (void)slow;
  bool state=false; for(unsigned k=0;k<ops;k++){ int o=(int)s.below(7); unsigned i=(unsigned)s.below(p.n-1),j=i+1+(unsigned)s.below(p.n-1-i); double x=s.unit(); std::string at=fmt("step %u (%d)",k,o); c.log(at);
    switch(o){ case 0: p.th[i][j]=1.5*x; nu->Set_MixingAngle(i,j,p.th[i][j]); state=false; changes++; break; case 1: p.del[i][j]=6*x; nu->Set_CPPhase(i,j,p.del[i][j]); state=false; changes++; break; case 2: p.dm[j]=2.5e-3*(x-0.3); nu->Set_SquareMassDifference(j,p.dm[j]); state=false; changes++; break;
      case 3: if(single){ p.E[0]*=0.5+x; nu->Set_E(p.E[0]); state=false; changes++; } break; case 4: place(); break; case 5: setInitial(*nu,p,in); state=true; evolved=false; break; default: if(state){ nu->Set_AllowConstantDensityOscillationOnlyEvolution(s.chance(1,3)); nu->EvolveState(); evolved=true; } }
    (void)osc; for(unsigned e=0;e<p.E.size();e++) for(unsigned r=0;r<p.nrho();r++){ squids::SU_vector h=nu->GetHamiltonian(e,r); M H=p.matter(rho,ye,r)+p.vacuum(p.E[e],r),G(p.n); auto g=h.GetGSLMatrix(); double sc=0; for(unsigned a=0;a<p.n;a++) for(unsigned b=0;b<p.n;b++){ gsl_complex z=gsl_matrix_complex_get(g.get(),a,b); G(a,b)=C(GSL_REAL(z),GSL_IMAG(z)); sc=std::max(sc,std::abs(H(a,b))); } Eigen x1=eigen(G),x2=eigen(H); any=true;
      for(unsigned q=0;q<p.n;q++) if(!(std::fabs(x1.value[q]-x2.value[q])<=1e-9*sc)){ c.fail(at+fmt(": level %u of the Hamiltonian at energy %u rho %u is %.10g, must be %.10g",q,e,r,x1.value[q],x2.value[q])); return; }
      if(!evolved) for(unsigned f=0;f<p.n;f++){ double got=nu->GetFlavorProj(f,r)*h; if(!(std::fabs(got-H(f,f).real())<=1e-9*sc)){ c.fail(at+fmt(": the Hamiltonian in flavor %u at energy %u rho %u is %.10g, must be %.10g",f,e,r,got,H(f,f).real())); return; } } } }
  c.nontrivial(any&&changes>0); }

PBT_PROP(unborn,1){ // an object made without arguments refuses everything until it is given a content, whatever was in its memory before
  unsigned char fill=(unsigned char)s.below(256); std::unique_ptr<double[]> mem(new double[sizeof(nuSQUIDS)/sizeof(double)+1]); std::memset(mem.get(),fill,sizeof(nuSQUIDS)); What q=genWhat(s); c.log(fmt("fill %d ",fill)+q.s); nuSQUIDS* nu=new(mem.get()) nuSQUIDS(); struct End{ nuSQUIDS* n; ~End(){ n->~nuSQUIDS(); } } end{nu}; c.nontrivial(true);
  PBT_CHECK(c,nu->GetNumNeu()==0&&nu->GetNumE()==0&&nu->GetNumRho()==0,fmt("sizes of an empty object: %u %zu %u",nu->GetNumNeu(),nu->GetNumE(),nu->GetNumRho())); std::vector<bool> avr(3);
#define REFUSED(x) PBT_CHECK(c,throwsAny([&]{ (void)nu->x; }),"not refused: " #x)
  marray<double,1> v{3}; REFUSED(EvolveState()); REFUSED(EvalFlavor(0)); REFUSED(EvalMass(0)); REFUSED(EvalFlavor(0,1e9)); REFUSED(EvalFlavorAtNode(0,0)); REFUSED(Set_MixingAngle(0,1,0.1)); REFUSED(Get_MixingAngle(0,1)); REFUSED(Set_SquareMassDifference(1,0.1)); REFUSED(Set_MixingParametersToDefault()); REFUSED(Set_E(1e9)); REFUSED(Set_initial_state(v,flavor)); REFUSED(GetInteractionStructure()); { Scratch f(".h5"); REFUSED(WriteStateHDF5(f.path)); } REFUSED(GetHamiltonian(0,0));
  PBT_CHECK(c,!nu->GetBody()&&!nu->GetTrack(),"a body or track from nowhere"); { auto o=build<nuSQUIDS>(q); settings(*o,q); leg(*o,q,0,true); auto o2=build<nuSQUIDS>(q); settings(*o2,q); leg(*o2,q,0,true); *nu=std::move(*o2); o->EvolveState(); nu->EvolveState(); for(unsigned e=0;e<q.p.E.size();e++) for(unsigned r=0;r<q.p.nrho();r++) for(unsigned f=0;f<q.p.n;f++) PBT_CHECK(c,o->EvalFlavorAtNode(f,e,r)==nu->EvalFlavorAtNode(f,e,r),"evolved otherwise after assignment to an empty object"); } }
