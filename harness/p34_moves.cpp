// P34: objects moved from place to place go on as if they had not been, and interaction structures are values
#include "nu_what.h"
using namespace pbt; using namespace nuref;
typedef nuSQUIDS N;
// everything an object reports, bit for bit
static V report(N& nu,const What& q,bool evaluated){
  V r; const Setup& p=q.p; auto E=nu.GetERange(); for(size_t i=0;i<E.size();i++) r.push_back(E[i]); r.push_back(nu.GetNumE()); r.push_back(nu.GetNumNeu()); r.push_back(nu.GetNumRho()); r.push_back(nu.Get_h()); r.push_back(nu.Get_rel_error()); r.push_back(nu.Get_abs_error()); r.push_back(nu.Get_NeutrinoSources()); r.push_back(nu.Get_GSL_DifferentialCrossSection_Integrator_Precision());
  for(unsigned j=1;j<p.n;j++){ r.push_back(nu.Get_SquareMassDifference(j)); for(unsigned i=0;i<j;i++){ r.push_back(nu.Get_MixingAngle(i,j)); r.push_back(nu.Get_CPPhase(i,j)); } }
  if(!evaluated) return r;
  r.push_back(nu.Get_t()); r.push_back(nu.Get_t_initial()); r.push_back(nu.GetTrack()->GetX());
  for(size_t e=0;e<p.E.size();e++) for(unsigned k=0;k<p.nrho();k++){ for(unsigned f=0;f<p.n;f++){ r.push_back(p.single?nu.EvalFlavor(f):nu.EvalFlavorAtNode(f,e,k)); r.push_back(p.single?nu.EvalMass(f):nu.EvalMassAtNode(f,e,k)); if(!p.single){ double x=e+1<p.E.size()?0.7*p.E[e]+0.3*p.E[e+1]:p.E[e]; r.push_back(nu.EvalFlavor(f,x,k)); std::vector<bool> avr(p.n); r.push_back(nu.EvalFlavor(f,x,k,3.0,avr)); for(bool b: avr) r.push_back(b); } }
    squids::SU_vector H=p.single?nu.GetHamiltonian(0):nu.GetHamiltonian(e,k),s=p.single?nu.GetState(0):nu.GetState(e,k); for(unsigned i=0;i<p.n*p.n;i++){ r.push_back(H[i]); r.push_back(s[i]); } }
  return r; }
static bool equal(const V& a,const V& b,size_t& at){ if(a.size()!=b.size()){ at=(size_t)-1; return false; } for(at=0;at<a.size();at++) if(!(a[at]==b[at]||(a[at]!=a[at]&&b[at]!=b[at]))) return false; return true; }
struct Inject: ConstantDensity{ double q; unsigned n; Inject(double r,double y,double q):ConstantDensity(r,y),q(q){ } void injected_neutrino_flux(marray<double,3>& f,const GenericTrack&,const nuSQUIDS&) override{ for(size_t i=0;i<f.extent(0);i++) for(size_t j=0;j<f.extent(1);j++) for(size_t k=0;k<f.extent(2);k++) f[i][j][k]=q*(1+i+2*j+3*k); } };
// the object under test: moved around
struct Mover{ std::unique_ptr<N> o; std::string how;
  void move(Src& s,Case& c){ int k=(int)s.below(5); if(k==0) o.reset(new N(std::move(*o))); // the emptied one is destroyed
    else if(k==1){ N t; t=std::move(*o); *o=std::move(t); } // and takes its contents back
    else if(k==2){ What q2=genWhat(s); c.log("over "+q2.s); auto t=build<N>(q2); settings(*t,q2); unsigned m=(unsigned)s.below(3); if(m) leg(*t,q2,0,true); if(m>1) t->EvolveState(); *t=std::move(*o); o=std::move(t); }
    else if(k==3){ std::vector<N> v; v.push_back(std::move(*o)); for(int i=0;i<3;i++) v.emplace_back(3,neutrino); std::reverse(v.begin(),v.end()); o.reset(new N(std::move(v.back()))); }
    else{ N t(3,antineutrino); std::swap(t,*o); std::swap(*o,t); N& self=*o; self=std::move(*o); }
    how+=" "+std::to_string(k); } };
static void options(Src& s,std::vector<std::function<void(N&)>>& v,const What& q,std::string& log){
  switch(s.below(12)){ case 0:{ double x=s.logreal(0.01,1)*q.w; v.push_back([x](N& n){ n.Set_EvolLowPassCutoff(x); n.Set_EvolLowPassScale(x/3); }); log+=" lowpass"; break; }
    case 1:{ double x=q.L*s.real(0.1,1); v.push_back([x](N& n){ n.Set_PositivityConstrain(true); n.Set_PositivityConstrainStep(x); }); log+=" positivity"; break; }
    case 2: v.push_back([](N& n){ n.Set_NeutrinoSources(true); }); log+=" sources"; break;
    case 3:{ double x=s.logreal(1e-8,1e-5); v.push_back([x,&q](N& n){ precision(n,x,q.in.scale); }); log+=" precision"; break; }
    case 4:{ double x=q.L*s.real(0.03,0.3); v.push_back([x](N& n){ n.Set_h(x); n.Set_h_max(x); }); log+=" step"; break; }
    case 5: v.push_back([](N& n){ n.Set_GSL_step(gsl_odeiv2_step_rkf45); }); log+=" stepper"; break;
    case 6:{ bool b=s.boolean(); v.push_back([b](N& n){ n.Set_AllowConstantDensityOscillationOnlyEvolution(b); }); log+=" fast"; break; }
    case 7:{ double x=s.logreal(1e-4,1e-2); v.push_back([x](N& n){ n.Set_GSL_DifferentialCrossSection_Integrator_Precision(x); }); log+=" integration"; break; }
    case 8: if(q.k.on&&q.p.NT==both){ v.push_back([](N& n){ n.Set_TauRegeneration(true); }); log+=" tau"; } break;
    case 9: if(q.k.on){ bool b=s.boolean(); v.push_back([b](N& n){ n.Set_GlashowResonance(b); }); log+=" glashow"; } break;
    case 10:{ double x=s.real(0,1.5); v.push_back([x](N& n){ n.Set_MixingAngle(0,2,x); }); log+=" angle"; break; }
    default:{ double x=q.p.dm[1]*s.real(0.5,2); v.push_back([x](N& n){ n.Set_SquareMassDifference(1,x); }); log+=" mass difference"; } } }

PBT_PROP(moved,8){
  What q=genWhat(s,s.boolean()); c.log(q.s); Mover m; m.o=build<N>(q); auto ref=build<N>(q); settings(*m.o,q); settings(*ref,q); std::shared_ptr<Body> inj; bool sources=false;
  if(s.chance(1,3)){ sources=true; inj=std::make_shared<Inject>(q.rho,0.4,q.in.scale/q.L*s.real(0,1)); m.o->Set_NeutrinoSources(true); ref->Set_NeutrinoSources(true); }
  unsigned moves=0,legs=0; size_t at;
  auto check=[&](bool ev,const std::string& when){ V a=report(*m.o,q,ev),b=report(*ref,q,ev); if(!equal(a,b,at)){ c.fail(when+fmt(": entry %zu is %.17g instead of %.17g (moves",at,at<a.size()?a[at]:0,at<b.size()?b[at]:0)+m.how+")"); return false; } return true; };
  for(unsigned i=0;i<3;i++){
    std::vector<std::function<void(N&)>> o; std::string log; bool state=i>0; for(unsigned j=(unsigned)s.below(state?1:4);j>0;j--) options(s,o,q,log); c.log(log);
    auto perhaps=[&]{ if(s.chance(2,5)){ m.move(s,c); moves++; return true; } return false; };
    if(perhaps()&&!check(state,"before leg")) return;
    for(auto& f: o){ f(*m.o); f(*ref); if(s.chance(1,3)) perhaps(); }
    auto b= sources&&s.boolean()?inj:q.legs[i].first; bool isInj=b==inj; auto t=[&]{ auto t=q.legs[i].second(); if(isInj) return std::static_pointer_cast<Track>(std::make_shared<ConstantDensity::Track>(t->GetInitialX(),t->GetFinalX())); return t; };
    m.o->Set_Body(b); ref->Set_Body(b); perhaps(); m.o->Set_Track(t()); ref->Set_Track(t()); perhaps(); if(i==0){ setInitial(*m.o,q.p,q.in); setInitial(*ref,q.p,q.in); }
    if(perhaps()&&!check(true,"with a state")) return;
    bool ta=false,tb=false; try{ m.o->EvolveState(); }catch(const std::exception&){ ta=true; } try{ ref->EvolveState(); }catch(const std::exception&){ tb=true; } PBT_CHECK(c,ta==tb,"only one of the two evolved"); if(ta){ c.label("refused"); return; } legs++;
    if(!check(true,fmt("after leg %u",i))) return; if(perhaps()&&!check(true,"moved after leg")) return; if(s.chance(1,2)) break; }
  c.label(q.k.on?(q.k.osc?"interactions":"cascade"):"oscillations"); c.label(fmt("%u moves",std::min(moves,6u))); c.nontrivial(moves>0); }

// interaction structures
typedef N::InteractionStructure IS;
struct Model{ std::vector<PDGCode> t; unsigned nr=0,n=0,ne=0; V v[8]; bool operator==(const Model& o) const{ if(t!=o.t) return false; for(int i=0;i<8;i++) if(v[i]!=o.v[i]) return false; return true; } };
template<typename F> static void each(IS& x,F f){ f(0,x.dNdE_CC); f(1,x.dNdE_NC); f(2,x.dNdE_GR); f(3,x.sigma_CC); f(4,x.sigma_NC); f(5,x.sigma_GR); f(6,x.dNdE_tau_all); f(7,x.dNdE_tau_lep); }
struct Put{ Model& m; template<typename A> void operator()(int i,A& a) const{ size_t k=0; for(double& v: a) v=m.v[i].at(k++); } };
struct Get{ Model& m; template<typename A> void operator()(int i,A& a) const{ m.v[i].assign(a.begin(),a.end()); } };
struct Size{ Model& m; Src& s; template<typename A> void operator()(int i,A& a) const{ m.v[i].resize(a.size()); double c=s.real(-1,1); for(size_t k=0;k<a.size();k++) m.v[i][k]=c+k; } };
struct Aligned{ Case& c; template<typename A> void operator()(int i,A& a) const{ if(a.size()&&((size_t)&*a.begin())%32) c.fail(fmt("array %d is not aligned",i)); } };
static void genModel(Src& s,Model& m,IS& x){ size_t nt=s.range(1,2); m.t.clear(); for(size_t i=0;i<nt;i++) m.t.push_back(s.pick<PDGCode>({proton,neutron,isoscalar_nucleon})); m.nr=(unsigned)s.range(1,2); m.n=(unsigned)s.range(3,4); m.ne=(unsigned)s.range(1,5); size_t ne=m.ne,rd=(ne+3)/4*4,nr=m.nr,n=m.n; x.targets=m.t;
  x.dNdE_CC.resize(std::vector<size_t>{nt,nr,n,ne,rd}); x.dNdE_NC.resize(std::vector<size_t>{nt,nr,n,ne,rd}); x.dNdE_GR.resize(std::vector<size_t>{ne,rd}); x.sigma_CC.resize(std::vector<size_t>{nt,nr,n,rd}); x.sigma_NC.resize(std::vector<size_t>{nt,nr,n,rd}); x.sigma_GR.resize(std::vector<size_t>{rd}); x.dNdE_tau_all.resize(std::vector<size_t>{nr,ne,rd}); x.dNdE_tau_lep.resize(std::vector<size_t>{nr,ne,rd});
  each(x,Size{m,s}); each(x,Put{m}); }
PBT_PROP(structures,1){
  std::vector<IS> x(3); std::vector<Model> m(3); bool shared=false,changed=false;
  for(int i=0;i<3;i++) if(s.chance(4,5)) genModel(s,m[i],x[i]);
  unsigned ops=(unsigned)s.range(1,8);
  for(unsigned o=0;o<ops;o++){ size_t i=s.below(3),j=s.below(3); int k=(int)s.below(6); c.log(fmt("%d %zu %zu",k,i,j));
    if(k==0){ x[i]=x[j]; m[i]=m[j]; shared=true; }
    else if(k==1){ IS y(x[j]); x[i]=std::move(y); m[i]=m[j]; shared=true; }
    else if(k==2&&i!=j){ x[i]=IS(std::move(x[j])); m[i]=m[j]; x[j]=IS(); m[j]=Model(); }
    else if(k==3){ int w=(int)s.below(8); if(m[i].v[w].empty()) continue; size_t at=s.below(m[i].v[w].size()); double v=s.real(-1,1); m[i].v[w][at]=v; each(x[i],Put{m[i]}); changed=true; c.log(fmt("entry %zu of array %d",at,w)); }
    else if(k==4&&!m[i].t.empty()){ m[i].t[0]=s.pick<PDGCode>({proton,neutron,isoscalar_nucleon}); x[i].targets=m[i].t; changed=true; }
    else if(k==5) genModel(s,m[i],x[i]);
    for(int a=0;a<3;a++){ Model g; g.t=x[a].targets; each(x[a],Get{g}); PBT_CHECK(c,g==m[a],fmt("structure %d does not hold what was put in",a)); if(!m[a].t.empty()) PBT_CHECK(c,x[a].dNdE_CC.extent(3)==m[a].ne&&x[a].sigma_CC.extent(1)==m[a].nr&&x[a].dNdE_tau_lep.extent(1)==m[a].ne&&x[a].dNdE_GR.extent(0)==m[a].ne,"extents");
      each(x[a],Aligned{c});
      for(int b=0;b<3;b++){ bool e=m[a]==m[b]; PBT_CHECK(c,(x[a]==x[b])==e&&(x[a]!=x[b])==!e,fmt("comparison of %d and %d",a,b)); } } }
  c.nontrivial(shared&&changed); }
