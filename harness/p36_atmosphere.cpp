// P36: an atmospheric ensemble is one object per zenith, whatever the number of threads, interpolated between zeniths
#include "nu_atm.h"
using namespace pbt; using namespace nuref;
static bool sameNodes(Case& c,Atm& a,Singles& b,const Ensemble& q,const std::string& when){
  if(a.GetNumCos()!=q.cz.size()||a.GetNumE()!=q.p.E.size()||a.GetNumNeu()!=q.p.n||a.GetNumRho()!=q.p.nrho()||a.GetNumNodes()!=q.cz.size()){ c.fail(when+": sizes"); return false; }
  for(size_t i=0;i<q.cz.size();i++){ auto& x=a.GetnuSQuIDS((unsigned)i); auto& y=*b.o[i]; if(x.Get_t()!=y.Get_t()||x.Get_t_initial()!=y.Get_t_initial()||x.Get_h()!=y.Get_h()||x.Get_rel_error()!=y.Get_rel_error()||x.Get_abs_error()!=y.Get_abs_error()){ c.fail(fmt("%s: clock or steps of zenith %zu: t %g/%g h %g/%g",when.c_str(),i,x.Get_t(),y.Get_t(),x.Get_h(),y.Get_h())); return false; }
    if(x.GetTrack()->GetX()!=y.GetTrack()->GetX()||x.GetTrack()->GetFinalX()!=y.GetTrack()->GetFinalX()){ c.fail(fmt("%s: track of zenith %zu",when.c_str(),i)); return false; }
    for(unsigned e=0;e<q.p.E.size();e++) for(unsigned r=0;r<q.p.nrho();r++){ const squids::SU_vector& u=x.GetState(e,r); const squids::SU_vector& v=y.GetState(e,r); for(unsigned k=0;k<q.p.n*q.p.n;k++) if(!(u[k]==v[k]||(u[k]!=u[k]&&v[k]!=v[k]))){ c.fail(fmt("%s: zenith %zu energy %u rho %u component %u is %.17g, of one object alone %.17g",when.c_str(),i,e,r,k,u[k],v[k])); return false; } } }
  for(unsigned r=0;r<q.p.nrho();r++){ auto st=a.GetStates(r); for(size_t i=0;i<q.cz.size();i++) for(unsigned k=0;k<q.p.n*q.p.n;k++) if(!(st[i][k]==b.o[i]->GetState(0,r)[k])){ c.fail(when+": GetStates"); return false; } }
  auto E=a.GetERange(); auto z=a.GetCosthRange(); for(size_t e=0;e<q.p.E.size();e++) if(E[e]!=q.p.E[e]){ c.fail(when+": energies"); return false; } for(size_t i=0;i<q.cz.size();i++) if(z[i]!=q.cz[i]){ c.fail(when+": zeniths"); return false; }
  return true; }
// what interpolation of the objects' states gives
struct Between{ const Ensemble& q; std::vector<std::vector<std::vector<M>>> s; double t,top=0; bool osc; Setup p; Between(const Ensemble& q,Singles& b,bool evolved,bool osc,const Setup& p):q(q),t(evolved),osc(osc),p(p){ for(auto& o: b.o){ std::vector<std::vector<M>> x; for(size_t e=0;e<q.p.E.size();e++){ std::vector<M> y; for(unsigned r=0;r<q.p.nrho();r++){ y.push_back(matrix(o->GetState((unsigned)e,r))); for(auto& z: y.back().a) top=std::max(top,std::abs(z)); } x.push_back(y); } s.push_back(x); } }
  double flavor(size_t i,double w,size_t e,double v,double E,unsigned r,unsigned f,double time,double scale,bool& close) const{ M u=p.mixing(r); unsigned n=p.n; double out=0; for(int side=0;side<2;side++){ double g=side?w:1-w; if(g==0) continue; M m=v==0?s[i+side][e][r]:C(1-v)*s[i+side][e][r]+C(v)*s[i+side][e+1][r]; C x=0;
      for(unsigned a=0;a<n;a++) for(unsigned b=0;b<n;b++){ double ph=osc?(p.dm[a]-p.dm[b])/(2*E)*time:0; C k=std::polar(1.0,-ph); if(scale>=0&&a!=b){ if(std::fabs(std::fabs(ph)-scale)<=1e-9*scale) close=true; if(std::fabs(ph)>scale) k=0; } x+=u(f,a)*m(a,b)*k*std::conj(u(f,b)); } out+=g*x.real(); } return out; }
  double phase(double E,double time) const{ double a=0; for(unsigned i=0;i<p.n;i++) for(unsigned j=0;j<i;j++) a=std::max(a,std::fabs(p.dm[i]-p.dm[j])/(2*E)*time); return osc?a:0; } };
static bool evaluations(Src& s,Case& c,Atm& a,const Ensemble& q,const Between& B,const Globe& earth,unsigned tries,bool& between){
  for(unsigned k=0;k<tries;k++){ size_t i=s.below(q.cz.size()),e=s.below(q.p.E.size()); double w=0,v=0,cz=q.cz[i],E=q.p.E[e]; unsigned r=(unsigned)s.below(q.p.nrho()),f=(unsigned)s.below(q.p.n);
    if(q.cz.size()>1&&s.chance(3,4)){ if(i+1==q.cz.size()) i--; cz=q.cz[i]+s.unit()*(q.cz[i+1]-q.cz[i]); if(s.chance(1,8)) cz=q.cz[i+1]; cz=std::min(cz,q.cz[i+1]); w=(cz-q.cz[i])/(q.cz[i+1]-q.cz[i]); }
    if(q.p.E.size()>1&&s.chance(3,4)){ if(e+1==q.p.E.size()) e--; E=q.p.E[e]+s.unit()*(q.p.E[e+1]-q.p.E[e]); if(s.chance(1,8)) E=q.p.E[e+1]; E=std::min(E,q.p.E[e+1]); v=(E-q.p.E[e])/(q.p.E[e+1]-q.p.E[e]); }
    if(w>0&&w<1&&v>0&&v<1) between=true; double time=B.t*length(earth,cz),ph=B.phase(E,time),tol=B.top*q.p.n*q.p.n*(1e-12+1e-13*ph); bool close=false; std::string where=fmt(" at cos %.17g (%zu + %.6g) E %.17g (%zu + %.6g) rho %u flavor %u",cz,i,w,E,e,v,r,f);
    double want=B.flavor(i,w,e,v,E,r,f,time,-1,close),got=a.EvalFlavor(f,cz,E,r); if(!(std::fabs(got-want)<=tol)){ c.fail(fmt("%.15g instead of %.15g",got,want)+where); return false; }
    double scale=ph*s.logreal(1e-3,2); want=B.flavor(i,w,e,v,E,r,f,time,scale,close); if(!close&&ph>0){ std::vector<bool> avr(q.p.n); got=a.EvalFlavor(f,cz,E,r,scale,avr); if(!(std::fabs(got-want)<=tol)){ c.fail(fmt("averaged beyond %g: %.15g instead of %.15g",scale,got,want)+where); return false; } }
    if(B.t&&s.chance(1,4)){ got=a.EvalFlavor(f,cz,E,r,true); double lo=1e300,hi=-1e300; int N=200; for(int j=0;j<=N;j++){ double x=B.flavor(i,w,e,v,E,r,f,time+(2.0*j/N-1)*15*U0.km,-1,close); lo=std::min(lo,x); hi=std::max(hi,x); } double slack=tol+B.top*q.p.n*q.p.n*std::min(2.0,B.phase(E,30*U0.km)/N); if(!(got>=lo-slack&&got<=hi+slack)){ c.fail(fmt("with a height within 15 km: %.15g not in %.15g to %.15g",got,lo,hi)+where); return false; } } }
  return true; }

PBT_PROP(ensemble,8){
  Ensemble q=genEnsemble(s,s.chance(1,4)); c.log(q.s); auto a=makeAtm(q); Singles b(q,std::make_shared<EarthAtm>()); a->Set_EarthModel(q.earth); b.earth(q,q.earth); Setup p=q.p; bool osc=q.k.osc,bar=false,moved=false,again=false,evolved=false,haveState=false; unsigned threads=1; std::string log; bool between=false;
  auto both=[&](std::function<void(Atm&)> f,std::function<void(nuSQUIDS&)> g){ f(*a); for(auto& o: b.o) g(*o); haveState=false; };
#define BOTH(call) both([&](Atm& o_){ o_.call; },[&](nuSQUIDS& o_){ o_.call; })
  BOTH(Set_rel_error(1e-6)); BOTH(Set_abs_error(1e-6*q.scale)); if(!osc) BOTH(Set_IncludeOscillations(false)); if(q.k.tau) BOTH(Set_TauRegeneration(true)); if(q.k.gr) BOTH(Set_GlashowResonance(true));
  for(unsigned j=1;j<p.n;j++){ BOTH(Set_SquareMassDifference(j,p.dm[j])); for(unsigned i=0;i<j;i++){ BOTH(Set_MixingAngle(i,j,p.th[i][j])); BOTH(Set_CPPhase(i,j,p.del[i][j])); } }
  unsigned ops=(unsigned)s.range(2,7); size_t node=0;
  for(unsigned k=0;k<ops;k++){ int o=(int)s.below(29); double x=s.unit(); bool y=s.boolean(); node=s.below(q.cz.size()); log+=fmt(" %d/%.3g/%d/%zu",o,x,y,node);
    switch(o){ case 0: BOTH(Set_h(q.L*(0.001+0.015*x))); break; case 1: BOTH(Set_h_max(q.L*(0.02+x))); break; case 2: BOTH(Set_h_min(1e-6*x*q.L)); break; case 3: BOTH(Set_rel_error(std::pow(10,-4-3*x))); break; case 4: BOTH(Set_abs_error(q.scale*std::pow(10,-4-3*x))); break;
      case 5: BOTH(Set_GSL_step(y?gsl_odeiv2_step_rkf45:gsl_odeiv2_step_rk8pd)); break; case 6: case 28: BOTH(Set_ProgressBar(!bar)); bar=!bar; break; case 7: BOTH(Set_AllowConstantDensityOscillationOnlyEvolution(y)); break; case 8: BOTH(Set_PositivityConstrain(y)); BOTH(Set_PositivityConstrainStep(q.L*(0.05+x))); break;
      case 9: BOTH(Set_EvolLowPassCutoff(x*frequency(p))); BOTH(Set_EvolLowPassScale(0.5*x*x*frequency(p))); break; case 10: BOTH(Set_NeutrinoSources(y)); q.earth->q=y?q.scale/q.L:0; break;
      case 11:{ double t=1.5*x; unsigned i=(unsigned)s.below(p.n-1),j=i+1+(unsigned)s.below(p.n-1-i); p.th[i][j]=t; BOTH(Set_MixingAngle(i,j,t)); PBT_CHECK(c,a->Get_MixingAngle(i,j)==t,"Get_MixingAngle"); break; }
      case 12:{ double d=6*x; p.del[0][2]=d; BOTH(Set_CPPhase(0,2,d)); PBT_CHECK(c,a->Get_CPPhase(0,2)==d,"Get_CPPhase"); break; }
      case 13:{ double d=p.dm[2]*(0.5+x*0.5); p.dm[2]=d; BOTH(Set_SquareMassDifference(2,d)); PBT_CHECK(c,a->Get_SquareMassDifference(2)==d,"Get_SquareMassDifference"); break; }
      case 14: a->Set_h(q.L*(0.001+0.015*x),(unsigned)node); b.o[node]->Set_h(q.L*(0.001+0.015*x)); break; case 15: a->Set_h_max(q.L*(0.02+x),(unsigned)node); b.o[node]->Set_h_max(q.L*(0.02+x)); a->Set_h_min(1e-7*q.L,(unsigned)node); b.o[node]->Set_h_min(1e-7*q.L); break;
      case 16: a->Set_rel_error(std::pow(10,-4-3*x),(unsigned)node); b.o[node]->Set_rel_error(std::pow(10,-4-3*x)); a->Set_abs_error(q.scale*1e-5,(unsigned)node); b.o[node]->Set_abs_error(q.scale*1e-5); break;
      case 17:{ auto e=genEarth(s,log,!q.k.on&&y); e->q=q.earth->q; q.earth=e; a->Set_EarthModel(e); b.earth(q,e); haveState=false; break; }
      case 18: if(y){ Atm t(std::move(*a)); a.reset(new Atm(std::move(t))); } else{ Ensemble q2=genEnsemble(s,false,2); auto t=makeAtm(q2); *t=std::move(*a); a=std::move(t); } moved=true; PBT_CHECK(c,a->Get_EvalThreads()==threads,"number of threads after a move"); break;
      case 19: threads=(unsigned)s.range(0,6); a->Set_EvalThreads(threads); PBT_CHECK(c,threads?a->Get_EvalThreads()==threads:a->Get_EvalThreads()>=1,"number of threads"); threads=a->Get_EvalThreads(); break;
      case 20: if(q.k.on){ Cascade k2=genCascade(s,q.p,6,q.L); auto lib=k2.library(); if(k2.perNucleon==q.k.perNucleon){ BOTH(SetNeutrinoCrossSections(lib)); PBT_CHECK(c,a->GetNeutrinoCrossSections()==lib,"the cross sections given"); } } break;
      default: { setInitialAtm(*a,q,q.basis); b.initial(q); haveState=true; c.log(log+" evolve"); log.clear(); if(s.chance(1,3)){ if(!sameNodes(c,*a,b,q,"with the initial state")) return; Between B(q,b,false,osc,p); if(!evaluations(s,c,*a,q,B,*q.earth,2,between)) return; }
        bool ta=false,tb=false; std::string ma,mb; std::ostringstream said; { auto* old=std::cout.rdbuf(said.rdbuf()); try{ a->EvolveState(); }catch(const std::exception& x){ ta=true; ma=x.what(); } std::cout.rdbuf(old); } if(!ta){ std::string o=said.str(); size_t lines=0; for(size_t p=o.find("cos(th) = ");p!=std::string::npos;p=o.find("cos(th) = ",p+1)) lines++; PBT_CHECK(c,lines==(bar?q.cz.size():0),fmt("%zu lines of progress, the progress bar is %s",lines,bar?"on":"off")); if(bar) for(double z: q.cz) PBT_CHECK(c,o.find("cos(th) = "+std::to_string(z))!=std::string::npos,"no progress of a zenith"); }
        for(auto& n: b.o) try{ n->EvolveState(); }catch(const std::exception& x){ if(!tb) mb=x.what(); tb=true; } PBT_CHECK(c,ta==tb&&ma==mb,"evolving: "+ma+" / "+mb); if(ta){ c.label("refused"); return; }
        if(!sameNodes(c,*a,b,q,"evolved")) return; Between B(q,b,true,osc,p); if(!evaluations(s,c,*a,q,B,*q.earth,4,between)) return; again=evolved; evolved=true; break; } } }
  c.log(log); c.label(fmt("%zu zeniths",q.cz.size())); if(q.k.on) c.label("interactions"); if(moved) c.label("moved"); if(again) c.label("evolved again"); if(threads!=1&&evolved) c.label("threads"); c.nontrivial(evolved&&q.cz.size()>1); }

PBT_PROP(failures,2){ // an error while evolving is reported whatever the number of threads, and nothing stays behind
  Ensemble q=genEnsemble(s,false); c.log(q.s); auto a=makeAtm(q); Singles b(q,q.earth); a->Set_EarthModel(q.earth); unsigned threads=(unsigned)s.range(1,6); a->Set_EvalThreads(threads); a->Set_rel_error(1e-4); a->Set_abs_error(1e-4*q.scale); for(auto& o: b.o){ o->Set_rel_error(1e-4); o->Set_abs_error(1e-4*q.scale); }
  if(!q.k.osc){ a->Set_IncludeOscillations(false); for(auto& o: b.o) o->Set_IncludeOscillations(false); } if(q.k.tau){ a->Set_TauRegeneration(true); for(auto& o: b.o) o->Set_TauRegeneration(true); } if(q.k.gr){ a->Set_GlashowResonance(true); for(auto& o: b.o) o->Set_GlashowResonance(true); }
  for(double z: q.cz) if(s.boolean()){ auto t=q.earth->MakeTrackWithCosine(z); q.earth->fails.push_back(t.GetFinalX()); } bool any=!q.earth->fails.empty(); c.log(fmt("%zu fail, %u threads",q.earth->fails.size(),threads)); setInitialAtm(*a,q,q.basis);
  bool t=false; try{ a->EvolveState(); }catch(const std::runtime_error& e){ t=true; PBT_CHECK(c,std::string(e.what())=="no density here","another error: "+std::string(e.what())); } PBT_CHECK(c,t==any,any?"the failure was not reported":"failed without reason");
  q.earth->fails.clear(); auto hs=b.o[0]->Get_h(); (void)hs; // the steps may have been adapted: take over
  for(size_t i=0;i<q.cz.size();i++){ a->Set_h(q.L*0.01,(unsigned)i); b.o[i]->Set_h(q.L*0.01); } a->Set_EarthModel(q.earth); b.earth(q,q.earth); setInitialAtm(*a,q,q.basis); b.initial(q); a->EvolveState(); for(auto& n: b.o) n->EvolveState(); if(!sameNodes(c,*a,b,q,"after the failure was removed")) return; c.label(any?"failed":"nothing failed"); c.nontrivial(any&&threads>1&&q.cz.size()>1); }

PBT_PROP(refused,2){
  Ensemble q=genEnsemble(s,false,3); c.log(q.s); auto a=makeAtm(q); a->Set_rel_error(1e-3); a->Set_abs_error(1e-3*q.scale); unsigned n=q.p.n,nr=q.p.nrho(); size_t nc=q.cz.size(),ne=q.p.E.size(); double cz=q.cz[0],E=q.p.E[0]; std::vector<bool> avr(n); c.nontrivial(true);
#define REFUSED(x) PBT_CHECK(c,throws<std::runtime_error>([&]{ (void)a->x; }),"not refused: " #x)
  REFUSED(EvolveState()); REFUSED(EvalFlavor(0,cz,E,0)); REFUSED(EvalFlavor(0,cz,E,0,1.0,avr)); { Scratch f(".h5"); REFUSED(WriteStateHDF5(f.path)); }
  { size_t w[4]={nc,ne,nr,n}; int bad=(int)s.below(4); w[bad]= s.boolean()||w[bad]==1? w[bad]+1+s.below(2): w[bad]-1; c.log(fmt("%zu %zu %zu %zu",w[0],w[1],w[2],w[3])); if(nr==1||s.boolean()){ marray<double,4> v{w[0],w[1],w[2],w[3]}; std::fill(v.begin(),v.end(),1.0); REFUSED(Set_initial_state(v,flavor)); } if(bad!=2&&nr==1){ marray<double,3> v{w[0],w[1],w[3]}; std::fill(v.begin(),v.end(),1.0); REFUSED(Set_initial_state(v,flavor)); } if(nr==2){ marray<double,3> v{nc,ne,n}; std::fill(v.begin(),v.end(),1.0); REFUSED(Set_initial_state(v,flavor)); } }
  REFUSED(EvolveState()); setInitialAtm(*a,q,q.basis); if(s.boolean()) a->EvolveState();
  unsigned bf=n+(unsigned)s.below(5),br=nr+(unsigned)s.below(5); double lo=s.boolean()?std::nextafter(E,0):E*s.unit()*0.99,hi=s.boolean()?std::nextafter(q.p.E.back(),1e300):q.p.E.back()*2,zl=s.boolean()?std::nextafter(cz,-2):-1.01-s.unit(),zh=s.boolean()?std::nextafter(q.cz.back(),2):1.01+s.unit();
  REFUSED(EvalFlavor(bf,cz,E,0)); REFUSED(EvalFlavor(0,cz,E,br)); REFUSED(EvalFlavor(0,cz,lo,0)); REFUSED(EvalFlavor(0,cz,hi,0)); REFUSED(EvalFlavor(0,zl,E,0)); REFUSED(EvalFlavor(0,zh,E,0));
  REFUSED(EvalFlavor(bf,cz,E,0,1.0,avr)); REFUSED(EvalFlavor(0,cz,E,br,1.0,avr)); REFUSED(EvalFlavor(0,cz,lo,0,1.0,avr)); REFUSED(EvalFlavor(0,cz,hi,0,1.0,avr)); REFUSED(EvalFlavor(0,zl,E,0,1.0,avr)); REFUSED(EvalFlavor(0,zh,E,0,1.0,avr));
  unsigned bi=(unsigned)nc+(unsigned)s.below(5); REFUSED(GetnuSQuIDS(bi)); REFUSED(Set_h(1.0,bi)); REFUSED(Set_h_max(1.0,bi)); REFUSED(Set_h_min(1.0,bi)); REFUSED(Set_rel_error(1e-3,bi)); REFUSED(Set_abs_error(1e-3,bi)); REFUSED(GetStates(br)); PBT_CHECK(c,throwsAny([&]{ a->Set_MixingAngle(0,n,0.1); }),"not refused: Set_MixingAngle(0,n,0.1)"); PBT_CHECK(c,throwsAny([&]{ a->Set_CPPhase(n,0,0.1); }),"not refused: Set_CPPhase(n,0,0.1)"); PBT_CHECK(c,throwsAny([&]{ a->Set_SquareMassDifference(n,0.1); }),"not refused: Set_SquareMassDifference(n,0.1)"); PBT_CHECK(c,throwsAny([&]{ a->Set_SquareMassDifference(0,0.1); }),"not refused: Set_SquareMassDifference(0,0.1)");
  Atm t(std::move(*a)); REFUSED(EvolveState()); REFUSED(EvalFlavor(0,cz,E,0)); REFUSED(EvalFlavor(0,cz,E,0,1.0,avr)); a=makeAtm(q); a->Set_rel_error(1e-3); a->Set_abs_error(1e-3*q.scale); setInitialAtm(*a,q,q.basis); a->EvolveState(); }
