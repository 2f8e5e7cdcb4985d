// P35: evaluations at and between the energies tell the flavor and mass content of the interpolated state
#include "nu_what.h"
using namespace pbt; using namespace nuref;
static M matrix(const squids::SU_vector& v){ unsigned n=v.Dim(); auto g=v.GetGSLMatrix(); M m(n); for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){ gsl_complex z=gsl_matrix_complex_get(g.get(),i,j); m(i,j)=C(GSL_REAL(z),GSL_IMAG(z)); } return m; }
struct Ref{ const Setup& p; bool osc,inMass; double t; std::vector<std::vector<M>> s; // states as stored, mass basis
  double phase(unsigned i,unsigned j,double E) const{ return inMass||!osc?0:(p.dm[i]-p.dm[j])/(2*E)*t; }
  // scale<0: nothing averaged
  M at(double E,size_t e,double w,unsigned r,double scale,bool& close) const{ M m=w==0?s[e][r]:C(1-w)*s[e][r]+C(w)*s[e+1][r]; unsigned n=p.n; for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) if(i!=j){ double f=phase(i,j,E); if(scale>=0&&!inMass){ if(std::fabs(std::fabs(f)-scale)<=1e-9*(scale+1e-300)) close=true; if(std::fabs(f)>scale){ m(i,j)=0; continue; } } m(i,j)*=std::polar(1.0,-f); } return m; }
  double mass(const M& m,unsigned f) const{ return m(f,f).real(); }
  double flavor(const M& m,unsigned f,unsigned r) const{ M u=p.mixing(r); C x=0; for(unsigned i=0;i<p.n;i++) for(unsigned j=0;j<p.n;j++) x+=u(f,i)*m(i,j)*std::conj(u(f,j)); return x.real(); } };

PBT_PROP(values,8){
  What q=genWhat(s,s.chance(1,3)); const Setup& p=q.p; c.log(q.s); auto nu=build<nuSQUIDS>(q); settings(*nu,q); precision(*nu,1e-7,q.in.scale); bool inMass=q.mb; leg(*nu,q,0,true);
  for(unsigned i=0;i<q.before;i++){ if(i) leg(*nu,q,i,false); nu->EvolveState(); if(q.fast&&!q.k.on&&q.legs[i].first->IsConstantDensity()) inMass=true; }
  Ref R{p,q.k.osc,inMass,nu->Get_t()-nu->Get_t_initial(),{}}; double top=0; for(size_t e=0;e<p.E.size();e++){ std::vector<M> v; for(unsigned r=0;r<p.nrho();r++){ v.push_back(matrix(nu->GetState((unsigned)e,r))); for(auto& z: v.back().a) top=std::max(top,std::abs(z)); } R.s.push_back(v); }
  bool between=false,averaged=false; unsigned tries=(unsigned)s.range(3,10);
  for(unsigned k=0;k<tries;k++){ size_t e=s.below(p.E.size()); unsigned r=(unsigned)s.below(p.nrho()),f=(unsigned)s.below(p.n); double E=p.E[e],w=0; 
    if(p.E.size()>1&&s.chance(3,4)){ if(e+1==p.E.size()) e--; double u=s.pick({0.0,1.0,0.5,0.25})*1.0; if(s.boolean()) u=s.unit(); E=p.E[e]+u*(p.E[e+1]-p.E[e]); if(s.chance(1,8)) E=std::nextafter(p.E[e],1e300); if(s.chance(1,8)) E=std::nextafter(p.E[e+1],0); E=std::min(std::max(E,p.E[e]),p.E[e+1]); w=(E-p.E[e])/(p.E[e+1]-p.E[e]); if(w>1e-6&&w<1-1e-6) between=true; }
    double phase=0; for(unsigned i=0;i<p.n;i++) for(unsigned j=0;j<i;j++) phase=std::max(phase,std::fabs(R.phase(i,j,E))); double tol=top*p.n*p.n*(1e-13+4e-16*phase*4); bool close=false; std::string where=fmt("E=%.17g (node %zu + %.6g) rho %u index %u",E,e,w,r,f);
    M m=R.at(E,e,w,r,-1,close); double wf=R.flavor(m,f,r),wm=R.mass(m,f);
    auto same=[&](double got,double want,const char* what){ if(std::fabs(got-want)<=tol) return true; c.fail(fmt("%s at %s: %.15g instead of %.15g (tolerance %.2g)",what,where.c_str(),got,want,tol)); return false; };
    if(w==0){ if(!same(nu->EvalFlavorAtNode(f,(unsigned)e,r),wf,"EvalFlavorAtNode")||!same(nu->EvalMassAtNode(f,(unsigned)e,r),wm,"EvalMassAtNode")) return; }
    if(p.E.size()>1){ if(!same(nu->EvalFlavor(f,E,r),wf,"EvalFlavor")||!same(nu->EvalMass(f,E,r),wm,"EvalMass")) return; }
    else if(p.single){ if(!same(nu->EvalFlavor(f),wf,"EvalFlavor")||!same(nu->EvalMass(f),wm,"EvalMass")) return; }
    double scale=s.chance(1,4)?s.pick({0.0,1e300}):phase*s.logreal(1e-3,2); m=R.at(E,e,w,r,scale,close); if(close&&scale>0) continue; std::vector<bool> avr(p.n,s.boolean()),avr2=avr; wf=R.flavor(m,f,r); wm=R.mass(m,f); where+=fmt(" averaged beyond %g",scale);
    if(scale==0&&!inMass) close=false; // a phase of exactly zero: averaging it or not
    if(scale==0){ bool zero=false; for(unsigned i=0;i<p.n;i++) for(unsigned j=0;j<i;j++) if(R.phase(i,j,E)==0) zero=true; if(zero&&!inMass&&q.k.osc&&R.t!=0) continue; }
    if(p.E.size()>1){ if(!same(nu->EvalFlavor(f,E,r,scale,avr),wf,"EvalFlavor")||!same(nu->EvalMass(f,E,r,scale,avr2),wm,"EvalMass")) return; }
    else if(p.single){ if(!same(nu->EvalFlavor(f,scale,avr),wf,"EvalFlavor")||!same(nu->EvalMass(f,scale,avr2),wm,"EvalMass")) return; }
    if(!inMass&&scale<phase) averaged=true; }
  // projectors
  for(unsigned r=0;r<p.nrho();r++){ M u=p.mixing(r); for(unsigned f=0;f<p.n;f++){ M P=matrix(nu->GetFlavorProj(f,r)),Q=matrix(nu->GetMassProj(f,r)); for(unsigned i=0;i<p.n;i++) for(unsigned j=0;j<p.n;j++){ C wp=std::conj(u(f,i))*u(f,j); PBT_CHECK(c,std::abs(P(i,j)-wp)<1e-12,fmt("flavor projector %u rho %u at %u %u",f,r,i,j)); PBT_CHECK(c,std::abs(Q(i,j)-C(i==j&&i==f))<1e-12,fmt("mass projector %u",f)); } } }
  c.label(inMass?"mass basis":q.k.osc?"interaction picture":"no oscillations"); c.label(p.E.size()==1?"one energy":between?"between energies":"at energies"); c.label(averaged?"something averaged":"nothing averaged"); c.nontrivial(q.before>0&&(between||p.single)); }

PBT_PROP(refused,2){
  What q=genWhat(s); const Setup& p=q.p; c.log(q.s); auto nu=build<nuSQUIDS>(q); settings(*nu,q); precision(*nu,1e-5,q.in.scale); leg(*nu,q,0,true); if(s.boolean()) nu->EvolveState(); unsigned n=p.n,ne=(unsigned)p.E.size(),nr=p.nrho(); std::vector<bool> good(n),bad(s.boolean()?n-1:n+s.range(1,9)); c.nontrivial(true);
  unsigned bf=s.boolean()?n:n+(unsigned)s.below(1000)*(s.boolean()?1:1000003),br=s.boolean()?nr:nr+(unsigned)s.below(100),be=s.boolean()?ne:ne+(unsigned)s.below(100000); double lo=s.boolean()?std::nextafter(p.E[0],0):p.E[0]*s.unit()*0.999,hi=s.boolean()?std::nextafter(p.E.back(),1e300):p.E.back()*(1.001+s.logreal(1e-3,1e6)); c.log(fmt("flavor %u rho %u node %u energies %.17g %.17g flags %zu",bf,br,be,lo,hi,bad.size()));
#define REFUSED(x) PBT_CHECK(c,throws<std::runtime_error>([&]{ (void)nu->x; }),"not refused: " #x)
  REFUSED(EvalFlavorAtNode(bf,0,0)); REFUSED(EvalMassAtNode(bf,0,0)); REFUSED(EvalFlavorAtNode(0,be,0)); REFUSED(EvalMassAtNode(0,be,0)); REFUSED(EvalFlavorAtNode(0,0,br)); REFUSED(EvalMassAtNode(0,0,br));
  REFUSED(GetHamiltonian(be,0)); REFUSED(GetHamiltonian(0,br));
  if(ne>1){ double E=p.E[0]; REFUSED(EvalFlavor(bf,E,0)); REFUSED(EvalMass(bf,E,0)); REFUSED(EvalFlavor(0,E,br)); REFUSED(EvalMass(0,E,br)); REFUSED(EvalFlavor(0,lo,0)); REFUSED(EvalMass(0,lo,0)); REFUSED(EvalFlavor(0,hi,0)); REFUSED(EvalMass(0,hi,0));
    REFUSED(EvalFlavor(bf,E,0,1.0,good)); REFUSED(EvalMass(bf,E,0,1.0,good)); REFUSED(EvalFlavor(0,E,br,1.0,good)); REFUSED(EvalMass(0,E,br,1.0,good)); REFUSED(EvalFlavor(0,lo,0,1.0,good)); REFUSED(EvalMass(0,lo,0,1.0,good)); REFUSED(EvalFlavor(0,hi,0,1.0,good)); REFUSED(EvalMass(0,hi,0,1.0,good)); REFUSED(EvalFlavor(0,E,0,1.0,bad)); REFUSED(EvalMass(0,E,0,1.0,bad));
    REFUSED(EvalFlavor(0)); REFUSED(EvalMass(0)); REFUSED(EvalFlavor(0,1.0,good)); REFUSED(EvalMass(0,1.0,good)); c.label("several energies"); }
  else if(p.single){ REFUSED(EvalFlavor(bf)); REFUSED(EvalMass(bf)); REFUSED(EvalFlavor(bf,1.0,good)); REFUSED(EvalMass(bf,1.0,good)); REFUSED(EvalFlavor(0,1.0,bad)); REFUSED(EvalMass(0,1.0,bad)); REFUSED(EvalFlavor(0,lo,0)); REFUSED(EvalMass(0,hi,0)); c.label("one energy"); } }
