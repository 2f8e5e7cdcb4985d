// A stand-in for the SQuIDS library's evolution class.
#ifndef SQUIDS_SQUIDS_H
#define SQUIDS_SQUIDS_H
#include <algorithm>
#include <cfloat>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_odeiv2.h>
#include <SQuIDS/const.h>
#include <SQuIDS/SUNalg.h>
namespace squids{
struct SU_state{ std::unique_ptr<SU_vector[]> rho; double* scalar=nullptr; };
class SQuIDS{
protected:
  std::unique_ptr<double[]> system;
  std::vector<double> x;
  double t=0,t_ini=0;
  unsigned int nx=0,nsun=0,nrhos=0,nscalars=0,size_rho=0,size_state=0;
  bool CoherentRhoTerms=false,NonCoherentRhoTerms=false,OtherRhoTerms=false,GammaScalarTerms=false,OtherScalarTerms=false,AnyNumerics=false,is_init=false,adaptive_step=true;
  double h=DBL_EPSILON,h_min=DBL_MIN,h_max=DBL_MAX,abs_error=1e-20,rel_error=1e-20; int nsteps=1000;
  const gsl_odeiv2_step_type* step=gsl_odeiv2_step_rkf45;
  std::unique_ptr<SU_state[]> state,estate,dstate;
public:
  Const params;
  SQuIDS(){}
  SQuIDS(unsigned int n,unsigned int ns,unsigned int nr,unsigned int sc,double ti=0){ ini(n,ns,nr,sc,ti); }
  SQuIDS(SQuIDS&& o){ steal(o); }
  SQuIDS& operator=(SQuIDS&& o){ if(this!=&o) steal(o); return *this; }
  virtual ~SQuIDS(){}
  void ini(unsigned int n,unsigned int ns,unsigned int nr,unsigned int sc,double ti){
    nx=n; nsun=ns; nrhos=nr; nscalars=sc; size_rho=ns*ns; size_state=size_rho*nr+sc; t=t_ini=ti;
    system.reset(new double[nx*size_state]());
    x.assign(nx,0);
    for(auto* s: {&state,&estate,&dstate}){ s->reset(new SU_state[nx]); for(unsigned i=0;i<nx;i++) (*s)[i].rho.reset(new SU_vector[nrhos]); }
    for(unsigned i=0;i<nx;i++) for(unsigned r=0;r<nrhos;r++){ double* p=system.get()+i*size_state+r*size_rho; state[i].rho[r]=SU_vector(nsun,p); estate[i].rho[r]=SU_vector(nsun,p); dstate[i].rho[r]=SU_vector(nsun,p); }
    point(state,system.get()); point(estate,system.get()); is_init=true; }
  virtual SU_vector H0(double,unsigned int) const{ return SU_vector(nsun); }
  virtual SU_vector HI(unsigned int,unsigned int,double) const{ return SU_vector(nsun); }
  virtual SU_vector GammaRho(unsigned int,unsigned int,double) const{ return SU_vector(nsun); }
  virtual SU_vector InteractionsRho(unsigned int,unsigned int,double) const{ return SU_vector(nsun); }
  virtual double GammaScalar(unsigned int,unsigned int,double) const{ return 0; }
  virtual double InteractionsScalar(unsigned int,unsigned int,double) const{ return 0; }
  virtual void PreDerive(double){}
  void Derive(double at){
    t=at; PreDerive(at);
    for(unsigned i=0;i<nx;i++){
      for(unsigned r=0;r<nrhos;r++){
        SU_vector d(nsun);
        if(CoherentRhoTerms) d+=iCommutator(estate[i].rho[r],HI(i,r,t));
        if(NonCoherentRhoTerms) d-=ACommutator(GammaRho(i,r,t),estate[i].rho[r]);
        if(OtherRhoTerms) d+=InteractionsRho(i,r,t);
        dstate[i].rho[r]=static_cast<const SU_vector&>(d);
      }
      for(unsigned s=0;s<nscalars;s++){ double d=0; if(GammaScalarTerms) d-=estate[i].scalar[s]*GammaScalar(i,s,t); if(OtherScalarTerms) d+=InteractionsScalar(i,s,t); dstate[i].scalar[s]=d; }
    } }
  void Evolve(double dt){
    if(!AnyNumerics){ t+=dt; PreDerive(t); return; }
    struct Sys{ static int rhs(double tt,const double* in,double* out,void* par){ SQuIDS* q=static_cast<SQuIDS*>(par); q->point(q->estate,const_cast<double*>(in)); q->point(q->dstate,out); q->Derive(tt); return GSL_SUCCESS; } };
    gsl_odeiv2_system sys={&Sys::rhs,nullptr,(size_t)nx*size_state,this};
    std::unique_ptr<gsl_odeiv2_driver,void(*)(gsl_odeiv2_driver*)> d(gsl_odeiv2_driver_alloc_y_new(&sys,step,h,abs_error,rel_error),gsl_odeiv2_driver_free);
    gsl_odeiv2_driver_set_hmin(d.get(),h_min); gsl_odeiv2_driver_set_hmax(d.get(),h_max); gsl_odeiv2_driver_set_nmax(d.get(),0);
    double tt=t,end=t+dt; int st= adaptive_step? gsl_odeiv2_driver_apply(d.get(),&tt,end,system.get()): gsl_odeiv2_driver_apply_fixed_step(d.get(),&tt,dt/nsteps,nsteps,system.get());
    t=tt; point(estate,system.get());
    if(st!=GSL_SUCCESS) throw std::runtime_error("SQUIDS::Evolve: Error in GSL ODE solver ("+std::string(gsl_strerror(st))+")"); }
  int Set_xrange(double lo,double hi,std::string scale){
    if(lo==hi){ x[0]=lo; return 0; }
    for(unsigned e=0;e<nx;e++) x[e]= scale=="log"? lo*std::pow(hi/lo,(double)e/(nx-1)): lo+(hi-lo)*e/(nx-1);
    return 0; }
  int Set_xrange(const std::vector<double>& v){
    if(v.size()!=nx) throw std::runtime_error("SQUIDS::Set_xrange : incorrect number of elements in x array");
    if(!std::is_sorted(v.begin(),v.end())) throw std::runtime_error("SQUIDS::Set_xrange : array must be sorted");
    x=v; return 0; }
  const std::vector<double>& Get_xrange() const{ return x; }
  double Get_x(unsigned int i) const{ return x[i]; }
  double Get_t() const{ return t; }
  double Get_t_initial() const{ return t_ini; }
  void Set_t(double v){ t=v; }
  void Set_h(double v){ h=v; } double Get_h() const{ return h; }
  void Set_h_min(double v){ h_min=v; if(h<h_min) h=50.0*h_min; }
  void Set_h_max(double v){ h_max=v; if(h>h_max) h=h_max/2; }
  void Set_rel_error(double v){ rel_error=v; } void Set_abs_error(double v){ abs_error=v; }
  double Get_rel_error() const{ return rel_error; } double Get_abs_error() const{ return abs_error; }
  void Set_NumSteps(unsigned int n){ nsteps=n; }
  void Set_AdaptiveStep(bool b){ adaptive_step=b; }
  void Set_GSL_step(gsl_odeiv2_step_type const* s){ step=s; }
  void Set_CoherentRhoTerms(bool b){ CoherentRhoTerms=b; any(); }
  void Set_NonCoherentRhoTerms(bool b){ NonCoherentRhoTerms=b; any(); }
  void Set_OtherRhoTerms(bool b){ OtherRhoTerms=b; any(); }
  void Set_GammaScalarTerms(bool b){ GammaScalarTerms=b; any(); }
  void Set_OtherScalarTerms(bool b){ OtherScalarTerms=b; any(); }
  void Set_AnyNumerics(bool b){ AnyNumerics=b; }
  double GetExpectationValue(SU_vector op,unsigned int nrh,unsigned int i) const{ return state[i].rho[nrh]*op.Evolve(H0(x[i],nrh),t-t_ini); }
  double GetExpectationValue(SU_vector op,unsigned int nrh,unsigned int i,double scale,std::vector<bool>& avr) const{
    SU_vector h0=H0(x[i],nrh); std::vector<double> b(h0.GetEvolveBufferSize()+1); h0.PrepareEvolve(b.data(),t-t_ini,scale,avr); return state[i].rho[nrh]*op.Evolve(b.data()); }
  double GetExpectationValueD(const SU_vector& op,unsigned int nrh,double xi) const{ SU_vector s=GetIntermediateState(nrh,xi); return s*op.Evolve(H0(xi,nrh),t-t_ini); }
  double GetExpectationValueD(const SU_vector& op,unsigned int nrh,double xi,double scale,std::vector<bool>& avr) const{
    SU_vector s=GetIntermediateState(nrh,xi),h0=H0(xi,nrh); std::vector<double> b(h0.GetEvolveBufferSize()+1); h0.PrepareEvolve(b.data(),t-t_ini,scale,avr); return s*op.Evolve(b.data()); }
  SU_vector GetIntermediateState(unsigned int nrh,double xi) const{
    auto it=std::lower_bound(x.begin(),x.end(),xi);
    if(it==x.end()) throw std::runtime_error("SQUIDS::GetExpectationValueD : x value not in the array.");
    if(it!=x.begin()) --it;
    size_t k=it-x.begin();
    if(x.size()==1) return state[0].rho[nrh];
    double f2=(xi-x[k])/(x[k+1]-x[k]);
    return (1-f2)*state[k].rho[nrh]+f2*state[k+1].rho[nrh]; }
private:
  void any(){ AnyNumerics=CoherentRhoTerms||NonCoherentRhoTerms||OtherRhoTerms||GammaScalarTerms||OtherScalarTerms; }
  void point(std::unique_ptr<SU_state[]>& s,double* base){ for(unsigned i=0;i<nx;i++){ for(unsigned r=0;r<nrhos;r++) s[i].rho[r].SetBackingStore(base+i*size_state+r*size_rho); s[i].scalar=base+i*size_state+nrhos*size_rho; } }
  void steal(SQuIDS& o){
    system=std::move(o.system); x=std::move(o.x); t=o.t; t_ini=o.t_ini; nx=o.nx; nsun=o.nsun; nrhos=o.nrhos; nscalars=o.nscalars; size_rho=o.size_rho; size_state=o.size_state;
    CoherentRhoTerms=o.CoherentRhoTerms; NonCoherentRhoTerms=o.NonCoherentRhoTerms; OtherRhoTerms=o.OtherRhoTerms; GammaScalarTerms=o.GammaScalarTerms; OtherScalarTerms=o.OtherScalarTerms; AnyNumerics=o.AnyNumerics; is_init=o.is_init; adaptive_step=o.adaptive_step;
    h=o.h; h_min=o.h_min; h_max=o.h_max; abs_error=o.abs_error; rel_error=o.rel_error; nsteps=o.nsteps; step=o.step;
    state=std::move(o.state); estate=std::move(o.estate); dstate=std::move(o.dstate); params=o.params; o.is_init=false; }
};
}
#endif
