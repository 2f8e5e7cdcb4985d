// atmospheric ensembles next to one object per zenith
#ifndef PBT_NU_ATM_H
#define PBT_NU_ATM_H
#include "nu_what.h"
#include <mutex>
namespace nuref{
struct Globe: EarthAtm{ using EarthAtm::EarthAtm; std::vector<double> fails; double q=0; // fails: lengths of tracks along which the density cannot be told
  double density(const GenericTrack& t) const override{ for(double l: fails) if(std::fabs(t.GetFinalX()-l)<1) throw std::runtime_error("no density here"); return EarthAtm::density(t); }
  void injected_neutrino_flux(marray<double,3>& f,const GenericTrack& t,const nuSQUIDS&) override{ if(q==0) return; for(size_t i=0;i<f.extent(0);i++) for(size_t j=0;j<f.extent(1);j++) for(size_t k=0;k<f.extent(2);k++) f[i][j][k]=q*(1+i+2*j+3*k)*std::sin(t.GetX()*1e-13); } };
typedef nuSQUIDSAtm<nuSQUIDS> Atm;
struct Ensemble{ Setup p; Cascade k; V cz; double scale=1,L=0; Basis basis=flavor; std::vector<Init> in; std::shared_ptr<Globe> earth; std::string s; };
inline std::shared_ptr<Globe> genEarth(Src& s,std::string& log,bool empty){
  unsigned m=(unsigned)s.range(4,7); V x,r,y; for(unsigned i=0;i<m;i++){ x.push_back(i==0?0:i+1==m?1:(i+s.real(-0.3,0.3))/(m-1)); r.push_back(empty?0:s.real(1,13)*(1.2-x.back())); y.push_back(s.real(0.4,0.6)); }
  log+=empty?" empty Earth":" Earth "+pbt::strv(r,7); auto e=std::make_shared<Globe>(x,r,y); if(s.chance(1,3)){ double h=s.real(1,60); e->SetAtmosphereHeight(h); log+=fmt(" height %g",h); } return e; }
inline double length(const Globe& e,double cz){ auto t=const_cast<Globe&>(e).MakeTrackWithCosine(cz); return t.GetFinalX()-t.GetInitialX(); }
inline Ensemble genEnsemble(Src& s,bool wantInter,unsigned ncmax=4){
  Ensemble q; q.p=genSetup(s,false,4,4); bool inter=wantInter||s.chance(1,3); q.earth=genEarth(s,q.s,!inter&&s.chance(1,4)); unsigned nc=(unsigned)s.range(1,ncmax); double z=-1; if(s.boolean()) z=s.real(-1,0); for(unsigned i=0;i<nc;i++){ if(i){ z+=s.real(0.02,2.0)*(1-z)/(nc-i+1); } q.cz.push_back(std::min(z,1.0)); } if(nc>1&&s.chance(1,4)) q.cz.back()=1; for(unsigned i=1;i<nc;i++) if(!(q.cz[i]>q.cz[i-1])){ q.cz.resize(i); break; }
  for(double c: q.cz) q.L=std::max(q.L,length(*q.earth,c)); double w=frequency(q.p)*q.L; if(w>40) for(double& e: q.p.E) e*=w/40;
  if(inter) q.k=genCascade(s,q.p,6,q.L); else{ q.k.on=false; q.k.osc=s.chance(7,8); }
  q.basis=flavor; for(size_t i=0;i<q.cz.size();i++){ Init in=genInit(s,q.p); if(i==0){ q.scale=in.scale; q.basis=in.basis; } in.basis=q.basis; for(auto& e: in.v) for(auto& r: e) for(double& v: r) v*=q.scale/in.scale; q.in.push_back(in); }
  q.s=q.p.str()+" cos "+pbt::strv(q.cz,6)+(q.k.on?" "+q.k.str():q.k.osc?"":" no oscillations")+q.s+(q.basis==mass?" mass ":" flavor "); for(auto& i: q.in) q.s+=i.str()+" "; return q; }
inline marray<double,1> cosines(const Ensemble& q){ marray<double,1> c{q.cz.size()}; for(size_t i=0;i<q.cz.size();i++) c[i]=q.cz[i]; return c; }
inline std::unique_ptr<Atm> makeAtm(const Ensemble& q){ std::unique_ptr<Atm> a(q.k.on? new Atm(cosines(q),q.p.energies(),q.p.n,q.p.NT,true,q.k.library()): new Atm(cosines(q),q.p.energies(),q.p.n,q.p.NT)); return a; }
inline void setInitialAtm(Atm& a,const Ensemble& q,Basis b){
  size_t nc=q.cz.size(),ne=q.p.E.size(),nr=q.p.nrho(),n=q.p.n;
  if(nr==1){ marray<double,3> v{nc,ne,n}; for(size_t i=0;i<nc;i++) for(size_t e=0;e<ne;e++) for(size_t f=0;f<n;f++) v[i][e][f]=q.in[i].v[e][0][f]; a.Set_initial_state(v,b); }
  else{ marray<double,4> v{nc,ne,nr,n}; for(size_t i=0;i<nc;i++) for(size_t e=0;e<ne;e++) for(size_t r=0;r<nr;r++) for(size_t f=0;f<n;f++) v[i][e][r][f]=q.in[i].v[e][r][f]; a.Set_initial_state(v,b); } }
// one object per zenith
struct Singles{ std::vector<std::unique_ptr<nuSQUIDS>> o;
  explicit Singles(const Ensemble& q,std::shared_ptr<EarthAtm> earth){ for(double c: q.cz){ o.emplace_back(q.k.on? new nuSQUIDS(q.p.energies(),q.p.n,q.p.NT,true,q.k.library()): new nuSQUIDS(q.p.energies(),q.p.n,q.p.NT)); ground(*o.back(),earth,c); } }
  static void ground(nuSQUIDS& n,std::shared_ptr<EarthAtm> earth,double c){ n.Set_Body(earth); n.Set_Track(std::make_shared<EarthAtm::Track>(earth->MakeTrackWithCosine(c))); }
  void earth(const Ensemble& q,std::shared_ptr<EarthAtm> e){ for(size_t i=0;i<o.size();i++) ground(*o[i],e,q.cz[i]); }
  void initial(const Ensemble& q){ for(size_t i=0;i<o.size();i++) setInitial(*o[i],q.p,q.in[i]); } };
inline M matrix(const squids::SU_vector& v){ unsigned n=v.Dim(); auto g=v.GetGSLMatrix(); M m(n); for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){ gsl_complex z=gsl_matrix_complex_get(g.get(),i,j); m(i,j)=C(GSL_REAL(z),GSL_IMAG(z)); } return m; }
}
#endif
