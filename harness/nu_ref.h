// Neutrino evolution written out with plain complex matrices: the reference for P28 and after.
#ifndef NU_REF_H
#define NU_REF_H
#include "util.h"
#include <nuSQuIDS/nuSQuIDS.h>
#include <complex>
#include <memory>
#include <vector>
namespace nuref{
using namespace nusquids;
typedef std::complex<double> C;
typedef std::vector<double> V;
static const squids::Const U0;
static const double HIC=U0.sqrt2*U0.GF*U0.Na*std::pow(U0.cm,-3); // CC potential of 1 g/cm^3 of pure hydrogen

struct M{ // an n by n matrix
  unsigned n; std::vector<C> a;
  explicit M(unsigned n=0):n(n),a(n*n,C(0)){}
  C& operator()(unsigned i,unsigned j){ return a[i*n+j]; }
  const C& operator()(unsigned i,unsigned j) const{ return a[i*n+j]; }
  static M diag(const V& d){ M m(d.size()); for(unsigned i=0;i<m.n;i++) m(i,i)=d[i]; return m; }
  M dag() const{ M r(n); for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) r(i,j)=std::conj((*this)(j,i)); return r; }
  M conj() const{ M r(*this); for(auto& z: r.a) z=std::conj(z); return r; }
  M& operator+=(const M& o){ for(size_t k=0;k<a.size();k++) a[k]+=o.a[k]; return *this; }
  M& operator-=(const M& o){ for(size_t k=0;k<a.size();k++) a[k]-=o.a[k]; return *this; }
  M& operator*=(C z){ for(auto& x: a) x*=z; return *this; }
};
inline M operator*(const M& x,const M& y){ unsigned n=x.n; M r(n); for(unsigned i=0;i<n;i++) for(unsigned k=0;k<n;k++){ C z=x(i,k); if(z==C(0)) continue; for(unsigned j=0;j<n;j++) r(i,j)+=z*y(k,j); } return r; }
inline M operator+(M x,const M& y){ x+=y; return x; }
inline M operator-(M x,const M& y){ x-=y; return x; }
inline M operator*(C z,M x){ x*=z; return x; }
// exp(-i H t)
inline M propagator(M H,double t){
  unsigned n=H.n; double tr=0,nm=0; for(unsigned i=0;i<n;i++) tr+=H(i,i).real(); for(unsigned i=0;i<n;i++) H(i,i)-=tr/n;
  for(auto& z: H.a){ z*=C(0,-t); nm=std::max(nm,std::abs(z)); }
  int k=0; while(nm*n>0.3){ nm/=2; k++; } H*=std::ldexp(1.0,-k);
  M E=M::diag(V(n,1.0)),T=E;
  for(int q=1;q<=14;q++){ T=T*H; T*=1.0/q; E+=T; }
  for(int q=0;q<k;q++) E=E*E;
  return E; }

// eigenvectors of a Hermitian matrix, by Jacobi rotations: ascending
struct Eigen{ V value; M vector; };
inline Eigen eigen(M a){ unsigned n=a.n; M v=M::diag(V(n,1.0)); double sc=0; for(auto& z: a.a) sc=std::max(sc,std::abs(z)); if(sc>0) a*=1/sc;
  for(int sweep=0;sweep<60;sweep++){ double off=0; for(unsigned i=0;i<n;i++) for(unsigned j=i+1;j<n;j++) off=std::max(off,std::abs(a(i,j))); if(off<1e-16) break;
    for(unsigned p=0;p<n;p++) for(unsigned q=p+1;q<n;q++){ C z=a(p,q); double b=std::abs(z); if(b<1e-300) continue; C ph=z/b; double th=(a(q,q).real()-a(p,p).real())/(2*b),t=(th>=0?1:-1)/(std::fabs(th)+std::sqrt(th*th+1)),c=1/std::sqrt(t*t+1),s=t*c;
        M r=M::diag(V(n,1.0)); r(p,p)=c; r(q,q)=c; r(p,q)=s*ph; r(q,p)=-s*std::conj(ph); a=r.dag()*a*r; v=v*r; } }
  std::vector<unsigned> o(n); for(unsigned i=0;i<n;i++) o[i]=i; std::sort(o.begin(),o.end(),[&](unsigned i,unsigned j){ return a(i,i).real()<a(j,j).real(); }); Eigen e; e.vector=M(n); for(unsigned k=0;k<n;k++){ e.value.push_back(a(o[k],o[k]).real()*sc); for(unsigned i=0;i<n;i++) e.vector(i,k)=v(i,o[k]); } return e; }

// what there is to evolve
struct Setup{
  unsigned n=3; NeutrinoType NT=neutrino; std::vector<V> th,del; V dm; // dm[0]=0
  V E; // one entry and single: the single energy mode
  bool single=false;
  unsigned nrho() const{ return NT==both?2:1; }
  bool anti(unsigned rho) const{ return NT==antineutrino||(NT==both&&rho==1); }
  double sign(unsigned rho) const{ return anti(rho)?-1:1; }
  std::string str() const{ std::string s="n="+std::to_string(n)+" NT="+std::to_string((int)NT)+(single?" single":"")+" E="+pbt::strv(E,6)+" dm="+pbt::strv(dm,5)+" th=";
    for(unsigned j=1;j<n;j++) for(unsigned i=0;i<j;i++){ char b[60]; snprintf(b,60,"%.4g/%.4g ",th[i][j],del[i][j]); s+=b; } return s; }
  // flavor states in terms of mass states: R_{n-1,n}...R_24 R_14 R_23 R_13 R_12
  M mixing(unsigned rho) const{
    M u=M::diag(V(n,1.0));
    for(unsigned j=1;j<n;j++) for(unsigned i=0;i<j;i++){
      M r=M::diag(V(n,1.0)); double c=std::cos(th[i][j]),s=std::sin(th[i][j]); C ph=std::polar(1.0,del[i][j]);
      r(i,i)=r(j,j)=c; r(i,j)=s*std::conj(ph); r(j,i)=-s*ph; u=r*u; }
    return anti(rho)?u.conj():u; }
  // in the flavor basis
  M vacuum(double Enu,unsigned rho) const{ V d(n); for(unsigned k=0;k<n;k++) d[k]=dm[k]/(2*Enu); M u=mixing(rho); return u*M::diag(d)*u.dag(); }
  M matter(double density,double ye,unsigned rho) const{ double s=sign(rho),cc=s*HIC*density*ye,nc=-0.5*s*HIC*density*(1-ye); V d(n,0.0); d[0]=cc+nc; d[1]=d[2]=nc; return M::diag(d); }
  M initial(const V& v,Basis b,unsigned rho) const{ if(b==flavor) return M::diag(v); M u=mixing(rho); return u*M::diag(v)*u.dag(); }
  V flavors(const M& r) const{ V f(n); for(unsigned i=0;i<n;i++) f[i]=r(i,i).real(); return f; }
  V masses(const M& r,unsigned rho) const{ M u=mixing(rho); return flavors(u.dag()*r*u); }
  template<typename T> void parameters(T& nu) const{ for(unsigned j=1;j<n;j++){ nu.Set_SquareMassDifference(j,dm[j]); for(unsigned i=0;i<j;i++){ nu.Set_MixingAngle(i,j,th[i][j]); nu.Set_CPPhase(i,j,del[i][j]); } } }
  marray<double,1> energies() const{ marray<double,1> e{E.size()}; for(size_t i=0;i<E.size();i++) e[i]=E[i]; return e; }
  double dmmax() const{ double a=*std::min_element(dm.begin(),dm.end()),b=*std::max_element(dm.begin(),dm.end()); return b-a; }
};
inline Setup genSetup(pbt::Src& s,bool single,unsigned nmax,unsigned nemax,NeutrinoType want=(NeutrinoType)0,unsigned nemin=1){
  Setup p; p.single=single; p.n= s.chance(5,8)?3:(unsigned)s.range(3,nmax);
  if(want) p.NT=want; else { int k=(int)s.below(single?2:4); p.NT= k==0?neutrino:k==1?antineutrino:both; }
  p.th.assign(p.n,V(p.n,0.0)); p.del=p.th; p.dm.assign(p.n,0.0);
  int kind=(int)s.below(4); // default-like, random angles, few angles, none
  for(unsigned j=1;j<p.n;j++) for(unsigned i=0;i<j;i++){
    double t=0,d=0;
    if(kind==0){ t= j==1?0.583638:(j==2&&i==0)?0.149575:j==2?0.855211:s.real(0,0.4); if(s.boolean()) d=s.real(0,6.28); }
    else if(kind==1||(kind==2&&s.chance(1,3))){ t=s.real(0,1.5707); d=s.pick({0.0,0.5,1.0})*s.real(0,6.28); }
    p.th[i][j]=t; p.del[i][j]=d; }
  double base=2.5e-3;
  for(unsigned j=1;j<p.n;j++){ p.dm[j]= kind==0&&j==1?7.42e-5: kind==0&&j==2?base: base*s.logreal(0.01,1); if(s.chance(1,5)) p.dm[j]=-p.dm[j]; if(s.chance(1,16)) p.dm[j]=0; }
  unsigned ne= single?1:(unsigned)s.range(nemin,nemax);
  double e=1e9*s.logreal(0.1,1e4); for(unsigned i=0;i<ne;i++){ p.E.push_back(e); e*=1+s.logreal(0.02,2); }
  return p; }
// initial fluxes [energy][rho][state]
struct Init{ std::vector<std::vector<V>> v; Basis basis=flavor; double scale=1;
  std::string str() const{ std::string s= basis==flavor?"flavor":"mass"; for(auto& e: v) for(auto& r: e) s+=" "+pbt::strv(r,4); return s; } };
inline Init genInit(pbt::Src& s,const Setup& p,bool positive=true){
  Init in; in.basis= s.chance(1,3)?mass:flavor; in.scale= s.chance(1,4)?s.logreal(1e-12,1e12):1; int kind=(int)s.below(3); unsigned one=(unsigned)s.below(p.n);
  for(size_t e=0;e<p.E.size();e++){ std::vector<V> er; for(unsigned r=0;r<p.nrho();r++){ V x(p.n); for(unsigned f=0;f<p.n;f++) x[f]=in.scale*(kind==0?(f==one):kind==1?(s.chance(1,4)?0.0:s.unit()):s.pick({0.0,0.25,1.0})); if(!positive&&s.chance(1,6)){ size_t w=s.below(p.n); x[w]=-in.scale*s.unit(); } er.push_back(x); } in.v.push_back(er); }
  return in; }
template<typename T> void setInitial(T& nu,const Setup& p,const Init& in){
  size_t ne=p.E.size(); unsigned nr=p.nrho(),n=p.n;
  if(p.single){ marray<double,1> a{n}; for(unsigned f=0;f<n;f++) a[f]=in.v[0][0][f]; nu.Set_initial_state(a,in.basis); }
  else if(p.NT!=both){ marray<double,2> a{ne,n}; for(size_t e=0;e<ne;e++) for(unsigned f=0;f<n;f++) a[e][f]=in.v[e][0][f]; nu.Set_initial_state(a,in.basis); }
  else{ marray<double,3> a{ne,nr,n}; for(size_t e=0;e<ne;e++) for(unsigned r=0;r<nr;r++) for(unsigned f=0;f<n;f++) a[e][r][f]=in.v[e][r][f]; nu.Set_initial_state(a,in.basis); } }
template<typename T> void precision(T& nu,double rel,double scale){ nu.Set_rel_error(rel); nu.Set_abs_error(rel*scale); }
// the state the reference follows: flavor basis, [energy][rho]
typedef std::vector<std::vector<M>> Rho;
inline Rho start(const Setup& p,const Init& in){ Rho r(p.E.size()); for(size_t e=0;e<p.E.size();e++) for(unsigned k=0;k<p.nrho();k++) r[e].push_back(p.initial(in.v[e][k],in.basis,k)); return r; }
inline void constantStep(const Setup& p,Rho& r,double density,double ye,double t,bool osc=true){
  for(size_t e=0;e<p.E.size();e++) for(unsigned k=0;k<p.nrho();k++){ M H=p.matter(density,ye,k); if(osc) H+=p.vacuum(p.E[e],k); M s=propagator(H,t); r[e][k]=s*r[e][k]*s.dag(); } }
// fourth-order commutator-free Magnus steps through matter given as a function of the distance travelled
template<typename F> void variableStep(const Setup& p,Rho& r,F densityYe,double length,int slices,bool osc=true){
  double h=length/slices; const double q=std::sqrt(3.0)/6;
  for(size_t e=0;e<p.E.size();e++) for(unsigned k=0;k<p.nrho();k++){
    M s=M::diag(V(p.n,1.0)),h0(p.n); if(osc) h0=p.vacuum(p.E[e],k);
    for(int i=0;i<slices;i++){ double x=i*h; std::pair<double,double> a=densityYe(x+(0.5-q)*h),b=densityYe(x+(0.5+q)*h);
      M A=h0+p.matter(a.first,a.second,k),B=h0+p.matter(b.first,b.second,k);
      M f=C(0.25+q)*A+C(0.25-q)*B,g=C(0.25-q)*A+C(0.25+q)*B;
      s=propagator(g,h)*(propagator(f,h)*s); }
    r[e][k]=s*r[e][k]*s.dag(); } }
// compare everything the object can report at its nodes
template<typename T> bool matches(pbt::Case& c,T& nu,const Setup& p,const Rho& r,double tol,const std::string& what,bool massToo=true){
  for(size_t e=0;e<p.E.size();e++) for(unsigned k=0;k<p.nrho();k++){
    V f=p.flavors(r[e][k]),m=p.masses(r[e][k],k);
    for(unsigned i=0;i<p.n;i++){
      double a= p.single?nu.EvalFlavor(i):nu.EvalFlavorAtNode(i,e,k); if(!(std::fabs(a-f[i])<=tol)){ char b[200]; snprintf(b,200,"%s: flavor %u at energy %zu rho %u: got %.10g want %.10g (tolerance %.3g)",what.c_str(),i,e,k,a,f[i],tol); c.fail(b); return false; }
      if(massToo){ double b= p.single?nu.EvalMass(i):nu.EvalMassAtNode(i,e,k); if(!(std::fabs(b-m[i])<=tol)){ char s[200]; snprintf(s,200,"%s: mass state %u at energy %zu rho %u: got %.10g want %.10g (tolerance %.3g)",what.c_str(),i,e,k,b,m[i],tol); c.fail(s); return false; } } } }
  return true; }
inline double total(const Init& in){ double t=0; for(auto& e: in.v) for(auto& r: e){ double s=0; for(double x: r) s+=std::fabs(x); t=std::max(t,s); } return t; }
}
#endif
