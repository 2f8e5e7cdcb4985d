// A stand-in for the SQuIDS library's SU_vector: Hermitian operators as real
// components along the identity and the generalised Gell-Mann matrices.
// Nothing is lazy here; `guarantee` is the identity.
#ifndef SQUIDS_SUNALG_H
#define SQUIDS_SUNALG_H
#include <cassert>
#include <gsl/gsl_eigen.h>
#include <memory>
#include <utility>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <SQuIDS/const.h>
#define SQUIDS_THREAD_LOCAL thread_local
// A claim that does not hold would let the compiler emit faulting instructions.
#define SQUIDS_POINTER_IS_ALIGNED(p,n) do{ if(((std::uintptr_t)(p))%(n)){ std::cerr<<"Assertion: " #p " is claimed to be aligned to "<<(n)<<" but is not"<<std::endl; std::abort(); } }while(0)
namespace squids{
namespace detail{
enum{ NoAlias=1, EqualSizes=2, AlignedStorage=4 };
template<unsigned int Flags,typename T> inline T guarantee(T&& t){ return std::forward<T>(t); }
}
class SU_vector{
public:
  typedef std::complex<double> C;
  SU_vector():dim(0),size(0),own(true),c(nullptr){}
  explicit SU_vector(unsigned int d):dim(d),size(d*d),own(true),c(nullptr){ check(d); c=new double[size](); }
  SU_vector(unsigned int d,double* p):dim(d),size(d*d),own(false),c(p){ check(d); }
  explicit SU_vector(const std::vector<double>& v):dim((unsigned)std::lround(std::sqrt((double)v.size()))),size(v.size()),own(true),c(nullptr){ if(dim*dim!=size) throw std::runtime_error("SU_vector: wrong number of components"); check(dim); c=new double[size]; std::copy(v.begin(),v.end(),c); }
  SU_vector(const SU_vector& o):dim(o.dim),size(o.size),own(true),c(nullptr){ if(size){ c=new double[size]; std::copy(o.c,o.c+size,c); } }
  SU_vector(SU_vector&& o):dim(o.dim),size(o.size),own(o.own),c(o.c){ o.c=nullptr; o.dim=0; o.size=0; o.own=true; }
  ~SU_vector(){ if(own) delete[] c; }
  SU_vector& operator=(const SU_vector& o){
    if(this==&o) return *this;
    if(size!=o.size){ if(!own) throw std::runtime_error("Non-matching dimensions in assignment to SU_vector with external storage"); double* n=o.size?new double[o.size]:nullptr; delete[] c; c=n; dim=o.dim; size=o.size; }
    std::copy(o.c,o.c+size,c); return *this; }
  SU_vector& operator=(SU_vector&& o){
    if(this==&o) return *this;
    if(own){ delete[] c; c=o.c; dim=o.dim; size=o.size; own=o.own; o.c=nullptr; o.dim=0; o.size=0; o.own=true; }
    else *this=static_cast<const SU_vector&>(o);
    return *this; }
  void SetBackingStore(double* p){ if(own) delete[] c; c=p; own=false; }
  void SetAllComponents(double v){ std::fill(c,c+size,v); }
  std::vector<double> GetComponents() const{ return std::vector<double>(c,c+size); }
  unsigned int Dim() const{ return dim; }
  unsigned int Size() const{ return size; }
  double& operator[](int i){ return c[i]; }
  const double& operator[](int i) const{ return c[i]; }

  // index of the generators acting on the pair a<b (symmetric, antisymmetric)
  static unsigned sym(unsigned n,unsigned a,unsigned b){ return a*n+b; }
  static unsigned asym(unsigned n,unsigned a,unsigned b){ return b*n+a; }
  std::vector<C> matrix() const{
    unsigned n=dim; std::vector<C> m(size,C(0));
    for(unsigned a=0;a<n;a++) for(unsigned b=a+1;b<n;b++){ m[a*n+b]=C(c[sym(n,a,b)],-c[asym(n,a,b)]); m[b*n+a]=std::conj(m[a*n+b]); }
    for(unsigned k=0;k<n;k++){ double d=c[0]; for(unsigned l=1;l<n;l++) d+=c[l*n+l]*diag(l,k); m[k*n+k]=d; }
    return m; }
  static SU_vector fromMatrix(unsigned n,const std::vector<C>& m){
    SU_vector r(n);
    for(unsigned a=0;a<n;a++) for(unsigned b=a+1;b<n;b++){ C z=0.5*(m[a*n+b]+std::conj(m[b*n+a])); r.c[sym(n,a,b)]=z.real(); r.c[asym(n,a,b)]=-z.imag(); }
    double t=0; for(unsigned k=0;k<n;k++) t+=m[k*n+k].real(); r.c[0]=t/n;
    for(unsigned l=1;l<n;l++){ double d=0; for(unsigned k=0;k<n;k++) d+=diag(l,k)*m[k*n+k].real(); r.c[l*n+l]=d/2; }
    return r; }
  std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)> GetGSLMatrix() const{
    auto m=matrix(); gsl_matrix_complex* g=gsl_matrix_complex_alloc(dim,dim);
    for(unsigned i=0;i<dim;i++) for(unsigned j=0;j<dim;j++) gsl_matrix_complex_set(g,i,j,gsl_complex_rect(m[i*dim+j].real(),m[i*dim+j].imag()));
    return std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)>(g,gsl_matrix_complex_free); }
  std::pair<std::unique_ptr<gsl_vector,void(*)(gsl_vector*)>,std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)>> GetEigenSystem(bool order=true) const{
    std::unique_ptr<gsl_vector,void(*)(gsl_vector*)> values(gsl_vector_alloc(dim),gsl_vector_free);
    std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)> vectors(gsl_matrix_complex_alloc(dim,dim),gsl_matrix_complex_free);
    auto m=GetGSLMatrix(); gsl_eigen_hermv_workspace* ws=gsl_eigen_hermv_alloc(dim); gsl_eigen_hermv(m.get(),values.get(),vectors.get(),ws); gsl_eigen_hermv_free(ws);
    if(order) gsl_eigen_hermv_sort(values.get(),vectors.get(),GSL_EIGEN_SORT_VAL_ASC);
    return std::make_pair(std::move(values),std::move(vectors)); }
  static SU_vector Projector(unsigned int n,unsigned int i){ if(i>=n) throw std::runtime_error("SU_vector::Projector: invalid component"); std::vector<C> m(n*n,C(0)); m[i*n+i]=1; return fromMatrix(n,m); }
  static SU_vector Identity(unsigned int n){ SU_vector r(n); r.c[0]=1; return r; }
  static SU_vector PosProjector(unsigned int n,unsigned int k){ std::vector<C> m(n*n,C(0)); for(unsigned i=0;i<k;i++) m[i*n+i]=1; return fromMatrix(n,m); }
  static SU_vector NegProjector(unsigned int n,unsigned int k){ std::vector<C> m(n*n,C(0)); for(unsigned i=0;i<k;i++) m[(n-1-i)*n+(n-1-i)]=1; return fromMatrix(n,m); }
  void RotateToB1(const Const& p){ auto U=p.transformation(dim); *this=fromMatrix(dim,mul(dim,dag(dim,U),mul(dim,matrix(),U))); }
  void RotateToB0(const Const& p){ auto U=p.transformation(dim); *this=fromMatrix(dim,mul(dim,U,mul(dim,matrix(),dag(dim,U)))); }

  size_t GetEvolveBufferSize() const{ return dim*(dim-1); }
  double level(unsigned k) const{ double d=c[0]; for(unsigned l=1;l<dim;l++) d+=c[l*dim+l]*diag(l,k); return d; }
  // this is the (diagonal) Hamiltonian
  void PrepareEvolve(double* b,double t) const{ size_t k=0; for(unsigned i=0;i<dim;i++) for(unsigned j=i+1;j<dim;j++,k++){ double w=difference(i,j)*t; b[2*k]=std::cos(w); b[2*k+1]=std::sin(w); } }
  void PrepareEvolve(double* b,double t,double scale,std::vector<bool>& avr) const{
    size_t k=0; for(unsigned i=0;i<dim;i++) for(unsigned j=i+1;j<dim;j++,k++){ double w=difference(i,j)*t; bool av=std::fabs(w)>std::fabs(scale);
      if(k<avr.size()) avr[k]=av;
      b[2*k]=av?0:std::cos(w); b[2*k+1]=av?0:std::sin(w); } }
  void LowPassFilter(double* b,double cutoff,double scale) const{
    if(scale>cutoff) throw std::runtime_error("Linear ramp extends beyond the cutoff frequency!");
    size_t k=0; for(unsigned i=0;i<dim;i++) for(unsigned j=i+1;j<dim;j++,k++){ double w=std::fabs(difference(i,j)),f=1;
      if(w>cutoff) f=0; else if(scale>0&&w>cutoff-scale) f=(cutoff-w)/scale;
      b[2*k]*=f; b[2*k+1]*=f; } }
  // e^{iHt} this e^{-iHt} for the H and t prepared
  SU_vector Evolve(const double* b) const{
    SU_vector r(*this); unsigned n=dim; size_t k=0;
    for(unsigned i=0;i<n;i++) for(unsigned j=i+1;j<n;j++,k++){ double x=c[sym(n,i,j)],y=c[asym(n,i,j)],co=b[2*k],si=b[2*k+1];
      // (x-iy)*(co+i si)
      r.c[sym(n,i,j)]=x*co+y*si; r.c[asym(n,i,j)]=y*co-x*si; }
    return r; }
  SU_vector Evolve(const SU_vector& H,double t) const{ std::vector<double> b(GetEvolveBufferSize()+1); H.PrepareEvolve(b.data(),t); return Evolve(b.data()); }
  // e^{-scale H} this e^{scale H}; used with scale = i t
  SU_vector UTransform(const SU_vector& H,gsl_complex scale) const;
  SU_vector operator-() const{ SU_vector r(*this); for(unsigned i=0;i<size;i++) r.c[i]=-c[i]; return r; }
  SU_vector& operator+=(const SU_vector& o){ same(o); for(unsigned i=0;i<size;i++) c[i]+=o.c[i]; return *this; }
  SU_vector& operator-=(const SU_vector& o){ same(o); for(unsigned i=0;i<size;i++) c[i]-=o.c[i]; return *this; }
  SU_vector& operator*=(double x){ for(unsigned i=0;i<size;i++) c[i]*=x; return *this; }
  SU_vector& operator/=(double x){ for(unsigned i=0;i<size;i++) c[i]/=x; return *this; }
  bool operator==(const SU_vector& o) const{ return size==o.size&&std::equal(c,c+size,o.c); }
  double operator*(const SU_vector& o) const{ same(o); unsigned n=dim; double t=n*c[0]*o.c[0]; for(unsigned i=1;i<size;i++) t+=2*c[i]*o.c[i]; return t; }
  static std::vector<C> mul(unsigned n,const std::vector<C>& a,const std::vector<C>& b){ std::vector<C> r(n*n,C(0)); for(unsigned i=0;i<n;i++) for(unsigned k=0;k<n;k++){ C x=a[i*n+k]; for(unsigned j=0;j<n;j++) r[i*n+j]+=x*b[k*n+j]; } return r; }
  static std::vector<C> dag(unsigned n,const std::vector<C>& a){ std::vector<C> r(n*n); for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) r[i*n+j]=std::conj(a[j*n+i]); return r; }
  void same(const SU_vector& o) const{ if(size!=o.size) throw std::runtime_error("Non-matching dimensions of SU_vectors"); }
#ifdef SHIM_PYTHON
  // what the Python module names
  SU_vector Rotate(unsigned i,unsigned j,double th,double del) const{ Const p; p.SetMixingAngle(i,j,th); p.SetPhase(i,j,del); SU_vector r(*this); r.RotateToB1(p); return r; }
  void WeightedRotation(const Const& a,const SU_vector& w,const Const& b){ same(w); RotateToB1(a); RotateToB0(b); }
  SU_vector Transpose() const{ SU_vector r(*this); for(unsigned a=0;a<dim;a++) for(unsigned b=a+1;b<dim;b++) r.c[asym(dim,a,b)]=-c[asym(dim,a,b)]; return r; }
  SU_vector Real() const{ SU_vector r(*this); for(unsigned a=0;a<dim;a++) for(unsigned b=a+1;b<dim;b++) r.c[asym(dim,a,b)]=0; return r; }
  SU_vector Imag() const{ SU_vector r(dim); for(unsigned a=0;a<dim;a++) for(unsigned b=a+1;b<dim;b++) r.c[asym(dim,a,b)]=c[asym(dim,a,b)]; return r; }
  static SU_vector Generator(unsigned n,unsigned i){ if(i>=n*n) throw std::runtime_error("SU_vector::Generator: invalid component"); SU_vector r(n); r.c[i]=1; return r; }
#endif
private:
  static double diag(unsigned l,unsigned k){ double f=std::sqrt(2.0/(l*(l+1.0))); return k<l?f:k==l?-f*l:0; }
  double difference(unsigned i,unsigned j) const{ double d=0; for(unsigned l=1;l<dim;l++) d+=c[l*dim+l]*(diag(l,i)-diag(l,j)); return d; }
  static void check(unsigned d){ if(d>SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("SU_vector: only dimensions up to " + std::to_string(SQUIDS_MAX_HILBERT_DIM) + " are supported"); }
  unsigned int dim,size; bool own; double* c;
};
inline SU_vector operator+(SU_vector a,const SU_vector& b){ SU_vector r(static_cast<const SU_vector&>(a)); r+=b; return r; }
inline SU_vector operator-(SU_vector a,const SU_vector& b){ SU_vector r(static_cast<const SU_vector&>(a)); r-=b; return r; }
inline SU_vector operator*(const SU_vector& a,double x){ SU_vector r(a); r*=x; return r; }
inline SU_vector operator*(double x,const SU_vector& a){ SU_vector r(a); r*=x; return r; }
inline SU_vector operator/(const SU_vector& a,double x){ SU_vector r(a); r/=x; return r; }
template<unsigned int Flags=0> inline double SUTrace(const SU_vector& a,const SU_vector& b){ return a*b; }
inline SU_vector iCommutator(const SU_vector& a,const SU_vector& b){
  typedef std::complex<double> C; unsigned n=a.Dim(); a.same(b); auto A=a.matrix(),B=b.matrix(); auto P=SU_vector::mul(n,A,B);
  std::vector<C> r(n*n); for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) r[i*n+j]=C(0,1)*(P[i*n+j]-std::conj(P[j*n+i])); return SU_vector::fromMatrix(n,r); }
inline SU_vector ACommutator(const SU_vector& a,const SU_vector& b){
  typedef std::complex<double> C; unsigned n=a.Dim(); a.same(b); auto A=a.matrix(),B=b.matrix(); auto P=SU_vector::mul(n,A,B);
  std::vector<C> r(n*n); for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) r[i*n+j]=P[i*n+j]+std::conj(P[j*n+i]); return SU_vector::fromMatrix(n,r); }
inline SU_vector SU_vector::UTransform(const SU_vector& H,gsl_complex scale) const{
  // exponential of the anti-Hermitian matrix by scaling and squaring of its Taylor series
  unsigned n=dim; same(H); C s(GSL_REAL(scale),GSL_IMAG(scale)); auto M=H.matrix();
  double tr=0; for(unsigned i=0;i<n;i++) tr+=M[i*n+i].real(); for(unsigned i=0;i<n;i++) M[i*n+i]-=tr/n;
  double nm=0; for(auto& z: M){ z*=-s; nm=std::max(nm,std::abs(z)); }
  int k=0; while(nm*n>0.25){ nm/=2; k++; } double f=std::ldexp(1.0,-k); for(auto& z: M) z*=f;
  std::vector<C> E(n*n,C(0)),T; for(unsigned i=0;i<n;i++) E[i*n+i]=1; T=E;
  for(int q=1;q<=18;q++){ T=mul(n,T,M); for(auto& z: T) z/=q; for(unsigned i=0;i<n*n;i++) E[i]+=T[i]; }
  for(int q=0;q<k;q++) E=mul(n,E,E);
  return fromMatrix(n,mul(n,E,mul(n,matrix(),dag(n,E)))); }
#ifdef SHIM_PYTHON
namespace detail{ // nothing is lazy here: these are never made
struct AdditionProxy{ operator SU_vector() const{ return SU_vector(); } }; struct SubtractionProxy{ operator SU_vector() const{ return SU_vector(); } }; struct NegationProxy{ operator SU_vector() const{ return SU_vector(); } }; struct EvolutionProxy{ operator SU_vector() const{ return SU_vector(); } }; struct MultiplicationProxy{ operator SU_vector() const{ return SU_vector(); } }; struct iCommutatorProxy{ operator SU_vector() const{ return SU_vector(); } }; struct ACommutatorProxy{ operator SU_vector() const{ return SU_vector(); } };
}
#endif
inline std::ostream& operator<<(std::ostream& o,const SU_vector& v){ for(unsigned i=0;i<v.Size(); i++) o<<v[i]<<"  "; return o; }
}
#endif
