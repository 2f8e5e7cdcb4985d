// P09: complex matrix helpers against a naive evaluation.
#include "util.h"
#include <complex>
#include <gsl/gsl_complex_math.h>
#include <nuSQuIDS/tools.h>
using namespace pbt; typedef std::complex<double> C; typedef std::vector<C> Mat;
struct G{ gsl_matrix_complex* m; size_t n,k; G(size_t n,size_t k):m(gsl_matrix_complex_alloc(n,k)),n(n),k(k){} ~G(){ gsl_matrix_complex_free(m); } G(const G&)=delete;
  void set(const Mat& v){ for(size_t i=0;i<n;i++) for(size_t j=0;j<k;j++) gsl_matrix_complex_set(m,i,j,gsl_complex_rect(v[i*k+j].real(),v[i*k+j].imag())); }
  C at(size_t i,size_t j){ gsl_complex z=gsl_matrix_complex_get(m,i,j); return C(GSL_REAL(z),GSL_IMAG(z)); } };
static Mat gen(Src& s,size_t n,int kind){ Mat v(n); for(auto& x: v) x= kind==0? C((double)s.range(-3,3),(double)s.range(-3,3)): C(s.real(-2,2),s.real(-2,2)); return v; }
static Mat mul(const Mat& a,const Mat& b,size_t n){ Mat r(n*n); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) for(size_t k=0;k<n;k++) r[i*n+j]+=a[i*n+k]*b[k*n+j]; return r; }
static Mat dag(const Mat& a,size_t n){ Mat r(n*n); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) r[i*n+j]=std::conj(a[j*n+i]); return r; }
// a product of complex plane rotations: unitary
static Mat unitary(Src& s,size_t n){ Mat u(n*n); for(size_t i=0;i<n;i++) u[i*n+i]=1; unsigned k=1+s.below(2*n); for(unsigned q=0;q<k&&n>1;q++){ size_t i=s.below(n),j=s.below(n); if(i==j) continue; double t=s.real(-3.2,3.2),d=s.real(-3.2,3.2); Mat r(n*n); for(size_t x=0;x<n;x++) r[x*n+x]=1; r[i*n+i]=r[j*n+j]=cos(t); r[i*n+j]=std::polar(sin(t),-d); r[j*n+i]=-std::polar(sin(t),d); u=mul(r,u,n); } return u; }
static void cmp(Case& c,G& g,const Mat& w,double tol,const char* what){ for(size_t i=0;i<g.n;i++) for(size_t j=0;j<g.k;j++){ C x=g.at(i,j),y=w[i*g.k+j]; PBT_CHECK(c,std::abs(x-y)<=tol,fmt("%s: element %zu,%zu is %g%+gi, should be %g%+gi",what,i,j,x.real(),x.imag(),y.real(),y.imag())); } }

PBT_PROP(change_of_basis,1){
  size_t n=1+s.below(7); int kind=s.below(3); Mat m=gen(s,n*n,s.below(2)),u= kind==2?unitary(s,n):gen(s,n*n,kind);
  if(s.boolean()){ for(size_t i=0;i<n;i++){ m[i*n+i]=m[i*n+i].real(); for(size_t j=0;j<i;j++) m[j*n+i]=std::conj(m[i*n+j]); } c.label("hermitian"); }
  c.log("n="+str(n)+(kind==2?" unitary":" general")+" U="+strv(u,9)+" M="+strv(m,9)); c.nontrivial(n>1);
  double mu=0,mm=0; for(auto& x: u) mu=std::max(mu,std::abs(x)); for(auto& x: m) mm=std::max(mm,std::abs(x)); double tol=1e-14*(1+mu)*(1+mu)*(1+mm)*n*n;
  G gu(n,n),gm(n,n); gu.set(u); gm.set(m);
  nusquids::gsl_matrix_complex_change_basis_UMUC(gu.m,gm.m); cmp(c,gm,mul(mul(u,m,n),dag(u,n),n),tol,"U M U^dagger"); cmp(c,gu,u,0,"U was changed");
  gm.set(m); nusquids::gsl_matrix_complex_change_basis_UCMU(gu.m,gm.m); cmp(c,gm,mul(mul(dag(u,n),m,n),u,n),tol,"U^dagger M U"); cmp(c,gu,u,0,"U was changed");
  if(kind==2){ nusquids::gsl_matrix_complex_change_basis_UMUC(gu.m,gm.m); cmp(c,gm,m,3*tol,"there and back"); }
}
PBT_PROP(conjugate,1){
  size_t n=1+s.below(8),k=1+s.below(8); Mat m=gen(s,n*k,s.below(2)); G g(n,k); g.set(m); c.log(str(n)+"x"+str(k)); c.nontrivial(n*k>1);
  nusquids::gsl_matrix_complex_conjugate(g.m); Mat w(m); for(auto& x: w) x=std::conj(x); cmp(c,g,w,0,"conjugate"); nusquids::gsl_matrix_complex_conjugate(g.m); cmp(c,g,m,0,"twice conjugated");
}
PBT_PROP(print,0.2){
  size_t n=1+s.below(4),k=1+s.below(4); Mat m=gen(s,n*k,0); G g(n,k); g.set(m); c.log(str(n)+"x"+str(k)); c.nontrivial(n*k>1); std::ostringstream o; auto* old=std::cout.rdbuf(o.rdbuf()); nusquids::gsl_matrix_complex_print(g.m); std::cout.rdbuf(old);
  // the numbers appear in order, row by row
  std::istringstream in(o.str()); std::string line; for(size_t i=0;i<n;i++){ PBT_CHECK(c,(bool)std::getline(in,line),"a row is missing"); const char* p=line.c_str(); for(size_t j=0;j<k;j++){ char* e; double re=strtod(p,&e); PBT_CHECK(c,e!=p,"no number"); p=e; while(*p&&!strchr("0123456789-",*p)) p++; double im=strtod(p,&e); PBT_CHECK(c,e!=p,"no number"); p=e; PBT_CHECK(c,re==m[i*k+j].real()&&im==m[i*k+j].imag(),"printed values"); } }
}
