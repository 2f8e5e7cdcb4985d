// P12: three-dimensional interpolation against a long-double reference.
#include "interp_ref.h"
#include <nuSQuIDS/tools.h>
using namespace pbt; using namespace nusquids;
static marray<double,1> arr(const std::vector<double>& v){ marray<double,1> a({v.size()}); std::copy(v.begin(),v.end(),a.begin()); return a; }
static marray<double,2> arr2(const std::vector<double>& v,size_t ny,size_t nx){ marray<double,2> a({ny,nx}); std::copy(v.begin(),v.end(),a.begin()); return a; }
static double coord(Src& s,const std::vector<double>& x){ switch(s.below(4)){ case 0: return x[s.below(x.size())]; case 1: return std::nextafter(x[1+s.below(x.size()-2)],s.boolean()?1e9:-1e9); default: return s.real(x.front(),x.back()); } }
static marray<double,3> arr3(const std::vector<double>& v,const size_t n[3]){ marray<double,3> a({n[2],n[1],n[0]}); std::copy(v.begin(),v.end(),a.begin()); return a; }
PBT_PROP(value,1){
  Interp r; r.g.dim=3; r.g.exact=s.boolean(); for(int d=0;d<3;d++){ r.g.n[d]=3+s.size(0,5); r.g.ax[d]=knots(s,r.g.n[d],r.g.exact); }
  std::string w; auto data=gridData(s,r.g,w); r.prepare(data); c.label(w); c.log((r.g.exact?"exact ":"real ")+w+" x="+strv(r.g.ax[0],8)+" y="+strv(r.g.ax[1],8)+" z="+strv(r.g.ax[2],8)+" f="+strv(data,12)); c.nontrivial(r.g.n[0]!=r.g.n[1]||r.g.n[1]!=r.g.n[2]);
  TriCubicInterpolator f0(arr3(data,r.g.n),arr(r.g.ax[0]),arr(r.g.ax[1]),arr(r.g.ax[2])); TriCubicInterpolator f(f0); if(s.boolean()) f=f0;
  LD scale=0; for(auto v: data) scale=std::max<LD>(scale,fabsl(v));
  auto probe=[&](const double X[3],const double* exactValue){ LD v,e; r.eval(X,v,e); double got=f(X[0],X[1],X[2]); if(e>1e-6L*(scale+fabsl(v))){ c.label("ill-conditioned point (not compared)"); return; } PBT_CHECK(c,fabsl(got-v)<=6*e+1e-300L,fmt("value at (%.17g,%.17g,%.17g) is %.17g, should be %.17Lg +- %.3Lg",X[0],X[1],X[2],got,v,e)); if(exactValue) PBT_CHECK(c,fabsl(got-(LD)*exactValue)<=6*e+1e-12L*scale,fmt("grid point misses its datum: %.17g instead of %.17g",got,*exactValue)); };
  for(unsigned q=0;q<15;q++){ size_t i=s.below(r.g.n[0]),j=s.below(r.g.n[1]),k=s.below(r.g.n[2]); double X[3]={r.g.ax[0][i],r.g.ax[1][j],r.g.ax[2][k]}; probe(X,&data[r.g.at(i,j,k)]); }
  for(unsigned q=0;q<12;q++){ double X[3]={coord(s,r.g.ax[0]),coord(s,r.g.ax[1]),coord(s,r.g.ax[2])}; probe(X,nullptr); }
  double o=f(r.g.ax[0][0]-s.real(-50,50),r.g.ax[1][0]-s.real(-50,50),r.g.ax[2][0]-s.real(-50,50)); PBT_CHECK(c,std::isfinite(o),"a point outside gives a non-finite value");
}
PBT_PROP(refused,0.1){
  size_t n[3]={3+s.below(3),3+s.below(3),3+s.below(3)}; std::vector<double> x[3]; for(int d=0;d<3;d++) x[d]=knots(s,n[d],true); std::vector<double> v(n[0]*n[1]*n[2],1); unsigned a=s.below(3),k=s.below(4); std::string what; c.nontrivial();
  switch(k){ case 0: x[a].pop_back(); what="too few coordinates"; break; case 1: x[a].push_back(x[a].back()+1); what="too many coordinates"; break; case 2:{ size_t i=s.below(n[a]-1); std::swap(x[a][i],x[a][i+1]); what="unordered coordinates"; break; } default:{ size_t i=s.below(n[a]-1); x[a][i]=x[a][i+1]; what="repeated coordinates"; } }
  c.log(what+" in axis "+str(a)); PBT_CHECK(c,throws<std::runtime_error>([&]{ TriCubicInterpolator f(arr3(v,n),arr(x[0]),arr(x[1]),arr(x[2])); }),what+": accepted");
}
