// P11: two-dimensional interpolation against a long-double reference.
#include "interp_ref.h"
#include <nuSQuIDS/tools.h>
using namespace pbt; using namespace nusquids;
static marray<double,1> arr(const std::vector<double>& v){ marray<double,1> a({v.size()}); std::copy(v.begin(),v.end(),a.begin()); return a; }
static marray<double,2> arr2(const std::vector<double>& v,size_t ny,size_t nx){ marray<double,2> a({ny,nx}); std::copy(v.begin(),v.end(),a.begin()); return a; }
static double coord(Src& s,const std::vector<double>& x){ switch(s.below(4)){ case 0: return x[s.below(x.size())]; case 1: return std::nextafter(x[1+s.below(x.size()-2)],s.boolean()?1e9:-1e9); default: return s.real(x.front(),x.back()); } }
PBT_PROP(value,1){
  Interp r; r.g.dim=2; r.g.exact=s.boolean(); r.g.n[0]=3+s.size(0,9); r.g.n[1]=3+s.size(0,9); for(int d=0;d<2;d++) r.g.ax[d]=knots(s,r.g.n[d],r.g.exact);
  std::string w; auto data=gridData(s,r.g,w); r.prepare(data); c.label(w); c.log((r.g.exact?"exact ":"real ")+w+" x="+strv(r.g.ax[0],8)+" y="+strv(r.g.ax[1],8)+" z="+strv(data,12)); c.nontrivial(r.g.n[0]!=r.g.n[1]);
  BiCubicInterpolator f0(arr2(data,r.g.n[1],r.g.n[0]),arr(r.g.ax[0]),arr(r.g.ax[1])); BiCubicInterpolator f1; if(s.boolean()) f1=f0; else f1=BiCubicInterpolator(f0); const BiCubicInterpolator& f=f1;
  for(size_t i=0;i<data.size();i++) PBT_CHECK(c,f.getData().get_data()[i]==data[i],"the data kept are not the data given"); for(size_t i=0;i<r.g.n[0];i++) PBT_CHECK(c,f.getXCoords()[i]==r.g.ax[0][i],"x coordinates kept"); for(size_t i=0;i<r.g.n[1];i++) PBT_CHECK(c,f.getYCoords()[i]==r.g.ax[1][i],"y coordinates kept"); PBT_CHECK(c,f.getData().extent(0)==r.g.n[1]&&f.getData().extent(1)==r.g.n[0],"extents kept");
  LD scale=0; for(auto v: data) scale=std::max<LD>(scale,fabsl(v));
  for(size_t j=0;j<r.g.n[1];j++) for(size_t i=0;i<r.g.n[0];i++){ double X[3]={r.g.ax[0][i],r.g.ax[1][j],0}; double v=data[j*r.g.n[0]+i],got=f(X[0],X[1]); LD rv,re; r.eval(X,rv,re); PBT_CHECK(c,fabsl((LD)got-v)<=4*re+1e-12L*scale||re>1e-6L*(scale+1),fmt("grid point %zu,%zu: %.17g instead of %.17g",i,j,got,v)); }
  unsigned q=12; for(unsigned k=0;k<q;k++){ double X[3]={coord(s,r.g.ax[0]),coord(s,r.g.ax[1]),0}; LD v,e; r.eval(X,v,e); if(e>1e-6L*(scale+fabsl(v))){ c.label("ill-conditioned point (not compared)"); continue; } double got=f(X[0],X[1]); PBT_CHECK(c,fabsl(got-v)<=4*e+1e-300L,fmt("value at (%.17g,%.17g) is %.17g, should be %.17Lg +- %.3Lg",X[0],X[1],got,v,e)); }
  double o=f(r.g.ax[0][0]-s.real(-50,50),r.g.ax[1][0]-s.real(-50,50)); PBT_CHECK(c,std::isfinite(o),"a point outside gives a non-finite value");
}
PBT_PROP(refused,0.2){
  size_t nx=3+s.below(5),ny=3+s.below(5); Grid g; g.dim=2; g.exact=true; auto x=knots(s,nx,true),y=knots(s,ny,true); std::vector<double> d(nx*ny,1); unsigned k=s.below(5); std::string what; c.nontrivial();
  switch(k){ case 0: x.pop_back(); what="too few x coordinates"; break; case 1: y.push_back(y.back()+1); what="too many y coordinates"; break; case 2:{ size_t i=s.below(nx-1); std::swap(x[i],x[i+1]); what="unordered x"; break; } case 3:{ size_t i=s.below(ny-1); y[i]=y[i+1]; what="repeated y"; break; } default: nx=s.below(2)+1; x.resize(nx); d.resize(nx*ny); what="a grid of less than three columns"; }
  c.log(what); PBT_CHECK(c,throws<std::runtime_error>([&]{ BiCubicInterpolator f(arr2(d,ny,nx),arr(x),arr(y)); }),what+": accepted");
  BiCubicInterpolator e; PBT_CHECK(c,e(s.real(-9,9),s.real(-9,9))==0,"an empty interpolator is not zero");
}
