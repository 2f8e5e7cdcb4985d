// Generators and references for bodies and tracks.
#ifndef BODY_REF_H
#define BODY_REF_H
#include "util.h"
#include <nuSQuIDS/body.h>
#include <SQuIDS/const.h>
#include <memory>
namespace bodyref{
typedef long double LD;
using namespace nusquids;
static const squids::Const U;
static const double R_EARTH=6371.0, R_SUN=695980.0, R_SUNAS=694439.0; // km
// a model: n abscissas with density and a second column
struct Model{ std::vector<double> x,rho,ye;
  std::string str() const{ return pbt::strv(x,6)+" "+pbt::strv(rho,6)+" "+pbt::strv(ye,6); } };
inline Model genModel(pbt::Src& s,double lo,double hi,bool fullRange){
  Model m; int n=(int)s.range(5,14); double a= fullRange? lo: lo+(hi-lo)*s.pick({0.0,0.05,0.2})*s.unit(), b= fullRange? hi: hi-(hi-lo)*s.pick({0.0,0.05,0.2})*s.unit();
  bool reg=s.boolean(); double w=0; std::vector<double> cum{0};
  for(int i=1;i<n;i++){ w+= reg?1:0.2+s.unit(); cum.push_back(w); }
  int kind=(int)s.below(3); double r0=s.real(1,150),y0=s.real(0.2,0.7);
  for(int i=0;i<n;i++){ double f=cum[i]/w; m.x.push_back(i==0?a:i==n-1?b:a+(b-a)*f);
    m.rho.push_back(kind==0? r0: kind==1? r0*std::exp(-3*f): s.real(0.1,15)); m.ye.push_back(kind==0? y0: kind==1? y0*(1-0.3*f): s.real(0.3,0.7)); }
  return m; }
// the piecewise function a body should follow; regions where it is discontinuous carry different codes
struct Value{ double v; int region; };
template<typename F> bool agrees(double got,F f,LD r,LD dr,double scale,double rel){
  Value a=f(r-dr),b=f(r),c=f(r+dr); double tol=rel*scale;
  if(a.region==b.region&&b.region==c.region){ double sp=std::max(std::fabs(a.v-b.v),std::fabs(c.v-b.v)); return std::fabs(got-b.v)<=tol+3*sp; }
  double near=(dr>1e-9L*std::max<LD>(r,1e-3L)?1e-3:1e-6)*scale; // the pieces' own slopes
  return std::fabs(got-a.v)<=tol+near||std::fabs(got-b.v)<=tol+near||std::fabs(got-c.v)<=tol+near; }
// uncertainty of a distance computed in double as the root of a difference of terms of size R^2
inline LD uncertainty(LD r2,LD R2){ LD e=20*2.3e-16L*R2; LD r=r2>0?sqrtl(r2):0; LD up=sqrtl(std::max<LD>(r2,0)+e)-r; LD dn= r2>e? r-sqrtl(r2-e): r; return std::max(up,dn)+1e-15L*r; }
inline double maxabs(const std::vector<double>& v){ double m=0; for(double a: v) m=std::max(m,std::fabs(a)); return m; }
}
#endif
