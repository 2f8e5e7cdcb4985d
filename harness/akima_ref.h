// Reference evaluation of Akima's spline in long double, with bounds for what rounding may do.
#ifndef AKIMA_REF_H
#define AKIMA_REF_H
#include "util.h"
typedef long double LD;
struct AkimaRef{
  std::vector<LD> x,y,ey,right,left,eright,eleft; size_t n; // slopes at each knot seen from the right and from the left, and error bounds
  AkimaRef(const std::vector<double>& X,const std::vector<LD>& Y,const std::vector<LD>& EY,bool exact=false){
    n=X.size(); x.assign(X.begin(),X.end()); y=Y; ey=EY; const LD eps= exact?0:2.3e-16L;
    // slopes m[-2..n]
    std::vector<LD> m(n+3),e(n+3); auto M=[&](long i)->LD&{ return m[i+2]; }; auto E=[&](long i)->LD&{ return e[i+2]; };
    for(size_t i=0;i+1<n;i++){ M(i)=(y[i+1]-y[i])/(x[i+1]-x[i]); E(i)=(ey[i]+ey[i+1]+eps*(fabsl(y[i])+fabsl(y[i+1])))/(x[i+1]-x[i])+ 4*eps*fabsl(M(i))+ eps*fabsl(M(i))*(fabsl(x[i])+fabsl(x[i+1]))/(x[i+1]-x[i])*0; }
    M(-2)=3*M(0)-2*M(1); E(-2)=3*E(0)+2*E(1)+4*eps*(3*fabsl(M(0))+2*fabsl(M(1)));
    M(-1)=2*M(0)-M(1); E(-1)=2*E(0)+E(1)+4*eps*(2*fabsl(M(0))+fabsl(M(1)));
    long N=n; M(N-1)=2*M(N-2)-M(N-3); E(N-1)=2*E(N-2)+E(N-3)+4*eps*(2*fabsl(M(N-2))+fabsl(M(N-3)));
    M(N)=3*M(N-2)-2*M(N-3); E(N)=3*E(N-2)+2*E(N-3)+4*eps*(3*fabsl(M(N-2))+2*fabsl(M(N-3)));
    right.resize(n); left=eright=eleft=right;
    for(long i=0;i<N;i++){
      LD L=fabsl(M(i-2)-M(i-1)),R=fabsl(M(i)-M(i+1)),NE=L+R,d=E(i-2)+E(i-1)+E(i)+E(i+1); LD hi=std::max(E(i-1),E(i)); LD gap=fabsl(M(i)-M(i-1));
      if(NE>0){ LD a=L/NE; right[i]=left[i]=(1-a)*M(i-1)+a*M(i); LD da=NE>4*d? std::min<LD>(1,4*d/NE+4*eps):1; eright[i]=eleft[i]=da*(gap+2*hi)+hi+1e-15L*(fabsl(M(i-1))+fabsl(M(i))); }
      else { right[i]=M(i); left[i]=M(i-1); LD da= d>0?1:0; eright[i]=eleft[i]=da*(gap+2*hi)+hi; } } }
  // value and error bound in segment k at displacement dx
  void segment(size_t k,LD X,LD& v,LD& err,LD& der) const{
    LD h=x[k+1]-x[k],dx=X-x[k],m=(y[k+1]-y[k])/h,t0=right[k],t1=left[k+1]; LD a2=(3*m-2*t0-t1)/h,a3=(t0+t1-2*m)/(h*h);
    v=((a3*dx+a2)*dx+t0)*dx+y[k]; der=(3*a3*dx+2*a2)*dx+t0; LD u=fabsl(dx);
    LD em=(ey[k]+ey[k+1]+2.3e-16L*(fabsl(y[k])+fabsl(y[k+1])))/h; LD ea2=(3*em+2*eright[k]+eleft[k+1]+1e-15L*(3*fabsl(m)+2*fabsl(t0)+fabsl(t1)))/h, ea3=(2*em+eright[k]+eleft[k+1]+1e-15L*(2*fabsl(m)+fabsl(t0)+fabsl(t1)))/(h*h);
    // the displacement itself is rounded
    LD edx=2.3e-16L*(fabsl(X)+fabsl(x[k]))*0+2.3e-16L*u; 
    err=((ea3*u+ea2)*u+eright[k])*u+ey[k]+1e-15L*(((fabsl(a3)*u+fabsl(a2))*u+fabsl(t0))*u+fabsl(y[k]))+edx*(fabsl(der)+fabsl(t0)+(3*fabsl(a3)*u+2*fabsl(a2))*u); }
  size_t find(LD X) const{ if(X<x[0]) return 0; size_t k=n-2; while(k>0&&X<x[k]) k--; return k; }
  LD rightDer(size_t i) const{ return i+1<n?right[i]:left[i]; }
  LD rightErr(size_t i) const{ return i+1<n?eright[i]:eleft[i]+0; }
};
// knots: exact=true gives steps and positions whose arithmetic is exact
inline std::vector<double> knots(pbt::Src& s,size_t n,bool exact){
  std::vector<double> x; double v= exact? (double)s.range(-20,20): s.real(-50,50); if(!exact&&s.chance(1,4)) v=0; double unit=exact?1:s.pick({1.0,0.01,100.0});
  bool uniform=s.boolean(); double h0= exact? s.pick({1.0,0.5,2.0,4.0}): s.real(0.1,2)*unit;
  for(size_t i=0;i<n;i++){ x.push_back(v); v+= uniform?h0: exact? s.pick({1.0,0.5,2.0,4.0,0.25}): s.real(0.05,3)*unit; } return x; }
// ordinates of several shapes
inline std::vector<double> ordinates(pbt::Src& s,const std::vector<double>& x,bool exact,std::string& what){
  std::vector<double> y; int kind=s.below(6); double a=exact?(double)s.range(-4,4):s.real(-3,3),b=exact?(double)s.range(-8,8):s.real(-9,9); double w=s.real(0.1,2);
  if(exact&&(kind==3)) kind=2; static const char* names[]={"constant/linear","steps","random","sine","corner","plateau"}; what=names[kind];
  for(size_t i=0;i<x.size();i++) switch(kind){ case 0: y.push_back(a*x[i]+b); break; case 1: y.push_back(i<x.size()/2?a:b); break; case 2: y.push_back(exact?s.dyadic(64,2):s.real(-10,10)); break; case 3: y.push_back(a*sin(w*x[i])+b); break; case 4: y.push_back(i<x.size()/2?a*(x[i]-x[x.size()/2]):b*(x[i]-x[x.size()/2])); break; default: y.push_back(s.chance(1,3)?a:b); }
  return y; }
#endif
