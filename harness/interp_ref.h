// Tensor-product cubic interpolation on a grid in long double, with bounds for what rounding may do.
#ifndef INTERP_REF_H
#define INTERP_REF_H
#include "akima_ref.h"
struct Field{ std::vector<LD> v,e; };   // values and error bounds over the grid, x fastest
struct Grid{
  std::vector<double> ax[3]; unsigned dim; size_t n[3]={1,1,1}; bool exact; size_t total() const{ return n[0]*n[1]*n[2]; }
  size_t at(size_t i,size_t j,size_t k) const{ return (k*n[1]+j)*n[0]+i; }
  Field derive(const Field& f,unsigned a,bool exactIn) const{
    Field r; r.v.resize(total()); r.e=r.v; size_t o[3]={0,0,0}; size_t lim[3]={n[0],n[1],n[2]}; lim[a]=1;
    for(o[0]=0;o[0]<lim[0];o[0]++) for(o[1]=0;o[1]<lim[1];o[1]++) for(o[2]=0;o[2]<lim[2];o[2]++){
      std::vector<LD> y,e; for(size_t q=0;q<n[a];q++){ size_t p[3]={o[0],o[1],o[2]}; p[a]=q; y.push_back(f.v[at(p[0],p[1],p[2])]); e.push_back(f.e[at(p[0],p[1],p[2])]); }
      AkimaRef s(ax[a],y,e,exactIn);
      for(size_t q=0;q<n[a];q++){ size_t p[3]={o[0],o[1],o[2]}; p[a]=q; r.v[at(p[0],p[1],p[2])]=s.rightDer(q); LD ex=0; if(q+1==n[a]){ LD h=s.x[q]-s.x[q-1],m=fabsl(y[q]-y[q-1])/h; ex=1e-15L*(6*m+4*fabsl(s.right[q-1])+2*fabsl(s.left[q]))+8*s.eright[q-1]+6*(e[q]+e[q-1]+(exactIn?0:2.3e-16L*(fabsl(y[q])+fabsl(y[q-1]))))/h; } r.e[at(p[0],p[1],p[2])]=s.rightErr(q)+ex+1e-16L*fabsl(s.rightDer(q)); } }
    return r; } };
struct Interp{
  Grid g; Field f[8]; // f[mask]: derivative in the axes of mask; x=1 y=2 z=4
  void prepare(const std::vector<double>& data){ f[0].v.assign(data.begin(),data.end()); f[0].e.assign(data.size(),0); 
    f[1]=g.derive(f[0],0,g.exact); f[2]=g.derive(f[0],1,g.exact); f[3]=g.derive(f[2],0,false);
    if(g.dim==3){ f[4]=g.derive(f[0],2,g.exact); f[5]=g.derive(f[4],0,false); f[6]=g.derive(f[4],1,false); f[7]=g.derive(f[6],0,false); } }
  static void basis(LD t,LD b[2][2]){ b[0][0]=(1+2*t)*(1-t)*(1-t); b[1][0]=t*t*(3-2*t); b[0][1]=t*(1-t)*(1-t); b[1][1]=t*t*(t-1); } // [corner][value/derivative]
  static void basisAbs(LD t,LD b[2][2]){ LD u=fabsl(t); b[0][0]=1+3*u*u+2*u*u*u; b[1][0]=3*u*u+2*u*u*u; b[0][1]=u+2*u*u+u*u*u; b[1][1]=u*u+u*u*u; }
  void eval(const double X[3],LD& v,LD& e) const{
    size_t c[3]={0,0,0}; LD h[3]={1,1,1},b[3][2][2],a[3][2][2]; for(unsigned d=0;d<g.dim;d++){ const auto& x=g.ax[d]; size_t k=x.size()-2; while(k>0&&X[d]<x[k]) k--; c[d]=k; h[d]=(LD)x[k+1]-x[k]; LD t=(X[d]-(LD)x[k])/h[d]; basis(t,b[d]); basisAbs(t,a[d]); }
    v=e=0; unsigned nc=1u<<g.dim; for(unsigned corner=0;corner<nc;corner++) for(unsigned m=0;m<nc;m++){ LD w=1,aw=1; for(unsigned d=0;d<g.dim;d++){ unsigned o=corner>>d&1,der=m>>d&1; w*=b[d][o][der]*(der?h[d]:1); aw*=a[d][o][der]*(der?h[d]:1); }
      size_t i=g.at(c[0]+(corner&1),g.n[1]>1?c[1]+(corner>>1&1):0,g.n[2]>1?c[2]+(corner>>2&1):0); v+=w*f[m].v[i]; e+=aw*(f[m].e[i]+6e-15L*fabsl(f[m].v[i])); } } };
inline std::vector<double> gridData(pbt::Src& s,Grid& g,std::string& what){
  std::vector<double> r; static const char* names[]={"affine","random","product","x only","y only","z only","waves"}; int kind=s.below(7); if(g.dim==2&&kind==5) kind=1; what=names[kind]; bool ex=g.exact; auto co=[&]{ return ex?(double)s.range(-4,4):s.real(-3,3); }; double a=co(),b=co(),d=co(),e=co(); std::vector<double> px,py,pz; auto fill=[&](std::vector<double>& p,size_t n){ for(size_t i=0;i<n;i++) p.push_back(ex?s.dyadic(16,1):s.real(-3,3)); }; if(kind>=2&&kind<6){ fill(px,g.n[0]); fill(py,g.n[1]); fill(pz,g.n[2]); }
  for(size_t k=0;k<g.n[2];k++) for(size_t j=0;j<g.n[1];j++) for(size_t i=0;i<g.n[0];i++){ double X=g.ax[0][i],Y=g.dim>1?g.ax[1][j]:0,Z=g.dim>2?g.ax[2][k]:0; switch(kind){ case 0: r.push_back(a*X+b*Y+d*Z+e); break; case 1: r.push_back(ex?s.dyadic(64,2):s.real(-10,10)); break; case 2: r.push_back(px[i]*py[j]*(g.dim>2?pz[k]:1)); break; case 3: r.push_back(px[i]); break; case 4: r.push_back(py[j]); break; case 5: r.push_back(pz[k]); break; default: r.push_back(sin(a*X+b*Y)+cos(d*Z-b*X)+e*X*Y/(1+X*X)); } }
  if(kind==6) g.exact=false; // these data are rounded
  return r; }
#endif
