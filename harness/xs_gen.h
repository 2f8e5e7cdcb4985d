// Generated cross section tables and files.
#ifndef XS_GEN_H
#define XS_GEN_H
#include "util.h"
#include "h5util.h"
#include <nuSQuIDS/xsections.h>
#include <nuSQuIDS/tools.h>
#include <memory>
namespace xsgen{
using namespace nusquids;
typedef NeutrinoCrossSections NX;
static const double GEV=1e9;
static const NX::NeutrinoFlavor FL[3]={NX::electron,NX::muon,NX::tau};
static const char* const FN[3]={"electron","muon","tau"};
static const NX::NeutrinoType TY[2]={NX::neutrino,NX::antineutrino};
static const NX::Current CU[2]={NX::CC,NX::NC};
static const char* const CN[2]={"CC","NC"};
static const char* const TN[2]={"nu","nubar"};
struct Dir{ std::string path; Dir(){ static unsigned n=0; path=pbt::workdir()+"/d"+std::to_string(getpid())+"_"+std::to_string(n++)+"/"; mkdir(path.c_str(),0777); }
  std::vector<std::string> made; std::string file(const std::string& n){ made.push_back(path+n); return path+n; }
  ~Dir(){ for(auto& f: made) ::unlink(f.c_str()); for(auto f: FN) for(auto t: TN) for(auto c: CN) for(auto k: {"sigma","dsde"}) for(bool p: {false,true}) for(const char* pre: {"","out_"}) ::unlink((path+pre+(p?std::string(f)+"_":"")+t+"_"+k+"_"+c+".dat").c_str());
    for(const char* pre: {"","in_","out_"}) for(auto k: {"sigma","dsde"}) for(auto c: CN) ::unlink((path+pre+k+"_"+c+".dat").c_str());
    ::rmdir(path.c_str()); } };
// one flavor's tables for the current format, in the units of its text files
struct Tab{ std::vector<double> s[2][2]; std::vector<std::vector<double>> d[2][2]; }; // [current][type]; d indexed [E][z]
struct Tables{ std::vector<double> E; size_t nz; bool zeros; std::vector<Tab> fl; // one or three flavors
  const Tab& of(int f) const{ return fl.size()==1?fl[0]:fl[f]; }
  std::string str() const{ return pbt::fmt("%zu energies %.6g..%.6g GeV, %zu z values, %zu flavor table(s)%s",E.size(),E.front(),E.back(),nz,fl.size(),zeros?", zeros at z=1":""); } };
inline Tables genTables(pbt::Src& s,bool smooth){
  Tables t; size_t n=s.range(3,12); t.nz=s.boolean()? n: s.range(3,12); double lo=s.pick({1.0,9.5,10.0,50.0,100.0,1e3}),hi=lo*s.logreal(10,1e8); bool reg=s.boolean(); double w=0; std::vector<double> cum{0};
  for(size_t i=1;i<n;i++){ w+=reg?1:0.3+s.unit(); cum.push_back(w); }
  for(size_t i=0;i<n;i++) t.E.push_back(i==0?lo:i+1==n?hi:lo*std::pow(hi/lo,cum[i]/w));
  t.zeros=!smooth&&s.chance(1,3); int nf=s.boolean()?1:3;
  for(int f=0;f<nf;f++){ Tab b; for(int c=0;c<2;c++) for(int k=0;k<2;k++){
      double norm=s.logreal(1e-39,1e-36),p=s.real(0.2,1),a=s.real(-1,1); 
      for(size_t i=0;i<n;i++) b.s[c][k].push_back(smooth? norm*std::pow(t.E[i]/lo,p): s.logreal(1e-40,1e-34));
      b.d[c][k].resize(n); for(size_t i=0;i<n;i++) for(size_t j=0;j<t.nz;j++){ double z=j/double(t.nz-1); double v= smooth? norm*std::pow(t.E[i]/lo,p-0.2*z)*std::exp(a*z): s.logreal(1e-40,1e-34); if((i==0||j+1==t.nz)&&t.zeros) v=0; b.d[c][k][i].push_back(v); } }
    t.fl.push_back(b); }
  return t; }
inline void writeTextTables(const Tables& t,const std::string& prefix){
  for(size_t f=0;f<t.fl.size();f++) for(int c=0;c<2;c++) for(int k=0;k<2;k++){
    std::string pre=prefix+(t.fl.size()==3?std::string(FN[f])+"_":""); std::ofstream a(pre+TN[k]+"_sigma_"+CN[c]+".dat"),b(pre+TN[k]+"_dsde_"+CN[c]+".dat"); a.precision(17); b.precision(17);
    for(size_t i=0;i<t.E.size();i++){ a<<t.E[i]<<" "<<t.fl[f].s[c][k][i]<<"\n"; for(size_t j=0;j<t.nz;j++) b<<t.E[i]<<" "<<j/double(t.nz-1)<<" "<<t.fl[f].d[c][k][i][j]<<"\n"; } } }
inline double lg(double v){ double l=std::log10(v); return std::isfinite(l)?l:-50; }
inline void writeH5Tables(const Tables& t,const std::string& path,unsigned comp,bool alias){
  hid_t f=H5Fcreate(path.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT);
  { marray<double,1> e({t.E.size()}),z({t.nz}); for(size_t i=0;i<t.E.size();i++) e[i]=std::log10(t.E[i]*GEV); for(size_t j=0;j<t.nz;j++) z[j]=j/double(t.nz-1); writeArrayH5<double>(f,"energies",e,comp); writeArrayH5<double>(f,"zs",z,comp); }
  auto put=[&](hid_t g,const Tab& b){ for(int c=0;c<2;c++) for(int k=0;k<2;k++){ marray<double,1> s({t.E.size()}); marray<double,2> d({t.nz,t.E.size()}); for(size_t i=0;i<t.E.size();i++){ s[i]=std::log10(b.s[c][k][i]); for(size_t j=0;j<t.nz;j++) d[j][i]=lg(b.d[c][k][i][j]); } writeArrayH5<double>(g,std::string("s_")+CN[c]+"_"+TN[k],s,comp); writeArrayH5<double>(g,std::string("dsdy_")+CN[c]+"_"+TN[k],d,comp); } };
  if(t.fl.size()==1&&!alias) put(f,t.fl[0]);
  else for(int k=0;k<3;k++){ if(t.fl.size()==1&&k){ H5Lcreate_hard(f,"electron",f,FN[k],H5P_DEFAULT,H5P_DEFAULT); continue; } hid_t g=H5Gcreate(f,FN[k],H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); put(g,t.of(k)); H5Gclose(g); }
  H5Fclose(f); }
}
#endif
