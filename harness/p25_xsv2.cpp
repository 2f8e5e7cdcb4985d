// P25: cross sections tabulated in energy and energy fraction.
#include "xs_gen.h"
#include <nuSQuIDS/resources.h>
using namespace pbt; using namespace xsgen;
typedef NeutrinoDISCrossSectionsFromTables XS;
struct Ref{ std::vector<double> le; double Emin,Emax; std::vector<AkimaSpline> s; std::vector<BiCubicInterpolator> d; size_t nf;
  explicit Ref(const Tables& t){ nf=t.fl.size(); Emin=t.E.front()*GEV; Emax=t.E.back()*GEV; marray<double,1> x({t.E.size()}),y({t.nz}); for(size_t i=0;i<t.E.size();i++){ le.push_back(std::log10(t.E[i]*GEV)); x[i]=le.back(); } for(size_t j=0;j<t.nz;j++) y[j]=j/double(t.nz-1);
    for(auto& b: t.fl) for(int c=0;c<2;c++) for(int k=0;k<2;k++){ std::vector<double> v; for(double q: b.s[c][k]) v.push_back(std::log10(q)); s.emplace_back(le,v); marray<double,2> m({t.nz,t.E.size()}); for(size_t i=0;i<t.E.size();i++) for(size_t j=0;j<t.nz;j++) m[j][i]=lg(b.d[c][k][i][j]); d.emplace_back(m,x,y); } }
  size_t at(int f,int c,int k) const{ return (nf==1?0:f)*4+c*2+k; }
  double total(double E,int f,int c,int k) const{ return std::pow(10.,s[at(f,c,k)](std::log10(E))); }
  double diff(double E1,double E2,int f,int c,int k) const{ double z=(E2-Emin)/(E1-Emin); return std::pow(10.,d[at(f,c,k)](std::log10(E1),z))/(E1/GEV); } };
static void compare(Src& s,Case& c,const Tables& t,const Ref& r,const XS& x,double rel,int points,const char* what){
  for(int q=0;q<points;q++){ int f=(int)s.below(3),cu=(int)s.below(2),k=(int)s.below(2);
    double u=s.chance(1,4)? (double)s.below(t.E.size())/(t.E.size()-1): s.unit(); double lo=std::log10(r.Emin),hi=std::log10(r.Emax); u=0.0002+0.9996*u; double E=std::pow(10.,lo+(hi-lo)*u); if(s.chance(1,4)) E=s.pick(t.E)*GEV; if(rel>1e-6) E=std::min(std::max(E,r.Emin*1.0001),r.Emax*0.9999);
    if(E>x.GetEmax()||E<x.GetEmin()) continue;
    double a=x.TotalCrossSection(E,FL[f],TY[k],CU[cu]),b=r.total(E,f,cu,k); PBT_CHECK(c,close(a,b,rel),fmt("%s: total cross section (%s %s %s) at %.17g GeV is %.17g, the table has %.17g",what,CN[cu],TN[k],FN[f],E/GEV,a,b));
    if(E<=r.Emin*1.001) continue;
    double z=s.chance(1,4)? (double)s.below(t.nz)/(t.nz-1): s.unit(); double E2=r.Emin+(E-r.Emin)*z; if(E2>E) E2=E; if(E2<r.Emin*(1+1e-9)&&rel<1e-6) E2=r.Emin*(1+1e-9); if(rel>1e-6) E2=std::min(std::max(E2,r.Emin*1.0001),E);
    a=x.SingleDifferentialCrossSection(E,E2,FL[f],TY[k],CU[cu]); b=r.diff(E,E2,f,cu,k); PBT_CHECK(c,close(a,b,rel*(t.zeros?100:1)),fmt("%s: differential cross section (%s %s %s) from %.17g to %.17g GeV is %.17g, the table has %.17g",what,CN[cu],TN[k],FN[f],E/GEV,E2/GEV,a,b)); } }
static void range(Case& c,const XS& x,const Ref& r,double rel){ PBT_CHECK(c,close(x.GetEmin(),r.Emin,rel)&&close(x.GetEmax(),r.Emax,rel),fmt("the range is %.17g to %.17g instead of %.17g to %.17g",x.GetEmin(),x.GetEmax(),r.Emin,r.Emax)); }
PBT_PROP(tables,6){
  h5quiet(); Tables t=genTables(s,false); Dir dir; bool h5=s.boolean(),alias=s.boolean(); Ref r(t); c.log(t.str()+(h5?" from HDF5":" from text")); c.label(h5?"HDF5":"text"); c.label(t.fl.size()==1?"one table":"three tables"); c.nontrivial(t.nz!=t.E.size());
  H5Count before=H5Count::now(); std::unique_ptr<XS> x; if(h5){ auto f=dir.file("x.h5"); writeH5Tables(t,f,(unsigned)s.pick({0,4}),alias); x.reset(new XS(f)); } else{ writeTextTables(t,dir.path); x.reset(new XS(dir.path)); }
  range(c,*x,r,1e-12); compare(s,c,t,r,*x,1e-7,10,"read");
  NX::NeutrinoType k=TY[s.below(2)]; NX::NeutrinoFlavor f=FL[s.below(3)]; NX::Current cu=CU[s.below(2)]; double above=x->GetEmax()*s.real(1.0001,3);
  PBT_CHECK(c,throws<std::runtime_error>([&]{ x->TotalCrossSection(above,f,k,cu); })&&throws<std::runtime_error>([&]{ x->SingleDifferentialCrossSection(above,above/2,f,k,cu); })&&throws<std::runtime_error>([&]{ x->AverageSingleDifferentialCrossSection(above,above/2,above,f,k,cu); }),"an energy above the table was accepted");
  double mid=(x->GetEmin()+x->GetEmax())/2; PBT_CHECK(c,x->TotalCrossSection(mid,NX::sterile,k,cu)==0&&x->SingleDifferentialCrossSection(mid,mid/2,NX::sterile,k,cu)==0&&x->AverageSingleDifferentialCrossSection(mid,mid/3,mid/2,NX::sterile,k,cu)==0,"a sterile neutrino interacts");
  double E=x->GetEmin()*s.real(0.01,0.999),got=x->TotalCrossSection(E,f,k,cu);
  if(x->GetEmin()>10*GEV&&E<10*GEV) PBT_CHECK(c,got>=0&&got<1e-300,fmt("the cross section below 10 GeV is %.17g, not negligible",got));
  else PBT_CHECK(c,close(got,x->TotalCrossSection(x->GetEmin(),f,k,cu)*(E/x->GetEmin()),1e-9),"below the table the cross section is not proportional to the energy");
  for(double e: {E,x->GetEmin()}){ got=x->SingleDifferentialCrossSection(e,e/2,f,k,cu); double av=x->AverageSingleDifferentialCrossSection(e,e/3,e/2,f,k,cu); PBT_CHECK(c,got>=0&&got<1e-300&&av>=0&&av<1e-300,"differential cross section at or below the lowest energy"); }
  // outgoing energies below the table never gain from extrapolation
  double E1=x->GetEmin()+(x->GetEmax()-x->GetEmin())*(0.01+0.98*s.unit()); got=x->SingleDifferentialCrossSection(E1,x->GetEmin()*s.real(0,1),f,k,cu); double edge=x->SingleDifferentialCrossSection(E1,x->GetEmin()*(1+1e-12),f,k,cu); PBT_CHECK(c,got>=0&&got<=edge*(1+1e-6),fmt("extrapolated differential cross section %.17g exceeds that at the lowest energy %.17g",got,edge));
  // a copy serves as well, also after the original is gone
  XS y(*x); x.reset(); compare(s,c,t,r,y,1e-7,3,"copy");
  H5Count after=H5Count::now(); PBT_CHECK(c,before==after,"HDF5 objects left open: "+before.str()+" -> "+after.str()); }
PBT_PROP(stored,3){
  h5quiet(); Tables t=genTables(s,true); Dir dir; bool h5=s.boolean(); Ref r(t); c.log(t.str()+(h5?" from HDF5":" from text")); c.nontrivial(t.nz!=t.E.size()||t.fl.size()==3); c.label(t.fl.size()==1?"one table":"three tables");
  H5Count before=H5Count::now(); std::string in=h5?dir.file("x.h5"):dir.path; if(h5) writeH5Tables(t,in,0,s.boolean()); else writeTextTables(t,in); XS x(in);
  std::string out=dir.file("y.h5"); x.WriteHDF(out,(unsigned)s.pick({0,1,9})); { XS y(out); range(c,y,r,1e-5); compare(s,c,t,r,y,3e-3,8,"after HDF5"); }
  if(s.chance(1,4)){ PBT_CHECK(c,throws<std::runtime_error>([&]{ x.WriteText(dir.path+"nowhere/out_"); })&&throws<std::runtime_error>([&]{ x.WriteHDF(dir.path+"nowhere/y.h5",0); }),"tables were written nowhere"); }
  x.WriteText(dir.path+"out_"); { XS y(dir.path+"out_"); range(c,y,r,1e-9); compare(s,c,t,r,y,1e-6,8,"after text"); if(s.boolean()){ y.ReadHDF(out); compare(s,c,t,r,y,3e-3,3,"after reading again"); } }
  H5Count after=H5Count::now(); PBT_CHECK(c,before==after,"HDF5 objects left open: "+before.str()+" -> "+after.str()); }
PBT_PROP(refused,1){
  h5quiet(); Tables t=genTables(s,true); Dir dir; c.nontrivial(); H5Count before=H5Count::now();
  auto victim=[&](const char* kind){ std::string p=dir.path; if(t.fl.size()==3) p+=std::string(FN[s.below(3)])+"_"; return p+TN[s.below(2)]+"_"+kind+"_"+CN[s.below(2)]+".dat"; };
  std::string src=dir.path; int how=(int)s.below(6);
  if(how<4) writeTextTables(t,dir.path);
  if(how==0){ std::string v=victim(s.boolean()?"sigma":"dsde"); ::unlink(v.c_str()); c.log("missing file"); }
  else if(how==1){ bool d=s.boolean(); std::string v=victim(d?"dsde":"sigma"); std::vector<double> e(t.E.begin(),t.E.end()); int k=(int)s.below(3); if(k!=1) e.back()*=1.1; if(k!=0) e.front()*=0.9; std::ofstream o(v); o.precision(17); for(double x: e) for(size_t j=0;j<(d?t.nz:1);j++){ o<<x; if(d) o<<" "<<(double)j/(t.nz-1); o<<" 1e-36\n"; } c.log("different range of "+v); }
  else if(how==2){ std::string v=victim("dsde"); std::ofstream o(v,std::ios::app); o<<t.E.back()<<" 1 1e-36\n"; c.log("table not rectangular"); }
  else if(how==3){ std::string v=victim(s.boolean()?"sigma":"dsde"); bool d=v.find("dsde")!=std::string::npos; std::ofstream o(v); o.precision(17); for(double e: t.E) for(size_t j=0;j<(d?t.nz:1);j++) o<<e<<" 1e-36"<<(d?"\n":" 2\n"); c.log("wrong number of columns"); }
  else{ src=dir.file("x.h5"); if(how==4){ Tables u=t; u.E.pop_back(); writeH5Tables(t,src,0,true); hid_t f=H5Fopen(src.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); std::string g=std::string(FN[s.below(3)])+"/"+s.pick({"s_","dsdy_"})+CN[s.below(2)]+"_"+TN[s.below(2)]; H5Ldelete(f,g.c_str(),H5P_DEFAULT); if(s.boolean()){ if(g.find("dsdy")==std::string::npos){ marray<double,1> a({t.E.size()+1}); std::fill(a.begin(),a.end(),-36.); writeArrayH5<double>(f,g,a,0); } else{ marray<double,2> a({t.nz+1,t.E.size()}); std::fill(a.begin(),a.end(),-36.); writeArrayH5<double>(f,g,a,0); } } H5Fclose(f); c.log("bad "+g); }
    else{ std::ofstream o(src); o<<"\x89HDF\r\n\x1a\n"<<"rubbish"; c.log("not an HDF5 file after all"); } }
  PBT_CHECK(c,throws<std::runtime_error>([&]{ XS x(src); }),"inconsistent tables were accepted");
  H5Count after=H5Count::now(); PBT_CHECK(c,before==after,"HDF5 objects left open: "+before.str()+" -> "+after.str()); }
