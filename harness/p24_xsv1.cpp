// P24: cross sections tabulated in both energies.
#include "xs_gen.h"
using namespace pbt; using namespace xsgen;
typedef long double LD; typedef NeutrinoDISCrossSectionsFromTables_V1 XS;
struct T1{ std::vector<double> E; size_t n; double s[2][2][3][12],d[2][2][3][12][12]; }; // [current][type][flavor]
static T1 gen(Src& s){
  T1 t; t.n=s.range(2,12); double lo=s.pick({1.0,9.5,10.0,100.0,1e3}),hi=lo*s.logreal(3,1e8); for(size_t i=0;i<t.n;i++) t.E.push_back(i==0?lo:i+1==t.n?hi:std::exp(std::log(lo)+(std::log(hi)-std::log(lo))*i/(t.n-1)));
  bool full=s.chance(1,4);
  for(int c=0;c<2;c++) for(int k=0;k<2;k++) for(int f=0;f<3;f++) for(size_t i=0;i<t.n;i++){ t.s[c][k][f][i]=s.logreal(1e-38,1e-35); for(size_t j=0;j<t.n;j++) t.d[c][k][f][i][j]= (j>i&&!full)?0: s.logreal(1e-38,1e-35); }
  return t; }
static void writeText(const T1& t,const std::string& pre,size_t cut=0){
  for(int c=0;c<2;c++){ std::ofstream a(pre+"sigma_"+CN[c]+".dat"),b(pre+"dsde_"+CN[c]+".dat"); a.precision(17); b.precision(17); size_t lines=0;
    for(size_t i=0;i<t.n;i++){ a<<t.E[i]; for(int f=0;f<3;f++) for(int k=0;k<2;k++) a<<" "<<t.s[c][k][f][i]; a<<"\n";
      for(size_t j=0;j<t.n;j++){ if(cut&&lines++>=cut) continue; b<<t.E[i]<<" "<<t.E[j]; for(int f=0;f<3;f++) for(int k=0;k<2;k++) b<<" "<<t.d[c][k][f][i][j]; b<<"\n"; } } } }
static void writeH5(const T1& t,const std::string& path){
  hid_t f=H5Fcreate(path.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); addH5Attribute(f,"Emin",t.E.front()*GEV); addH5Attribute(f,"Emax",t.E.back()*GEV);
  for(int c=0;c<2;c++){ marray<double,3> a({2,3,t.n}); marray<double,4> b({2,3,t.n,t.n}); for(int k=0;k<2;k++) for(int q=0;q<3;q++) for(size_t i=0;i<t.n;i++){ a[k][q][i]=t.s[c][k][q][i]; for(size_t j=0;j<t.n;j++) b[k][q][i][j]=t.d[c][k][q][i][j]; } writeArrayH5<double>(f,std::string("s_")+CN[c],a,0); writeArrayH5<double>(f,std::string("dsDE_")+CN[c],b,0); }
  H5Fclose(f); }
static LD pos(const T1& t,double E,size_t& i){ LD l=logl(E),a=logl(t.E.front()),b=logl(t.E.back()); LD u=(l-a)/(b-a)*(t.n-1); if(u<0) u=0; if(u>t.n-1) u=t.n-1; i=std::min<size_t>((size_t)u,t.n-2); return u-i; }
static void compare(Src& s,Case& c,const T1& t,const XS& x,double rel,int points,bool edges){
  for(int q=0;q<points;q++){
    int cu=(int)s.below(2),k=(int)s.below(2),f=(int)s.below(3);
    auto energy=[&](double lo,double hi){ if(edges&&s.chance(1,3)) return s.pick(t.E); LD a=logl(lo),b=logl(hi); return (double)expl(a+(b-a)*(0.001+0.998*s.unit())); };
    double lo=t.E.front(),hi=t.E.back(); size_t i,j; LD u;
    double E=energy(lo,hi); u=pos(t,E,i); double Eev=E*GEV; if(edges&&E==hi) Eev=x.GetEmax(); if(edges&&E==lo) Eev=x.GetEmin();
    const double* S=t.s[cu][k][f]; LD want=S[i]+(S[i+1]-(LD)S[i])*u; double got=x.TotalCrossSection(Eev,FL[f],TY[k],CU[cu]);
    PBT_CHECK(c,close(got,(double)want,rel),fmt("total cross section (%s %s %s) at %.17g GeV is %.17g, the table has %.17Lg",CN[cu],TN[k],FN[f],E,got,want));
    // differential
    double E1=energy(lo,hi),E2= s.chance(1,4)? E1*s.real(1,2): energy(lo,E1>lo*1.0001?E1:hi); double e1=E1*GEV,e2=E2*GEV; if(edges&&E1==hi) e1=x.GetEmax(); if(edges&&E1==lo) e1=x.GetEmin();
    if(e1>x.GetEmax()||e1<x.GetEmin()) continue;
    double d=x.SingleDifferentialCrossSection(e1,e2,FL[f],TY[k],CU[cu]); std::string at=fmt("differential cross section (%s %s %s) from %.17g to %.17g GeV",CN[cu],TN[k],FN[f],E1,E2);
    if(E2>=E1){ if(E2>E1*(1+1e-12)) PBT_CHECK(c,d==0,at+fmt(" is %.17g, although energy would be gained",d)); continue; }
    LD v; u=pos(t,E1,i); v=pos(t,E2,j); 
    // values at the corners; with an incoming energy on a node only that row counts
    auto val=[&](size_t a,size_t b)->LD{ return t.d[cu][k][f][a][b]; }; LD w;
    if(u<1e-12L) w=val(i,j)+(val(i,j+1)-val(i,j))*v;
    else if(u>1-1e-12L) w=val(i+1,j)+(val(i+1,j+1)-val(i+1,j))*v;
    else if(i==j&&val(i,j+1)==0){ if(v>u) v=u; w=val(i,j)+(val(i+1,j)-val(i,j))*u+(val(i+1,j+1)-val(i+1,j))*v; }
    else{ LD a=val(i,j)+(val(i,j+1)-val(i,j))*v,b=val(i+1,j)+(val(i+1,j+1)-val(i+1,j))*v; w=a+(b-a)*u; }
    double m=0; for(size_t a=i;a<=i+1;a++) for(size_t b=j;b<=j+1;b++) m=std::max(m,t.d[cu][k][f][a][b]);
    if(E1==lo||E2==E1) continue;
    PBT_CHECK(c,std::fabs(d-(double)w)<=rel*m,at+fmt(" is %.17g, the table has %.17Lg",d,w)); } }
PBT_PROP(tables,6){
  h5quiet(); T1 t=gen(s); Dir dir; bool h5=s.boolean(); c.log(fmt("%zu energies %.6g..%.6g GeV from %s",t.n,t.E.front(),t.E.back(),h5?"HDF5":"text")); c.label(h5?"HDF5":"text"); c.nontrivial(t.n>2);
  H5Count before=H5Count::now(); std::unique_ptr<XS> x;
  if(h5){ auto f=dir.file("x.h5"); writeH5(t,f); x.reset(new XS(f)); } else{ writeText(t,dir.path+"in_"); x.reset(new XS(dir.path+"in_")); }
  PBT_CHECK(c,x->IsInit()&&x->GetNumE()==t.n,fmt("%u energies",x->GetNumE())); PBT_CHECK(c,close(x->GetEmin(),t.E.front()*GEV,1e-15)&&close(x->GetEmax(),t.E.back()*GEV,1e-15),fmt("the range is %.17g to %.17g",x->GetEmin(),x->GetEmax()));
  compare(s,c,t,*x,1e-9,10,true);
  // outside the table
  NX::NeutrinoType k=TY[s.below(2)]; NX::NeutrinoFlavor f=FL[s.below(3)]; NX::Current cu=CU[s.below(2)]; double above=x->GetEmax()*s.real(1.0001,3);
  PBT_CHECK(c,throws<std::runtime_error>([&]{ x->TotalCrossSection(above,f,k,cu); })&&throws<std::runtime_error>([&]{ x->SingleDifferentialCrossSection(above,above/2,f,k,cu); }),"an energy above the table was accepted");
  PBT_CHECK(c,x->TotalCrossSection(x->GetEmin(),NX::sterile,k,cu)==0&&x->SingleDifferentialCrossSection(x->GetEmax()*0.9,x->GetEmin(),NX::sterile,k,cu)==0,"a sterile neutrino interacts");
  double E=x->GetEmin()*s.real(0.01,0.999),got=x->TotalCrossSection(E,f,k,cu);
  if(x->GetEmin()>10*GEV&&E<10*GEV) PBT_CHECK(c,got>=0&&got<1e-300,fmt("the cross section below 10 GeV is %.17g, not negligible",got));
  else PBT_CHECK(c,close(got,x->TotalCrossSection(x->GetEmin(),f,k,cu)*(E/x->GetEmin()),1e-9),"below the table the cross section is not proportional to the energy");
  got=x->SingleDifferentialCrossSection(E,E/2,f,k,cu); PBT_CHECK(c,got>=0&&got<1e-300,"differential cross section below the table");
  // round trips
  { auto g=dir.file("y.h5"); x->WriteHDF(g); XS y(g); compare(s,c,t,y,1e-8,4,false); PBT_CHECK(c,close(y.GetEmin(),x->GetEmin(),1e-15)&&close(y.GetEmax(),x->GetEmax(),1e-15),"range after HDF5"); }
  { x->WriteText(dir.path+"out_"); XS y(dir.path+"out_"); compare(s,c,t,y,1e-8,4,false); PBT_CHECK(c,y.GetNumE()==t.n,"size after text"); }
  H5Count after=H5Count::now(); PBT_CHECK(c,before==after,"HDF5 objects left open: "+before.str()+" -> "+after.str()); }
PBT_PROP(refused,1){
  h5quiet(); T1 t=gen(s); Dir dir; std::string pre=dir.path+"in_"; int how=(int)s.below(3); c.nontrivial();
  if(how==0){ writeText(t,pre); std::string v=pre+s.pick({"sigma","dsde"})+"_"+s.pick({"CC","NC"})+".dat"; ::unlink(v.c_str()); c.log("missing "+v); }
  else if(how==1){ writeText(t,pre,1+s.below(t.n*t.n-1)); c.log("short differential table"); }
  else{ writeText(t,pre); std::ofstream o(pre+"sigma_NC.dat",std::ios::app); o.precision(17); o<<t.E.back()*2; for(int i=0;i<6;i++) o<<" 1e-36"; o<<"\n"; c.log("totals of different lengths"); }
  PBT_CHECK(c,throws<std::runtime_error>([&]{ XS x(pre); }),"inconsistent files were accepted"); }
