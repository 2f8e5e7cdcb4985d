// P26: the Glashow resonance, the absence of interactions, and the library of targets.
#include "xs_gen.h"
using namespace pbt; using namespace xsgen;
typedef long double LD;
static const squids::Const U;
static LD glashow(LD E){ // e+ nubar_e -> W, Phys. Rev. D 84, 053009 (arXiv:1108.3163) eq. 2.1, over all final states
  LD m=U.electron_mass,mu=U.muon_mass,G=(LD)U.GF/U.cm,M=80.385e9L,W=2.085e9L,B=0.1063L;
  LD thr=1-(mu*mu-m*m)/(2*m*E),res=1-2*m*E/(M*M); return G*G*2*m*E/(3.14159265358979323846L*3*B)*thr*thr/(res*res+(W/M)*(W/M)); }
PBT_PROP(resonance,4){
  GlashowResonanceCrossSection g0; GlashowResonanceCrossSection g1(g0),g2(std::move(g1)); const auto& g=s.boolean()?g2:g0;
  double E= s.boolean()? s.logreal(2e10,1e20): 6.3e15*s.real(0.8,1.2); double E2=E*(s.chance(1,5)? s.pick({0.0,1.0}): s.unit()); c.log(fmt("E %.17g -> %.17g",E,E2)); c.nontrivial(E>1e15&&E<1e17);
  auto f=s.boolean()? NX::electron: s.pick({NX::electron,NX::muon,NX::tau,NX::sterile}); auto t=s.chance(1,4)? NX::neutrino: NX::antineutrino; auto cu=s.chance(1,4)? s.pick({NX::CC,NX::NC}): NX::GR;
  double a=g.TotalCrossSection(E,f,t,cu),d=g.SingleDifferentialCrossSection(E,E2,f,t,cu);
  if(!(f==NX::electron&&t==NX::antineutrino&&cu==NX::GR)){ PBT_CHECK(c,a==0&&d==0&&g.AverageTotalCrossSection(E,2*E,f,t,cu)==0&&g.AverageSingleDifferentialCrossSection(E,E/2,E,f,t,cu)==0,"something other than an electron antineutrino is resonant"); return; }
  c.label("resonant"); LD w=glashow(E); PBT_CHECK(c,close(a,(double)w,1e-6),fmt("total cross section %.17g, not %.17Lg",a,w));
  LD x=(LD)E2/E,wd=w*3*0.1063L*x*x/(E/1e9L); PBT_CHECK(c,close(d,(double)wd,1e-6),fmt("differential cross section %.17g, not %.17Lg",d,wd));
  PBT_CHECK(c,g.SingleDifferentialCrossSection(E,E*s.real(1.0000001,2),f,t,cu)==0,"energy is gained");
  PBT_CHECK(c,g.DoubleDifferentialCrossSection(E,0.1,0.1,f,t,cu)==0,"double differential"); 
  // the outgoing spectrum carries the muonic branching fraction
  LD sum=0; for(int i=0;i<64;i++){ double lo=E*i/64.,hi=E*(i+1)/64.; sum+=g.AverageSingleDifferentialCrossSection(E,lo,hi,f,t,cu)*(LD)(hi-lo)/1e9L; } PBT_CHECK(c,close((double)(sum/a),GlashowResonanceCrossSection::WDecayBranchingFraction(NX::muon),2e-3),fmt("the outgoing spectrum has %.17Lg of the total",sum/a));
  // a narrow bin's average
  double hi=E*s.real(1.00001,1.002); LD av=(glashow(E)+4*glashow(((LD)E+hi)/2)+glashow(hi))/6; double ga=g.AverageTotalCrossSection(E,hi,f,t,cu); PBT_CHECK(c,close(ga,(double)av,5e-3),fmt("average %.17g, not %.17Lg",ga,av)); }
PBT_PROP(fractions,1){
  typedef GlashowResonanceCrossSection G; double e=G::WDecayBranchingFraction(NX::electron),m=G::WDecayBranchingFraction(NX::muon),t=G::WDecayBranchingFraction(NX::tau); PBT_CHECK(c,e==.1071&&m==.1063&&t==.1138,"branching fractions"); PBT_CHECK(c,G::WDecayBranchingFraction(NX::sterile)==0,"sterile fraction");
  NullCrossSections n; double E=s.logreal(1,1e20); auto f=s.pick({NX::electron,NX::muon,NX::tau,NX::sterile}); auto k=s.pick({NX::neutrino,NX::antineutrino}); auto cu=s.pick({NX::CC,NX::NC,NX::GR}); PBT_CHECK(c,n.TotalCrossSection(E,f,k,cu)==0&&n.SingleDifferentialCrossSection(E,E/2,f,k,cu)==0&&n.DoubleDifferentialCrossSection(E,.1,.1,f,k,cu)==0&&n.AverageTotalCrossSection(E,2*E,f,k,cu)==0&&n.AverageSingleDifferentialCrossSection(E,E/4,E/2,f,k,cu)==0,"null cross sections are not null"); c.log(fmt("%g",E)); }
struct Flat: public NX{ double v; explicit Flat(double v):v(v){} double TotalCrossSection(double,NeutrinoFlavor,NeutrinoType,Current) const override{ return v; } double SingleDifferentialCrossSection(double,double,NeutrinoFlavor,NeutrinoType,Current) const override{ return v/2; } };
PBT_PROP(library,2){
  const std::vector<int> codes{11,81,2212,2112,1000080160,-11,0,-2212}; struct L{ CrossSectionLibrary l; std::map<int,double> m; }; std::vector<L> v(1); int n=(int)s.size(1,14); int dup=0,copies=0;
  auto probe=[&](const L& q){ for(int k: codes){ auto it=q.m.find(k); PBT_CHECK(c,q.l.hasTarget((PDGCode)k)==(it!=q.m.end()),fmt("target %d is %sthere",k,it==q.m.end()?"":"not ")); auto x=q.l.crossSectionForTarget((PDGCode)k); PBT_CHECK(c,(bool)x==(it!=q.m.end()),fmt("cross section for target %d",k)); if(x) PBT_CHECK(c,x->TotalCrossSection(1,NX::muon,NX::neutrino,NX::CC)==it->second,fmt("another target's cross section for %d",k)); } };
  for(int i=0;i<n;i++){ size_t w=s.below(v.size());
    switch(s.below(4)){
      case 0: case 1: { int k=s.pick(codes); double x=(double)s.range(1,1000); c.log(fmt("library %zu: add %d",w,k)); bool had=v[w].m.count(k); bool shared=s.boolean(); auto add=[&]{ if(shared) v[w].l.addTarget((PDGCode)k,std::shared_ptr<NX>(std::make_shared<Flat>(x))); else v[w].l.addTarget((PDGCode)k,Flat(x)); };
        if(had){ dup++; PBT_CHECK(c,throws<std::runtime_error>(add),"a target was redefined"); } else{ add(); v[w].m[k]=x; } break; }
      case 2: if(v.size()<4){ v.push_back(v[w]); copies++; c.log(fmt("copy %zu",w)); } break;
      default: { CrossSectionLibrary::MapType m; std::map<int,double> mm; for(int j=(int)s.below(4);j>0;j--){ int k=s.pick(codes); double x=(double)s.range(1,1000); if(!mm.count(k)){ m[(PDGCode)k]=std::make_shared<Flat>(x); mm[k]=x; } } v[w].l=CrossSectionLibrary(m); v[w].m=mm; c.log(fmt("library %zu from a map of %zu",w,mm.size())); } }
    for(auto& q: v) probe(q); }
  c.nontrivial(dup&&copies); }
PBT_PROP(defaults,0.05){
  h5quiet(); Dir dir; ::mkdir((dir.path+"xsections").c_str(),0777); std::vector<std::string> names{"csms_proton.h5","csms_neutron.h5","csms_square.h5"}; std::vector<Tables> t; for(auto& n: names){ t.push_back(genTables(s,true)); writeH5Tables(t.back(),dir.path+"xsections/"+n,0,false); }
  setenv("NUSQUIDS_DATA_PATH",dir.path.c_str(),1); H5Count before=H5Count::now();
  { CrossSectionLibrary l=loadDefaultCrossSections(); NeutrinoDISCrossSectionsFromTables sq; int ok=0;
    for(int i=0;i<3;i++){ NeutrinoDISCrossSectionsFromTables ref(dir.path+"xsections/"+names[i]); std::shared_ptr<const NX> x= i==0? l.crossSectionForTarget(proton): i==1? l.crossSectionForTarget(neutron): std::shared_ptr<const NX>(&sq,[](const NX*){}); PBT_CHECK(c,(bool)x,names[i]+" is missing");
      for(int q=0;q<6;q++){ double E=ref.GetEmin()*std::pow(ref.GetEmax()/ref.GetEmin(),s.unit()); E=std::min(std::max(E,ref.GetEmin()),ref.GetEmax()); auto f=FL[s.below(3)]; auto k=TY[s.below(2)]; auto cu=CU[s.below(2)]; double a,b; try{ a=x->TotalCrossSection(E,f,k,cu); }catch(std::runtime_error&){ c.fail(names[i]+": an energy inside the table was refused"); } b=ref.TotalCrossSection(E,f,k,cu); PBT_CHECK(c,a==b&&x->SingleDifferentialCrossSection(E,E*0.9,f,k,cu)==ref.SingleDifferentialCrossSection(E,E*0.9,f,k,cu),names[i]+": another table's cross sections"); ok++; } }
    auto g=l.crossSectionForTarget(electron); PBT_CHECK(c,g&&close(g->TotalCrossSection(6.3e15,NX::electron,NX::antineutrino,NX::GR),(double)glashow(6.3e15),1e-6),"no Glashow resonance on electrons"); PBT_CHECK(c,!l.hasTarget(isoscalar_nucleon),"an isoscalar target"); }
  for(auto& n: names) ::unlink((dir.path+"xsections/"+n).c_str()); ::rmdir((dir.path+"xsections").c_str()); unsetenv("NUSQUIDS_DATA_PATH"); H5Count after=H5Count::now(); PBT_CHECK(c,before==after,"HDF5 objects left open"); c.log("default library"); c.nontrivial(); }
