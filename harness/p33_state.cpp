// P33: a state written to a file and read back is the same state, and goes on the same way
#include "nu_what.h"
#include "h5util.h"
#include <fstream>
#include <sstream>
#include <iostream>
using namespace pbt; using namespace nuref;
struct Mine: nuSQUIDS{ using nuSQUIDS::nuSQUIDS; double tag=0;
  void AddToWriteHDF5(hid_t g) const override{ addH5Attribute(g,"tag",tag); } void AddToReadHDF5(hid_t g) override{ readH5Attribute(g,"tag",tag); }
  Mine(std::string f,std::string g):nuSQUIDS(3,neutrino){ ReadStateHDF5(f,g); } // virtual functions work only from here
  void internal(std::string f,std::string g,std::shared_ptr<InteractionStructure> i){ ReadStateHDF5Internal(f,g,i); } double time() const{ return Get_t(); } double begun() const{ return Get_t_initial(); } };
static std::unique_ptr<Mine> ready(const What& q,double tag){ auto nu=build<Mine>(q); settings(*nu,q); leg(*nu,q,0,true); for(unsigned i=0;i<q.before;i++){ if(i) leg(*nu,q,i,false); nu->EvolveState(); } if(q.again) setInitial(*nu,q.p,q.in); nu->tag=tag; return nu; }
static bool near(double a,double b,double tol){ return std::fabs(a-b)<=tol||(a==b); }
#define NEED(cond,msg) do{ if(!(cond)){ c.fail(msg); return false; } }while(0)
static bool same(Case& c,Mine& a,Mine& b,const What& q,double tol,const std::string& what,bool details){
  const Setup& p=q.p; NEED(b.GetNumE()==p.E.size()&&b.GetNumNeu()==p.n&&b.GetNumRho()==p.nrho(),what+": another size");
  auto ea=a.GetERange(),eb=b.GetERange(); double top=std::max(total(q.in),q.in.scale);
  for(size_t e=0;e<p.E.size();e++){ if(!(ea[e]==eb[e])){ c.fail(what+": energies"); return false; }
    for(unsigned r=0;r<p.nrho();r++) for(unsigned f=0;f<p.n;f++){
      double x=p.single?a.EvalFlavor(f):a.EvalFlavorAtNode(f,e,r),y=p.single?b.EvalFlavor(f):b.EvalFlavorAtNode(f,e,r); if(!near(x,y,tol*top)){ c.fail(fmt("%s: flavor %u energy %zu rho %u: %.10g became %.10g",what.c_str(),f,e,r,x,y)); return false; }
      x=p.single?a.EvalMass(f):a.EvalMassAtNode(f,e,r); y=p.single?b.EvalMass(f):b.EvalMassAtNode(f,e,r); if(!near(x,y,tol*top)){ c.fail(fmt("%s: mass %u energy %zu rho %u: %.10g became %.10g",what.c_str(),f,e,r,x,y)); return false; }
      if(e+1<p.E.size()){ double E=0.3*p.E[e]+0.7*p.E[e+1]; x=a.EvalFlavor(f,E,r); y=b.EvalFlavor(f,E,r); if(!near(x,y,10*tol*top)){ c.fail(fmt("%s: flavor %u between energies %zu rho %u: %.10g became %.10g",what.c_str(),f,e,r,x,y)); return false; } } } }
  if(!details) return true;
  for(unsigned j=1;j<p.n;j++){ NEED(b.Get_SquareMassDifference(j)==a.Get_SquareMassDifference(j),what+": mass difference"); for(unsigned i=0;i<j;i++) NEED(b.Get_MixingAngle(i,j)==a.Get_MixingAngle(i,j)&&b.Get_CPPhase(i,j)==a.Get_CPPhase(i,j),what+": mixing"); }
  NEED(!q.again||(a.GetTrack()->GetX()==a.GetTrack()->GetInitialX()&&a.time()==a.GetTrack()->GetInitialX()),"set again, but not at the start of the track"); NEED(a.tag==b.tag,what+": the user's own data"); NEED(a.time()==b.time()&&a.begun()==b.begun(),what+": the clock");
  NEED(typeid(*a.GetBody())==typeid(*b.GetBody())&&a.GetBody()->GetBodyParams()==b.GetBody()->GetBodyParams(),what+": the body");
  NEED(typeid(*a.GetTrack())==typeid(*b.GetTrack())&&a.GetTrack()->GetX()==b.GetTrack()->GetX()&&a.GetTrack()->GetInitialX()==b.GetTrack()->GetInitialX()&&a.GetTrack()->GetFinalX()==b.GetTrack()->GetFinalX(),what+": the track");
  return true; }
static bool goesOn(Case& c,Mine& a,Mine& b,const What& q,const std::string& what,bool already=false){ // one more leg for both; before==0: the first is still to come
  settings(b,q); unsigned i=q.before==0?0:2; if(q.before&&!q.again){ leg(b,q,i,false); if(!already) leg(a,q,i,false); } if(!already) a.EvolveState(); b.EvolveState(); return same(c,a,b,q,1e-5,what+", one leg later",false); }
static const char* GRP[]={"/","/first","second","/x"};
static std::string contents(const std::string& f){ std::ifstream i(f,std::ios::binary); std::stringstream o; o<<i.rdbuf(); return o.str(); }

PBT_PROP(roundtrip,6){
  h5quiet(); What q=genWhat(s); double tag=s.real(-1,1); q.again=q.before&&s.chance(1,4); Scratch f(".h5"); std::string g=GRP[s.below(4)]; int xs=(int)s.below(3),how=(int)s.below(3); // xs: inside, at a place of its own, the other object's
  c.log(q.s+(q.again?", set again":"")); c.log(fmt("group %s cross sections %d read %d",g.c_str(),xs,how));
  auto a=ready(q,tag); What q2=q; std::unique_ptr<Mine> other; std::string loc= xs?"tables":"";
  H5Count n0=H5Count::now();
  if(xs==2){ q2=genWhat(s,false,&q.p); q2.k=q.k; q2.mb=false; other=ready(q2,-tag); c.log("sharing with "+q2.s); other->WriteStateHDF5(f.path,"/elsewhere",true,loc,true); if(g=="/") g="/first"; a->WriteStateHDF5(f.path,g,false,loc,false); }
  else a->WriteStateHDF5(f.path,g,true,loc,s.boolean());
  PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open after writing: "+H5Count::now().str());
  std::unique_ptr<Mine> b; What q3=genWhat(s);
  if(how==0&&loc==""){ b.reset(new Mine(f.path,g)); }
  else if(how<=1){ b.reset(new Mine(3,neutrino)); b->ReadStateHDF5(f.path,g,loc); }
  else{ b=ready(q3,3); if(s.boolean()){ b->Set_NeutrinoSources(true); q.fast=false; a->Set_AllowConstantDensityOscillationOnlyEvolution(false); /* with sources it would not be taken */ c.label("had sources"); } c.log("read over "+q3.s); b->ReadStateHDF5(f.path,g,loc); b->Set_NeutrinoSources(b->Get_NeutrinoSources()); c.label("read over another"); }
  PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open after reading: "+H5Count::now().str());
  if(!same(c,*a,*b,q,1e-13,"read back",true)) return;
  if(!goesOn(c,*a,*b,q,"read back")) return;
  if(q.k.on){ Mine d(3,neutrino); d.internal(f.path,g,b->GetInteractionStructure()); if(!goesOn(c,*a,d,q,"read with given tables",true)) return; c.label("interactions");
    auto x=a->GetInteractionStructure(),y=b->GetInteractionStructure(); PBT_CHECK(c,x&&y&&*x==*y,"the tables of the interactions changed"); }
  if(other){ Mine d(3,neutrino); d.ReadStateHDF5(f.path,"/elsewhere",loc); if(!same(c,*other,d,q2,1e-13,"the other in the file",true)) return; c.label("two in one file"); }
  c.label(fmt("%u before",q.before)); c.label(fmt("%zu energies",q.p.E.size())); c.nontrivial(q.before>0); }

// something is missing
static void removeAt(const std::string& file,const std::string& link,const std::string& attr){ hid_t f=H5Fopen(file.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); if(attr=="") H5Ldelete(f,link.c_str(),H5P_DEFAULT); else H5Adelete_by_name(f,link.c_str(),attr.c_str(),H5P_DEFAULT); H5Fclose(f); }
PBT_PROP(incomplete,3){
  h5quiet(); What q=genWhat(s,s.boolean()); Scratch f(".h5"); c.log(q.s); auto a=ready(q,1); std::string g=s.boolean()?"/":"/g",at=g=="/"?"/":"/g/"; a->WriteStateHDF5(f.path,g); std::string whole=contents(f.path);
  std::vector<std::pair<std::string,std::string>> what{{"energies",""},{"basic",""},{"basic","numneu"},{"basic","NT"},{"basic","interactions"},{"basic","squids_time"},{"basic","squids_time_initial"},{"basic","squids_version_number"},{"basic","nusquids_version_number"},{"mixingangles",""},{"CPphases",""},{"massdifferences",""},{"mixingangles","th12"},{"mixingangles","th23"},{"CPphases","delta13"},{"massdifferences","dm21sq"},{"massdifferences","dm31sq"},{"neustate",""},{"aneustate",""},{"body",""},{"track",""},{"body","name"},{"track","name"},{"user_parameters",""},{"user_parameters","tag"}};
  if(q.k.on) for(auto x: {"crosssections","crosssections/targets","crosssections/sigmacc","crosssections/sigmanc","crosssections/sigmagr","crosssections/dNdEcc","crosssections/dNdEnc","crosssections/dNdEgr","crosssections/dNdEtauall","crosssections/dNdEtaulep"}) what.push_back({x,""});
  auto w= q.k.on&&s.boolean()? what[25+s.below(10)]: what[s.below(25)]; bool used=s.boolean(); c.log("without "+w.first+" "+w.second); removeAt(f.path,at+w.first,w.second);
  H5Count n0=H5Count::now(); What q3=genWhat(s); std::unique_ptr<Mine> b; if(used){ b=ready(q3,3); c.log("read over "+q3.s); } else b.reset(new Mine(3,antineutrino));
  n0=H5Count::now(); PBT_CHECK(c,throwsAny([&]{ b->ReadStateHDF5(f.path,g); }),"a file without "+w.first+" "+w.second+" was read"); PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open: "+H5Count::now().str());
  PBT_CHECK(c,throwsAny([&]{ b->EvolveState(); }),"evolved after failing to read"); PBT_CHECK(c,throwsAny([&]{ Scratch o(".h5"); b->WriteStateHDF5(o.path); }),"wrote after failing to read");
  try{ for(unsigned e=0;e<b->GetNumE();e++) for(unsigned k=0;k<b->GetNumNeu();k++) (void)b->EvalFlavorAtNode(k,e,0); }catch(const std::exception&){} // in bounds, or refused
  { std::ofstream o(f.path,std::ios::binary); o<<whole; } b->ReadStateHDF5(f.path,g); if(!same(c,*a,*b,q,1e-13,"read again",true)) return; if(!goesOn(c,*a,*b,q,"read again")) return;
  c.label(w.first.substr(0,w.first.find('/'))); c.nontrivial(true); }

// what must be refused, and must leave files alone
PBT_PROP(refused,2){
  h5quiet(); What q=genWhat(s,s.boolean()); int what=(int)s.below(8); if((what==4||what>=6)&&!q.before) q.before=1; /* the tables exist */ c.log(q.s); auto a=ready(q,1); Scratch f(".h5"); c.log(fmt("case %d",what)); c.nontrivial(true);
  auto unharmed=[&](const std::string& g,const std::string& loc){ Mine b(3,neutrino); b.ReadStateHDF5(f.path,g,loc); return same(c,*a,b,q,1e-13,"afterwards",true)&&goesOn(c,*a,b,q,"afterwards"); };
  if(what==0){ Mine b(3,neutrino); PBT_CHECK(c,throwsAny([&]{ b.ReadStateHDF5(f.path); })&&throwsAny([&]{ nuSQUIDS d(f.path); }),"a missing file was read"); std::ofstream(f.path)<<"1 2 3\n"; PBT_CHECK(c,throwsAny([&]{ b.ReadStateHDF5(f.path); }),"a text file was read"); c.label("no such file"); }
  else if(what==1){ a->WriteStateHDF5(f.path,"/g"); Mine b(3,neutrino); PBT_CHECK(c,throwsAny([&]{ b.ReadStateHDF5(f.path,"/h"); })&&throwsAny([&]{ b.ReadStateHDF5(f.path,"/"); })&&(!q.k.on||throwsAny([&]{ b.ReadStateHDF5(f.path,"/g","nowhere"); })),"a missing group was read"); if(!unharmed("/g","")) return; c.label("no such group"); }
  else if(what==2){ std::string g=s.boolean()?"/":"/g"; a->WriteStateHDF5(f.path,g); What q2=genWhat(s); auto o=ready(q2,7); PBT_CHECK(c,throwsAny([&]{ o->WriteStateHDF5(f.path,g,true,"",false); }),"a state was written over another in "+g); if(!unharmed(g,"")) return; c.label("place taken"); }
  else if(what==3){ std::string text="not HDF5 at all\n"; std::ofstream(f.path)<<text; PBT_CHECK(c,throwsAny([&]{ a->WriteStateHDF5(f.path,"/",true,"",false); }),"appended to a text file"); PBT_CHECK(c,contents(f.path)==text,"a text file was replaced although overwriting was not asked for"); a->WriteStateHDF5(f.path); if(!unharmed("/","")) return; c.label("not HDF5"); }
  else if(what==4){ // tables of another size
    if(!q.k.on) return; What q2=genWhat(s,true); if(q2.p.n==q.p.n&&q2.p.E.size()==q.p.E.size()&&q2.p.nrho()==q.p.nrho()) return; c.log("tables of "+q2.s); auto o=ready(q2,7); o->WriteStateHDF5(f.path,"/o",true,"tables"); a->WriteStateHDF5(f.path,"/a",false,"tables",false);
    Mine b(3,neutrino); PBT_CHECK(c,throwsAny([&]{ b.ReadStateHDF5(f.path,"/a","tables"); }),"read with tables of another size"); PBT_CHECK(c,throwsAny([&]{ b.internal(f.path,"/a",o->GetInteractionStructure()); }),"given tables of another size"); PBT_CHECK(c,throwsAny([&]{ b.internal(f.path,"/a",nullptr); }),"read without tables"); c.label("tables of another size"); }
  else if(what==5){ auto o=build<Mine>(q); settings(*o,q); int miss=(int)s.below(3); if(miss>=1) o->Set_Body(q.legs[0].first); if(miss>=2) o->Set_Track(q.legs[0].second());
    PBT_CHECK(c,throws<std::runtime_error>([&]{ o->WriteStateHDF5(f.path); }),"wrote without a state"); std::ifstream t(f.path); PBT_CHECK(c,!t,"a file was made without a state"); c.label("no state"); }
  else if(what==7){ // one table of another size, smaller or larger, or of another rank
    if(!q.k.on) return; const char* N[]={"sigmacc","sigmanc","sigmagr","dNdEcc","dNdEnc","dNdEgr","dNdEtauall","dNdEtaulep"}; std::string n=std::string("/a/crosssections/")+N[s.below(8)]; a->WriteStateHDF5(f.path,"/a"); { std::string whole=contents(f.path); hid_t h=H5Fopen(f.path.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); int r=0; H5LTget_dataset_ndims(h,n.c_str(),&r); std::vector<hsize_t> d(r); H5LTget_dataset_info(h,n.c_str(),d.data(),nullptr,nullptr); int kind=(int)s.below(3); size_t at=s.below(r); if(kind==0) d[at]++; else if(kind==1&&d[at]>1) d[at]--; else d.insert(d.begin(),1); c.log(fmt("%s: dimension %zu, %d",n.c_str(),at,kind)); size_t m=1; for(auto x: d) m*=x; V v(m,0.1); H5Ldelete(h,n.c_str(),H5P_DEFAULT); H5LTmake_dataset_double(h,n.c_str(),(int)d.size(),d.data(),v.data()); H5Fclose(h);
      Mine b(3,neutrino); PBT_CHECK(c,throwsAny([&]{ b.ReadStateHDF5(f.path,"/a"); }),"read with one table of another size"); PBT_CHECK(c,throwsAny([&]{ b.EvolveState(); }),"evolved with one table of another size"); std::ofstream o(f.path,std::ios::binary); o<<whole; } if(!unharmed("/a","")) return; c.label("one table of another size"); }
  else{ if(!q.k.on) return; a->WriteStateHDF5(f.path,"/a",false); Mine b(3,neutrino); PBT_CHECK(c,throwsAny([&]{ b.ReadStateHDF5(f.path,"/a"); }),"read a state with interactions without its tables"); PBT_CHECK(c,throwsAny([&]{ b.EvolveState(); }),"evolved without tables"); b.internal(f.path,"/a",a->GetInteractionStructure()); if(!same(c,*a,b,q,1e-13,"given tables",true)) return; if(!goesOn(c,*a,b,q,"given tables")) return; c.label("tables not saved"); } }
