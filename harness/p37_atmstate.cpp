// P37: an atmospheric ensemble written to a file and read back is the same ensemble, and goes on the same way
#include "nu_atm.h"
#include "h5util.h"
#include <fstream>
#include <sstream>
using namespace pbt; using namespace nuref;
static void precision(Atm& a,const Ensemble& q,unsigned threads){ a.Set_rel_error(1e-8); a.Set_abs_error(1e-8*q.scale); a.Set_EvalThreads(threads); }
static std::unique_ptr<Atm> ready(const Ensemble& q,unsigned before,std::shared_ptr<EarthAtm> next,unsigned threads){
  auto a=makeAtm(q); precision(*a,q,threads); a->Set_EarthModel(q.earth); if(!q.k.osc) a->Set_IncludeOscillations(false); if(q.k.tau) a->Set_TauRegeneration(true); if(q.k.gr) a->Set_GlashowResonance(true);
  for(unsigned j=1;j<q.p.n;j++){ a->Set_SquareMassDifference(j,q.p.dm[j]); for(unsigned i=0;i<j;i++){ a->Set_MixingAngle(i,j,q.p.th[i][j]); a->Set_CPPhase(i,j,q.p.del[i][j]); } }
  setInitialAtm(*a,q,q.basis); for(unsigned i=0;i<before;i++){ if(i) a->Set_EarthModel(next); a->EvolveState(); } return a; }
#define NEED(cond,msg) do{ if(!(cond)){ c.fail(msg); return false; } }while(0)
static bool same(Case& c,Atm& a,Atm& b,const Ensemble& q,double tol,const std::string& what,bool details){
  NEED(b.GetNumCos()==q.cz.size()&&b.GetNumE()==q.p.E.size()&&b.GetNumNeu()==q.p.n&&b.GetNumRho()==q.p.nrho()&&b.GetNumNodes()==q.cz.size()&&b.GetnuSQuIDS().size()==q.cz.size(),what+": another size"); auto E=b.GetERange(); auto z=b.GetCosthRange(); NEED(E.extent(0)==q.p.E.size()&&z.extent(0)==q.cz.size(),what+": ranges");
  double top=0; for(auto& i: q.in) top=std::max(top,std::max(total(i),i.scale));
  for(size_t i=0;i<q.cz.size();i++){ NEED(z[i]==q.cz[i],what+": zeniths"); for(size_t e=0;e<q.p.E.size();e++){ NEED(E[e]==q.p.E[e],what+": energies"); for(unsigned r=0;r<q.p.nrho();r++) for(unsigned f=0;f<q.p.n;f++) for(int k=0;k<4;k++){
      if((k&1)&&i+1==q.cz.size()) continue; if((k&2)&&e+1==q.p.E.size()) continue; double cz=k&1?0.3*q.cz[i]+0.7*q.cz[i+1]:q.cz[i],En=k&2?0.6*q.p.E[e]+0.4*q.p.E[e+1]:q.p.E[e],x=a.EvalFlavor(f,cz,En,r),y=b.EvalFlavor(f,cz,En,r);
      if(!(std::fabs(x-y)<=(k?10:1)*tol*top)){ c.fail(fmt("%s: flavor %u at cos %.17g energy %.17g rho %u: %.10g became %.10g",what.c_str(),f,cz,En,r,x,y)); return false; } } } }
  if(!details) return true;
  for(unsigned j=1;j<q.p.n;j++){ NEED(b.Get_SquareMassDifference(j)==a.Get_SquareMassDifference(j),what+": mass difference"); for(unsigned i=0;i<j;i++) NEED(b.Get_MixingAngle(i,j)==a.Get_MixingAngle(i,j)&&b.Get_CPPhase(i,j)==a.Get_CPPhase(i,j),what+": mixing"); }
  for(unsigned i=0;i<q.cz.size();i++){ auto& x=a.GetnuSQuIDS(i); auto& y=b.GetnuSQuIDS(i); NEED(x.Get_t()==y.Get_t()&&x.Get_t_initial()==y.Get_t_initial(),what+": the clock"); NEED(y.GetBody()->GetBodyParams()==x.GetBody()->GetBodyParams()&&y.GetBody()->GetName()==x.GetBody()->GetName(),what+": the Earth model"); auto s=x.GetTrack(),t=y.GetTrack();
    NEED(s->GetX()==t->GetX()&&s->GetInitialX()==t->GetInitialX()&&s->GetFinalX()==t->GetFinalX(),what+": the track"); auto ea=std::dynamic_pointer_cast<EarthAtm>(y.GetBody()); auto ta=std::dynamic_pointer_cast<EarthAtm::Track>(t); NEED(ea&&ta,what+": kinds of body and track"); double d=x.GetBody()->density(*s),h=ea->density(*t); NEED(std::fabs(d-h)<=1e-12*(std::fabs(d)+1e-3),what+fmt(": density %g became %g",d,h)); }
  return true; }
static bool goesOn(Case& c,Atm& a,Atm& b,const Ensemble& q,unsigned before,std::shared_ptr<EarthAtm> next,unsigned threads,const std::string& what,bool already=false){ precision(b,q,threads); if(before){ if(!already) a.Set_EarthModel(next); b.Set_EarthModel(next); } if(!already) a.EvolveState(); b.EvolveState(); return same(c,a,b,q,1e-4,what+", one leg later",false); }
struct Plan{ Ensemble q; unsigned before,threads; std::shared_ptr<Globe> next; };
static Plan genPlan(Src& s,Case& c,unsigned nc=4){ std::string log; Plan p{genEnsemble(s,false,nc),(unsigned)s.below(3),(unsigned)s.range(1,4),nullptr}; p.next=genEarth(s,log,false); for(size_t i=1;i<p.q.cz.size();i++) if(std::to_string(p.q.cz[i])==std::to_string(p.q.cz[i-1])){ p.q.cz.resize(i); p.q.in.resize(i); } c.log(p.q.s+fmt(" %u before, %u threads, then",p.before,p.threads)+log); return p; }
static std::string contents(const std::string& f){ std::ifstream i(f,std::ios::binary); std::stringstream o; o<<i.rdbuf(); return o.str(); }

PBT_PROP(roundtrip,6){
  h5quiet(); Plan p=genPlan(s,c); const Ensemble& q=p.q; Scratch f(".h5"); auto a=ready(q,p.before,p.next,p.threads); H5Count n0=H5Count::now(); int how=(int)s.below(4); bool over=s.boolean(),beside=!over&&s.boolean();
  if(over&&s.boolean()){ c.log("over another file"); Plan o=genPlan(s,c,2); ready(o.q,o.before,o.next,1)->WriteStateHDF5(f.path); c.label("over another file"); }
  std::unique_ptr<nuSQUIDS> guest; What w; if(beside){ w=genWhat(s); c.log("beside "+w.s); guest=build<nuSQUIDS>(w); settings(*guest,w); leg(*guest,w,0,true); guest->WriteStateHDF5(f.path,"/guest",true,"",true); c.label("beside another"); }
  a->WriteStateHDF5(f.path,over); PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open after writing: "+H5Count::now().str());
  std::unique_ptr<Atm> b; if(how<2) b.reset(new Atm(f.path)); else{ c.log("read over"); Plan o=genPlan(s,c,3); b=ready(o.q,o.before,o.next,o.threads); if(how==3){ Atm t(std::move(*b)); c.log("that was moved"); if(s.boolean()) b.reset(new Atm(std::move(t))); } b->ReadStateHDF5(f.path); c.label("read over another"); }
  PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open after reading: "+H5Count::now().str());
  if(!same(c,*a,*b,q,1e-13,"read back",true)) return; std::unique_ptr<Atm> d; Scratch g(".h5"); if(s.boolean()){ b->WriteStateHDF5(g.path); d.reset(new Atm(g.path)); if(!same(c,*a,*d,q,2e-13,"copied twice",true)) return; }
  if(guest){ nuSQUIDS h(f.path,"/guest"); for(unsigned k=0;k<w.p.n;k++){ double x=w.p.single?guest->EvalFlavor(k):guest->EvalFlavorAtNode(k,0,0),y=w.p.single?h.EvalFlavor(k):h.EvalFlavorAtNode(k,0,0); PBT_CHECK(c,std::fabs(x-y)<=1e-13*std::max(total(w.in),w.in.scale),"the other state in the file changed"); } }
  if(!goesOn(c,*a,*b,q,p.before,p.next,(unsigned)s.range(1,4),"read back")) return; if(d&&!goesOn(c,*a,*d,q,p.before,p.next,1,"copied twice",true)) return;
  if(s.boolean()){ setInitialAtm(*a,q,q.basis); setInitialAtm(*b,q,q.basis); if(!same(c,*a,*b,q,1e-13,"set again",true)) return; c.label("set again"); }
  c.label(fmt("%zu zeniths",q.cz.size())); c.label(fmt("%u before",p.before)); if(q.k.on) c.label("interactions"); c.nontrivial(p.before>0&&q.cz.size()>1); }

PBT_PROP(incomplete,3){
  h5quiet(); Plan p=genPlan(s,c); const Ensemble& q=p.q; Scratch f(".h5"); auto a=ready(q,p.before,p.next,1); a->WriteStateHDF5(f.path); std::string whole=contents(f.path),z="costh_"+std::to_string(q.cz[s.below(q.cz.size())])+"/"; bool used=s.boolean(); std::unique_ptr<Atm> b; if(used){ c.log("read over"); Plan o=genPlan(s,c,3); b=ready(o.q,o.before,o.next,1); } else b=makeAtm(q);
  std::vector<std::string> what{"zenith_angles","energy_range","zenith_angles","energy_range",z,z+"energies",z+"basic",z+"mixingangles",z+"CPphases",z+"massdifferences",z+"neustate",z+"aneustate",z+"body",z+"track"}; if(q.k.on) for(auto x: {"crosssections","crosssections/targets","crosssections/sigmacc","crosssections/sigmanc","crosssections/dNdEcc","crosssections/dNdEnc"}) what.push_back(x);
  std::string w=what[s.below(what.size())]; bool other=w[0]=='z'||w[0]=='e'; int form=other?(int)s.below(4):0; c.log(fmt("without %s (%d)",w.c_str(),form)); if(w.back()=='/') w.pop_back();
  { hid_t h=H5Fopen(f.path.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); H5Ldelete(h,w.c_str(),H5P_DEFAULT); if(form==1){ hsize_t d[2]={2,1}; double v[2]={-1,1}; H5LTmake_dataset_double(h,w.c_str(),2,d,v); } if(form==2){ hsize_t d[1]={0}; hid_t sp=H5Screate_simple(1,d,nullptr),ds=H5Dcreate2(h,w.c_str(),H5T_NATIVE_DOUBLE,sp,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); H5Dclose(ds); H5Sclose(sp); } if(form==3){ hid_t gr=H5Gcreate2(h,w.c_str(),H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); H5Gclose(gr); } H5Fclose(h); }
  H5Count n0=H5Count::now(); PBT_CHECK(c,throwsAny([&]{ Atm t(f.path); }),"an object was made from a file without "+w); PBT_CHECK(c,throwsAny([&]{ b->ReadStateHDF5(f.path); }),"a file without "+w+" was read"); PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open: "+H5Count::now().str());
  PBT_CHECK(c,throwsAny([&]{ b->EvolveState(); })&&throwsAny([&]{ b->EvalFlavor(0,q.cz[0],q.p.E[0],0); })&&throwsAny([&]{ Scratch o(".h5"); b->WriteStateHDF5(o.path); }),"used after failing to read");
  { std::ofstream o(f.path,std::ios::binary); o<<whole; } b->ReadStateHDF5(f.path); if(!same(c,*a,*b,q,1e-13,"read again",true)) return; if(!goesOn(c,*a,*b,q,p.before,p.next,1,"read again")) return; c.label(other?w:w.find('/')==std::string::npos?"group":w.substr(w.find('/')+1)); c.nontrivial(true); }

PBT_PROP(refused,2){
  h5quiet(); Plan p=genPlan(s,c); const Ensemble& q=p.q; Scratch f(".h5"); auto a=ready(q,p.before,p.next,1); int what=(int)s.below(5); c.log(fmt("case %d",what)); c.nontrivial(true); H5Count n0=H5Count::now(); std::string text="not HDF5 at all\n";
  auto reads=[&]{ Atm b(f.path); return same(c,*a,b,q,1e-13,"afterwards",true)&&goesOn(c,*a,b,q,p.before,p.next,1,"afterwards"); };
  if(what==0){ PBT_CHECK(c,throwsAny([&]{ Atm b(f.path); })&&throwsAny([&]{ auto b=makeAtm(q); b->ReadStateHDF5(f.path); }),"a missing file was read"); PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open"); std::ofstream(f.path)<<text; PBT_CHECK(c,throwsAny([&]{ Atm b(f.path); }),"a text file was read"); }
  else if(what==1){ a->WriteStateHDF5(f.path,s.boolean()); Plan o=genPlan(s,c,3); auto b=ready(o.q,o.before,o.next,1); PBT_CHECK(c,throwsAny([&]{ b->WriteStateHDF5(f.path,false); }),"an ensemble was written over another"); PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open: "+H5Count::now().str()); if(!reads()) return; }
  else if(what==2){ std::ofstream(f.path)<<text; PBT_CHECK(c,throwsAny([&]{ a->WriteStateHDF5(f.path,false); }),"appended to a text file"); PBT_CHECK(c,contents(f.path)==text,"a text file was replaced although overwriting was not asked for"); a->WriteStateHDF5(f.path); if(!reads()) return; }
  else if(what==3){ PBT_CHECK(c,throwsAny([&]{ a->WriteStateHDF5(f.path+"/none/x.h5"); }),"wrote to a directory that is not there"); PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open"); Atm t(std::move(*a)); PBT_CHECK(c,throwsAny([&]{ a->WriteStateHDF5(f.path); }),"wrote an object that was moved from"); std::ifstream i(f.path); PBT_CHECK(c,!i,"made a file for an object that was moved from"); }
  else{ What w=genWhat(s); auto n=build<nuSQUIDS>(w); settings(*n,w); leg(*n,w,0,true); n->WriteStateHDF5(f.path); PBT_CHECK(c,throwsAny([&]{ Atm b(f.path); }),"the state of one object was read as an ensemble"); PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open"); }
  c.label(fmt("case %d",what)); }
