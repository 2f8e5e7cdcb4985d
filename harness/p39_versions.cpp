// P39: files of earlier versions are read as what they hold, or refused
#include "nu_what.h"
#include "h5util.h"
using namespace pbt; using namespace nuref;
struct Mine: nuSQUIDS{ using nuSQUIDS::nuSQUIDS; void internal(std::string f,std::string g,std::shared_ptr<InteractionStructure> i){ ReadStateHDF5Internal(f,g,i); } double time() const{ return Get_t(); } double begun() const{ return Get_t_initial(); } };
static std::unique_ptr<Mine> ready(const What& q){ auto nu=build<Mine>(q); settings(*nu,q); leg(*nu,q,0,true); for(unsigned i=0;i<q.before;i++){ if(i) leg(*nu,q,i,false); nu->EvolveState(); } if(q.again) setInitial(*nu,q.p,q.in); return nu; }
static void redo(hid_t f,const std::string& p,const std::vector<hsize_t>& dims,const V& data){ if(H5LTfind_dataset(f,p.c_str())||H5Lexists(f,p.c_str(),H5P_DEFAULT)>0) H5Ldelete(f,p.c_str(),H5P_DEFAULT); double none=0; H5LTmake_dataset_double(f,p.c_str(),(int)dims.size(),dims.data(),data.empty()?&none:data.data()); }
static void get(hid_t f,const std::string& p,std::vector<hsize_t>& dims,V& data){ int r=0; H5LTget_dataset_ndims(f,p.c_str(),&r); dims.resize(r); H5LTget_dataset_info(f,p.c_str(),dims.data(),nullptr,nullptr); size_t n=1; for(auto d: dims) n*=d; data.resize(n); H5LTread_dataset_double(f,p.c_str(),data.data()); }
struct Old{ unsigned version,id; V body,track; double x; bool flatTau=false; std::vector<std::string> without; };
// rewrites what the present version wrote in the way an earlier one did
static void age(const std::string& file,const std::string& at,const Old& o,bool tables){
  hid_t f=H5Fopen(file.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); H5LTset_attribute_uint(f,(at+"basic").c_str(),"nusquids_version_number",&o.version,1);
  for(auto& w: o.without) H5Adelete_by_name(f,(at+"basic").c_str(),w.c_str(),H5P_DEFAULT);
  if(o.version<=100000){ redo(f,at+"body",{o.body.size()},o.body); H5LTset_attribute_uint(f,(at+"body").c_str(),"ID",&o.id,1); redo(f,at+"track",{o.track.size()},o.track); H5LTset_attribute_double(f,(at+"track").c_str(),"X",&o.x,1); }
  if(tables&&o.version<101100){ std::string xs=at+"crosssections/"; H5Ldelete(f,(xs+"targets").c_str(),H5P_DEFAULT); for(auto n: {"sigmacc","sigmanc","dNdEcc","dNdEnc"}){ std::vector<hsize_t> d; V v; get(f,xs+n,d,v); d.erase(d.begin()); redo(f,xs+n,d,v); } }
  if(tables&&o.flatTau) for(auto n: {"dNdEtauall","dNdEtaulep"}){ std::vector<hsize_t> d; V v; get(f,at+"crosssections/"+n,d,v); size_t m=d[1]*d[2]; V u(m); for(size_t k=0;k<m;k++){ for(size_t r=0;r<d[0];r++) u[k]+=v[r*m+k]/d[0]; } redo(f,at+"crosssections/"+n,{d[1],d[2]},u); }
  H5Fclose(f); }
static bool same(Case& c,Mine& a,Mine& b,const What& q,double tol,const std::string& what,bool details){
  const Setup& p=q.p; auto ea=a.GetERange(),eb=b.GetERange(); double top=std::max(total(q.in),q.in.scale);
  if(b.GetNumE()!=p.E.size()||b.GetNumNeu()!=p.n||b.GetNumRho()!=p.nrho()){ c.fail(what+": another size"); return false; }
  for(size_t e=0;e<p.E.size();e++){ if(!(ea[e]==eb[e])){ c.fail(what+": energies"); return false; }
    for(unsigned r=0;r<p.nrho();r++) for(unsigned f=0;f<p.n;f++){ double x=p.single?a.EvalFlavor(f):a.EvalFlavorAtNode(f,e,r),y=p.single?b.EvalFlavor(f):b.EvalFlavorAtNode(f,e,r); if(!(std::fabs(x-y)<=tol*top)){ c.fail(fmt("%s: flavor %u energy %zu rho %u: %.10g became %.10g",what.c_str(),f,e,r,x,y)); return false; } } }
  if(!details) return true;
  for(unsigned j=1;j<p.n;j++){ bool ok=b.Get_SquareMassDifference(j)==a.Get_SquareMassDifference(j); for(unsigned i=0;i<j;i++) ok=ok&&b.Get_MixingAngle(i,j)==a.Get_MixingAngle(i,j)&&b.Get_CPPhase(i,j)==a.Get_CPPhase(i,j); if(!ok){ c.fail(what+": parameters"); return false; } }
  if(a.time()!=b.time()||a.begun()!=b.begun()){ c.fail(what+": the clock"); return false; }
  auto A=a.GetBody(),B=b.GetBody(); auto s=a.GetTrack(),t=b.GetTrack();
  if(typeid(*A)!=typeid(*B)||A->GetBodyParams()!=B->GetBodyParams()){ c.fail(what+": the body"); return false; }
  auto near=[](double x,double y,double l){ return std::fabs(x-y)<=1e-7*(std::fabs(x)+l); }; double l=std::fabs(s->GetFinalX()-s->GetInitialX());
  if(typeid(*s)!=typeid(*t)||!near(s->GetX(),t->GetX(),l)||!near(s->GetInitialX(),t->GetInitialX(),l)||!near(s->GetFinalX(),t->GetFinalX(),l)){ c.fail(fmt("%s: the track was %.9g %.9g %.9g, is %.9g %.9g %.9g",what.c_str(),s->GetX(),s->GetInitialX(),s->GetFinalX(),t->GetX(),t->GetInitialX(),t->GetFinalX())); return false; }
  V u=s->GetTrackParams(),v=t->GetTrackParams(); if(u.size()!=v.size()){ c.fail(what+": parameters of the track"); return false; } for(size_t i=0;i<u.size();i++) if(!near(u[i],v[i],i<2?l:0)){ c.fail(fmt("%s: parameter %zu of the track was %.9g, is %.9g",what.c_str(),i,u[i],v[i])); return false; }
  return true; }
// the body it is in when it is written, besides those of What: of the Earth and the Sun
struct Place{ unsigned id=0; std::shared_ptr<Body> body; std::shared_ptr<Track> track; std::string s; };
static Place genPlace(Src& s){ Place p; int k=(int)s.below(4); const squids::Const u; double a=s.unit(),b=s.real(0,1);
  if(k==0){ static auto e=std::make_shared<Earth>(); p.id=4; p.body=e; double base=s.real(100,12742)*u.km,x0=a*base*0.4,x1=base*(0.5+0.5*b); p.track=std::make_shared<Earth::Track>(x0,x1,base); p.s=fmt("earth %g %g of %g",x0,x1,base); }
  else if(k==1){ static auto e=std::make_shared<Sun>(); p.id=5; p.body=e; double R=694439.0*u.km,x0=a*R*0.4,x1=R*(0.5+0.5*b); p.track=std::make_shared<Sun::Track>(x0,x1); p.s=fmt("sun %g %g",x0,x1); }
  else if(k==2){ static auto e=std::make_shared<SunASnu>(); p.id=6; p.body=e; double R=694439.0*u.km; p.track=std::make_shared<SunASnu::Track>(a*R*0.1,b*R*0.9); p.s=fmt("sun from outside, at %g impact %g",a*R*0.1,b*R*0.9); }
  else{ static auto e=std::make_shared<EarthAtm>(); p.id=7; p.body=e; double z=s.real(0.3,3.1); p.track=std::make_shared<EarthAtm::Track>(e->MakeTrack(z)); p.s=fmt("earth with atmosphere, zenith %g",z); }
  return p; }
static Old describe(Src& s,Mine& a,const What& q,const Place& pl){ Old o; o.version= s.chance(2,3)?s.pick({100000u,100000u,10000u,99999u}): (unsigned)s.range(100001,101099); auto b=a.GetBody(); auto t=a.GetTrack(); o.body=b->GetBodyParams(); o.track=t->GetTrackParams(); o.x=t->GetX();
  o.id= pl.id==4?Earth::GetId(): pl.id==5?Sun::GetId(): pl.id==6?SunASnu::GetId(): pl.id==7?EarthAtm::GetId(): dynamic_cast<Vacuum*>(b.get())?Vacuum::GetId(): dynamic_cast<ConstantDensity*>(b.get())?ConstantDensity::GetId():VariableDensity::GetId(); return o; }
static const char* GRP[]={"/","/first","/x"};

PBT_PROP(aged,5){
  h5quiet(); What q=genWhat(s,s.boolean()); q.k.perNucleon=false; q.again=q.before&&s.chance(1,4); Scratch f(".h5"); std::string g=GRP[s.below(3)],at=g=="/"?"/":g+"/"; auto a=ready(q); Place pl; bool elsewhere=s.chance(2,5); if(elsewhere){ pl=genPlace(s); a->Set_Body(pl.body); a->Set_Track(pl.track); if(s.boolean()){ double h=s.unit(); pl.track->SetX(pl.track->GetInitialX()+h*(pl.track->GetFinalX()-pl.track->GetInitialX())); } }
  Old o=describe(s,*a,q,pl); o.flatTau= q.k.on&&s.boolean(); bool plain=s.boolean(); if(plain){ o.without={"oscillations","tau_regeneration","glashow_resonance"}; if(!q.mb&&!q.fast) o.without.push_back("basis"); }
  c.log(q.s); c.log(pl.s); c.log(fmt("group %s version %u body %u%s%s",g.c_str(),o.version,o.id,o.flatTau?" one tau table":"",plain?" without options":"")); if(o.track.size()>2&&o.id==6&&s.boolean()) o.track={o.track[0],o.track[2]};
  a->WriteStateHDF5(f.path,g); age(f.path,at,o,q.k.on); H5Count n0=H5Count::now();
  std::unique_ptr<Mine> b; if(plain) b=build<Mine>(q); else if(s.boolean()) b.reset(new Mine(3,neutrino)); else{ What q3=genWhat(s); c.log("read over "+q3.s); b=ready(q3); }
  n0=H5Count::now(); b->ReadStateHDF5(f.path,g); PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open after reading: "+H5Count::now().str());
  if(!same(c,*a,*b,q,1e-13,"read back",true)) return;
  std::unique_ptr<Mine> d; if(q.k.on){ if(plain) d=build<Mine>(q); else d.reset(new Mine(3,antineutrino)); d->internal(f.path,g,b->GetInteractionStructure()); if(!same(c,*a,*d,q,1e-13,"read with given tables",true)) return; }
  if(q.k.on){ auto x=a->GetInteractionStructure(); if(!x||!x->targets.size()){ a->EvolveState(); x=a->GetInteractionStructure(); q.before=9; } auto y=b->GetInteractionStructure(); size_t ne=q.p.E.size(); unsigned nr=q.p.nrho();
    PBT_CHECK(c,y&&y->targets==x->targets,"targets"); auto eq=[&](double u,double v){ return u==v; }; bool ok=true;
    for(size_t e=0;e<ne;e++){ ok=ok&&eq(x->sigma_GR[e],y->sigma_GR[e]); for(size_t k=0;k<e;k++) ok=ok&&eq(x->dNdE_GR[e][k],y->dNdE_GR[e][k]); for(unsigned r=0;r<nr;r++) for(unsigned l=0;l<q.p.n;l++){ ok=ok&&eq(x->sigma_CC[0][r][l][e],y->sigma_CC[0][r][l][e])&&eq(x->sigma_NC[0][r][l][e],y->sigma_NC[0][r][l][e]); for(size_t k=0;k<e;k++) ok=ok&&eq(x->dNdE_CC[0][r][l][e][k],y->dNdE_CC[0][r][l][e][k])&&eq(x->dNdE_NC[0][r][l][e][k],y->dNdE_NC[0][r][l][e][k]); } }
    PBT_CHECK(c,ok,"the tables of the cross sections changed");
    for(size_t e=0;e<ne;e++) for(size_t k=0;k<e;k++){ double ma=0,ml=0; for(unsigned r=0;r<nr;r++){ ma+=x->dNdE_tau_all[r][e][k]/nr; ml+=x->dNdE_tau_lep[r][e][k]/nr; } for(unsigned r=0;r<nr;r++){ double wa=o.flatTau?ma:x->dNdE_tau_all[r][e][k],wl=o.flatTau?ml:x->dNdE_tau_lep[r][e][k]; PBT_CHECK(c,close(y->dNdE_tau_all[r][e][k],wa,1e-14,0)&&close(y->dNdE_tau_lep[r][e][k],wl,1e-14,0),"the tables of the tau decays"); } }
    c.label("tables"); }
  if(q.before<9&&!(q.k.on&&q.k.tau&&o.flatTau)){ settings(*b,q); if(d) settings(*d,q); bool onward= (q.before>0&&!q.again)||elsewhere; if(onward){ leg(*a,q,2,false); leg(*b,q,2,false); if(d) leg(*d,q,2,false); } a->EvolveState(); b->EvolveState(); if(!same(c,*a,*b,q,1e-5,"one leg later",false)) return; if(d){ d->EvolveState(); if(!same(c,*a,*d,q,1e-5,"with given tables, one leg later",false)) return; } c.label("went on"); }
  c.label(o.version<=100000?fmt("body %u",o.id):"only tables"); c.nontrivial(true); }

// what does not describe a state is refused
PBT_PROP(refused,2){
  h5quiet(); What q=genWhat(s,s.boolean()); q.k.perNucleon=false; Scratch f(".h5"); std::string g=GRP[s.below(3)],at=g=="/"?"/":g+"/"; auto a=ready(q); Place pl; if(s.boolean()){ pl=genPlace(s); a->Set_Body(pl.body); a->Set_Track(pl.track); }
  Old o=describe(s,*a,q,pl); int k=(int)s.below(q.k.on?12:10); bool tables=q.k.on; if(k<8) o.version=100000; else if(k==8||k==9) o.version= s.chance(1,3)?101101: (unsigned)s.range(101101,200000); std::string what;
  if(k==0){ o.id=s.pick({0u,8u,9u,77u,4000000000u}); what=fmt("body %u",o.id); }
  else if(k==1){ if(o.id!=2){ o.id=2; o.body={}; } else o.body.resize(s.below(2)); what="too few parameters of the body"; }
  else if(k==2){ size_t need= o.id==4||o.id==7?3:2; o.track.resize(s.below(need)); what="too few parameters of the track"; }
  else if(k==3){ o.id=3; V z; size_t n=s.below(3); for(size_t i=0;i<n;i++) z.push_back(1+i); o.body=z; what="no points of the body"; }
  a->WriteStateHDF5(f.path,g); if(k>=10){ if(k==10){ o.version=101100; } else{ o.version=(unsigned)s.range(100001,101099); tables=false; } what= k==10?"old tables in a new file":"new tables in an old file"; if(k==10){ Old t=o; t.version=101000; age(f.path,at,t,true); } }
  age(f.path,at,o,tables&&k!=10);
  if(k>=4&&k<8){ hid_t h=H5Fopen(f.path.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); if(k==4){ bool t=s.boolean(); what=t?"no track":"no body"; H5Ldelete(h,(at+(t?"track":"body")).c_str(),H5P_DEFAULT); } else if(k==5){ what="no ID"; H5Adelete_by_name(h,(at+"body").c_str(),"ID",H5P_DEFAULT); } else if(k==6){ what="no X"; H5Adelete_by_name(h,(at+"track").c_str(),"X",H5P_DEFAULT); }
    else{ bool t=s.boolean(); what=t?"track of two dimensions":"body of two dimensions"; V v(12,0.5); redo(h,at+(t?"track":"body"),{3,4},v); if(t){ H5LTset_attribute_double(h,(at+"track").c_str(),"X",&o.x,1); } else H5LTset_attribute_uint(h,(at+"body").c_str(),"ID",&o.id,1); } H5Fclose(h); }
  if(k>=8&&k<10) what= "of a later version"; if(k==9){ hid_t h=H5Fopen(f.path.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); unsigned v=101100,w=SQUIDS_VERSION+1+s.below(2)*s.below(1000); H5LTset_attribute_uint(h,(at+"basic").c_str(),"nusquids_version_number",&v,1); H5LTset_attribute_uint(h,(at+"basic").c_str(),"squids_version_number",&w,1); H5Fclose(h); what="of a later SQuIDS"; }
  c.log(q.s); c.log(pl.s); c.log(fmt("group %s version %u body %u: %s",g.c_str(),o.version,o.id,what.c_str()));
  std::unique_ptr<Mine> b; if(s.boolean()) b.reset(new Mine(3,neutrino)); else{ What q3=genWhat(s); c.log("read over "+q3.s); b=ready(q3); } bool given= k<10&&s.boolean(); std::shared_ptr<nuSQUIDS::InteractionStructure> is; if(given&&q.k.on){ auto t=ready(q); t->EvolveState(); is=t->GetInteractionStructure(); }
  H5Count n0=H5Count::now(); PBT_CHECK(c,throwsAny([&]{ if(given) b->internal(f.path,g,is); else b->ReadStateHDF5(f.path,g); }),"a file with "+what+" was read"); PBT_CHECK(c,H5Count::now()==n0,"HDF5 objects left open: "+H5Count::now().str());
  PBT_CHECK(c,throwsAny([&]{ b->EvolveState(); }),"evolved after failing to read"); c.label(what); c.nontrivial(true); }
