// P23: bodies and tracks survive being stored.
#include "body_ref.h"
#include "h5util.h"
using namespace pbt; using namespace bodyref;
// a body of a user's own
namespace user{
struct Shell: public nusquids::Body{ double a,b; Shell(double a,double b):a(a),b(b){}
  void Serialize(hid_t g) const{ addH5Attribute(g,"name",GetName()); addH5Attribute(g,"a",a); addH5Attribute(g,"b",b); }
  static std::shared_ptr<Shell> Deserialize(hid_t g){ double a,b; readH5Attribute(g,"a",a); readH5Attribute(g,"b",b); return std::make_shared<Shell>(a,b); }
  struct Track: public nusquids::Body::Track{ Track(double x,double i,double e):nusquids::Body::Track(x,i,e){}
    void Serialize(hid_t g) const{ addH5Attribute(g,"name",GetName()); addH5Attribute(g,"x",x); addH5Attribute(g,"xini",xini); addH5Attribute(g,"xend",xend); }
    static std::shared_ptr<Track> Deserialize(hid_t g){ double x,i,e; readH5Attribute(g,"x",x); readH5Attribute(g,"xini",i); readH5Attribute(g,"xend",e); return std::make_shared<Track>(x,i,e); }
    static std::string GetName(){ return "ShellTrack"; } };
  static std::string GetName(){ return "Shell"; }
  double density(const GenericTrack& t) const{ return a*t.GetX(); } double ye(const GenericTrack&) const{ return b; } };
NUSQUIDS_REGISTER_BODY(Shell);
}
struct Named{ std::shared_ptr<Body> b; std::string name,tname; std::function<std::shared_ptr<Track>()> track; };
static double genx(Src& s){ return s.chance(1,4)? s.pick({0.0,1.0,-2.0,1e-300,0.1}): (s.chance(1,4)?-1:1)*s.logreal(1e-3,1e25); }
static Named gen(Src& s,Case& c,int kind){
  Named n; Src* S=&s;
  switch(kind){
    case 0: n.b=std::make_shared<Vacuum>(); n.name="Vacuum"; n.tname="VacuumTrack"; n.track=[S]{ return std::make_shared<Vacuum::Track>(genx(*S),genx(*S),genx(*S)); }; break;
    case 1: n.b=std::make_shared<ConstantDensity>(s.anyfinite(),s.anyfinite()); n.name="ConstantDensity"; n.tname="ConstantDensityTrack"; n.track=[S]{ return std::make_shared<ConstantDensity::Track>(genx(*S),genx(*S),genx(*S)); }; break;
    case 2: { Model m=genModel(s,0,1e5,true); c.log(m.str()); n.b=std::make_shared<VariableDensity>(m.x,m.rho,m.ye); n.name="VariableDensity"; n.tname="VariableDensityTrack"; n.track=[S]{ return std::make_shared<VariableDensity::Track>(S->real(0,1.1e5)*U.cm,genx(*S),genx(*S)); }; break; }
    case 3: { Model m=genModel(s,0,1,s.boolean()); c.log(m.str()); n.b=std::make_shared<Earth>(m.x,m.rho,m.ye); n.name="Earth"; n.tname="EarthTrack"; n.track=[S]{ double L=S->real(1,2*R_EARTH)*U.km; return std::make_shared<Earth::Track>(L*S->unit(),genx(*S),genx(*S),L); }; break; }
    case 4: { Model m=genModel(s,0,1,s.boolean()); c.log(m.str()); n.b=std::make_shared<Sun>(m.x,m.rho,m.ye); n.name="Sun"; n.tname="SunTrack"; n.track=[S]{ return std::make_shared<Sun::Track>(S->real(0,1.1)*R_SUN*U.km,genx(*S),genx(*S)); }; break; }
    case 5: { std::shared_ptr<SunASnu> b; if(s.boolean()){ Model m=genModel(s,0,1,s.boolean()); c.log(m.str()); b=std::make_shared<SunASnu>(m.x,m.rho,m.ye); } else b=std::make_shared<SunASnu>(repodir()+"/data/astro/bs05_agsop.dat"); n.b=b; n.name="SunASnu"; n.tname="SunASnuTrack";
      n.track=[S]{ auto t=std::make_shared<SunASnu::Track>(0,S->boolean()?0:S->unit()*1e5*U.km,S->unit()*R_SUNAS*U.km); t->SetX(t->GetFinalX()*S->unit()); return t; }; break; }
    case 6: { Model m=genModel(s,0,1,s.boolean()); c.log(m.str()); auto b=std::make_shared<EarthAtm>(m.x,m.rho,m.ye); if(s.boolean()){ double h=s.pick({5.0,60.0,1000.0}); b->SetAtmosphereHeight(h); c.log("height "+str(h)); } n.b=b; n.name="EarthAtm"; n.tname="EarthAtmTrack";
      n.track=[S,b]{ double cz=S->real(-1,1); auto t=std::make_shared<EarthAtm::Track>(S->boolean()? b->MakeTrackWithCosine(cz): b->MakeTrack(std::acos(cz))); t->SetX(t->GetFinalX()*S->unit()); return t; }; break; }
    default: n.b=std::make_shared<user::Shell>(s.anyfinite(),s.anyfinite()); n.name="Shell"; n.tname="ShellTrack"; n.track=[S]{ return std::make_shared<user::Shell::Track>(genx(*S),genx(*S),genx(*S)); };
  }
  c.log(n.name); c.label(n.name); return n; }
PBT_PROP(roundtrip,9){
  h5quiet(); Named n=gen(s,c,(int)s.below(8)); H5Count before=H5Count::now(); c.nontrivial();
  hid_t f=h5memfile(); hid_t gb=H5Gcreate(f,"body",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT);
  n.b->Serialize(gb); std::string nm; readH5Attribute(gb,"name",nm); PBT_CHECK(c,nm==n.name,"the body is stored as "+nm);
  auto b2=GetBodyDeserializer(nm)(gb); PBT_CHECK(c,(bool)b2,"no body came back");
  PBT_CHECK(c,typeid(*b2)==typeid(*n.b),"another kind of body came back"); PBT_CHECK(c,b2->GetBodyParams()==n.b->GetBodyParams(),"the body's parameters changed"); PBT_CHECK(c,b2->IsConstantDensity()==n.b->IsConstantDensity(),"constancy changed");
  if(auto* e=dynamic_cast<EarthAtm*>(n.b.get())){ auto* q=dynamic_cast<EarthAtm*>(b2.get()); PBT_CHECK(c,e->GetAtmosphereHeight()==q->GetAtmosphereHeight()&&e->GetRadius()==q->GetRadius(),"the atmosphere changed"); auto a=e->MakeTrackWithCosine(0.3),b=q->MakeTrackWithCosine(0.3); PBT_CHECK(c,a.GetTrackParams()==b.GetTrackParams(),"tracks of the stored body differ"); }
  for(int k=0;k<3;k++){
    auto t=n.track(); if(s.chance(1,3)){ t->ReverseTrack(); c.log("reversed"); }
    hid_t gt=H5Gcreate(f,("track"+std::to_string(k)).c_str(),H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); t->Serialize(gt); std::string tn; readH5Attribute(gt,"name",tn); PBT_CHECK(c,tn==n.tname,"the track is stored as "+tn);
    auto t2=GetTrackDeserializer(tn)(gt); PBT_CHECK(c,(bool)t2&&typeid(*t2)==typeid(*t),"another kind of track came back"); H5Gclose(gt);
    PBT_CHECK(c,t2->GetX()==t->GetX(),"position changed"); PBT_CHECK(c,t2->GetInitialX()==t->GetInitialX()&&t2->GetFinalX()==t->GetFinalX(),fmt("ends %.17g %.17g became %.17g %.17g",t->GetInitialX(),t->GetFinalX(),t2->GetInitialX(),t2->GetFinalX()));
    auto p=t->GetTrackParams(),p2=t2->GetTrackParams(); PBT_CHECK(c,p.size()==p2.size(),"the number of track parameters changed"); for(size_t i=0;i<p.size();i++) PBT_CHECK(c,close(p[i],p2[i],1e-7,1e-7),fmt("track parameter %zu changed from %.17g to %.17g",i,p[i],p2[i]));
    for(int q=0;q<4;q++){ double d=n.b->density(*t),d2=b2->density(*t2),y=n.b->ye(*t),y2=b2->ye(*t2);
      PBT_CHECK(c,close(d,d2,1e-12)&&close(y,y2,1e-12),fmt("at %.17g: density %.17g ye %.17g became %.17g %.17g",t->GetX(),d,y,d2,y2));
      double a=std::min(t->GetInitialX(),t->GetFinalX()),b=std::max(t->GetInitialX(),t->GetFinalX()); double x=a+(b-a)*s.unit(); if(n.name=="Earth") x=t->GetX()*s.unit(); t->SetX(x); t2->SetX(x); } }
  H5Gclose(gb); H5Fclose(f); H5Count after=H5Count::now(); PBT_CHECK(c,before==after,"storing and reading left HDF5 objects open: "+before.str()+" -> "+after.str()); }
PBT_PROP(unknown,1){
  h5quiet(); static const std::vector<std::string> names{"Vacuum","ConstantDensity","VariableDensity","Earth","EarthAtm","Sun","SunASnu","Shell"};
  std::string n; int how=(int)s.below(4); if(how==0) n=""; else if(how==1){ n=s.pick(names); n+=s.pick({" ","x","track","Tracks"}); } else if(how==2){ n=s.pick(names); n[0]=(char)tolower(n[0]); } else for(int k=(int)s.range(1,8);k>0;k--) n+=(char)s.range('A','Z');
  c.log("'"+n+"'"); bool known=false; for(auto& q: names) known|=q==n; if(!known) PBT_CHECK(c,throws<std::runtime_error>([&]{ GetBodyDeserializer(n); }),"an unknown body was accepted");
  known=false; for(auto& q: names) known|=q+"Track"==n; if(!known) PBT_CHECK(c,throws<std::runtime_error>([&]{ GetTrackDeserializer(n); }),"an unknown track was accepted");
  // known ones, from a group that lacks the data
  std::string k=s.pick(names); H5Count before=H5Count::now(); hid_t f=h5memfile(); hid_t g=H5Gcreate(f,"g",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT);
  if(k!="Vacuum") PBT_CHECK(c,throwsAny([&]{ GetBodyDeserializer(k)(g); }),"a "+k+" was read from an empty group");
  PBT_CHECK(c,throwsAny([&]{ GetTrackDeserializer(k+"Track")(g); }),"a "+k+"Track was read from an empty group");
  H5Gclose(g); H5Fclose(f); H5Count after=H5Count::now(); PBT_CHECK(c,before==after,"a refused reading left HDF5 objects open: "+before.str()+" -> "+after.str()); c.nontrivial(); }
