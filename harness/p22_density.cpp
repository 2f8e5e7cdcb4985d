// P22: along a track, matter is what the model says at that distance.
#include "body_ref.h"
#include <fstream>
using namespace pbt; using namespace bodyref;
static std::string modelFile(Src& s,const Model& m,const Scratch& f,int xcol,int rcol,int ycol,int ncol){
  std::ofstream o(f.path); o.precision(17); for(size_t i=0;i<m.x.size();i++){ for(int k=0;k<ncol;k++) o<<(k==xcol?m.x[i]:k==rcol?m.rho[i]:k==ycol?m.ye[i]:0.25*k+i)<<(k+1<ncol?" ":""); o<<"\n"; } return f.path; }
static Model readModel(const std::string& f,int xcol,int rcol,int ycol){
  Model m; std::ifstream in(f); std::string line; while(std::getline(in,line)){ std::istringstream l(line); std::vector<double> v; double d; while(l>>d) v.push_back(d); if((int)v.size()>std::max(xcol,std::max(rcol,ycol))){ m.x.push_back(v[xcol]); m.rho.push_back(v[rcol]); m.ye.push_back(v[ycol]); } } return m; }
static void setData(){ setenv("NUSQUIDS_DATA_PATH",(repodir()+"/data").c_str(),1); }
static void compare(Case& c,const char* what,double got,const std::function<Value(LD)>& f,LD r,LD dr,double scale){
  if(!agrees(got,f,r,dr,scale,1e-9)) c.fail(fmt("%s %.17g, the model has %.17g at relative distance %.17Lg (+-%.2Lg)",what,got,f(r).v,r,dr)); }
PBT_PROP(uniform,1){
  double d=s.anyfinite(),y=s.anyfinite(); ConstantDensity b(d,y); double x=s.anyfinite(); ConstantDensity::Track t(x,s.anyfinite(),s.anyfinite());
  c.log(fmt("density %.17g ye %.17g",d,y)); PBT_CHECK(c,b.density(t)==d&&b.ye(t)==y,"uniform matter"); PBT_CHECK(c,b.IsConstantDensity(),"not constant");
  auto p=b.GetBodyParams(); PBT_CHECK(c,p.size()==2&&p[0]==d&&p[1]==y,"parameters");
  Vacuum v; Vacuum::Track w(x,0,1); PBT_CHECK(c,v.density(w)==0&&v.IsConstantDensity(),"vacuum has matter"); }
PBT_PROP(variable,3){
  double span=s.logreal(1e-3,1e10); Model m=genModel(s,s.pick({0.0,-1.0,0.5})*span,span,true); VariableDensity b(m.x,m.rho,m.ye); c.log("layers "+m.str()); c.nontrivial();
  AkimaSpline fr(m.x,m.rho),fy(m.x,m.ye); double lo=m.x.front(),hi=m.x.back();
  auto p=b.GetBodyParams(); std::vector<double> all(m.x); all.insert(all.end(),m.rho.begin(),m.rho.end()); all.insert(all.end(),m.ye.begin(),m.ye.end()); PBT_CHECK(c,p==all,"parameters");
  PBT_CHECK(c,!b.IsConstantDensity(),"constant"); b.SetIsConstantDensity(true); PBT_CHECK(c,b.IsConstantDensity(),"not constant"); b.SetIsConstantDensity(false);
  for(int k=0;k<12;k++){ double x= s.chance(1,3)? s.pick(m.x): lo+(hi-lo)*s.real(-0.2,1.2); VariableDensity::Track t(x*U.cm,0,1); LD xx=(LD)t.GetX()/U.cm;
    auto g=[&](const AkimaSpline& f){ return [&](LD r){ return (r<lo||r>hi)? Value{0,1}: Value{f((double)r),0}; }; };
    LD dr=4e-16L*std::max(std::fabs(lo),std::fabs(hi)); compare(c,"density",b.density(t),g(fr),xx,dr,maxabs(m.rho)); compare(c,"ye",b.ye(t),g(fy),xx,dr,maxabs(m.ye)); } }
PBT_PROP(earth,3){
  std::unique_ptr<Earth> e; Model m; int how=(int)s.below(8); Scratch f(".dat");
  if(how==0){ setData(); m=readModel(repodir()+"/data/astro/EARTH_MODEL_PREM.dat",0,1,2); e.reset(new Earth()); c.log("default model"); }
  else{ m=genModel(s,0,1,s.boolean()); if(how<3){ e.reset(new Earth(modelFile(s,m,f,0,1,2,(int)s.range(3,4)))); c.log("file "+m.str()); } else{ e.reset(new Earth(m.x,m.rho,m.ye)); c.log("arrays "+m.str()); } }
  c.label(how==0?"default":how<3?"file":"arrays"); PBT_CHECK(c,e->GetRadius()==R_EARTH,"radius"); c.nontrivial();
  AkimaSpline fr(m.x,m.rho),fy(m.x,m.ye);
  for(int k=0;k<12;k++){ double base= s.chance(1,5)? 2*R_EARTH: s.real(0,2*R_EARTH); double x=base*(s.chance(1,4)? s.pick({0.0,0.5,1.0}): s.real(s.boolean()?-0.1:0,1)); Earth::Track t(x*U.km,0,base*U.km,base*U.km);
    LD xx=(LD)t.GetX()/U.km,bb=(LD)t.GetBaseline()/U.km,R=R_EARTH; LD r2=R*R+xx*xx-bb*xx; if(r2<0) r2=0; LD r=sqrtl(r2)/R,dr=uncertainty(r2,R*R)/R;
    auto g=[&](const AkimaSpline& f,const std::vector<double>& d){ return [&](LD q){ return q<m.x.front()? Value{d.front(),1}: q>m.x.back()? Value{d.back(),2}: Value{f((double)q),0}; }; };
    double d,y; try{ d=e->density(t); y=e->ye(t); }catch(std::runtime_error& ex){ c.fail(fmt("a point %.17g km along a chord of %.17g km was refused: %s",x,base,ex.what())); }
    compare(c,"density",d,g(fr,m.rho),r,dr,maxabs(m.rho)); compare(c,"ye",y,g(fy,m.ye),r,dr,maxabs(m.ye)); }
  // longer than the diameter: there is no such chord
  double base=2*R_EARTH*s.real(1.001,3); Earth::Track t(base/2*U.km,0,base*U.km,base*U.km);
  PBT_CHECK(c,throws<std::runtime_error>([&]{ e->density(t); })&&throws<std::runtime_error>([&]{ e->ye(t); }),"a chord longer than the diameter was accepted"); }
template<typename S> static std::unique_ptr<S> makeSun(Src& s,Case& c,Model& m,Scratch& f){
  int how=(int)s.below(8); std::unique_ptr<S> b; c.label(how==0?"default":how<3?"file":"arrays");
  if(how==0){ setData(); m=readModel(repodir()+"/data/astro/bs05_agsop.dat",1,3,6); b.reset(new S()); c.log("default model"); }
  else{ m=genModel(s,0,1,s.boolean()); if(how<3){ b.reset(new S(modelFile(s,m,f,1,3,6,(int)s.range(7,12)))); c.log("file "+m.str()); } else{ b.reset(new S(m.x,m.rho,m.ye)); c.log("arrays "+m.str()); } }
  c.nontrivial(); return b; }
static std::function<Value(LD)> solar(const Model& m,const AkimaSpline& f,const std::vector<double>& d,bool ye){
  return [&m,&f,&d,ye](LD q){ Value v= q<m.x.front()? Value{d.front(),1}: q>m.x.back()? Value{0,2}: Value{f((double)q),0}; if(ye) v.v=0.5*(1+v.v); return v; }; }
PBT_PROP(sun,2){
  Model m; Scratch f(".dat"); auto b=makeSun<Sun>(s,c,m,f); AkimaSpline fr(m.x,m.rho),fy(m.x,m.ye);
  PBT_CHECK(c,close(b->GetRadius(),R_SUN*U.km,1e-15),"radius");
  for(int k=0;k<12;k++){ double x=s.chance(1,4)? s.pick(m.x): s.real(-0.05,1.2); Sun::Track t(x*R_SUN*U.km,0,R_SUN*U.km); LD r=(LD)t.GetX()/((LD)R_SUN*U.km);
    compare(c,"density",b->density(t),solar(m,fr,m.rho,false),r,1e-15L,maxabs(m.rho)); compare(c,"ye",b->ye(t),solar(m,fy,m.ye,true),r,1e-15L,1); } }
PBT_PROP(sunasnu,2){
  Model m; Scratch f(".dat"); auto b=makeSun<SunASnu>(s,c,m,f); AkimaSpline fr(m.x,m.rho),fy(m.x,m.ye);
  PBT_CHECK(c,close(b->GetRadius(),R_SUNAS*U.km,1e-15),fmt("radius %.17g km",b->GetRadius()/U.km));
  for(int k=0;k<12;k++){ double bi=s.chance(1,4)? s.pick({0.0,1.0}): s.unit(); SunASnu::Track t(bi*R_SUNAS*U.km); t.SetX(t.GetFinalX()*(s.chance(1,4)? s.pick({0.0,0.5,1.0}): s.real(0,1)));
    LD R=(LD)R_SUNAS*U.km,x=t.GetX(),bb=(LD)(bi*R_SUNAS*U.km),half=sqrtl(std::max<LD>(R*R-bb*bb,0)); LD r2=(x-half)*(x-half)+bb*bb; LD dr=uncertainty(r2,4*R*R)/R,r=sqrtl(r2)/R;
    if(R*R-bb*bb<1e-10L*R*R) dr=std::max(dr,1e-7L);
    double d=b->density(t),y=b->ye(t); PBT_CHECK(c,std::isfinite(d)&&std::isfinite(y),fmt("not a number at %.17g of the chord with impact parameter %.17g",t.GetX()/t.GetFinalX(),bi));
    compare(c,"density",d,solar(m,fr,m.rho,false),r,dr,maxabs(m.rho)); compare(c,"ye",y,solar(m,fy,m.ye,true),r,dr,1); } }
PBT_PROP(earthatm,4){
  std::unique_ptr<EarthAtm> e; Model m; int how=(int)s.below(8); Scratch f(".dat");
  if(how==0){ setData(); m=readModel(repodir()+"/data/astro/EARTH_MODEL_PREM.dat",0,1,2); e.reset(new EarthAtm()); c.log("default model"); }
  else{ m=genModel(s,0,1,s.boolean()); if(how<3){ e.reset(new EarthAtm(modelFile(s,m,f,0,1,2,3))); c.log("file "+m.str()); } else{ e.reset(new EarthAtm(m.x,m.rho,m.ye)); c.log("arrays "+m.str()); } }
  c.label(how==0?"default":how<3?"file":"arrays"); c.nontrivial(); AkimaSpline fr(m.x,m.rho),fy(m.x,m.ye);
  double h=22; int where=0;
  for(int k=0;k<12;k++){
    if(s.chance(1,5)){ h=s.pick({0.5,10.0,22.0,60.0,1000.0}); e->SetAtmosphereHeight(h); c.log("height "+str(h)); }
    double cz=s.chance(1,4)? s.pick({1.0,-1.0,0.0}): s.real(-1,1); EarthAtm::Track t= s.boolean()? e->MakeTrackWithCosine(cz): e->MakeTrack(std::acos(cz));
    double frac=s.chance(1,4)? s.pick({0.0,0.5,1.0}): s.boolean()? s.unit(): std::pow(s.unit(),3); t.SetX(t.GetFinalX()*frac);
    LD R=R_EARTH,H=R+h,x=(LD)t.GetX()/U.km,cl=(LD)cz; LD sq=sqrtl(R*R*cl*cl+2*R*h+(LD)h*h); LD L=sq-R*cl; (void)L;
    // position: enters at distance H from the centre, closest approach after sq of path
    LD r2=(x-sq)*(x-sq)+R*R*(1-cl*cl); LD r=sqrtl(r2),dr=uncertainty(r2,4*H*H); LD amp=sq>0? (R*std::fabs((double)cl)+H)/sq: 1; dr*=std::max<LD>(1,std::min<LD>(amp,100)); if(frac==1.0) dr=std::max(dr,1e-9L*R);
    where|= r>R?1:2;
    auto g=[&](const AkimaSpline& f,const std::vector<double>& d,LD scale,bool ye){ return [&,scale,ye](LD q){ LD rel=q/scale; 
        return q>R? Value{ye?0.494:0.0012*(double)expl(-(q-R)/7.594L),3}: rel<m.x.front()? Value{d.front(),1}: rel>m.x.back()? Value{d.back(),2}: Value{f((double)rel),0}; }; };
    double d=e->density(t),y=e->ye(t);
    std::string at=fmt("zenith cosine %.17g, %.17g of the way, %.17Lg km from the centre: ",cz,frac,r);
    if(fabsl(r-R)<=dr) continue; // on the surface itself
    auto cmp=[&](const char* what,double got,const AkimaSpline& f,const std::vector<double>& tab,bool ye){ double sc=maxabs(tab);
      bool atm=r>R+dr; if(atm){ double ex=ye?0.494:0.0012*(double)expl(-(r-R)/7.594L); if(!close(got,ex,1e-6)) c.fail(at+fmt("%s %.17g in the atmosphere instead of %.17g",what,got,ex)); return; }
      if(agrees(got,g(f,tab,R,ye),r,dr,sc,1e-9)) return;
      if(agrees(got,g(f,tab,H,ye),r,dr,sc,1e-9)){ c.finding("earthatm-model-stretched",at+what+fmt(" %.17g is the model's at a radius counted in units of the Earth with its atmosphere",got)); return; }
      c.fail(at+fmt("%s %.17g instead of %.17g",what,got,g(f,tab,R,ye)(r).v)); };
    cmp("density",d,fr,m.rho,false); cmp("ye",y,fy,m.ye,true); }
  c.label(where==3?"rock and air":"one of rock and air"); }
PBT_PROP(refused,1){
  Model m=genModel(s,0,1,true); int k=(int)s.below(5); auto v=[&](int i)->std::vector<double>&{ return i==0?m.x:i==1?m.rho:m.ye; };
  if(k==4){ size_t i=1+s.below(m.x.size()-1); m.x[i]=m.x[i-1]; c.log("repeated abscissa"); } else{ auto& w=v(k%3); if(s.boolean()) w.pop_back(); else w.push_back(k==0?2:1); c.log("unequal lengths"); }
  auto r=[&](const char* n,std::function<void()> f){ PBT_CHECK(c,throws<std::runtime_error>(f),std::string(n)+" accepted a bad model"); };
  r("VariableDensity",[&]{ VariableDensity(m.x,m.rho,m.ye); }); r("Earth",[&]{ Earth(m.x,m.rho,m.ye); }); r("EarthAtm",[&]{ EarthAtm(m.x,m.rho,m.ye); }); r("Sun",[&]{ Sun(m.x,m.rho,m.ye); }); r("SunASnu",[&]{ SunASnu(m.x,m.rho,m.ye); });
  Scratch f; r("Earth",[&]{ Earth e(f.path); }); r("EarthAtm",[&]{ EarthAtm e(f.path); }); r("Sun",[&]{ Sun e(f.path); }); r("SunASnu",[&]{ SunASnu e(f.path); }); c.nontrivial(); }
