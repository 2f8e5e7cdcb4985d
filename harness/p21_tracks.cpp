// P21: tracks are the segments they were asked for.
#include "body_ref.h"
using namespace pbt; using namespace bodyref;
static double genx(Src& s){ return s.chance(1,4)? s.pick({0.0,1.0,-1.0,100.0,1e-300}): (s.chance(1,4)?-1:1)*s.logreal(1e-3,1e25); }
template<typename F> static void walk(Src& s,Case& c,const Body::Track& proto,F make,double x,double xi,double xe,std::vector<double> derived,double dtol){
  auto t=make(proto); 
  auto same_=[&](const char* when){
    PBT_CHECK(c,t->GetX()==x,fmt("%s: position %.17g, not %.17g",when,t->GetX(),x));
    PBT_CHECK(c,t->GetInitialX()==xi&&t->GetFinalX()==xe,fmt("%s: ends %.17g %.17g, not %.17g %.17g",when,t->GetInitialX(),t->GetFinalX(),xi,xe));
    auto p=t->GetTrackParams(); PBT_CHECK(c,p.size()==2+derived.size(),fmt("%s: %zu parameters",when,p.size()));
    PBT_CHECK(c,p[0]==xi&&p[1]==xe,fmt("%s: the parameters begin with %.17g %.17g, not the ends %.17g %.17g",when,p[0],p[1],xi,xe));
    for(size_t i=0;i<derived.size();i++) PBT_CHECK(c,close(p[2+i],derived[i],dtol,dtol),fmt("%s: derived parameter %zu is %.17g, not %.17g",when,i,p[2+i],derived[i])); };
  same_("new");
  int n=(int)s.size(0,8); if(n>1) c.nontrivial();
  for(int k=0;k<n;k++) switch(s.below(3)){
    case 0: x=genx(s); t->SetX(x); c.log("SetX "+str(x)); same_("after SetX"); break;
    case 1: t->ReverseTrack(); std::swap(xi,xe); c.log("reverse"); same_("after reversing"); break;
    case 2: { auto q=make(*t); q->SetX(genx(s)); q->ReverseTrack(); c.log("copy and change the copy"); same_("after changing a copy"); break; }
  }
}
template<typename T> struct Mk{ std::shared_ptr<Body::Track> operator()(const Body::Track& t) const{ return std::make_shared<T>(static_cast<const T&>(t)); } };
template<typename T> static void simple(Src& s,Case& c){
  double x=genx(s),a=genx(s),b=genx(s);
  switch(s.below(3)){
    case 0: c.log(T::GetName()+fmt(" end %.17g",b)); walk(s,c,T(b),Mk<T>(),0,0,b,{},0); break;
    case 1: c.log(T::GetName()+fmt(" from %.17g to %.17g",a,b)); walk(s,c,T(a,b),Mk<T>(),a,a,b,{},0); break;
    default: c.log(T::GetName()+fmt(" at %.17g from %.17g to %.17g",x,a,b)); walk(s,c,T(x,a,b),Mk<T>(),x,a,b,{},0); }
}
PBT_PROP(plain,3){
  switch(s.below(4)){ case 0: simple<Vacuum::Track>(s,c); break; case 1: simple<ConstantDensity::Track>(s,c); break; case 2: simple<VariableDensity::Track>(s,c); break; default: simple<Sun::Track>(s,c); } }
PBT_PROP(earth,1){
  double x=genx(s),a=genx(s),b=genx(s),L=s.real(0,2*R_EARTH)*U.km;
  typedef Earth::Track T; auto chk=[&](const T& t){ PBT_CHECK(c,t.GetBaseline()==L,"baseline"); };
  switch(s.below(3)){
    case 0: { T t(L); c.log(fmt("Earth chord %.17g km",L/U.km)); chk(t); walk(s,c,t,Mk<T>(),0,0,L,{L},0); break; }
    case 1: { T t(a,b,L); c.log(fmt("Earth %.17g..%.17g of chord %.17g",a,b,L)); chk(t); walk(s,c,t,Mk<T>(),a,a,b,{L},0); break; }
    default: { T t(x,a,b,L); c.log(fmt("Earth at %.17g, %.17g..%.17g of chord %.17g",x,a,b,L)); chk(t); walk(s,c,t,Mk<T>(),x,a,b,{L},0); } } }
PBT_PROP(sunasnu,1){
  double b=s.chance(1,6)? s.pick({0.0,1.0}): s.unit(); LD bb=(LD)b*R_SUNAS; double bi=b*R_SUNAS*U.km;
  double x=genx(s),a=s.chance(1,2)?0:genx(s); typedef SunASnu::Track T;
  LD R=(LD)R_SUNAS*U.km; LD end=2*sqrtl(std::max<LD>(R*R-(LD)bi*bi,0)); (void)bb;
  T t= a==0? (s.boolean()? T(bi): T(0.0,bi)): T(x,a,bi); bool three=!(a==0); if(!three) x=0;
  c.log(fmt("impact parameter %.17g solar radii, from %.17g",b,a));
  double xe=t.GetFinalX(); LD tol=end>0? 4e-16L*R*R/end+4e-16L*end: 1e-7L*R; tol=std::min(tol*4,(LD)1e-7L*R);
  PBT_CHECK(c,fabsl(xe-end)<=tol,fmt("the chord ends at %.17g instead of %.17Lg",xe,end));
  walk(s,c,t,Mk<T>(),x,a,xe,{bi},0); }
PBT_PROP(earthatm,4){
  double R=s.chance(1,2)? R_EARTH: s.logreal(1,1e5),h=s.chance(1,3)? 22: s.chance(1,6)?0: R*s.logreal(1e-6,1); bool viaBody=R==R_EARTH&&s.boolean();
  double cz=s.chance(1,4)? s.pick({1.0,-1.0,0.0,0.5,-0.5}): s.real(-1,1); double phi=acosl((LD)cz);
  typedef EarthAtm::Track T; auto R_=R*U.km,h_=h*U.km; int how=(int)s.below(3); std::unique_ptr<T> t; double x=0;
  if(viaBody){
    std::vector<double> ax{0,0.3,0.6,0.8,1},one{1,1,1,1,1}; EarthAtm e(ax,one,one);
    PBT_CHECK(c,e.GetRadius()==R_EARTH,fmt("the radius is %.17g km",e.GetRadius())); PBT_CHECK(c,e.GetAtmosphereHeight()==22,fmt("the atmosphere is %.17g km high",e.GetAtmosphereHeight()));
    e.SetAtmosphereHeight(h); PBT_CHECK(c,e.GetAtmosphereHeight()==h&&e.GetRadius()==R_EARTH,"setting the atmosphere's height");
    if(how==0) t.reset(new T(e.MakeTrack(phi))); else t.reset(new T(e.MakeTrackWithCosine(cz)));
  }else if(how==0) t.reset(new T(phi,R_,h_)); else if(how==1) t.reset(new T(T::MakeWithCosine(cz,R_,h_))); else{ x=std::fabs(genx(s)); t.reset(new T(x,phi,R_,h_)); how=0; }
  c.log(fmt("%s zenith cosine %.17g, radius %.17g km, atmosphere %.17g km%s",how==0?"angle":"cosine",cz,R,h,viaBody?", made by the body":"")); c.label(viaBody?"by body":"direct"); c.label(cz<0?"upgoing":"downgoing");
  LD r=R_,H=h_,cc= how==0? cosl((LD)phi): (LD)cz; LD disc=r*r*cc*cc+2*r*H+H*H; LD sq=sqrtl(disc),L=sq-r*cc;
  LD tol=8*2.3e-16L*((sq>0?(r+H)*(r+H)/sq:(r+H))+r+H); if(disc< 1e-12L*r*r) tol=std::max(tol,1e-7L*r);
  double xe=t->GetFinalX();
  PBT_CHECK(c,fabsl(xe-L)<=tol,fmt("the track is %.17g km long instead of %.17Lg km",xe/U.km,L/U.km));
  PBT_CHECK(c,t->GetBaseline()==xe,"the baseline is not the length");
  walk(s,c,*t,Mk<T>(),x,0,xe,{phi,R_,h_},2e-7); }
