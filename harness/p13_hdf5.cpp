// P13: arrays and attributes stored in HDF5 come back as they were; what cannot be read is refused.
#include "h5util.h"
using namespace pbt; using nusquids::marray;
template<typename T> T val(Src& s); 
template<> double val(Src& s){ return s.anyfinite(); }
template<> float val(Src& s){ return (float)s.real(-1e5,1e5); }
template<> int val(Src& s){ return s.boolean()?(int)s.range(-100,100):s.pick({std::numeric_limits<int>::max(),std::numeric_limits<int>::min(),0}); }
template<> unsigned val(Src& s){ return s.boolean()?(unsigned)s.range(0,100):s.pick({std::numeric_limits<unsigned>::max(),0u,0x80000000u}); }
template<unsigned R> struct Shape{ std::array<size_t,R> e; Shape(Src& s){ bool big=s.chance(1,40); for(auto& x: e) x= s.chance(1,15)?0:(R==1?s.size(1,60):s.size(1,7)); if(big){ e[0]=s.range(1,20); e[R-1]=s.range(5000,30000); if(R>2) for(unsigned i=1;i+1<R;i++) e[i]=1+s.below(2); if(R==1) e[0]=s.range(8000,200000); } }
  size_t n() const{ size_t k=1; for(auto x: e) k*=x; return k; } };
template<typename T,unsigned R> marray<T,R> gen(Src& s,const Shape<R>& sh){ marray<T,R> a(sh.e); size_t n=sh.n(); for(size_t i=0;i<n;i++) a.get_data()[i]= i<200?val<T>(s):(T)(i*7%1001); return a; }
template<typename A,typename B> void equal(Case& c,const A& a,const B& b,const std::string& what){ for(unsigned i=0;i<a.get_extents().size();i++) PBT_CHECK(c,a.extent(i)==b.extent(i),what+": extent "+str(i)+" changed from "+str(a.extent(i))+" to "+str(b.extent(i))); for(size_t i=0;i<a.size();i++) PBT_CHECK(c,(double)a.get_data()[i]==(double)b.get_data()[i],what+": element "+str(i)+" changed from "+str(a.get_data()[i])+" to "+str(b.get_data()[i])); }

// Either an in-memory file, or one on disk that is closed and opened again between writing and reading.
struct Store{ hid_t f; Scratch disk; bool onDisk; Store(Src& s):disk(".h5"){ h5quiet(); onDisk=s.chance(1,12); f= onDisk? H5Fcreate(disk.path.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT): h5memfile(); if(f<0) throw Failure{"harness: no file"}; }
  void reopen(){ if(onDisk){ H5Fclose(f); f=H5Fopen(disk.path.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT); } } ~Store(){ H5Fclose(f); } };

template<typename Dest,typename Source,typename Back,unsigned R> void arr(Src& s,Case& c,const char* types){
  Store st(s); hid_t g=H5Gcreate2(st.f,"grp",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); bool inGroup=s.boolean(); hid_t loc=inGroup?g:st.f; struct Cl{ hid_t& g; ~Cl(){ if(g>=0) H5Gclose(g); } } cl{g};
  unsigned k=1+s.below(3); struct It{ std::string name; marray<Source,R> a; }; std::vector<It> items; std::string log; bool comp=false;
  for(unsigned i=0;i<k;i++){ Shape<R> sh(s); unsigned level=s.boolean()?0:1+s.below(9); comp|=level>0; auto a=gen<Source,R>(s,sh); std::string name="array"+std::to_string(i); c.log(std::string(types)+" rank "+str(R)+" extents "+strv(sh.e)+" compression "+str(level)); if(sh.n()==0) c.label("empty array"); if(sh.n()*sizeof(Dest)>65536) c.label("more than one chunk"); c.nontrivial(sh.n()>1);
    nusquids::writeArrayH5<Dest>(loc,name,a,level); items.push_back({name,a}); }
  if(comp) c.label("compressed");
  PBT_CHECK(c,throws<std::runtime_error>([&]{ marray<Source,R> a(items[0].a); nusquids::writeArrayH5<Dest>(loc,items[0].name,a,0); }),"writing under a name in use was not reported");
  if(st.onDisk){ H5Gclose(g); g=-1; st.reopen(); g=H5Gopen2(st.f,"grp",H5P_DEFAULT); loc=inGroup?g:st.f; c.label("file closed and reopened"); }
  for(auto& it: items){ PBT_CHECK(c,nusquids::h5ObjectExists(loc,it.name.c_str()),"the array written is said not to exist"); std::array<size_t,R> e0; for(auto& x: e0) x=s.below(4); marray<Back,R> b(e0); nusquids::readArrayH5(loc,it.name,b); equal(c,it.a,b,it.name); 
    marray<Back,R+1> w; auto we=w.get_extents(); PBT_CHECK(c,throws<std::runtime_error>([&]{ nusquids::readArrayH5(loc,it.name,w); }),"an array was read into one of another rank"); PBT_CHECK(c,we==w.get_extents(),"a refused read changed its target"); }
  marray<Back,R> b; PBT_CHECK(c,throws<std::runtime_error>([&]{ nusquids::readArrayH5(loc,"nothing",b); }),"a missing array was read"); PBT_CHECK(c,throws<std::runtime_error>([&]{ nusquids::readArrayH5(st.f,"grp",b); }),"a group was read as an array");
}
template<typename D,typename S,typename B> void anyRank(Src& s,Case& c,const char* t){ switch(s.below(4)){ case 0: arr<D,S,B,1>(s,c,t); break; case 1: arr<D,S,B,2>(s,c,t); break; case 2: arr<D,S,B,3>(s,c,t); break; default: arr<D,S,B,4>(s,c,t); } }
PBT_PROP(arrays_double,1){ anyRank<double,double,double>(s,c,"double"); }
PBT_PROP(arrays_integer,0.5){ if(s.boolean()) anyRank<int,int,int>(s,c,"int"); else anyRank<unsigned,unsigned,unsigned>(s,c,"unsigned"); }
PBT_PROP(arrays_converted,0.5){ switch(s.below(4)){ case 0: anyRank<double,int,double>(s,c,"int as double"); break; case 1: anyRank<double,float,float>(s,c,"float as double"); break; case 2: anyRank<int,int,double>(s,c,"int read as double"); break; default: anyRank<float,float,double>(s,c,"float read as double"); } }

PBT_PROP(attributes,1){
  Store st(s); hid_t g=H5Gcreate2(st.f,"g",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); struct Cl{ hid_t& g; ~Cl(){ H5Gclose(g); } } cl{g}; unsigned k=1+s.below(6); struct At{ std::string name; int kind; double d; float f; int i; unsigned u; std::string t; }; std::vector<At> as; bool inFile=s.boolean();
  hid_t o=inFile?st.f:g;
  for(unsigned q=0;q<k;q++){ At a{"a"+std::to_string(q),(int)s.below(5),val<double>(s),val<float>(s),val<int>(s),val<unsigned>(s),""}; size_t len=s.size(0,200); for(size_t i=0;i<len;i++) a.t+=(char)(s.chance(1,10)?128+s.below(128):32+s.below(95)); as.push_back(a); static const char* nm[]={"double","float","int","unsigned","text"}; c.log(std::string(nm[a.kind])+" attribute "+(a.kind==4?"of "+str(len)+" characters":"")); if(a.kind==4&&len==0) c.label("empty text");
    switch(a.kind){ case 0: nusquids::addH5Attribute(o,a.name,a.d); break; case 1: nusquids::addH5Attribute(o,a.name,a.f); break; case 2: nusquids::addH5Attribute(o,a.name,a.i); break; case 3: nusquids::addH5Attribute(o,a.name,a.u); break; default: nusquids::addH5Attribute(o,a.name,a.t); } }
  c.nontrivial(k>1);
  if(st.onDisk){ H5Gclose(g); st.reopen(); g=H5Gopen2(st.f,"g",H5P_DEFAULT); o=inFile?st.f:g; c.label("file closed and reopened"); }
  for(auto& a: as){ double d=-1.25; float f=-1.25f; int i=-77; unsigned u=77; std::string t="before"+std::string(s.below(300),'x'),t0=t; auto rd=[&](int kind){ switch(kind){ case 0: nusquids::readH5Attribute(o,a.name,d); break; case 1: nusquids::readH5Attribute(o,a.name,f); break; case 2: nusquids::readH5Attribute(o,a.name,i); break; case 3: nusquids::readH5Attribute(o,a.name,u); break; default: nusquids::readH5Attribute(o,a.name,t); } };
    int wrong=s.below(5); if(wrong!=a.kind){ PBT_CHECK(c,throws<std::runtime_error>([&]{ rd(wrong); }),"an attribute was read as another type"); PBT_CHECK(c,d==-1.25&&f==-1.25f&&i==-77&&u==77&&t==t0,"a refused read changed its target"); }
    rd(a.kind); switch(a.kind){ case 0: PBT_CHECK(c,d==a.d,fmt("double attribute %.17g came back as %.17g",a.d,d)); break; case 1: PBT_CHECK(c,f==a.f,"float attribute"); break; case 2: PBT_CHECK(c,i==a.i,"int attribute"); break; case 3: PBT_CHECK(c,u==a.u,"unsigned attribute"); break; default: PBT_CHECK(c,t==a.t,"text of "+str(a.t.size())+" characters came back with "+str(t.size())); } }
  double d=3; std::string t="x"; PBT_CHECK(c,throws<std::runtime_error>([&]{ nusquids::readH5Attribute(o,"none",d); })&&d==3,"a missing attribute was read"); PBT_CHECK(c,throws<std::runtime_error>([&]{ nusquids::readH5Attribute(o,"none",t); })&&t=="x","a missing text attribute was read");
}
PBT_PROP(existence,0.3){
  Store st(s); std::set<std::string> made; std::vector<std::string> names={"a","b","a/b","a/c","b/a","a/b/c","d"}; unsigned k=s.below(8); c.nontrivial(k>1);
  for(unsigned q=0;q<k;q++){ std::string n=s.pick(names); size_t p=n.rfind('/'); if(made.count(n)||(p!=std::string::npos&&!made.count(n.substr(0,p)))) continue; hid_t g=H5Gcreate2(st.f,n.c_str(),H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); H5Gclose(g); made.insert(n); c.log("create "+n); }
  bool link=s.boolean(); std::string target=s.pick(names); if(link){ H5Lcreate_soft(("/"+target).c_str(),st.f,"link",H5P_DEFAULT,H5P_DEFAULT); c.log("soft link to "+target); }
  for(auto& n: names) PBT_CHECK(c,nusquids::h5ObjectExists(st.f,n.c_str())==(made.count(n)>0),"existence of "+n);
  PBT_CHECK(c,nusquids::h5ObjectExists(st.f,"link")==(link&&made.count(target)>0),"existence of a soft link's target");
}
