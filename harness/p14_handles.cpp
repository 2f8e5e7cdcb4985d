// P14: HDF5 objects are released exactly once, on success and on failure.
#include "h5util.h"
#include <memory>
using namespace pbt; using namespace nusquids;
static std::map<hid_t,int>* g_closed; static herr_t closeA(hid_t i){ (*g_closed)[i]++; return 0; } static herr_t closeB(hid_t i){ (*g_closed)[i]+=100; return 0; }
PBT_PROP(ownership,1){
  std::map<hid_t,int> closed; g_closed=&closed; unsigned steps=1+s.below(25); std::vector<std::unique_ptr<H5Handle>> h; std::vector<hid_t> own; std::map<hid_t,int> kind; hid_t next=1; unsigned moved=0;
  auto verify=[&]{ std::set<hid_t> held; for(size_t i=0;i<h.size();i++){ PBT_CHECK(c,h[i]->get()==own[i]&&(hid_t)*h[i]==own[i],"a handle holds "+str(h[i]->get())+" instead of "+str(own[i])); if(own[i]>=0) held.insert(own[i]); }
    for(hid_t i=1;i<next;i++){ int n=closed.count(i)?closed[i]:0; if(held.count(i)) PBT_CHECK(c,n==0,"object "+str(i)+" was released while a handle holds it"); else PBT_CHECK(c,n==(kind[i]?100:1),"object "+str(i)+" was released "+(n==0?"not at all":n==kind[i]*99+1?"once":"more than once or in the wrong way")); } PBT_CHECK(c,!closed.count(-1)&&!closed.count(0),"an invalid identifier was released"); };
  for(unsigned k=0;k<steps;k++){ unsigned op=s.below(8);
    if(op<=1||h.empty()){ int kd=s.below(2); kind[next]=kd; h.emplace_back(new H5Handle(next,kd?closeB:closeA,s.boolean()?"open":nullptr)); own.push_back(next++); c.log("take"); }
    else if(op==2){ h.emplace_back(new H5Handle()); own.push_back(-1); c.log("default"); }
    else if(op==3){ size_t i=s.below(h.size()); h.emplace_back(new H5Handle(std::move(*h[i]))); own.push_back(own[i]); own[i]=-1; c.log("move-construct from "+str(i)); moved++; }
    else if(op<=5){ size_t i=s.below(h.size()),j=s.below(h.size()); c.log("move-assign "+str(i)+" = "+str(j)); *h[i]=std::move(*h[j]); moved++; if(i!=j){ // the destination has the source's object; the old one is either released or kept by the source
        hid_t old=own[i]; own[i]=own[j]; own[j]=h[j]->get(); PBT_CHECK(c,own[j]==old||own[j]==-1,"a moved-from handle holds a foreign object"); } }
    else if(op==6){ size_t i=s.below(h.size()); h.erase(h.begin()+i); own.erase(own.begin()+i); c.log("destroy "+str(i)); }
    else { bool threw=false; std::string m; const char* d=s.boolean()?"find the thing":nullptr; try{ H5Handle x(-1-(hid_t)s.below(3),closeA,d); }catch(std::runtime_error& e){ threw=true; m=e.what(); } c.log("take an invalid identifier"); PBT_CHECK(c,threw,"an invalid identifier was accepted"); if(d) PBT_CHECK(c,m.find(d)!=std::string::npos,"the error does not say what failed: "+m); }
    verify(); }
  h.clear(); own.clear(); verify(); c.nontrivial(moved>0&&steps>3);
}
PBT_PROP(files,0.3){
  h5quiet(); H5Count before=H5Count::now(); { std::vector<std::unique_ptr<H5File>> f; std::vector<hid_t> own; unsigned steps=1+s.below(10),moved=0;
    for(unsigned k=0;k<steps;k++){ unsigned op=s.below(5); if(op==0||f.empty()){ hid_t i=h5memfile(); f.emplace_back(new H5File(i)); own.push_back(i); c.log("open"); }
      else if(op==1){ size_t i=s.below(f.size()); f.emplace_back(new H5File(std::move(*f[i]))); own.push_back(own[i]); own[i]=0; c.log("move-construct from "+str(i)); moved++; }
      else if(op==2){ size_t i=s.below(f.size()),j=s.below(f.size()); *f[i]=std::move(*f[j]); c.log("move-assign "+str(i)+" = "+str(j)); moved++; if(i!=j){ own[i]=own[j]; own[j]=*f[j]; } }
      else if(op==3){ size_t i=s.below(f.size()); hid_t id=own[i]; f.erase(f.begin()+i); own.erase(own.begin()+i); c.log("destroy "+str(i)); if(id>0&&std::find(own.begin(),own.end(),id)==own.end()) PBT_CHECK(c,H5Iis_valid(id)<=0,"a file is still open after its owner ended"); }
      for(size_t i=0;i<f.size();i++) if(own[i]>0){ PBT_CHECK(c,(hid_t)*f[i]==own[i],"a file object holds another file"); PBT_CHECK(c,H5Iis_valid(own[i])>0,"a file was closed while its owner lives"); } }
    c.nontrivial(moved>0); }
  H5Count after=H5Count::now(); PBT_CHECK(c,before==after,"objects were left open or closed too often: "+before.str()+" then "+after.str());
}
PBT_PROP(operations,1){
  h5quiet(); H5Count start=H5Count::now(); hid_t f=h5memfile(); H5Count base=H5Count::now(); unsigned steps=1+s.below(14),failed=0; std::vector<std::string> names={"x","y","z","grp"}; hid_t g=H5Gcreate2(f,"grp",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); H5Gclose(g);
  struct Cl{ hid_t f; ~Cl(){ if(f>=0) H5Fclose(f); } } cl{f};
  for(unsigned k=0;k<steps;k++){ std::string n=s.pick(names),what; bool ok=true; unsigned op=s.below(9); bool closedFile=s.chance(1,15); hid_t loc=closedFile?(hid_t)-1:f;
    try{ switch(op){
      case 0: { marray<double,2> a({s.below(4),1+s.below(4)}); what="write a rank 2 array"; writeArrayH5<double>(loc,n,a,s.below(2)*s.below(10)); break; }
      case 1: { marray<int,1> a({s.below(6)}); what="write a rank 1 array"; writeArrayH5<int>(loc,n,a,s.below(2)*s.below(10)); break; }
      case 2: { marray<double,2> a; what="read a rank 2 array"; readArrayH5(loc,n,a); break; }
      case 3: { marray<int,1> a; what="read a rank 1 array"; readArrayH5(loc,n,a); break; }
      case 4: what="add a number"; addH5Attribute(loc,n,(double)s.below(9)); break;
      case 5: what="add a text"; addH5Attribute(loc,n,std::string(s.below(9),'t')); break;
      case 6: { double d; what="read a number"; readH5Attribute(loc,n,d); break; }
      case 7: { std::string t; what="read a text"; readH5Attribute(loc,n,t); break; }
      default: what="ask for existence"; h5ObjectExists(loc,n.c_str()); } }catch(std::runtime_error&){ ok=false; failed++; }
    c.log(what+" '"+n+"'"+(closedFile?" in an invalid place":"")+(ok?"":" (refused)")); H5Count now=H5Count::now(); PBT_CHECK(c,now==base,what+(ok?"":" (refused)")+" left objects open or closed too many: "+base.str()+" then "+now.str()); }
  c.nontrivial(steps>3&&failed>0); H5Fclose(f); cl.f=-1; H5Count end=H5Count::now(); PBT_CHECK(c,start==end,"objects were left open at the end");
}
