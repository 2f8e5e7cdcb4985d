// P20: where the data tables are looked for.
#include "util.h"
#include "resource_paths.h"
#include <nuSQuIDS/resources.h>
using namespace pbt;
PBT_PROP(path,1){
  unsigned n=1+s.below(12); std::string standard= PBT_INSTALL_BIT? INSTALL_DATA_PATH: SOURCE_DATA_PATH; bool set=false; std::string val; unsetenv("NUSQUIDS_DATA_PATH"); std::vector<std::pair<std::string,std::string>> seen; unsigned changes=0;
  for(unsigned k=0;k<n;k++){ switch(s.below(4)){
      case 0: unsetenv("NUSQUIDS_DATA_PATH"); set=false; changes++; c.log("unset"); break;
      case 1: case 2:{ val=""; size_t len=s.size(0,300); for(size_t i=0;i<len;i++) val+=(char)(s.chance(1,8)?128+s.below(127):s.chance(1,5)?'/':33+s.below(94)); setenv("NUSQUIDS_DATA_PATH",val.c_str(),1); set=true; changes++; c.log("set to "+str(len)+" characters: "+val); break; }
      default:{ setenv(s.pick<const char*>({"NUSQUIDS_DATA","NUSQUIDS_DATA_PATH_","nusquids_data_path","PATH_X"}),"/nowhere",1); c.log("set another variable"); } }
    std::string p=nusquids::getResourcePath(); if(set) PBT_CHECK(c,p==val,"the path is '"+p+"' instead of the one in the environment"); else PBT_CHECK(c,p==standard,"the path is '"+p+"' instead of '"+standard+"'"); seen.push_back({p,set?val:standard}); for(auto& x: seen) PBT_CHECK(c,x.first==x.second,"a path given out earlier changed"); }
  c.nontrivial(changes>1); unsetenv("NUSQUIDS_DATA_PATH");
}
// every table the library names exists below the standard place
PBT_PROP(tables,0.01){ c.nontrivial(); unsetenv("NUSQUIDS_DATA_PATH"); if(PBT_INSTALL_BIT) return; std::string p=nusquids::getResourcePath(); for(const char* f: {"/astro/EARTH_MODEL_PREM.dat","/astro/nele_bs05op.dat","/astro/bs05_agsop.dat"}) { c.log(f); PBT_CHECK(c,std::ifstream(p+f).good(),std::string("no file ")+f+" below "+p); } }
