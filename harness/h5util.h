#ifndef H5UTIL_H
#define H5UTIL_H
#include "util.h"
#include <nuSQuIDS/tools.h>
#include <H5Gpublic.h>
#include <H5Lpublic.h>
#include <H5Opublic.h>
#include <H5FDcore.h>
#include <H5Epublic.h>
inline void h5quiet(){ static bool done=false; if(!done){ H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr); done=true; } }
inline hid_t h5memfile(){ static unsigned n=0; hid_t p=H5Pcreate(H5P_FILE_ACCESS); H5Pset_fapl_core(p,1<<16,0); std::string nm="mem"+std::to_string(getpid())+"_"+std::to_string(n++); hid_t f=H5Fcreate(nm.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,p); H5Pclose(p); return f; }
// every kind of HDF5 object the process holds open
struct H5Count{ hsize_t file,group,type,space,dset,attr,plist; 
  static H5Count now(){ H5Count c; auto n=[](H5I_type_t t){ hsize_t k=0; H5Inmembers(t,&k); return k; }; c.file=n(H5I_FILE); c.group=n(H5I_GROUP); c.type=n(H5I_DATATYPE); c.space=n(H5I_DATASPACE); c.dset=n(H5I_DATASET); c.attr=n(H5I_ATTR); c.plist=n(H5I_GENPROP_LST); return c; }
  bool operator==(const H5Count& o) const{ return file==o.file&&group==o.group&&type==o.type&&space==o.space&&dset==o.dset&&attr==o.attr&&plist==o.plist; }
  std::string str() const{ return pbt::fmt("files %llu groups %llu types %llu spaces %llu datasets %llu attributes %llu property lists %llu",(unsigned long long)file,(unsigned long long)group,(unsigned long long)type,(unsigned long long)space,(unsigned long long)dset,(unsigned long long)attr,(unsigned long long)plist); } };
#endif
