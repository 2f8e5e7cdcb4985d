// Small things several harnesses share.
#ifndef PBT_UTIL_H
#define PBT_UTIL_H
#include "pbt.h"
namespace pbt{
inline std::string workdir(){ const char* e=getenv("PBT_WORKDIR"); return e?e:"/tmp"; }
inline std::string repodir(){ const char* e=getenv("PBT_REPO"); return e?e:"/repo"; }
// a file name of this process's own, in the check's scratch directory; removed at the end of the case
struct Scratch{ std::string path; explicit Scratch(const std::string& ext=".tmp"){ static unsigned n=0; path=workdir()+"/s"+std::to_string(getpid())+"_"+std::to_string(n++)+ext; } ~Scratch(){ ::unlink(path.c_str()); } };
template<typename E,typename F> bool throws(F f){ try{ f(); }catch(const E&){ return true; } return false; }
template<typename F> bool throwsAny(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }
}
#endif
