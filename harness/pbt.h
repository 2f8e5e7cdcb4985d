// A small property-based testing engine.
//
// Every random decision of a property is drawn from a `Src`.  A run records the
// (already reduced) decisions as a list of integers, in which 0 is always the
// simplest choice; that list is the replay file and it is what gets shrunk, so
// shrinking needs no per-type code and always stays inside the generator's
// domain.  Cases run in forked workers, so a crash, a sanitizer report or a
// hang of the code under test is a failing case like any other.
#ifndef PBT_H
#define PBT_H
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt{

struct Failure{ std::string msg; };

inline std::string fmt(const char* f,...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char* f,...){
  char buf[2048]; va_list ap; va_start(ap,f); vsnprintf(buf,sizeof buf,f,ap); va_end(ap);
  return buf;
}
template<typename T> std::string str(const T& t){ std::ostringstream s; s.precision(17); s<<t; return s.str(); }
template<typename T> std::string strv(const T& v,size_t max=40){
  std::ostringstream s; s.precision(17); s<<"["; size_t i=0;
  for(const auto& e: v){ if(i) s<<", "; if(i++>=max){ s<<"..."; break; } s<<e; } s<<"]"; return s.str();
}

inline uint64_t splitmix(uint64_t& s){
  uint64_t z=(s+=0x9e3779b97f4a7c15ULL);
  z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);
}
inline uint64_t hash_str(const std::string& s,uint64_t h=1469598103934665603ULL){
  for(unsigned char c: s){ h^=c; h*=1099511628211ULL; } return h;
}

// Where an isolated execution leaves its record, so that it survives a crash.
struct Mirror{ uint64_t* rec; uint64_t* nrec; size_t cap; char* desc; size_t desccap; };
inline Mirror*& mirror(){ static Mirror* m=nullptr; return m; }

// The source of every decision.
class Src{
public:
  explicit Src(uint64_t seed):mode(Random),state(seed),pos(0){}
  explicit Src(std::vector<uint64_t> choices):mode(Replay),state(0),in(std::move(choices)),pos(0){}
  Src(const uint8_t* d,size_t n):mode(Bytes),state(0),bytes(d),nbytes(n),pos(0){}
  std::vector<uint64_t> rec;

  // uniform in [0,n); 0 is the simplest
  uint64_t below(uint64_t n){
    if(n<=1) return 0;
    uint64_t v=0;
    switch(mode){
      case Random: v=splitmix(state)%n; break;
      case Replay: v=(pos<in.size()? in[pos]:0)%n; pos++; break;
      case Bytes: {
        int w= n<=0x100?1: n<=0x10000?2: n<=0x100000000ULL?4:8;
        for(int i=0;i<w;i++){ v=(v<<8)|(pos<nbytes?bytes[pos]:0); pos++; }
        v%=n; break; }
    }
    rec.push_back(v);
    if(Mirror* m=mirror()) if(rec.size()<=m->cap){ m->rec[rec.size()-1]=v; *m->nrec=rec.size(); }
    if(rec.size()>2000000) throw Failure{"harness: too many choices"};
    return v;
  }
  int64_t range(int64_t lo,int64_t hi){ return lo+(int64_t)below((uint64_t)(hi-lo)+1); }
  // integer in [lo,hi], biased to small, occasionally hitting hi
  int64_t size(int64_t lo,int64_t hi){
    if(hi<=lo) return lo;
    switch(below(8)){
      case 0: case 1: case 2: return range(lo,std::min(hi,lo+2));
      case 3: case 4: return range(lo,std::min(hi,lo+5));
      case 5: case 6: return range(lo,std::min(hi,lo+12));
      default: return range(lo,hi);
    }
  }
  bool boolean(){ return below(2); }
  // true with probability num/den (false is the simplest)
  bool chance(unsigned num,unsigned den){ return below(den)>=den-num; }
  template<typename T> const T& pick(const std::vector<T>& v){ return v[below(v.size())]; }
  template<typename T> T pick(std::initializer_list<T> v){ return *(v.begin()+below(v.size())); }
  // uniform double in [0,1)
  double unit(){ return (double)below(1ULL<<53)*(1.0/9007199254740992.0); }
  double real(double lo,double hi){ return lo+(hi-lo)*unit(); }
  double logreal(double lo,double hi){ double r=std::exp(std::log(lo)+(std::log(hi)-std::log(lo))*unit()); return std::min(std::max(r,lo),hi); }
  // values with short exact binary expansions, so that plain arithmetic on them is exact
  double dyadic(int64_t maxnum=64,int maxshift=3){
    int64_t v=(int64_t)below(2*maxnum+1); v=(v&1)?-(v+1)/2:v/2; return (double)v/(double)(1<<below(maxshift+1)); }
  // "any" finite double: small ints, dyadics, uniform, all magnitudes
  double anyfinite(){
    switch(below(8)){
      case 0: return (double)range(0,9);
      case 1: return dyadic();
      case 2: return real(-1,1);
      case 3: return real(-1e3,1e3);
      case 4: return (boolean()?-1:1)*std::exp(real(-30,30));
      case 5: return (boolean()?-1:1)*std::pow(10.0,real(-300,300));
      case 6: return pick({0.0,-0.0,1.0,-1.0,0.5,1e308,-1e308,2.2250738585072014e-308,5e-324,1.7976931348623157e308,9007199254740993.0,1e-15,0.1,1/3.0});
      default:{ uint64_t b=below(0)==0? (below(1ULL<<32)<<32|below(1ULL<<32)):0; double d; memcpy(&d,&b,8); return std::isfinite(d)?d:1.5; }
    }
  }
private:
  enum Mode{Random,Replay,Bytes} mode;
  uint64_t state;
  std::vector<uint64_t> in;
  const uint8_t* bytes=nullptr; size_t nbytes=0;
  size_t pos;
};

// The case under evaluation.
struct Case{
  std::string desc;               // what was generated, written out
  bool nontrivial_=false;
  std::set<std::string> labels;
  std::map<std::string,uint64_t> known_hits;
  std::set<std::string> known_ids; // from the known-findings file
  bool verbose=false;
  void log(const std::string& s){
    if(desc.size()<6000){ if(!desc.empty()) desc+="; "; desc+=s; if(Mirror* m=mirror()) snprintf(m->desc,m->desccap,"%s",desc.c_str()); }
    if(verbose) std::cerr<<"  | "<<s<<std::endl;
  }
  void label(const std::string& s){ labels.insert(s); }
  void nontrivial(bool b=true){ if(b) nontrivial_=true; }
  [[noreturn]] void fail(const std::string& m){ throw Failure{m}; }
  void check(bool ok,const std::string& m){ if(!ok) throw Failure{m}; }
  // A behaviour that breaks the property in the exact way finding `id` describes.
  void finding(const std::string& id,const std::string& m){
    if(known_ids.count(id)){ known_hits[id]++; return; }
    throw Failure{"["+id+"] "+m};
  }
};
// lazily built message
#define PBT_CHECK(c,cond,...) do{ if(!(cond)) (c).fail(std::string(__VA_ARGS__)+"   (violated: " #cond ")"); }while(0)

using Fn=std::function<void(Src&,Case&)>;
struct Prop{ std::string name; double weight; Fn fn; };
inline std::vector<Prop>& props(){ static std::vector<Prop> p; return p; }
struct Reg{ Reg(const char* n,double w,Fn f){ props().push_back({n,w,f}); } };
#define PBT_PROP(name,weight) static void name(pbt::Src&,pbt::Case&); static pbt::Reg reg_##name(#name,weight,name); static void name(pbt::Src& s,pbt::Case& c)

// ---- numeric helpers -------------------------------------------------------
inline bool same(double a,double b){ return a==b || (std::isnan(a)&&std::isnan(b)); }
inline bool bits_equal(double a,double b){ return memcmp(&a,&b,8)==0; }
inline bool close(double a,double b,double rel,double abs=0){
  if(same(a,b)) return true;
  if(std::isnan(a)||std::isnan(b)||std::isinf(a)||std::isinf(b)) return false;
  return std::fabs(a-b)<=std::max(abs,rel*std::max(std::fabs(a),std::fabs(b)));
}

// ---- engine ---------------------------------------------------------------
namespace engine{
struct Slot{
  std::atomic<int> prop; std::atomic<uint64_t> index; std::atomic<int64_t> started; std::atomic<int> state; // 0 idle 1 running 2 failed 3 done
  char msg[2000];
};
constexpr size_t REC_MAX=1<<20;
struct Shared{
  std::atomic<int> stop;
  Slot slots[64];
  // result of one isolated execution
  uint64_t nrec; uint64_t rec[REC_MAX]; char msg[4000]; char desc[7000];
};
inline int64_t now_ms(){ timeval t; gettimeofday(&t,nullptr); return (int64_t)t.tv_sec*1000+t.tv_usec/1000; }

struct Opt{
  uint64_t seed=1; std::string tier="quick"; std::string property="P00"; std::string out; std::string replay; std::string replay_dir=".";
  std::set<std::string> known; uint64_t cases=1000; int workers=8; double time_cap=600; double hang=40; std::string workdir="."; std::string only; bool verbose=false;
  int replays=3;
};
enum Outcome{Pass,Fail,Crash,Hang};

inline int run_inline(const Prop& p,Src& s,Case& c,std::string& msg){
  try{ p.fn(s,c); return 0; }
  catch(const Failure& f){ msg=f.msg; return 1; }
  catch(const std::exception& e){ msg=std::string("unexpected exception escaped: ")+e.what(); return 1; }
  catch(...){ msg="unexpected non-standard exception escaped"; return 1; }
}

// run one choice list in a child process
inline Outcome run_isolated(Shared* sh,const Prop& p,const std::vector<uint64_t>* choices,uint64_t seed,const Opt& o,double hang,std::string& msg,std::vector<uint64_t>* rec,std::string* desc,bool quiet=true){
  sh->nrec=0; sh->msg[0]=0; sh->desc[0]=0;
  fflush(stdout); fflush(stderr);
  std::string errfile=o.workdir+"/child.err";
  pid_t pid=fork();
  if(pid==0){
    if(quiet){ int fd=open(errfile.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); if(fd>=0){ dup2(fd,2); dup2(fd,1); } }
    Mirror mir{sh->rec,&sh->nrec,REC_MAX,sh->desc,sizeof sh->desc}; mirror()=&mir;
    Src s= choices? Src(*choices):Src(seed); Case c; c.known_ids=o.known; c.verbose=o.verbose; std::string m;
    int r=run_inline(p,s,c,m);
    snprintf(sh->msg,sizeof sh->msg,"%s",m.c_str()); snprintf(sh->desc,sizeof sh->desc,"%s",c.desc.c_str());
    _exit(r?42:0);
  }
  int64_t t0=now_ms(); int st=0; bool hung=false; int us=200;
  for(;;){
    pid_t r=waitpid(pid,&st,WNOHANG);
    if(r==pid) break;
    if(r<0 && errno!=EINTR) break;
    if(now_ms()-t0>hang*1000){ kill(pid,SIGKILL); waitpid(pid,&st,0); hung=true; break; }
    usleep(us); if(us<5000) us*=2;
  }
  if(rec) rec->assign(sh->rec,sh->rec+sh->nrec);
  if(desc) *desc=sh->desc;
  msg=sh->msg;
  if(hung){ msg="the case did not terminate"; return Hang; }
  if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return Pass;
  if(WIFEXITED(st)&&WEXITSTATUS(st)==42) return Fail;
  std::ifstream ef(errfile); std::string l,head; int k=0;
  while(std::getline(ef,l) && k<200){ if(l.find("ERROR: AddressSanitizer")!=std::string::npos||l.find("runtime error")!=std::string::npos||l.find("Assertion")!=std::string::npos||l.find("WARNING: ThreadSanitizer")!=std::string::npos||l.find("terminate called")!=std::string::npos||l.find("what():")!=std::string::npos||l.find(" #0 ")!=std::string::npos||l.find(" #1 ")!=std::string::npos||l.find(" #2 ")!=std::string::npos||l.find(" #3 ")!=std::string::npos){ head+=l+" | "; k++; if(head.size()>1200) break; } }
  if(WIFSIGNALED(st)) msg=fmt("crash: signal %d ",WTERMSIG(st))+head; else msg=fmt("crash: exit status %d ",WEXITSTATUS(st))+head;
  return Crash;
}

inline std::string json_escape(const std::string& s){
  std::string r; for(unsigned char c: s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }

struct Stats{ uint64_t evals=0; std::unordered_set<uint64_t> nontriv; std::map<std::string,uint64_t> labels; std::map<std::string,uint64_t> known; std::map<std::string,uint64_t> perprop; std::vector<std::string> samples; };

inline void write_stats(const Stats& s,const std::string& f){
  std::ofstream o(f); o<<s.evals<<"\n";
  o<<s.nontriv.size()<<"\n"; for(auto h: s.nontriv) o<<h<<"\n";
  o<<s.labels.size()<<"\n"; for(auto& l: s.labels) o<<l.second<<" "<<l.first<<"\n";
  o<<s.known.size()<<"\n"; for(auto& l: s.known) o<<l.second<<" "<<l.first<<"\n";
  o<<s.perprop.size()<<"\n"; for(auto& l: s.perprop) o<<l.second<<" "<<l.first<<"\n";
  o<<s.samples.size()<<"\n"; for(auto& l: s.samples) o<<json_escape(l)<<"\n";
}
inline bool merge_stats(Stats& s,const std::string& f){
  std::ifstream i(f); uint64_t n,v; std::string l; if(!(i>>v)) return false; s.evals+=v;
  i>>n; for(uint64_t k=0;k<n;k++){ i>>v; s.nontriv.insert(v); }
  i>>n; for(uint64_t k=0;k<n;k++){ i>>v; i.get(); std::getline(i,l); s.labels[l]+=v; }
  i>>n; for(uint64_t k=0;k<n;k++){ i>>v; i.get(); std::getline(i,l); s.known[l]+=v; }
  i>>n; for(uint64_t k=0;k<n;k++){ i>>v; i.get(); std::getline(i,l); s.perprop[l]+=v; }
  i>>n; i.get(); for(uint64_t k=0;k<n;k++){ std::getline(i,l); s.samples.push_back(l); }
  return true;
}
inline uint64_t case_seed(const Opt& o,const Prop& p,uint64_t i){ uint64_t s=o.seed*0x9E3779B97F4A7C15ULL ^ hash_str(p.name) ^ (i*0xD1B54A32D192ED03ULL); splitmix(s); return splitmix(s); }

inline void worker(Shared* sh,int w,const Opt& o,const std::vector<uint64_t>& counts,int64_t deadline){
  Slot& sl=sh->slots[w]; Stats st; auto& P=props();
  int devnull=open("/dev/null",O_WRONLY); if(devnull>=0) dup2(devnull,1);
  { std::string ef=o.workdir+"/worker"+std::to_string(w)+".err"; int fd=open(ef.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); if(fd>=0) dup2(fd,2); }
  std::set<std::string> seen_labels; std::map<int,int> sampled;
  // interleave the sub-properties so that a time cap starves none of them
  uint64_t maxn=0; for(auto c: counts) maxn=std::max(maxn,c);
  const int ROUNDS=50; bool cut=false;
  for(int round=0; round<ROUNDS && !cut; round++) for(size_t p=0;p<P.size() && !cut;p++){
    uint64_t a=counts[p]*round/ROUNDS,b=counts[p]*(round+1)/ROUNDS;
    for(uint64_t i=a;i<b;i++){
      if((int)(i%o.workers)!=w) continue;
      if(sh->stop.load()) { write_stats(st,o.workdir+"/stats."+std::to_string(w)); _exit(0); }
      if(now_ms()>deadline){ cut=true; break; }
      sl.prop=p; sl.index=i; sl.started=now_ms(); sl.state=1;
      Src s(case_seed(o,P[p],i)); Case c; c.known_ids=o.known; std::string msg;
      int r=run_inline(P[p],s,c,msg);
      st.evals++; st.perprop[P[p].name]++;
      for(auto& k: c.known_hits) st.known[k.first]+=k.second;
      for(auto& l: c.labels) st.labels[P[p].name+": "+l]++;
      if(r){ snprintf(sl.msg,sizeof sl.msg,"%s",msg.c_str()); sl.state=2; sh->stop=1; write_stats(st,o.workdir+"/stats."+std::to_string(w)); _exit(42); }
      if(c.nontrivial_){
        uint64_t h=hash_str(P[p].name); for(auto v: s.rec) h=(h^v)*1099511628211ULL;
        bool fresh=st.nontriv.insert(h).second;
        if(fresh && w==0 && sampled[p]<2 && !c.desc.empty()){ sampled[p]++; st.samples.push_back(P[p].name+": "+c.desc.substr(0,900)); }
      }
    }
  }
  sl.state=3; if(cut) st.labels["(stopped early by the time cap)"]++;
  write_stats(st,o.workdir+"/stats."+std::to_string(w)); _exit(0);
}

inline std::string save_replay(const Opt& o,const Prop& p,const std::vector<uint64_t>& ch,const std::string& msg,const std::string& desc){
  mkdir(o.replay_dir.c_str(),0777);
  uint64_t h=hash_str(p.name); for(auto v: ch) h=(h^v)*1099511628211ULL;
  std::string f=o.replay_dir+"/"+o.property+"-"+p.name+fmt("-%08llx.replay",(unsigned long long)(h&0xffffffff));
  std::ofstream out(f); out<<"property "<<o.property<<"\nprop "<<p.name<<"\nchoices"; for(auto v: ch) out<<" "<<v;
  auto oneline=[](std::string s){ for(char& c: s) if(c=='\n') c=' '; return s; };
  out<<"\nfailure "<<oneline(msg)<<"\ncase "<<oneline(desc)<<"\n"; return f;
}

inline int engine_main(int argc,char** argv){
  Opt o;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto v=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if(a=="--seed") o.seed=strtoull(v().c_str(),nullptr,10);
    else if(a=="--tier") o.tier=v(); else if(a=="--property") o.property=v(); else if(a=="--out") o.out=v();
    else if(a=="--replay") o.replay=v(); else if(a=="--replay-dir") o.replay_dir=v(); else if(a=="--cases") o.cases=strtoull(v().c_str(),nullptr,10);
    else if(a=="--workers") o.workers=atoi(v().c_str()); else if(a=="--time-cap") o.time_cap=atof(v().c_str()); else if(a=="--hang") o.hang=atof(v().c_str());
    else if(a=="--workdir") o.workdir=v(); else if(a=="--only") o.only=v(); else if(a=="--verbose") o.verbose=true;
    else if(a=="--known"){ std::stringstream ss(v()); std::string k; while(std::getline(ss,k,',')) if(!k.empty()) o.known.insert(k); }
    else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 3; } }
  auto& P=props();
  if(!o.only.empty()) P.erase(std::remove_if(P.begin(),P.end(),[&](const Prop& p){ return p.name!=o.only; }),P.end());
  Shared* sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(sh==MAP_FAILED){ perror("mmap"); return 3; }

  if(!o.replay.empty()){
    std::ifstream f(o.replay); std::string line,prop; std::vector<uint64_t> ch;
    while(std::getline(f,line)){ if(line.compare(0,5,"prop ")==0) prop=line.substr(5); else if(line.compare(0,7,"choices")==0){ std::stringstream ss(line.substr(7)); uint64_t v; while(ss>>v) ch.push_back(v); } }
    for(auto& p: P) if(p.name==prop){
      std::string msg,desc; Outcome r=run_isolated(sh,p,&ch,0,o,o.hang,msg,nullptr,&desc,!o.verbose);
      printf("case: %s\n",desc.c_str());
      if(r==Pass){ printf("replay: the property held\n"); return 0; }
      printf("replay: %s\n",msg.c_str()); return 1; }
    fprintf(stderr,"no such prop %s\n",prop.c_str()); return 3;
  }

  double wsum=0; for(auto& p: P) wsum+=p.weight;
  std::vector<uint64_t> counts; for(auto& p: P) counts.push_back(std::max<uint64_t>(1,(uint64_t)(o.cases*p.weight/wsum)));
  int64_t t0=now_ms(),deadline=t0+(int64_t)(o.time_cap*1000);
  if(o.workers>64) o.workers=64;
  std::vector<pid_t> pids(o.workers,0); fflush(stdout);
  for(int w=0;w<o.workers;w++){ pids[w]=fork(); if(pids[w]==0) worker(sh,w,o,counts,deadline); }
  struct Bad{ int prop; uint64_t index; std::string msg; bool hang; }; std::vector<Bad> bad;
  std::vector<bool> alive(o.workers,true); int left=o.workers;
  while(left){
    bool any=false;
    for(int w=0;w<o.workers;w++) if(alive[w]){
      int st; pid_t r=waitpid(pids[w],&st,WNOHANG); Slot& sl=sh->slots[w];
      if(r==pids[w]){ alive[w]=false; left--; any=true;
        if(WIFEXITED(st)&&WEXITSTATUS(st)==42) bad.push_back({sl.prop,sl.index,sl.msg,false});
        else if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ sh->stop=1; bad.push_back({sl.prop,sl.index,"crash",false}); } }
      else if(sl.state==1 && now_ms()-sl.started>o.hang*1000){ kill(pids[w],SIGKILL); waitpid(pids[w],&st,0); alive[w]=false; left--; sh->stop=1; bad.push_back({sl.prop,sl.index,"did not terminate",true}); }
    }
    if(!any) usleep(2000);
  }
  Stats st; for(int w=0;w<o.workers;w++) merge_stats(st,o.workdir+"/stats."+std::to_string(w));

  int violations=0; std::string vioText; std::vector<std::string> notes;
  std::sort(bad.begin(),bad.end(),[](const Bad& a,const Bad& b){ return std::make_pair(a.prop,a.index)<std::make_pair(b.prop,b.index); });
  // non-hanging failures are cheaper to confirm
  std::stable_sort(bad.begin(),bad.end(),[](const Bad& a,const Bad& b){ return a.hang<b.hang; });
  int64_t conf0=now_ms();
  for(auto& b: bad){
    if(violations) break;
    const Prop& p=P[b.prop]; std::string msg,desc; std::vector<uint64_t> rec;
    uint64_t seed=case_seed(o,p,b.index);
    Outcome first=Pass; int hits=0; const int tries=b.hang?2:20; int tried=0;
    for(int k=0;k<tries;k++){ tried++; std::string m; std::vector<uint64_t> r; std::string d; Outcome out=run_isolated(sh,p,nullptr,seed,o,o.hang,m,&r,&d); if(out!=Pass){ first=out; hits++; msg=m; rec=r; desc=d; if(hits>=3||out==Hang) break; } if(now_ms()-conf0>300000) break; }
    if(!hits){ notes.push_back("a failure of "+p.name+" case "+std::to_string(b.index)+" did not reproduce in "+std::to_string(tried)+" re-runs: "+b.msg); continue; }
    // shrink
    std::vector<uint64_t> best=rec; std::string bmsg=msg,bdesc=desc; int execs=0; int64_t s0=now_ms();
    std::string m0,d0; std::vector<uint64_t> r0;
    bool shrinkable=false;
    if(first!=Hang){ for(int k=0;k<3&&!shrinkable;k++) shrinkable = run_isolated(sh,p,&best,0,o,o.hang,m0,&r0,&d0)!=Pass; }
    auto attempt=[&](std::vector<uint64_t> cand)->bool{
      if(cand==best) return false;
      execs++; std::string m,d; std::vector<uint64_t> r; Outcome out=run_isolated(sh,p,&cand,0,o,20,m,&r,&d);
      if(out==Fail||out==Crash){ if(out==Fail && !r.empty() && r.size()<=cand.size()) cand=r; best=cand; bmsg=m; if(!d.empty()||out==Fail) bdesc=d; return true; }
      return false; };
    auto budget=[&]{ return execs<600 && now_ms()-s0<40000; };
    if(shrinkable){
      bool improved=true;
      while(improved && budget()){
        improved=false;
        for(size_t len: {64u,16u,8u,4u,3u,2u,1u}) for(size_t i=0; i+len<=best.size() && budget();){
          std::vector<uint64_t> c(best); c.erase(c.begin()+i,c.begin()+i+len); if(attempt(c)) improved=true; else i+=std::max<size_t>(1,len/2); }
        for(size_t i=0;i<best.size() && budget();i++) if(best[i]){
          std::vector<uint64_t> c(best); c[i]=0; if(attempt(c)){ improved=true; continue; }
          uint64_t lo=0,hi=best[i]; int g=0;
          while(lo+1<hi && g++<12 && budget() && i<best.size()){ uint64_t mid=lo+(hi-lo)/2; c=best; c[i]=mid; if(attempt(c)){ improved=true; hi=mid; } else lo=mid; } }
      }
    }
    // final replays
    int conf=0,need=3,runs=0;
    for(int k=0;k<(first==Hang?1:30) && conf<need;k++){ runs++; std::string m,d; Outcome out=run_isolated(sh,p,&best,0,o,o.hang,m,nullptr,&d); if(out!=Pass){ conf++; if(!m.empty()) bmsg=m; if(!d.empty()) bdesc=d; } if(now_ms()-conf0>400000) break; }
    if(conf==0){ best=rec; bmsg=msg; bdesc=desc; }
    std::string f=save_replay(o,p,best,bmsg,bdesc);
    vioText+="failing property: "+p.name+"\n  "+bmsg+"\n  case: "+bdesc+"\n  reproduced in "+std::to_string(conf)+" of "+std::to_string(runs)+" replays\n";
    printf("%s",vioText.c_str());
    printf("VIOLATION property=%s replay=%s\n",o.property.c_str(),f.c_str()); violations++;
  }
  for(auto& n: notes) printf("note: %s\n",n.c_str());
  for(auto& k: st.known) printf("finding %s observed %llu times\n",k.first.c_str(),(unsigned long long)k.second);
  if(!o.out.empty()){
    std::ofstream js(o.out); js<<"{\"evaluations\":"<<st.evals<<",\"distinct_nontrivial\":"<<st.nontriv.size()<<",\"violations\":"<<violations<<",\"wall_s\":"<<(now_ms()-t0)/1000.0<<",\"classes\":{";
    bool f=true; for(auto& l: st.labels){ js<<(f?"":",")<<"\""<<json_escape(l.first)<<"\":"<<l.second; f=false; }
    js<<"},\"per_check\":{"; f=true; for(auto& l: st.perprop){ js<<(f?"":",")<<"\""<<json_escape(l.first)<<"\":"<<l.second; f=false; }
    js<<"},\"known\":{"; f=true; for(auto& l: st.known){ js<<(f?"":",")<<"\""<<json_escape(l.first)<<"\":"<<l.second; f=false; }
    js<<"},\"notes\":["; f=true; for(auto& l: notes){ js<<(f?"":",")<<"\""<<json_escape(l)<<"\""; f=false; }
    js<<"],\"samples\":["; f=true; for(auto& l: st.samples){ js<<(f?"":",")<<"\""<<l<<"\""; f=false; }
    js<<"]}\n";
  }
  printf("%s: %llu cases, %llu distinct non-trivial, %d violations, %.1f s\n",o.property.c_str(),(unsigned long long)st.evals,(unsigned long long)st.nontriv.size(),violations,(now_ms()-t0)/1000.0);
  // a failure was seen but could not be made to happen again: report it, but not as a violation
  return violations?1:0;
}
} // engine
} // pbt

#ifdef PBT_LIBFUZZER
// coverage-guided driver: the first byte selects the sub-property
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data,size_t size){
  if(size<2) return 0;
  auto& P=pbt::props(); const pbt::Prop& p=P[data[0]%P.size()];
  pbt::Src s(data+1,size-1); pbt::Case c; std::string m;
  static std::set<std::string> known=[]{ std::set<std::string> k; const char* e=getenv("PBT_KNOWN"); if(e){ std::stringstream ss(e); std::string x; while(std::getline(ss,x,',')) if(!x.empty()) k.insert(x); } return k; }();
  c.known_ids=known;
  if(pbt::engine::run_inline(p,s,c,m)){
    // leave the choices where the runner can turn them into a replay file
    const char* f=getenv("PBT_FUZZ_OUT");
    if(f){ std::ofstream o(f); o<<"prop "<<p.name<<"\nchoices"; for(auto v: s.rec) o<<" "<<v; o<<"\nfailure "<<m<<"\n"; }
    fprintf(stderr,"PBT failure in %s: %s\n  %s\n",p.name.c_str(),m.c_str(),c.desc.c_str());
    __builtin_trap();
  }
  return 0;
}
#else
extern "C" void pbt_prepare() __attribute__((weak)); // once, before anything is forked
int main(int argc,char** argv){ if(pbt_prepare) pbt_prepare(); return pbt::engine::engine_main(argc,argv); }
#endif
#endif
