// P19: every task given to a thread pool runs exactly once and its outcome reaches the caller.
#include "util.h"
#include <thread>
#include <nuSQuIDS/ThreadPool.h>
using namespace pbt;
// ThreadSanitizer does not see how the C++ runtime counts references to exceptions
#ifdef __SANITIZE_THREAD__
#define THROWING false
#else
#define THROWING true
#endif
struct Boom: std::runtime_error{ using std::runtime_error::runtime_error; };
static void pause_(unsigned k){ switch(k%6){ case 0: case 1: break; case 2: std::this_thread::yield(); break; case 3: for(volatile int i=0;i<200;i=i+1); break; case 4: std::this_thread::sleep_for(std::chrono::microseconds(20)); break; default: std::this_thread::sleep_for(std::chrono::microseconds(k%80)); } }
PBT_PROP(tasks,1){
  unsigned nt=1+s.below(8),np=1+s.below(4),total=0; struct Plan{ unsigned pre,dur; bool thrower,nested; int x; }; std::vector<std::vector<Plan>> plan(np); for(auto& p: plan){ p.resize(s.size(0,30)); for(auto& q: p){ q={(unsigned)s.below(100),(unsigned)s.below(100),s.chance(1,5)&&THROWING,s.chance(1,6),(int)s.range(-50,50)}; total++; } }
  bool early=s.boolean(); unsigned beforeEnd=s.below(100); c.log(str(nt)+" threads, "+str(np)+" producers, "+str(total)+" tasks"+(early?", pool destroyed at once":", results awaited first")); c.nontrivial(total>1&&(nt>1||np>1)); c.label(early?"destroyed with tasks waiting":"awaited");
  std::vector<std::vector<std::atomic<int>>> runs; for(auto& p: plan){ runs.emplace_back(p.size()); for(auto& r: runs.back()) r=0; } std::atomic<int> nestedRuns(0),active(0),maxActive(0); unsigned nestedWant=0; for(auto& p: plan) for(auto& q: p) if(q.nested&&!early) nestedWant++;
  std::vector<std::vector<std::future<int>>> fut(np); for(unsigned i=0;i<np;i++) fut[i].resize(plan[i].size());
  // plain data written by one task and read by the caller after the result has arrived
  std::vector<std::vector<int>> data(np); for(unsigned i=0;i<np;i++) data[i].assign(plan[i].size(),0);
  { ThreadPool pool(nt);
    auto produce=[&](unsigned i){ for(size_t k=0;k<plan[i].size();k++){ Plan q=plan[i][k]; pause_(q.pre); std::atomic<int>* r=&runs[i][k]; int* d=&data[i][k]; bool nest=q.nested&&!early;
        fut[i][k]=pool.enqueue([=,&pool,&nestedRuns,&active,&maxActive](int x,const std::string& t)->int{ int a=++active; int m=maxActive; while(a>m&&!maxActive.compare_exchange_weak(m,a)); pause_(q.dur); (*r)++; *d=x*7; if(nest) pool.enqueue([&nestedRuns]{ nestedRuns++; }); active--; if(q.thrower) throw Boom(t); return x*3+(int)t.size(); },q.x,std::string("task")+std::to_string(k)); } };
    std::vector<std::thread> th; for(unsigned i=1;i<np;i++) th.emplace_back(produce,i); produce(0); for(auto& t: th) t.join();
    auto collect=[&]{ for(unsigned i=0;i<np;i++) for(size_t k=0;k<plan[i].size();k++){ auto& q=plan[i][k]; std::string t="task"+std::to_string(k); PBT_CHECK(c,fut[i][k].valid(),"no future"); try{ int v=fut[i][k].get(); PBT_CHECK(c,!q.thrower,"a task's exception was lost"); PBT_CHECK(c,v==q.x*3+(int)t.size(),"a task's result is "+str(v)+" instead of "+str(q.x*3+(int)t.size())); }catch(Boom& b){ PBT_CHECK(c,q.thrower&&b.what()==t,"a task's exception is not its own"); } PBT_CHECK(c,data[i][k]==q.x*7,"a task's effect is not visible with its result"); } };
    if(!early){ try{ collect(); }catch(std::future_error& e){ c.fail(std::string("a task was dropped: ")+e.what()); } } else { pause_(beforeEnd); } 
    if(!early) {} }
  // the pool is gone: everything given to it has been run
  if(early) for(unsigned i=0;i<np;i++) for(size_t k=0;k<plan[i].size();k++){ PBT_CHECK(c,fut[i][k].wait_for(std::chrono::seconds(0))==std::future_status::ready,"the pool ended with a task not done"); try{ fut[i][k].get(); PBT_CHECK(c,!plan[i][k].thrower,"a task's exception was lost"); }catch(Boom&){ PBT_CHECK(c,plan[i][k].thrower,"unexpected exception"); }catch(std::future_error& e){ c.fail(std::string("a task was dropped: ")+e.what()); } }
  for(auto& p: runs) for(auto& r: p) PBT_CHECK(c,r==1,"a task ran "+str(r.load())+" times"); PBT_CHECK(c,nestedRuns==(int)nestedWant,"tasks given by tasks ran "+str(nestedRuns.load())+" times instead of "+str(nestedWant)); PBT_CHECK(c,maxActive<=(int)nt,"more tasks at once than threads");
}
// as many tasks as threads can wait for one another
PBT_PROP(concurrency,0.1){
  unsigned nt=1+s.below(8),extra=s.below(4); c.log(str(nt)+" threads, "+str(nt)+" tasks that meet, "+str(extra)+" before them"); c.nontrivial(nt>1); ThreadPool pool(nt); std::mutex m; std::condition_variable cv; unsigned in=0; std::vector<std::future<void>> f; for(unsigned i=0;i<extra;i++) f.push_back(pool.enqueue([]{ std::this_thread::yield(); }));
  for(unsigned i=0;i<nt;i++) f.push_back(pool.enqueue([&]{ std::unique_lock<std::mutex> l(m); in++; cv.notify_all(); cv.wait(l,[&]{ return in==nt; }); })); for(auto& x: f) x.get();
}
// with one thread the tasks run in the order given
PBT_PROP(order,0.2){
  unsigned n=s.size(0,60); c.log(str(n)+" tasks, one thread"); c.nontrivial(n>1); std::vector<unsigned> seq; std::vector<std::future<unsigned>> f; { ThreadPool pool(1); for(unsigned i=0;i<n;i++) f.push_back(pool.enqueue([&seq,i]{ seq.push_back(i); return i; })); } PBT_CHECK(c,seq.size()==n,"tasks were dropped"); for(unsigned i=0;i<n;i++){ PBT_CHECK(c,seq[i]==i,"the tasks ran in another order"); PBT_CHECK(c,f[i].get()==i,"result"); }
}
// a pool being shut down finishes what it has and takes nothing more
PBT_PROP(closing,0.2){
  unsigned nt=1+s.below(4); c.log(str(nt)+" threads"); c.nontrivial(); std::atomic<bool> ending(false); std::atomic<int> refused(0),accepted(0),ran(0); std::vector<std::future<void>> f;
  { ThreadPool pool(nt); for(unsigned i=0;i<nt;i++) f.push_back(pool.enqueue([&]{ for(int k=0;k<100000;k++){ try{ pool.enqueue([&]{ ran++; }); accepted++; }catch(std::runtime_error&){ refused++; break; } if(accepted>300) std::this_thread::sleep_for(std::chrono::microseconds(100)); } })); pause_(s.below(100)); }
  PBT_CHECK(c,refused==(int)nt,"a pool that was being shut down kept taking tasks"); PBT_CHECK(c,ran==accepted,"accepted "+str(accepted.load())+" tasks and ran "+str(ran.load()));
  { ThreadPool none(1+s.below(16)); } // a pool that is never used ends too
}
