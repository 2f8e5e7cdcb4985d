// P06: blocks of the aligned allocator are aligned, usable, disjoint and returned intact.
#include "pbt.h"
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <new>
#include <type_traits>
#include <nuSQuIDS/aligned_alloc.h>
#include <nuSQuIDS/marray.h>
using namespace pbt;

// All memory of the process goes through here, so that what the allocator takes and gives back can be seen.
// Where the memory lies relative to large alignments is chosen by the generator.
static volatile bool g_watch=false; static std::map<void*,size_t>* g_blocks=nullptr; static std::string* g_err=nullptr; static size_t g_skew=0;
constexpr size_t BIG=(size_t)1<<17, GUARD=64;
struct Raw{ void* base; size_t n; }; static std::map<void*,Raw>* g_raw=nullptr;
static void* take(size_t n){
  if(!g_watch){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
  g_watch=false; size_t tot=((n+2*BIG)/BIG+1)*BIG; if(tot<n) { g_watch=true; throw std::bad_alloc(); }
  char* base=(char*)aligned_alloc(BIG,tot); if(!base){ g_watch=true; throw std::bad_alloc(); } char* p=base+GUARD+16*(g_skew%((BIG-GUARD)/16)); memset(p-GUARD,0xCC,GUARD); memset(p+n,0xCC,GUARD); memset(p,0xEE,n); (*g_blocks)[p]=n; (*g_raw)[p]={base,n}; g_watch=true; return p; }
static void give(void* p){ if(!p) return;
  if(!g_watch){ free(p); return; }
  g_watch=false; auto i=g_raw->find(p); if(i==g_raw->end()){ *g_err="memory was returned that had not been taken"; g_watch=true; return; }
  for(size_t k=0;k<GUARD;k++) if(((unsigned char*)p)[-1-(long)k]!=0xCC||((unsigned char*)p)[i->second.n+k]!=0xCC) *g_err="bytes outside the memory taken were overwritten";
  free(i->second.base); g_raw->erase(i); g_blocks->erase(p); g_watch=true; }
void* operator new(size_t n){ return take(n); }
void* operator new[](size_t n){ return take(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept{ try{ return take(n); }catch(...){ return nullptr; } }
void* operator new[](size_t n,const std::nothrow_t&) noexcept{ try{ return take(n); }catch(...){ return nullptr; } }
void operator delete(void* p,const std::nothrow_t&) noexcept{ give(p); }
void operator delete[](void* p,const std::nothrow_t&) noexcept{ give(p); }
void operator delete(void* p) noexcept{ give(p); }
void operator delete[](void* p) noexcept{ give(p); }
void operator delete(void* p,size_t) noexcept{ give(p); }
void operator delete[](void* p,size_t) noexcept{ give(p); }

template<typename T> void blocks(Src& s,Case& c){
  std::map<void*,size_t> taken; std::map<void*,Raw> raw; g_raw=&raw; std::string err; g_blocks=&taken; g_err=&err; g_watch=false;
  struct B{ T* p; size_t n; unsigned a; unsigned char tag; }; std::vector<B> live; unsigned steps=1+s.below(30); unsigned freed=0; unsigned char tag=1;
  unsigned minpow=0; while((1u<<minpow)<alignof(T)) minpow++;
  auto bytes=[](const B& b,std::function<void(unsigned char&)> f){ unsigned char* q=(unsigned char*)b.p; for(size_t i=0;i<b.n*sizeof(T);i++) f(q[i]); };
  struct Free{ std::map<void*,Raw>& r; ~Free(){ for(auto& x: r) free(x.second.base); } } fr{raw};
  struct Off{ ~Off(){ g_watch=false; } } off;
  for(unsigned k=0;k<steps;k++){
    if(live.empty()||s.chance(3,5)){
      B b; b.a=minpow+s.size(0,16-minpow); b.n=s.chance(1,10)?0:s.size(0,300); b.tag=tag++; c.log("allocate "+str(b.n)+" objects aligned to 2^"+str(b.a));
      aligned_allocator<T> al(b.a); 
      bool direct=s.boolean(); g_skew= s.boolean()?s.below(BIG/16): (1+s.below(8))*((((size_t)1<<b.a)+15)/16)-GUARD/16-s.below(3); if(g_skew>BIG/16) g_skew=0;
      try{ g_watch=true; b.p=direct? al.allocate(b.n): std::allocator_traits<aligned_allocator<T>>::allocate(al,b.n); g_watch=false; }catch(...){ g_watch=false; throw; }
      PBT_CHECK(c,b.p!=nullptr,"a null block"); PBT_CHECK(c,((uintptr_t)b.p & (((uintptr_t)1<<b.a)-1))==0,"a block is not aligned to 2^"+str(b.a));
      for(auto& o: live) PBT_CHECK(c,(char*)b.p>=(char*)o.p+o.n*sizeof(T)||(char*)o.p>=(char*)b.p+b.n*sizeof(T),"two blocks overlap");
      // the whole block must lie within one piece of memory the allocator owns
      bool in=false; for(auto& t: taken) if((char*)b.p>=(char*)t.first && (char*)b.p+b.n*sizeof(T)<=(char*)t.first+t.second) in=true; PBT_CHECK(c,in,"a block reaches outside the memory taken for it");
      bytes(b,[&](unsigned char& x){ x=b.tag; }); live.push_back(b); if(b.a>=8) c.label("alignment of 256 or more"); if(b.a>=5) c.label("alignment of 32 or more");
    }else if(s.chance(1,12)){ aligned_allocator<T> al(s.below(20)); al.deallocate(nullptr,s.below(10)); c.log("deallocate null"); }
    else{ size_t i=s.below(live.size()); B b=live[i]; c.log("deallocate #"+str(i));
      bytes(b,[&](unsigned char& x){ if(x!=b.tag) c.fail("the contents of a block changed"); }); live.erase(live.begin()+i);
      aligned_allocator<T> al(b.a); size_t before=taken.size(); g_watch=true; al.deallocate(b.p,b.n); g_watch=false; freed++;
      PBT_CHECK(c,err.empty(),err); PBT_CHECK(c,taken.size()==before-1,"a block's memory was not returned"); }
  }
  for(auto& b: live){ bytes(b,[&](unsigned char& x){ if(x!=b.tag) c.fail("the contents of a block changed"); }); aligned_allocator<T> al(b.a); g_watch=true; al.deallocate(b.p,b.n); g_watch=false; PBT_CHECK(c,err.empty(),err); }
  PBT_CHECK(c,taken.empty(),"memory is still taken after every block was deallocated");
  c.nontrivial(freed>1 && steps>3);
}
PBT_PROP(blocks_char,1){ blocks<unsigned char>(s,c); }
PBT_PROP(blocks_double,1){ blocks<double>(s,c); }
struct Odd{ char x[24]; };
PBT_PROP(blocks_odd,1){ blocks<Odd>(s,c); }

PBT_PROP(limits,0.3){
  unsigned a=s.below(32); aligned_allocator<double> al(a); size_t mx=al.max_size(); c.log("alignment 2^"+str(a)+" max "+str(mx)); c.nontrivial();
  // a request of max_size() objects must be representable together with the room the allocator needs
  PBT_CHECK(c,mx>0 && mx<=(std::numeric_limits<size_t>::max()-((size_t)1<<a))/sizeof(double),"max_size() objects do not fit into the address space");
  size_t n=mx+1+s.below(s.boolean()?10:std::numeric_limits<size_t>::max()-mx-1); bool threw=false; c.log("request "+str(n));
  try{ double* p=al.allocate(n); al.deallocate(p,n); }catch(std::bad_alloc&){ threw=true; } PBT_CHECK(c,threw,"a request for "+str(n)+" objects, more than max_size(), was granted");
  unsigned b=s.below(32); aligned_allocator<double> al2(b),al3(al); PBT_CHECK(c,(al==al2)==(a==b) && (al!=al2)==(a!=b) && al==al3,"allocators compare equal exactly if their alignments are");
}
// an array using the allocator behaves as any other and keeps its alignment
PBT_PROP(in_array,1){
  typedef nusquids::marray<double,2,aligned_allocator<double>> A; unsigned a=3+s.below(7); size_t n=s.size(0,12),m=s.size(0,12);
  c.log("alignment 2^"+str(a)+" array "+str(n)+"x"+str(m)); c.nontrivial(n*m>1);
  A x({n,m},aligned_allocator<double>(a)); for(size_t i=0;i<n*m;i++) x.begin()[i]=i; 
  auto ok=[&](const A& y,const char* w){ PBT_CHECK(c,((uintptr_t)y.get_data() & (((uintptr_t)1<<a)-1))==0,std::string("alignment lost after ")+w); };
  ok(x,"construction"); A y(x); ok(y,"copying"); x.insert(s.below(2),0,s.below(3)); ok(x,"inserting"); A z(std::move(x)); ok(z,"moving"); 
  A w(aligned_allocator<double>(3+s.below(7))); w=std::move(y); ok(w,"move assignment"); for(size_t i=0;i<n*m;i++) PBT_CHECK(c,w.begin()[i]==i,"contents after moves");
  A v(aligned_allocator<double>(3+s.below(7))); unsigned va=0; { auto p=v.get_allocator(); for(unsigned q=3;q<10;q++) if(p==aligned_allocator<double>(q)) va=q; }
  v=w; PBT_CHECK(c,((uintptr_t)v.get_data() & (((uintptr_t)1<<va)-1))==0,"alignment lost after copy assignment"); for(size_t i=0;i<n*m;i++) PBT_CHECK(c,v.begin()[i]==i,"contents after copy assignment");
}
