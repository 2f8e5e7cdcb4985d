// P05: arrays create and destroy every element exactly once, give every block back to the
// allocator it came from, and keep their value when an operation throws.
#include "marray_model.h"
#include <unordered_map>
using namespace pbt;

struct World{
  std::unordered_map<const void*,int> alive;           // element address -> 1
  std::map<void*,std::pair<size_t,int>> blocks;        // block -> (objects, allocator id)
  std::string error;
  int64_t fuse=-1;                                     // throw when it reaches zero
  uint64_t thrown=0,ops=0;
  void err(const std::string& e){ if(error.empty()) error=e; }
  bool burn(){ ops++; if(fuse>0 && --fuse==0){ thrown++; fuse=-1; return true; } return false; }
};
static World W;
struct Boom: std::runtime_error{ Boom():std::runtime_error("injected"){} };

// An element that keeps track of its own existence. NoThrowMove selects the moving code paths.
template<bool NoThrowMove> struct Elem{
  int v; Elem* self;
  void born(){ self=this; if(!W.alive.emplace(this,1).second) W.err("an element was constructed on top of a living one"); }
  void mustlive(const char* what) const{ if(!W.alive.count(this)) W.err(std::string(what)+" of something that is not a living element"); }
  Elem():v(0){ if(W.burn()) throw Boom(); born(); }
  Elem(int x):v(x){ born(); }   // used by the harness itself: never throws
  Elem(const Elem& o):v((o.mustlive("copy"),o.v)){ if(W.burn()) throw Boom(); born(); }
  Elem(Elem&& o) noexcept(NoThrowMove):v((o.mustlive("move"),o.v)){ if(!NoThrowMove && W.burn()) throw Boom(); o.v=-1; born(); }
  Elem& operator=(const Elem& o){ mustlive("assignment"); o.mustlive("assignment from"); if(W.burn()) throw Boom(); v=o.v; return *this; }
  Elem& operator=(Elem&& o) noexcept(NoThrowMove){ mustlive("assignment"); o.mustlive("assignment from"); if(!NoThrowMove && W.burn()) throw Boom(); v=o.v; if(&o!=this) o.v=-1; return *this; }
  ~Elem(){ if(!W.alive.erase(this)) W.err("an element was destroyed which was not alive"); if(self!=this) W.err("an element was moved in memory without being told"); }
};
template<bool N> bool operator==(const Elem<N>& a,const Elem<N>& b){ a.mustlive("reading"); return a.v==b.v; }
template<bool N> std::ostream& operator<<(std::ostream& o,const Elem<N>& e){ return o<<e.v; }

// a stateful allocator that remembers what it handed out
template<typename T,bool Prop> struct Alloc{
  typedef T value_type; int id;
  typedef std::integral_constant<bool,Prop> propagate_on_container_copy_assignment,propagate_on_container_move_assignment,propagate_on_container_swap;
  typedef std::false_type is_always_equal;
  Alloc(int i=0):id(i){} template<typename U> Alloc(const Alloc<U,Prop>& o):id(o.id){}
  template<typename U> struct rebind{ typedef Alloc<U,Prop> other; };
  T* allocate(size_t n){ if(W.burn()) throw Boom(); if(n>100000) W.err("an absurd allocation of "+str(n)+" elements"); void* p=malloc(n*sizeof(T)+1); W.blocks[p]={n,id}; return (T*)p; }
  void deallocate(T* p,size_t n){ if(!p) return; auto i=W.blocks.find(p); if(i==W.blocks.end()){ W.err("a block was freed which is not allocated"); return; }
    if(i->second.first!=n) W.err("a block of "+str(i->second.first)+" elements was freed as one of "+str(n)); if(i->second.second!=id) W.err("a block of allocator "+str(i->second.second)+" was freed through allocator "+str(id)); W.blocks.erase(i); free(p); }
  bool operator==(const Alloc& o) const{ return id==o.id; } bool operator!=(const Alloc& o) const{ return id!=o.id; }
};

template<unsigned R> struct NI;
template<> struct NI<1>{ static Ext shape(){ return {3}; } template<typename A,typename AL> static A* make(const Ext& e,AL al,int b){ return new A({e[0]},{b,b+1,b+2},al); } };
template<> struct NI<2>{ static Ext shape(){ return {2,2}; } template<typename A,typename AL> static A* make(const Ext& e,AL al,int b){ return new A({e[0],e[1]},{{b,b+1},{b+2,b+3}},al); } };
template<> struct NI<3>{ static Ext shape(){ return {2,1,2}; } template<typename A,typename AL> static A* make(const Ext& e,AL al,int b){ return new A({e[0],e[1],e[2]},{{{b,b+1}},{{b+2,b+3}}},al); } };

template<bool N,bool P,unsigned R> void lifetimes(Src& s,Case& c){
  typedef Elem<N> E; typedef Alloc<E,P> AL; typedef marray<E,R,AL> A;
  W=World(); int64_t tick=1; unsigned failures=0,ops=0;
  {
    struct Pair{ std::unique_ptr<A> a; Model<int> m; };
    std::vector<Pair> live;
    unsigned steps=2+s.below(14);
    auto verify=[&](const std::string& what){
      W.fuse=-1;
      if(!W.error.empty()) c.fail(what+": "+W.error);
      size_t n=0,b=0;
      for(auto& p: live){ auto& m=p.m; const A& a=*p.a; n+=m.v.size();
        PBT_CHECK(c,a.get_extents()==arr<R>(m.ext),what+": extents are "+strv(a.get_extents())+", should be "+strv(m.ext)); PBT_CHECK(c,a.size()==m.v.size(),what+": size");
        size_t k=0; for(const E& e: a){ e.mustlive("reading"); PBT_CHECK(c,k<m.v.size()&&e.v==m.v[k],what+": element "+str(k)+" is "+str(e.v)+", should be "+str(k<m.v.size()?m.v[k]:-99)); k++; } 
        if(a.get_data()){ auto i=W.blocks.find(a.get_data()); PBT_CHECK(c,i!=W.blocks.end(),what+": the array's storage is not an allocated block"); PBT_CHECK(c,i->second.first==a.size(),what+": the array's block has the wrong size"); PBT_CHECK(c,i->second.second==a.get_allocator().id,what+": the array's block does not belong to its allocator"); b++; } }
      if(!W.error.empty()) c.fail(what+": "+W.error);
      PBT_CHECK(c,W.alive.size()==n,what+": "+str(W.alive.size())+" elements are alive, but the arrays hold "+str(n));
      PBT_CHECK(c,W.blocks.size()==b,what+": "+str(W.blocks.size())+" blocks are allocated, but the arrays use "+str(b));
    };
    for(unsigned step=0; step<steps; step++){
      int op=s.below(17); if(live.empty()) op= op==16?16:op%4; size_t k=live.empty()?0:s.below(live.size()),j=live.empty()?0:s.below(live.size()); int id=s.below(3);
      // prepare the arguments first, so that the fuse only burns inside the operation
      Ext e=gen_ext(s,R,60); int64_t fuse=s.chance(1,2)?1+s.below(s.boolean()?4:60):-1;
      std::string what; Pair fresh; std::function<void()> act; std::function<void()> then=[]{}; bool strong=true; bool refuses=false;
      switch(op){
        case 0: case 1: what="construct "+strv(e)+" alloc "+str(id); fresh.m=Model<int>(e,0); { int how=s.below(2); act=[&,e,id,how]{ fresh.a.reset(how?new A(e,AL(id)):new A(arr<R>(e),AL(id))); }; } break;
        case 2:{ bool bad=s.chance(1,5); what=std::string("construct from a range ")+(bad?"of the wrong length ":"")+strv(e); fresh.m=Model<int>(e); for(auto& x: fresh.m.v) x=tick++;
          std::vector<int> src=fresh.m.v; if(bad) src.push_back(7); refuses=bad;
          auto L=std::make_shared<std::vector<int>>(src); act=[&,e,id,L]{ fresh.a.reset(ByList<R>::template make<A>(e,L->begin(),L->end(),AL(id))); }; break; }
        case 3:{ what="default construct"; fresh.m=Model<int>(Ext(R,0)); act=[&,id]{ fresh.a.reset(new A(AL(id))); }; break; }
        case 4: what="copy construct #"+str(k); fresh.m=live[k].m; act=[&]{ fresh.a.reset(new A(*live[k].a)); }; break;
        case 5: what="move construct #"+str(k); fresh.m=live[k].m; act=[&]{ fresh.a.reset(new A(std::move(*live[k].a))); }; then=[&]{ live[k].m=Model<int>(Ext(R,0)); }; break;
        case 6: case 7: what="#"+str(k)+" = #"+str(j); act=[&]{ *live[k].a=*live[j].a; }; then=[&]{ live[k].m=Model<int>(live[j].m); }; break;
        case 8: if(k==j){ what="nothing"; act=[]{}; break; } what="#"+str(k)+" = move(#"+str(j)+")"; act=[&]{ *live[k].a=std::move(*live[j].a); }; 
          then=[&]{ live[k].m=live[j].m; // the source holds something valid: read it back
            Model<int> r; r.ext=ext_of(live[j].a->get_extents()); for(const E& x: *live[j].a) r.v.push_back(x.v); PBT_CHECK(c,r.v.size()==prod(r.ext),"a moved-from array is inconsistent"); live[j].m=r; }; break;
        case 9: if(!P && live[k].a->get_allocator()!=live[j].a->get_allocator()){ what="nothing"; act=[]{}; break; } what="swap #"+str(k)+" #"+str(j); act=[&]{ live[k].a->swap(*live[j].a); }; then=[&]{ if(k!=j) std::swap(live[k].m,live[j].m); }; break;
        case 10: case 11:{ size_t d=s.below(R),pos=s.below(live[k].m.ext[d]+1),num=s.below(4); if(prod(live[k].m.ext)>150) num=0; int v=tick++; what="#"+str(k)+".insert("+str(d)+","+str(pos)+","+str(num)+")"; act=[&,d,pos,num,v]{ live[k].a->insert(d,pos,num,E(v)); }; then=[&,d,pos,num,v]{ live[k].m.insert(d,pos,num,v); }; break; }
        case 12: case 13:{ size_t d=s.below(R); if(!live[k].m.ext[d]){ what="nothing"; act=[]{}; break; } size_t pos=s.below(live[k].m.ext[d]),num=s.below(live[k].m.ext[d]-pos+1); what="#"+str(k)+".erase("+str(d)+","+str(pos)+","+str(num)+")"; act=[&,d,pos,num]{ live[k].a->erase(d,pos,num); }; then=[&,d,pos,num]{ live[k].m.erase(d,pos,num); }; break; }
        case 14:{ size_t d=s.below(R),n=s.below(6); if(prod(live[k].m.ext)>150) n=1; what="#"+str(k)+".resize("+str(d)+","+str(n)+")"; act=[&,d,n]{ live[k].a->resize(d,n); }; then=[&,d,n]{ live[k].m.resize(d,n); }; break; }
        case 16:{ Ext f=NI<R>::shape(); bool bad=s.chance(1,3); if(bad) f[s.below(R)]++; int b=tick; tick+=8; what=std::string("construct from nested values ")+(bad?"of the wrong shape ":"")+strv(f); fresh.m=Model<int>(f); for(size_t i=0;i<fresh.m.v.size();i++) fresh.m.v[i]=b+i; refuses=bad; act=[&,f,id,b]{ fresh.a.reset(NI<R>::template make<A>(f,AL(id),b)); }; break; }
        case 15: what="destroy #"+str(k); act=[&]{ live.erase(live.begin()+k); }; break;
      }
      if(op==15) fuse=-1;
      c.log(what+(fuse>0?" (fails at step "+str(fuse)+")":""));
      bool threw=false; ops++;
      W.fuse=fuse;
      try{ act(); }catch(const Boom&){ threw=true; failures++; }
      catch(const std::logic_error& x){ threw=true; if(!refuses) c.fail(what+": unexpected refusal: "+x.what()); c.label("refused constructor"); }
      W.fuse=-1;
      PBT_CHECK(c,!(refuses&&!threw),what+" was accepted");
      if(!threw){ if(W.thrown) { c.fail(what+": an injected failure did not reach the caller"); } then(); if(fresh.a) live.push_back(std::move(fresh)); }
      else if(W.thrown) c.label(("failure in "+what.substr(what[0]=='#'?what.find_first_of(".="):0)).substr(0,22));
      (void)strong; W.thrown=0;
      verify(what+(threw?" (which threw)":""));
      // bounded number of arrays
      if(live.size()>4) live.erase(live.begin()+s.below(live.size()));
    }
  }
  if(!W.error.empty()) c.fail("at the end: "+W.error);
  PBT_CHECK(c,W.alive.empty(),"at the end "+str(W.alive.size())+" elements are still alive"); PBT_CHECK(c,W.blocks.empty(),"at the end "+str(W.blocks.size())+" blocks are still allocated");
  c.nontrivial(failures>0 && ops>2);
  W=World();
}
PBT_PROP(move_prop_2,1){ lifetimes<true,true,2>(s,c); }
PBT_PROP(move_keep_3,1){ lifetimes<true,false,3>(s,c); }
PBT_PROP(copy_prop_2,1){ lifetimes<false,true,2>(s,c); }
PBT_PROP(copy_keep_3,1){ lifetimes<false,false,3>(s,c); }
PBT_PROP(move_keep_1,1){ lifetimes<true,false,1>(s,c); }
PBT_PROP(copy_prop_1,1){ lifetimes<false,true,1>(s,c); }
