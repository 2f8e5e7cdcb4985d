// P01: an array's shape and contents follow the history of operations applied to it.
#include "marray_model.h"
using namespace pbt;

// not nothrow-movable, so the copying code paths are taken
struct CopyOnly{ int v; CopyOnly(int v=0):v(v){} CopyOnly(const CopyOnly& o):v(o.v){} CopyOnly& operator=(const CopyOnly& o){ v=o.v; return *this; } };
inline bool operator==(const CopyOnly& a,const CopyOnly& b){ return a.v==b.v; }
inline std::ostream& operator<<(std::ostream& o,const CopyOnly& c){ return o<<c.v; }

template<typename T> T mk(int64_t k);
template<> int mk<int>(int64_t k){ return (int)k; }
template<> double mk<double>(int64_t k){ return k*0.5; }
template<> std::string mk<std::string>(int64_t k){ return k==0?"":std::to_string(k)+(k%3==0?"-a string that is long enough to live on the heap":""); }
template<> CopyOnly mk<CopyOnly>(int64_t k){ return CopyOnly((int)k); }

template<typename T,unsigned R> struct Nested;
template<typename T> struct Nested<T,1>{
  static constexpr bool any=true;
  static marray<T,1>* ctor(const Ext& e,const T* x,int shape,Ext& is){
    switch(shape){ case 0: is={1}; return new marray<T,1>({e[0]},{x[0]}); case 1: is={2}; return new marray<T,1>({e[0]},{x[0],x[1]}); default: is={4}; return new marray<T,1>({e[0]},{x[0],x[1],x[2],x[3]}); } }
  static void assign(marray<T,1>& a,const T* x,int shape){ switch(shape){ case 0: a={x[0]}; break; case 1: a={x[0],x[1]}; break; default: a={x[0],x[1],x[2],x[3]}; } }
  static Ext shape(int k){ return k==0?Ext{1}:k==1?Ext{2}:Ext{4}; }
};
template<typename T> struct Nested<T,2>{
  static marray<T,2>* ctor(const Ext& e,const T* x,int shape,Ext&){
    switch(shape){ case 0: return new marray<T,2>({e[0],e[1]},{{x[0],x[1]}}); case 1: return new marray<T,2>({e[0],e[1]},{{x[0]},{x[1]},{x[2]}}); default: return new marray<T,2>({e[0],e[1]},{{x[0],x[1],x[2]},{x[3],x[4],x[5]}}); } }
  static void assign(marray<T,2>& a,const T* x,int shape){ switch(shape){ case 0: a={{x[0],x[1]}}; break; case 1: a={{x[0]},{x[1]},{x[2]}}; break; default: a={{x[0],x[1],x[2]},{x[3],x[4],x[5]}}; } }
  static Ext shape(int k){ return k==0?Ext{1,2}:k==1?Ext{3,1}:Ext{2,3}; }
};
template<typename T> struct Nested<T,3>{
  static marray<T,3>* ctor(const Ext& e,const T* x,int shape,Ext&){
    switch(shape){ case 0: return new marray<T,3>({e[0],e[1],e[2]},{{{x[0],x[1]}}}); case 1: return new marray<T,3>({e[0],e[1],e[2]},{{{x[0],x[1]},{x[2],x[3]}},{{x[4],x[5]},{x[6],x[7]}}}); default: return new marray<T,3>({e[0],e[1],e[2]},{{{x[0]},{x[1]},{x[2]}},{{x[3]},{x[4]},{x[5]}}}); } }
  static void assign(marray<T,3>& a,const T* x,int shape){ switch(shape){ case 0: a={{{x[0],x[1]}}}; break; case 1: a={{{x[0],x[1]},{x[2],x[3]}},{{x[4],x[5]},{x[6],x[7]}}}; break; default: a={{{x[0]},{x[1]},{x[2]}},{{x[3]},{x[4]},{x[5]}}}; } }
  static Ext shape(int k){ return k==0?Ext{1,1,2}:k==1?Ext{2,2,2}:Ext{2,3,1}; }
};
template<typename T> struct Nested<T,4>{
  static marray<T,4>* ctor(const Ext& e,const T* x,int shape,Ext&){
    switch(shape){ case 0: return new marray<T,4>({e[0],e[1],e[2],e[3]},{{{{x[0],x[1]}}}}); case 1: return new marray<T,4>({e[0],e[1],e[2],e[3]},{{{{x[0]},{x[1]}}},{{{x[2]},{x[3]}}}}); default: return new marray<T,4>({e[0],e[1],e[2],e[3]},{{{{x[0],x[1]},{x[2],x[3]}}}}); } }
  static void assign(marray<T,4>& a,const T* x,int shape){ switch(shape){ case 0: a={{{{x[0],x[1]}}}}; break; case 1: a={{{{x[0]},{x[1]}}},{{{x[2]},{x[3]}}}}; break; default: a={{{{x[0],x[1]},{x[2],x[3]}}}}; } }
  static Ext shape(int k){ return k==0?Ext{1,1,1,2}:k==1?Ext{2,1,2,1}:Ext{1,1,2,2}; }
};

template<typename T,unsigned R,bool Trivial=std::is_trivial<T>::value> struct NoInit{ static marray<T,R>* make(Src&,const Ext&){ return nullptr; } };
template<typename T,unsigned R> struct NoInit<T,R,true>{ static marray<T,R>* make(Src& s,const Ext& e){
  if(s.boolean()) return ByList<R>::template make<marray<T,R>>(e,nusquids::detail::no_init);
  return new marray<T,R>(arr<R>(e),nusquids::detail::no_init); } };

template<typename T,unsigned R> void history(Src& s,Case& c){
  typedef marray<T,R> A;
  struct Pair{ std::unique_ptr<A> a; Model<T> m; };
  std::vector<Pair> live; int64_t tick=1;
  auto fresh=[&]{ return mk<T>(tick++); };
  auto fillBoth=[&](A& a,Model<T>& m){ for(size_t i=0;i<m.v.size();i++) m.v[i]=fresh(); std::copy(m.v.begin(),m.v.end(),a.begin()); };
  auto gone=[&](const char* what,std::function<void()> f){ bool threw=false; try{ f(); }catch(std::logic_error&){ threw=true; } if(!threw) c.fail(std::string(what)+" was accepted, but should be refused with std::logic_error"); };
  unsigned steps=2+s.below(24); int grew=0,shrunk=0;
  for(unsigned step=0; step<steps; step++){
    int op=s.below(20); std::string what;
    if(live.empty()) op=op%6;
    size_t k=live.empty()?0:s.below(live.size());
    switch(op){
      case 0: case 1:{ Ext e=gen_ext(s,R); int how=s.below(3); what="construct"+strv(e)+"/"+str(how);
        Pair p; p.m=Model<T>(e); 
        p.a.reset(how==0?ByList<R>::template make<A>(e):how==1?new A(e):new A(arr<R>(e)));
        PBT_CHECK(c,p.a->size()==prod(e),"size of a new array");
        expect_same(c,*p.a,p.m,"construction (elements value-initialised)");   // allocator_traits::construct value-initialises
        fillBoth(*p.a,p.m); live.push_back(std::move(p)); break; }
      case 2:{ Ext e=gen_ext(s,R); Pair p; p.a.reset(NoInit<T,R>::make(s,e)); if(!p.a){ p.a.reset(new A()); e=Ext(R,0); what="default construct"; } else what="no-init construct "+strv(e);
        p.m=Model<T>(e); fillBoth(*p.a,p.m); live.push_back(std::move(p)); break; }
      case 3:{ Ext e=gen_ext(s,R); Model<T> m(e); for(auto& x: m.v) x=fresh();
        int bad=s.chance(1,4)?1+s.below(2):0; what="construct from range "+strv(e)+(bad?" (wrong length)":"");
        std::vector<T> src=m.v; if(bad==1) src.push_back(fresh()); else if(bad==2){ if(src.empty()) src.push_back(fresh()); else src.pop_back(); }
        if(bad) { gone("a range of the wrong length",[&]{ std::unique_ptr<A> x(ByList<R>::template make<A>(e,src.begin(),src.end())); }); c.label("refused range"); break; }
        Pair p; p.m=m;
        if(s.boolean()) p.a.reset(ByList<R>::template make<A>(e,src.begin(),src.end())); else { std::list<T> l(src.begin(),src.end()); p.a.reset(ByList<R>::template make<A>(e,l.begin(),l.end())); }
        live.push_back(std::move(p)); break; }
      case 4:{ int sh=s.below(3); T x[8]; for(auto& y: x) y=fresh(); Ext is=Nested<T,R>::shape(sh),e=is; bool bad=s.chance(1,4); if(bad){ size_t d=s.below(R); e[d]+= (e[d]>1&&s.boolean())?-1:1; }
        what="construct from nested values "+strv(e)+" with values shaped "+strv(is);
        Ext dummy; if(bad){ gone("an initialiser of the wrong shape",[&]{ std::unique_ptr<A> a(Nested<T,R>::ctor(e,x,sh,dummy)); }); c.label("refused initialiser"); break; }
        Pair p; p.m=Model<T>(e); for(size_t i=0;i<p.m.v.size();i++) p.m.v[i]=x[i]; p.a.reset(Nested<T,R>::ctor(e,x,sh,dummy)); live.push_back(std::move(p)); break; }
      case 5:{ what="construct with the wrong number of extents"; Ext e(R+(s.boolean()||R==1?1:-1),2); gone("a wrong number of extents",[&]{ A x(e); }); break; }
      case 6:{ what="copy construct of #"+str(k); Pair p; p.m=live[k].m; p.a.reset(new A(*live[k].a)); live.push_back(std::move(p)); break; }
      case 7:{ what="move construct of #"+str(k); Pair p; p.m=live[k].m; p.a.reset(new A(std::move(*live[k].a))); live[k].m=Model<T>(Ext(R,0)); live.push_back(std::move(p)); break; }
      case 8:{ size_t j=s.below(live.size()); what="#"+str(k)+" = #"+str(j); A& r=(*live[k].a=*live[j].a); PBT_CHECK(c,&r==live[k].a.get(),"copy assignment returns its target"); live[k].m=Model<T>(live[j].m); break; }
      case 9:{ size_t j=s.below(live.size()); what="#"+str(k)+" = move(#"+str(j)+")"; 
        if(j==k){ A& self=*live[k].a; *live[k].a=std::move(self); break; }
        *live[k].a=std::move(*live[j].a); live[k].m=live[j].m;
        // the source is left valid: give it a fresh known value before going on
        live.erase(live.begin()+j); break; }
      case 10:{ size_t j=s.below(live.size()); what="swap #"+str(k)+" #"+str(j); live[k].a->swap(*live[j].a); if(j!=k) std::swap(live[k].m,live[j].m); break; }
      case 11:{ int sh=s.below(3); T x[8]; for(auto& y: x) y=fresh(); Ext is=Nested<T,R>::shape(sh); bool ok=is==live[k].m.ext; what="#"+str(k)+" = nested values "+strv(is);
        if(!ok && s.boolean()){ live[k].a.reset(new A(is)); live[k].m=Model<T>(is); ok=true; }
        if(!ok){ gone("assignment of values of the wrong shape",[&]{ Nested<T,R>::assign(*live[k].a,x,sh); }); break; }
        Nested<T,R>::assign(*live[k].a,x,sh); for(size_t i=0;i<live[k].m.v.size();i++) live[k].m.v[i]=x[i]; c.label("nested assignment"); break; }
      case 12: case 13:{ size_t d=s.below(R),pos=s.below(live[k].m.ext[d]+1),num=s.below(4); if(prod(live[k].m.ext)>300) break;
        bool dflt=s.chance(1,4); T v=dflt?T():fresh(); what="#"+str(k)+".insert(dim "+str(d)+", pos "+str(pos)+", num "+str(num)+")";
        if(dflt) live[k].a->insert(d,pos,num); else live[k].a->insert(d,pos,num,v); live[k].m.insert(d,pos,num,v); grew+=num>0&&prod(live[k].m.ext)>0; if(d>0&&pos>0&&num) c.label("inner insert"); break; }
      case 14: case 15:{ size_t d=s.below(R); if(!live[k].m.ext[d]) break; size_t pos=s.below(live[k].m.ext[d]),num=s.below(live[k].m.ext[d]-pos+1); what="#"+str(k)+".erase(dim "+str(d)+", pos "+str(pos)+", num "+str(num)+")";
        live[k].a->erase(d,pos,num); live[k].m.erase(d,pos,num); shrunk+=num>0; break; }
      case 16:{ size_t d=s.below(R),n=s.below(7); if(prod(live[k].m.ext)>300) n=1; what="#"+str(k)+".resize(dim "+str(d)+", "+str(n)+")"; if(n>live[k].m.ext[d]) grew++; else if(n<live[k].m.ext[d]) shrunk++; live[k].a->resize(d,n); live[k].m.resize(d,n); break; }
      case 17:{ Ext e=gen_ext(s,R); bool bad=s.chance(1,6); if(bad) e.push_back(1); what="#"+str(k)+".resize("+strv(e)+")";
        if(bad){ gone("a resize with the wrong number of extents",[&]{ live[k].a->resize(e); }); break; }
        if(s.boolean()) live[k].a->resize(e); else live[k].a->resize(arr<R>(e)); for(size_t d=0; d<R; d++) live[k].m.resize(d,e[d]); break; }
      case 18:{ Ext e=live[k].m.ext; // a permutation or merge of the extents keeps the total
        int how=s.below(3); if(how==0){ for(size_t i=R;i>1;i--) std::swap(e[i-1],e[s.below(i)]); } else if(how==1 && R>1){ size_t i=s.below(R),j=s.below(R); if(i!=j){ e[i]*=e[j]; e[j]=1; } } else if(how==2 && s.chance(1,3)){ /* same total modulo 2^32 */ size_t n=prod(e); std::fill(e.begin(),e.end(),1); e[s.below(R)]=n+((size_t)1<<32)*(1+s.below(3)); if(R>1 && n%8==0 && n && s.boolean()){ std::fill(e.begin(),e.end(),1); e[0]=n; e[R-1]=(((size_t)1<<32)/n)*1+1; if((((size_t)1<<32)%n)!=0) e[R-1]=n+2; } } else e=gen_ext(s,R);
        bool ok=prod(e)==prod(live[k].m.ext); if(s.chance(1,8)){ e.push_back(1); ok=false; } what="#"+str(k)+".reshape("+strv(e)+")";
        if(ok){ live[k].a->reshape(e); live[k].m.ext=e; c.label("reshape"); } else gone("a reshape that changes the total size",[&]{ live[k].a->reshape(e); });
        break; }
      case 19:{ what="write into #"+str(k); A& a=*live[k].a; auto& m=live[k].m; for(size_t i=0;i<m.v.size();i++) if(s.chance(1,3)){ T v=fresh(); m.v[i]=v; *(a.begin()+i)=v; } break; }
    }
    c.log(what);
    for(auto& p: live) expect_same(c,*p.a,p.m,what.c_str());
    if(live.size()>5){ live.erase(live.begin()+s.below(live.size())); }
  }
  c.nontrivial(grew>0 && shrunk>0);
  if(grew&&shrunk) c.label("grows and shrinks");
}
PBT_PROP(int_rank1,1){ history<int,1>(s,c); }
PBT_PROP(int_rank2,1){ history<int,2>(s,c); }
PBT_PROP(int_rank3,1){ history<int,3>(s,c); }
PBT_PROP(double_rank4,1){ history<double,4>(s,c); }
PBT_PROP(string_rank2,1){ history<std::string,2>(s,c); }
PBT_PROP(string_rank3,1){ history<std::string,3>(s,c); }
PBT_PROP(copyonly_rank2,1){ history<CopyOnly,2>(s,c); }
PBT_PROP(copyonly_rank3,1){ history<CopyOnly,3>(s,c); }
