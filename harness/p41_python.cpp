// P41: what is done from Python is what is done from C++
#include <boost/python.hpp>
#include "nu_atm.h"
#include "xs_gen.h"
#include "util.h"
using namespace pbt; using namespace nuref;
namespace bp=boost::python;
typedef nuSQUIDS N;
extern "C" PyObject* PyInit_nuSQuIDS();
template<unsigned D> static marray<double,D> back(marray<double,D> a){ return a; }
template<unsigned D> static bp::list extents(const marray<double,D>& a){ bp::list l; for(unsigned i=0;i<D;i++) l.append((double)a.extent(i)); return l; }
static std::vector<double> numbers(std::vector<double> v){ return v; }
static bp::list truths(std::vector<bool> v){ bp::list l; for(bool b: v) l.append(b?1.0:0.0); return l; }
BOOST_PYTHON_MODULE(probe){ bp::def("back1",back<1>); bp::def("back2",back<2>); bp::def("back3",back<3>); bp::def("back4",back<4>); bp::def("ext1",extents<1>); bp::def("ext2",extents<2>); bp::def("ext3",extents<3>); bp::def("ext4",extents<4>); bp::def("numbers",numbers); bp::def("truths",truths); }
static bp::object *nsq_,*np_,*probe_,*ns_;
static bp::object& nsq(){ return *nsq_; }
static const char* prelude=R"(
import numpy as np, sys
def refs(o): return sys.getrefcount(o)
def laid(vals,shape,dtype,layout):
    """an array of these values in one of several layouts; the second result is the same array in the plain one"""
    a=np.array(vals,dtype=np.float64).reshape(shape)
    p=a.astype(dtype)
    n=p.ndim
    if layout==0: b=p.copy()
    elif layout==1: b=np.asfortranarray(p)
    elif layout==2:
        q=np.zeros(tuple(2*e+1 for e in shape),dtype=dtype); q[...]=1; b=q[tuple(slice(0,2*e,2) for e in shape)]; b[...]=p
    elif layout==3: b=p[tuple(slice(None,None,-1) for e in shape)].copy()[tuple(slice(None,None,-1) for e in shape)]
    elif layout==4: b=np.ascontiguousarray(p.T).T
    elif layout==5: b=p.astype(p.dtype.newbyteorder())
    elif layout==6:
        raw=b'x'+p.tobytes(); b=np.frombuffer(raw,dtype=p.dtype,offset=1,count=p.size).reshape(shape)
    elif layout==7: b=p.copy(); b.flags.writeable=False
    elif layout==8:
        b=np.broadcast_to(p[tuple(slice(0,1) for e in shape)] if p.size else p,shape); p=b.copy()
    elif layout==9:
        q=np.zeros(shape,dtype=[('a','u1'),('v',p.dtype)]); q['v']=p; b=q['v']
    elif layout==10: b=p[::-1][::-1].astype(p.dtype.newbyteorder())[...,::1]
    else:
        axes=tuple(range(1,n))+(0,); inv=tuple(np.argsort(axes)); b=np.ascontiguousarray(p.transpose(axes)).transpose(inv)
    assert b.shape==tuple(shape) and np.array_equal(b,p)
    return b,[float(x) for x in p.ravel(order='C').tolist()]
def flat(a): return [float(x) for x in np.asarray(a).ravel(order='C').tolist()]
def isarr(a,d): return isinstance(a,np.ndarray) and a.dtype==np.float64 and a.ndim==d
def kind(vals,k):
    if k==0: return list(vals)
    if k==1: return tuple(vals)
    if k==2: return np.array(vals,dtype=np.float64)
    if k==3: return [np.float64(x) for x in vals]
    if k==4: return range(len(vals))
    if k==5: return [int(x) for x in vals]
    return [np.int32(int(x)).item() if i%2 else float(int(x)) for i,x in enumerate(vals)]
class Seq:
    def __init__(s,v): s.v=v
    def __len__(s): return len(s.v)
    def __getitem__(s,i): return s.v[i]
def masks(vals,k):
    if k==0: return [bool(x) for x in vals]
    if k==1: return tuple(bool(x) for x in vals)
    if k==2: return np.array(vals,dtype=bool)
    if k==3: return [int(x)*5 for x in vals]
    return Seq([bool(x) for x in vals])
def junk(k):
    return [None,"a",1j,object(),{},[None],b"xx",{"q":2},["a"],lambda: 1][k]
def badarray(k,d):
    s=(2,)*d
    return [np.ones((2,)*(d+1)),np.ones((2,)*(d-1)),np.ones(s,dtype=complex),np.ones(s,dtype=object),np.full(s,'a'),np.ones(s,dtype=np.float16),np.ones(s,dtype=np.longdouble),np.zeros(s,dtype='M8[s]'),[[1.0]*2]*2 if d==2 else [1.0]*2,None,3.0,np.zeros(s,dtype=[('a','f8')])][k]
)";
static void stop(const char* w){ PyErr_Print(); fprintf(stderr,"python: %s\n",w); _exit(3); }
extern "C" void pbt_prepare(){
  PyImport_AppendInittab("nuSQuIDS",PyInit_nuSQuIDS); PyImport_AppendInittab("probe",PyInit_probe); Py_InitializeEx(0);
  try{ bp::object sys=bp::import("sys"); sys.attr("path").attr("insert")(0,"/opt/veriftools/pyvenv/lib/python3.12/site-packages"); sys.attr("dont_write_bytecode")=true;
    np_=new bp::object(bp::import("numpy")); nsq_=new bp::object(bp::import("nuSQuIDS")); probe_=new bp::object(bp::import("probe"));
    bp::object d=bp::import("__main__").attr("__dict__"); bp::exec(prelude,d,d); ns_=new bp::object(d); }catch(const bp::error_already_set&){ stop("setup"); } }
static bp::object helper(const char* n){ return (*ns_)[n]; }
// the outcome of one call
struct R{ bool refused=false; std::string err; bp::object v; double num() const{ return bp::extract<double>(v)(); } };
static std::string pyerr(){ PyObject *t=0,*v=0,*b=0; PyErr_Fetch(&t,&v,&b); PyErr_NormalizeException(&t,&v,&b); std::string s= t?((PyTypeObject*)t)->tp_name:"?"; if(v){ PyObject* o=PyObject_Str(v); if(o){ const char* u=PyUnicode_AsUTF8(o); if(u) s+=std::string(": ")+u; Py_DECREF(o); } } PyErr_Clear(); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); for(char& c: s) if(c=='\n') c=' '; return s.substr(0,200); }
template<typename F> static R attempt(F f){ R r; try{ r.v=f(); }catch(const bp::error_already_set&){ r.refused=true; r.err=pyerr(); } return r; }
template<typename... A> static R call(const bp::object& o,const char* n,A... a){ return attempt([&]{ return bp::object(o.attr(n)(a...)); }); }
template<typename... A> static bp::object must(Case& c,const bp::object& o,const char* n,A... a){ R r=call(o,n,a...); if(r.refused) c.fail(std::string(n)+" refused from Python: "+r.err); return r.v; }
template<typename F> static bool throws_(F f){ try{ f(); return false; }catch(const std::exception&){ return true; } }
static V list(const bp::object& o){ V r; bp::object l=helper("flat")(o); for(ssize_t i=0,n=bp::len(l);i<n;i++) r.push_back(bp::extract<double>(l[i])()); return r; }
static bp::list pylist(const V& v){ bp::list l; for(double x: v) l.append(x); return l; }
static bp::object array(Src& s,const V& v,const std::vector<size_t>& shape){ bp::list sh; for(size_t e: shape) sh.append(e); int layout=(int)s.below(12); if(layout==8) layout=0; return bp::object(helper("laid")(pylist(v),bp::tuple(sh),"float64",layout))[0]; }
static bool same(const V& a,const V& b,size_t& at){ at=(size_t)-1; if(a.size()!=b.size()) return false; for(at=0;at<a.size();at++) if(!same(a[at],b[at])) return false; return true; }

// arrays and lists on their way in and out
PBT_PROP(arrays,12){
  static const char* types[]={"float64","float32","int64","int32","int16","int8","uint8","uint16","uint32","uint64","bool","long","longlong","ulonglong"};
  unsigned D=(unsigned)s.range(1,4); std::vector<size_t> shape; size_t n=1; bp::list sh; for(unsigned i=0;i<D;i++){ shape.push_back(s.chance(1,12)?0:(size_t)s.range(1,4)); n*=shape.back(); sh.append(shape.back()); }
  int t=(int)s.below(14),layout=(int)s.below(12); bool uns=types[t][0]=='u',bo=types[t][0]=='b'; V vals;
  for(size_t i=0;i<n;i++){ double v; if(t==0) v=s.anyfinite(); else if(t==1) v=(float)s.real(-1e6,1e6); else if(bo) v=s.below(2); else{ v=s.pick({(double)s.range(-128,127),(double)i,1.0,-2.0}); if(t==2||t==11||t==12) v=s.chance(1,4)?v*1e12:v; if(t==3) v=s.chance(1,4)?v*1e6:v; if(t==4) v=s.chance(1,4)?v*200:v; if(uns) v=std::fabs(v); if(t==9||t==13) v=s.chance(1,4)?v*1e15:v; if(t==8) v=s.chance(1,4)?v*3e7:v; if(t==7) v=s.chance(1,4)?v*500:v; } vals.push_back(v); }
  c.log(std::string(types[t])+" "+strv(shape)+fmt(" layout %d ",layout)+strv(vals,12));
  bp::object pair=helper("laid")(pylist(vals),bp::tuple(sh),types[t],layout),a=pair[0]; V want=list(pair[1]);
  long before=bp::extract<long>(helper("refs")(a)); std::string d=std::to_string(D);
  if(t>=12&&call(*probe_,("back"+d).c_str(),a).refused){ c.label("refused type"); return; } // a type of its own to NumPy
  bp::object r=must(c,*probe_,("back"+d).c_str(),a),e=must(c,*probe_,("ext"+d).c_str(),a);
  long after=bp::extract<long>(helper("refs")(a)); PBT_CHECK(c,before==after,fmt("an array came out with %ld references and had %ld",after,before));
  PBT_CHECK(c,bp::extract<bool>(helper("isarr")(r,D)),"what comes back is no array of doubles of these dimensions");
  V ex=list(e); for(unsigned i=0;i<D;i++) PBT_CHECK(c,ex[i]==(double)shape[i],fmt("extent %u is %g instead of %zu",i,ex[i],shape[i]));
  V rs=list(r.attr("shape")); for(unsigned i=0;i<D;i++) PBT_CHECK(c,rs[i]==(double)shape[i],"the shape of the array returned");
  V got=list(r); PBT_CHECK(c,got.size()==want.size(),"number of values"); for(size_t i=0;i<got.size();i++) if(!same(got[i],want[i])||std::signbit(got[i])!=std::signbit(want[i])) c.fail(fmt("entry %zu of the array is %.17g instead of %.17g",i,got[i],want[i]));
  V still=list(a); PBT_CHECK(c,still.size()==want.size()&&std::equal(want.begin(),want.end(),still.begin(),[](double x,double y){ return same(x,y); }),"the array itself was changed");
  for(unsigned o=1;o<=4;o++) if(o!=D){ R x=call(*probe_,("back"+std::to_string(o)).c_str(),a); PBT_CHECK(c,x.refused,fmt("an array of %u dimensions was taken for one of %u",D,o)); }
  int k=(int)s.below(12); bp::object bad=helper("badarray")(k,D); c.log(fmt("bad %d",k)); if(!(k==1&&D==1)){ R x=call(*probe_,("back"+d).c_str(),bad); PBT_CHECK(c,x.refused,fmt("unsuitable argument %d was accepted as an array",k)); }
  c.label(types[t]); c.label(fmt("layout %d",layout)); c.label(fmt("%u dimensions",D)); c.nontrivial(n>1); }
PBT_PROP(lists,4){
  size_t n=s.below(7); V v; int k=(int)s.below(7); for(size_t i=0;i<n;i++) v.push_back(k==4?(double)i:k>=5?(double)s.range(-1000,1000):s.anyfinite()); c.log(fmt("kind %d ",k)+strv(v));
  bp::object l=helper("kind")(pylist(v),k); long before=bp::extract<long>(helper("refs")(l)); bp::object r=must(c,*probe_,"numbers",l); long after=bp::extract<long>(helper("refs")(l)); PBT_CHECK(c,before==after,"references to a list");
  PBT_CHECK(c,PyList_Check(r.ptr()),"numbers do not come back as a list"); V g=list(r); size_t at; PBT_CHECK(c,same(g,v,at),"the numbers of a list are "+strv(g));
  V b; for(size_t i=0;i<n;i++) b.push_back(s.below(2)); int m=(int)s.below(5); c.log(fmt("truths %d ",m)+strv(b)); bp::object t=helper("masks")(pylist(b),m); V h=list(must(c,*probe_,"truths",t)); PBT_CHECK(c,same(h,b,at),"the truths of a list are "+strv(h));
  int j=(int)s.below(10); bp::object bad=helper("junk")(j); if(j!=4){ R x=call(*probe_,"numbers",bad); PBT_CHECK(c,x.refused,fmt("unsuitable argument %d was accepted as numbers",j)); }
  c.nontrivial(n>1); }

// bodies and tracks, made twice
struct Leg{ std::shared_ptr<Body> b; std::shared_ptr<Track> t; bp::object pb,pt; std::string s; };
// kind 0 vacuum, 1 constant, 2 variable, 3 Earth, 4 Sun, 5 SunASnu, 6 EarthAtm
static Leg genLeg(Src& s,Case& c,double L,double rho,int kinds){
  Leg l; int kind=(int)s.below(kinds); double x0=s.boolean()?0:s.real(0,1)*L,x1=x0+L*s.real(0.3,1),ye=s.real(0.05,0.95); bool rev=s.chance(1,10),one=x0==0&&s.boolean(); const double km=U0.km;
  auto two=[&](bp::object k){ return one? k.attr("Track")(x1): k.attr("Track")(x0,x1); };
  try{
  if(kind==0){ l.b=std::make_shared<Vacuum>(); l.pb=nsq().attr("Vacuum")(); if(one) l.t=std::make_shared<Vacuum::Track>(x1); else l.t=std::make_shared<Vacuum::Track>(x0,x1); l.pt=two(nsq().attr("Vacuum")); l.s="vacuum"; }
  else if(kind==1){ l.b=std::make_shared<ConstantDensity>(rho,ye); l.pb=nsq().attr("ConstantDensity")(rho,ye); if(one) l.t=std::make_shared<ConstantDensity::Track>(x1); else l.t=std::make_shared<ConstantDensity::Track>(x0,x1); l.pt=two(nsq().attr("ConstantDensity")); l.s=fmt("constant %g %g",rho,ye); }
  else if(kind==2){ V x,r,y; unsigned m=(unsigned)s.range(4,8); for(unsigned j=0;j<m;j++){ x.push_back(x1/U0.cm*1.01*j/(m-1)); r.push_back(rho*s.real(0.1,1)); y.push_back(s.real(0.2,0.6)); } l.b=std::make_shared<VariableDensity>(x,r,y); int k=(int)s.below(4); l.pb=nsq().attr("VariableDensity")(helper("kind")(pylist(x),k),helper("kind")(pylist(r),k==2?0:k),helper("kind")(pylist(y),0)); if(one) l.t=std::make_shared<VariableDensity::Track>(x1); else l.t=std::make_shared<VariableDensity::Track>(x0,x1); l.pt=two(nsq().attr("VariableDensity")); l.s="variable "+strv(r,8); }
  else if(kind==3){ double base=s.real(50,12742)*km,a=0,b=std::min(base,std::max(L*s.real(0.3,1),km)); if(one) b=base,a=0; else if(s.boolean()) a=b*s.real(0,0.5); if(one&&base>3*L) one=false; l.b=std::make_shared<nusquids::Earth>(); l.pb=nsq().attr("Earth")(); if(one){ l.t=std::make_shared<nusquids::Earth::Track>(base); l.pt=nsq().attr("Earth").attr("Track")(base); } else{ l.t=std::make_shared<nusquids::Earth::Track>(a,b,base); l.pt=nsq().attr("Earth").attr("Track")(a,b,base); } x0=a; x1=b; l.s=fmt("Earth baseline %g km",base/km); }
  else if(kind==4){ double b=std::min(x1,690000*km),a=std::min(x0,0.5*b); l.b=std::make_shared<nusquids::Sun>(); l.pb=nsq().attr("Sun")(); if(one) l.t=std::make_shared<nusquids::Sun::Track>(b); else l.t=std::make_shared<nusquids::Sun::Track>(a,b); l.pt=one?nsq().attr("Sun").attr("Track")(b):nsq().attr("Sun").attr("Track")(a,b); l.s="Sun"; }
  else if(kind==5){ double imp=s.real(0,0.9)*694439*km,lmax=2*std::sqrt(std::pow(694439*km,2)-imp*imp),a=lmax-std::min(x1-x0,0.99*lmax); bool full=one&&lmax<3*L; l.b=std::make_shared<SunASnu>(); l.pb=nsq().attr("SunASnu")(); bp::object T=nsq().attr("SunASnu").attr("Track"); if(full){ l.t=std::make_shared<SunASnu::Track>(imp); l.pt=T(imp); } else if(one){ l.t=std::make_shared<SunASnu::Track>(a,a,imp); l.pt=T(a,a,imp); } else{ l.t=std::make_shared<SunASnu::Track>(a,imp); l.pt=T(a,imp); } l.s=fmt("SunASnu impact %g",imp/km); }
  else{ auto e=std::make_shared<EarthAtm>(); l.b=e; l.pb=nsq().attr("EarthAtm")(); if(s.boolean()){ double h=s.real(1,60); e->SetAtmosphereHeight(h); must(c,l.pb,"SetAtmosphereHeight",h); l.s+=fmt(" height %g",h); } double cz=s.real(-0.2,1); if(s.boolean()) cz=-cz; l.s="EarthAtm "+l.s+fmt(" cos %g",cz);
    bp::object pb=l.pb; switch(s.below(4)){ case 0: l.t=std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(cz)); l.pt=must(c,pb,"MakeTrackWithCosine",cz); break; case 1: l.t=std::make_shared<EarthAtm::Track>(e->MakeTrack(std::acos(cz))); l.pt=must(c,pb,"MakeTrack",std::acos(cz)); break; case 2: l.t=std::make_shared<EarthAtm::Track>(std::acos(cz),e->GetRadius()*1.0,e->GetAtmosphereHeight()*1.0); l.pt=nsq().attr("EarthAtm").attr("Track")(std::acos(cz),must(c,pb,"GetRadius"),must(c,pb,"GetAtmosphereHeight")); break; default:{ l.t=std::make_shared<EarthAtm::Track>(0.0,std::acos(cz),e->GetRadius()*1.0,e->GetAtmosphereHeight()*1.0); l.pt=nsq().attr("EarthAtm").attr("Track")(0.0,std::acos(cz),must(c,pb,"GetRadius"),must(c,pb,"GetAtmosphereHeight")); } } }
  if(rev){ l.t->ReverseTrack(); must(c,l.pt,"ReverseTrack"); l.s+=" reversed"; }
  }catch(const bp::error_already_set&){ c.fail(l.s+": a body or a track cannot be made from Python: "+pyerr()); }
  l.s+=fmt(" %g..%g",x0,x1); c.log(l.s); return l; }
PBT_PROP(bodies,4){
  const double km=U0.km; Leg l=genLeg(s,c,s.logreal(10,2e4)*km,s.real(0,13),7); const Track& t=*l.t; double a=t.GetInitialX(),b=t.GetFinalX();
  for(int i=0;i<5;i++){ if(i){ double x=i==1?a:i==2?b:a+(b-a)*s.unit(); l.t->SetX(x); must(c,l.pt,"SetX",x); }
    V want{t.GetInitialX(),t.GetFinalX(),t.GetX(),l.b->density(t),l.b->ye(t)},got{bp::extract<double>(must(c,l.pt,"GetInitialX")),bp::extract<double>(must(c,l.pt,"GetFinalX")),bp::extract<double>(must(c,l.pt,"GetX")),bp::extract<double>(must(c,l.pb,"density",l.pt)),bp::extract<double>(must(c,l.pb,"ye",l.pt))}; size_t at;
    if(!same(got,want,at)) c.fail(fmt("%s from Python is %.17g instead of %.17g",(const char*[]){"GetInitialX","GetFinalX","GetX","density","ye"}[at],got[at],want[at])); }
  if(auto e=std::dynamic_pointer_cast<EarthAtm>(l.b)){ PBT_CHECK(c,same(e->GetRadius(),bp::extract<double>(must(c,l.pb,"GetRadius"))()),"GetRadius"); PBT_CHECK(c,same(e->GetAtmosphereHeight(),bp::extract<double>(must(c,l.pb,"GetAtmosphereHeight"))()),"GetAtmosphereHeight"); }
  // the same object inside
  std::shared_ptr<Track> u=bp::extract<std::shared_ptr<Track>>(l.pt)(); PBT_CHECK(c,u->GetX()==t.GetX()&&std::string(typeid(*u).name())==typeid(t).name(),"another kind of track");
  c.label(l.s.substr(0,l.s.find(' '))); c.nontrivial(true); }

// two objects with one history
static V report(N& nu,unsigned n,bool single){ V r; auto E=nu.GetERange(); for(size_t i=0;i<E.size();i++) r.push_back(E[i]); r.push_back(nu.GetNumE()); r.push_back(nu.GetNumNeu()); r.push_back(nu.GetNumRho()); r.push_back(nu.GetUseInteractions()); r.push_back(nu.GetUseOscillations()); r.push_back(nu.Get_NeutrinoSources());
  for(unsigned j=1;j<n;j++){ r.push_back(nu.Get_SquareMassDifference(j)); for(unsigned i=0;i<j;i++){ r.push_back(nu.Get_MixingAngle(i,j)); r.push_back(nu.Get_CPPhase(i,j)); } } (void)single; return r; }
static V hidden(N& nu){ return {nu.Get_h(),nu.Get_rel_error(),nu.Get_abs_error(),nu.Get_GSL_DifferentialCrossSection_Integrator_Precision()}; }
static V pyreport(Case& c,const bp::object& o,unsigned n){ V r=list(must(c,o,"GetERange")); auto get=[&](bp::object v){ r.push_back(bp::extract<double>(v)()); }; get(must(c,o,"GetNumE")); get(must(c,o,"GetNumNeu")); get(must(c,o,"GetNumRho")); get(must(c,o,"GetUseInteractions")); get(must(c,o,"GetUseOscillations")); get(must(c,o,"Get_NeutrinoSources"));
  for(unsigned j=1;j<n;j++){ get(must(c,o,"Get_SquareMassDifference",j)); for(unsigned i=0;i<j;i++){ get(must(c,o,"Get_MixingAngle",i,j)); get(must(c,o,"Get_CPPhase",i,j)); } } return r; }
struct Probe{ unsigned f; double E; unsigned rho; double scale; size_t node; V mask; int how; bool one; };
static Probe genProbe(Src& s,const Setup& p){ Probe q; q.f=(unsigned)s.below(p.n); q.rho=(unsigned)s.below(p.nrho()); q.node=s.below(p.E.size()); q.E=p.E[0]+(p.E.back()-p.E[0])*s.unit(); q.scale=s.pick({0.0,1.0,10.0,1e6}); for(unsigned i=0;i<p.n;i++) q.mask.push_back(s.below(2)); q.how=(int)s.below(5); q.one=s.boolean(); return q; }
static V evaluations(N& nu,const Setup& p,const Probe& q){ V r; std::vector<bool> m(p.n); for(unsigned i=0;i<p.n;i++) m[i]=q.mask[i]; auto vec=[&](const squids::SU_vector& v){ for(double x: v.GetComponents()) r.push_back(x); };
  if(p.single){ r.push_back(nu.EvalFlavor(q.f)); r.push_back(nu.EvalMass(q.f)); vec(nu.GetState(0)); r.push_back(nu.EvalFlavor(q.f,q.scale,m)); vec(nu.GetHamiltonian(0,0)); }
  else{ r.push_back(nu.EvalFlavor(q.f,q.E,q.rho)); r.push_back(nu.EvalMass(q.f,q.E,q.rho)); r.push_back(nu.EvalFlavorAtNode(q.f,q.node,q.rho)); r.push_back(nu.EvalMassAtNode(q.f,q.node,q.rho)); vec(q.rho||q.one?nu.GetState(q.node,q.rho):nu.GetState(q.node)); r.push_back(nu.EvalFlavor(q.f,q.E,q.rho,q.scale,m)); vec(nu.GetHamiltonian(q.node,q.rho)); }
  auto t=nu.GetTrack(); r.push_back(t->GetX()); r.push_back(t->GetInitialX()); r.push_back(t->GetFinalX()); r.push_back(nu.GetBody()->density(*t)); r.push_back(nu.GetBody()->ye(*t)); return r; }
static V pyevaluations(Case& c,const bp::object& o,const Setup& p,const Probe& q){ V r; auto get=[&](bp::object v){ r.push_back(bp::extract<double>(v)()); }; auto vec=[&](bp::object v){ for(double x: list(must(c,v,"GetComponents"))) r.push_back(x); }; bp::object m=helper("masks")(pylist(q.mask),q.how); size_t node=q.node;
  if(p.single){ get(must(c,o,"EvalFlavor",q.f)); get(must(c,o,"EvalMass",q.f)); vec(must(c,o,"GetState",0)); get(must(c,nsq(),"EvalFlavor",o,q.f,q.scale,m)); vec(must(c,o,"GetHamiltonian",0,0)); }
  else{ get(must(c,o,"EvalFlavor",q.f,q.E,q.rho)); get(must(c,o,"EvalMass",q.f,q.E,q.rho)); get(must(c,o,"EvalFlavorAtNode",q.f,node,q.rho)); get(must(c,o,"EvalMassAtNode",q.f,node,q.rho)); vec(q.rho||q.one?must(c,o,"GetState",node,q.rho):must(c,o,"GetState",node)); get(must(c,nsq(),"EvalFlavor",o,q.f,q.E,q.rho,q.scale,m)); vec(must(c,o,"GetHamiltonian",node,q.rho)); }
  bp::object t=must(c,o,"GetTrack"); get(must(c,t,"GetX")); get(must(c,t,"GetInitialX")); get(must(c,t,"GetFinalX")); get(must(c,must(c,o,"GetBody"),"density",t)); get(must(c,must(c,o,"GetBody"),"ye",t)); return r; }
static void agree(Case& c,const V& want,const V& got,const std::string& what){ size_t at; if(same(got,want,at)) return; if(at==(size_t)-1) c.fail(what+fmt(": %zu numbers instead of %zu",got.size(),want.size())); else c.fail(what+fmt(": number %zu is %.17g instead of %.17g",at,got[at],want[at])); }
static bp::object pyenum(const char* e,const char* v){ return nsq().attr(e).attr(v); }
static bp::object pytype(NeutrinoType t){ return pyenum("NeutrinoType",t==neutrino?"neutrino":t==antineutrino?"antineutrino":"both"); }
static bp::object pybasis(Basis b){ return pyenum("Basis",b==mass?"mass":b==flavor?"flavor":"interaction"); }
static const gsl_odeiv2_step_type* const steps(int i){ const gsl_odeiv2_step_type* t[]={gsl_odeiv2_step_rk2,gsl_odeiv2_step_rk4,gsl_odeiv2_step_rkf45,gsl_odeiv2_step_rkck,gsl_odeiv2_step_rk8pd,gsl_odeiv2_step_msadams}; return t[i]; }
static const char* const stepName(int i){ const char* t[]={"GSL_STEP_RK2","GSL_STEP_RK4","GSL_STEP_RKF45","GSL_STEP_RKCK","GSL_STEP_RK8PD","GSL_STEP_MSADAMS"}; return t[i]; }
static bp::object pyinitial(Src& s,const Setup& p,const Init& in){ V v; std::vector<size_t> sh; if(!p.single) sh.push_back(p.E.size()); if(p.NT==both&&!p.single) sh.push_back(2); sh.push_back(p.n); for(auto& e: in.v) for(auto& r: e) for(double x: r) v.push_back(x); return array(s,v,sh); }
// one option for both; returns its name
template<typename O> static std::string option(Src& s,Case& c,O& a,const bp::object& b,const Setup& p,const Cascade& k,double L,double w,double scale,bool atm){
  #define BOTH(name,...) { bool ta=throws_([&]{ a.name(__VA_ARGS__); }); R r=call(b,#name,##__VA_ARGS__); if(ta!=r.refused) c.fail(std::string(#name)+": refused only from "+(ta?"C++":"Python: "+r.err)); what=#name; }
  std::string what; unsigned i=(unsigned)s.below(p.n+1),j=(unsigned)s.below(p.n+1); if(s.chance(4,5)){ j=1+j%(p.n-1); i=i%j; }
  switch(s.below(17)){
    case 0:{ double x=s.real(0,1.5); BOTH(Set_MixingAngle,i,j,x) break; } case 1:{ double x=s.real(0,6); BOTH(Set_CPPhase,i,j,x) break; } case 2:{ double x=p.dm[1]*s.real(0.5,1.2); BOTH(Set_SquareMassDifference,j,x) break; }
    case 3: BOTH(Set_MixingParametersToDefault) p.parameters(a); for(unsigned j=1;j<p.n;j++){ must(c,b,"Set_SquareMassDifference",j,p.dm[j]); for(unsigned i=0;i<j;i++){ must(c,b,"Set_MixingAngle",i,j,p.th[i][j]); must(c,b,"Set_CPPhase",i,j,p.del[i][j]); } } break;
    case 4:{ double x=s.logreal(1e-6,1e-3),y=x*scale; BOTH(Set_rel_error,x) BOTH(Set_abs_error,y) break; }
    case 5:{ double x=L*s.real(0.03,0.3); BOTH(Set_h_max,x) double h=x*s.real(0.1,1); BOTH(Set_h,h) break; }
    case 6:{ double x=L*s.logreal(1e-9,1e-7); BOTH(Set_h_min,x) break; }
    case 7:{ int i=(int)s.below(6); a.Set_GSL_step(steps(i)); must(c,b,"Set_GSL_step",pyenum("GSL_STEP_FUNCTIONS",stepName(i))); what=stepName(i); break; }
    case 8:{ double x=s.logreal(0.01,1)*w; BOTH(Set_EvolLowPassCutoff,x) double y=x/3; BOTH(Set_EvolLowPassScale,y) break; }
    case 9:{ bool x=s.boolean(); if(k.on) BOTH(Set_TauRegeneration,x) break; } case 10:{ bool x=s.boolean(); if(k.on) BOTH(Set_GlashowResonance,x) break; }
    case 11:{ bool x=s.boolean(); BOTH(Set_IncludeOscillations,x) break; } case 12:{ bool x=s.boolean(); BOTH(Set_AllowConstantDensityOscillationOnlyEvolution,x) break; }
    case 13:{ BOTH(Set_ProgressBar,false) break; }
    case 14:{ bool x=s.boolean(); double y=L*s.real(0.1,1); a.Set_PositivityConstrain(x); a.Set_PositivityConstrainStep(y); must(c,b,atm?"Set_PositivyConstrain":"Set_PositivityConstrain",x); must(c,b,atm?"Set_PositivyConstrainStep":"Set_PositivityConstrainStep",y); what="positivity"; break; }
    case 15:{ R r=call(b,"Set_MixingAngle",s.pick({-1,0}),s.pick<const char*>({"1","x"}),0.1); PBT_CHECK(c,r.refused,"a word was accepted as an index"); r=call(b,"Set_rel_error",helper("junk")((int)s.below(10))); PBT_CHECK(c,r.refused,"nonsense was accepted as a precision"); what="nonsense"; break; }
    default:{ R r=call(b,"Set_MixingAngle",-1,1,0.1); PBT_CHECK(c,r.refused,"a negative index was accepted"); what="negative"; } }
  return what; }
static bp::object pylibrary(Case& c,const Cascade& k){ bp::object l=nsq().attr("CrossSectionLibrary")(); auto add=[&](const char* t,PDGCode code,const TestXS& x){ PBT_CHECK(c,!bp::extract<bool>(must(c,l,"hasTarget",pyenum("PDGCode",t)))(),"a target before it was added"); must(c,l,"addTarget",code,sxs(x)); PBT_CHECK(c,bp::extract<bool>(must(c,l,"hasTarget",pyenum("PDGCode",t)))(),"a target added is not there"); R r=call(l,"addTarget",pyenum("PDGCode",t),sxs(x)); PBT_CHECK(c,r.refused,"a target was added twice"); };
  if(k.perNucleon){ add("proton",proton,k.pr); add("neutron",neutron,k.ne); } add("isoscalar_nucleon",isoscalar_nucleon,k.iso); add("electron",electron,k.el); return l; }
struct Rm{ std::string f; ~Rm(){ ::unlink(f.c_str()); } };
PBT_PROP(history,12){
  What q=genWhat(s,s.boolean()); const Setup& p=q.p; c.log(q.p.str()+(q.k.on?q.k.str():"")+" init "+q.in.str()); std::unique_ptr<N> a; bp::object b; double L=q.L;
  try{ if(p.single){ a.reset(new N(p.n,p.NT)); b=nsq().attr("nuSQUIDS")(p.n,pytype(p.NT)); a->Set_E(p.E[0]); must(c,b,"Set_E",p.E[0]); }
    else{ bp::object E=array(s,p.E,{p.E.size()}); int how=(int)s.below(3); if(q.k.on){ a.reset(new N(p.energies(),p.n,p.NT,true,q.k.library())); b=nsq().attr("nuSQUIDS")(E,p.n,pytype(p.NT),true,pylibrary(c,q.k)); }
      else if(how==0&&p.NT==both){ a.reset(new N(p.energies(),p.n)); b=nsq().attr("nuSQUIDS")(E,p.n); } else if(how==1){ a.reset(new N(p.energies(),p.n,p.NT)); b=nsq().attr("nuSQUIDS")(E,p.n,pytype(p.NT)); } else{ a.reset(new N(p.energies(),p.n,p.NT,false)); b=nsq().attr("nuSQUIDS")(E,p.n,pytype(p.NT),false); } }
  }catch(const bp::error_already_set&){ c.fail("cannot be made from Python: "+pyerr()); }
  p.parameters(*a); for(unsigned j=1;j<p.n;j++){ must(c,b,"Set_SquareMassDifference",j,p.dm[j]); for(unsigned i=0;i<j;i++){ must(c,b,"Set_MixingAngle",i,j,p.th[i][j]); must(c,b,"Set_CPPhase",i,j,p.del[i][j]); } }
  precision(*a,1e-4,q.in.scale); must(c,b,"Set_rel_error",1e-4); must(c,b,"Set_abs_error",1e-4*q.in.scale);
  auto inside=[&]()->N&{ return bp::extract<N&>(b)(); };
  auto check=[&](bool state,const std::string& when){ V w=report(*a,p.n,p.single); agree(c,w,report(inside(),p.n,p.single),when+": the object inside"); agree(c,w,pyreport(c,b,p.n),when+": from Python"); agree(c,hidden(*a),hidden(inside()),when+": numerics");
    if(state){ Probe r=genProbe(s,p); V e=evaluations(*a,p,r); agree(c,e,evaluations(inside(),p,r),when+": evaluations inside"); agree(c,e,pyevaluations(c,b,p,r),when+fmt(": evaluations from Python (flavor %u, E %.17g, rho %u, node %zu, scale %g)",r.f,r.E,r.rho,r.node,r.scale)); } };
  check(false,"made"); bool state=false; unsigned legs=0,files=0; std::string last; bool light=q.k.on;
  for(unsigned step=0,ns=(unsigned)s.range(2,9);step<ns;step++){ int k=(int)s.below(10);
    if(k<=2){ last=option(s,c,*a,b,p,q.k,L,q.w,q.in.scale,false); c.log(last); if(last=="Set_MixingAngle"||last=="Set_CPPhase"||last=="Set_SquareMassDifference"||last=="Set_MixingParametersToDefault") state=false; check(state,last); }
    else if(k==3){ bool x=s.boolean(); a->Set_AdaptiveStep(x); must(c,b,"Set_AdaptiveStep",x); bool y=s.boolean(); a->Set_NeutrinoSources(y); must(c,b,"Set_NeutrinoSources",y); a->Set_Debug(false); must(c,b,"Set_Debug",false); bool pos=s.boolean(); Basis ba=pos?mass:interaction; bool ta=throws_([&]{ a->Set_Basis(ba); }); R r=call(b,"Set_Basis",pybasis(ba)); PBT_CHECK(c,ta==r.refused,"Set_Basis refused by one"); c.log(fmt("adaptive %d sources %d basis %d",x,y,(int)ba)); state=false; check(false,"settings"); }
    else if(k<=7||!state){ Leg l=genLeg(s,c,light?L/2:L,q.rho,light?3:6); a->Set_Body(l.b); must(c,b,"Set_Body",l.pb); a->Set_Track(l.t); must(c,b,"Set_Track",l.pt);
      if(!state||s.chance(1,4)){ bp::object v=pyinitial(s,p,q.in); if(q.in.basis==flavor&&s.boolean()){ setInitial(*a,p,q.in); must(c,b,"Set_initial_state",v); } else{ setInitial(*a,p,q.in); must(c,b,"Set_initial_state",v,pybasis(q.in.basis)); } state=true; check(true,"initial state"); }
      bool ta=throws_([&]{ a->EvolveState(); }); R r=call(b,"EvolveState"); c.log(ta?"refused":"evolved"); if(ta!=r.refused) c.fail(std::string("EvolveState refused only from ")+(ta?"C++":"Python: "+r.err)); if(ta){ c.label("refused"); return; } legs++; check(true,"evolved"); }
    else if(k==8){ Rm f1{workdir()+fmt("/a%d.h5",(int)getpid())},f2{workdir()+fmt("/b%d.h5",(int)getpid())}; std::string g=s.pick<std::string>({"/","/g"}); bool xs=s.boolean(); int args=(int)s.below(5); c.log(fmt("files %s %d args %d",g.c_str(),xs,args)); std::string loc=s.boolean()?"":"/xs"; if(args<4) loc="";
      bool ta=throws_([&]{ switch(args){ case 0: a->WriteStateHDF5(f1.f); break; case 1: a->WriteStateHDF5(f1.f,g); break; case 2: a->WriteStateHDF5(f1.f,g,xs); break; case 3: a->WriteStateHDF5(f1.f,g,xs,""); break; default: a->WriteStateHDF5(f1.f,g,xs,loc,true); } });
      R r=args==0?call(b,"WriteStateHDF5",f2.f):args==1?call(b,"WriteStateHDF5",f2.f,g):args==2?call(b,"WriteStateHDF5",f2.f,g,xs):args==3?call(b,"WriteStateHDF5",f2.f,g,xs,""):call(b,"WriteStateHDF5",f2.f,g,xs,loc,true);
      if(ta!=r.refused) c.fail(std::string("WriteStateHDF5 refused only from ")+(ta?"C++":"Python: "+r.err)); if(args==0) g="/"; if(ta) continue; files++;
      // what Python wrote is read by C++, and what C++ wrote by Python
      if(xs||!q.k.on||args<2){ bool fresh=s.boolean(); std::unique_ptr<N> a2; bp::object b2; bool t1,t2; R r1,r2; if(fresh){ if(q.k.on&&!loc.empty()){ continue; } t1=throws_([&]{ a2.reset(g=="/"?new N(f2.f):new N(f2.f,g)); }); r1= g=="/"?attempt([&]{ return nsq().attr("nuSQUIDS")(f1.f); }):attempt([&]{ return nsq().attr("nuSQUIDS")(f1.f,g); }); b2=r1.v; }
        else{ a2.reset(new N); t1=throws_([&]{ if(loc.empty()) a2->ReadStateHDF5(f2.f,g); else a2->ReadStateHDF5(f2.f,g,loc); }); b2=nsq().attr("nuSQUIDS")(); r1=loc.empty()?call(b2,"ReadStateHDF5",f1.f,g):call(b2,"ReadStateHDF5",f1.f,g,loc); }
        if(t1!=r1.refused) c.fail(std::string("reading the other's file is refused only by ")+(t1?"C++":"Python: "+r1.err)); if(t1) continue; Probe pr=genProbe(s,p); V e=evaluations(*a2,p,pr); agree(c,e,pyevaluations(c,b2,p,pr),"read from the other's file"); agree(c,report(*a2,p.n,p.single),pyreport(c,b2,p.n),"parameters read from the other's file"); } }
    else{ // the interaction structure and the cross sections handed on
      bp::object x=must(c,b,"GetNeutrinoCrossSections"); auto lib=a->GetNeutrinoCrossSections(); PBT_CHECK(c,(lib==nullptr)==x.is_none(),"cross sections on one side only"); if(lib){ for(auto t: {proton,neutron,isoscalar_nucleon,electron}) PBT_CHECK(c,lib->hasTarget(t)==bp::extract<bool>(must(c,x,"hasTarget",t))(),"targets of the cross sections"); } 
      R r=call(b,"Set_initial_state",helper("badarray")((int)s.below(12),s.chance(1,2)?5:4)); PBT_CHECK(c,r.refused,"an unsuitable array was accepted as a state"); r=call(b,"Set_Body",helper("junk")(1+(int)s.below(9))); PBT_CHECK(c,r.refused,"nonsense was accepted as a body"); check(state,"nonsense"); } }
  c.label(q.k.on?"interactions":p.single?"single":"oscillations"); if(files) c.label("files"); c.label(fmt("%u legs",std::min(legs,3u))); c.nontrivial(legs>0); }

// ensembles
PBT_PROP(ensemble,3){
  Ensemble q=genEnsemble(s,s.chance(1,4),3); const Setup& p=q.p; c.log(q.s); size_t nc=q.cz.size(); std::unique_ptr<Atm> a; bp::object b;
  std::vector<double> x,rh,y; for(int i=0;i<6;i++){ x.push_back(i/5.0); rh.push_back(s.real(1,13)); y.push_back(s.real(0.4,0.6)); }
  Rm ef{workdir()+fmt("/e%d.dat",(int)getpid())}; { std::ofstream o(ef.f); o.precision(17); for(int i=0;i<6;i++) o<<x[i]<<" "<<rh[i]<<" "<<y[i]<<"\n"; }
  try{ bp::object cz=array(s,q.cz,{nc}),E=array(s,p.E,{p.E.size()}); if(q.k.on){ a=makeAtm(q); b=nsq().attr("nuSQUIDSAtm")(cz,E,p.n,pytype(p.NT),true,pylibrary(c,q.k)); } else{ a=makeAtm(q); b=s.boolean()?nsq().attr("nuSQUIDSAtm")(cz,E,p.n,pytype(p.NT)):nsq().attr("nuSQUIDSAtm")(cz,E,p.n,pytype(p.NT),false); }
    auto earth=std::make_shared<EarthAtm>(ef.f); bp::object pe=nsq().attr("EarthAtm")(ef.f); if(s.boolean()){ double h=s.real(1,60); earth->SetAtmosphereHeight(h); must(c,pe,"SetAtmosphereHeight",h); } a->Set_EarthModel(earth); must(c,b,"Set_EarthModel",pe);
  }catch(const bp::error_already_set&){ c.fail("cannot be made from Python: "+pyerr()); }
  p.parameters(*a); for(unsigned j=1;j<p.n;j++){ must(c,b,"Set_SquareMassDifference",j,p.dm[j]); for(unsigned i=0;i<j;i++){ must(c,b,"Set_MixingAngle",i,j,p.th[i][j]); must(c,b,"Set_CPPhase",i,j,p.del[i][j]); } }
  a->Set_rel_error(1e-4); a->Set_abs_error(1e-4*q.scale); must(c,b,"Set_rel_error",1e-4); must(c,b,"Set_abs_error",1e-4*q.scale);
  for(unsigned o=(unsigned)s.below(4);o>0;o--){ std::string w=option(s,c,*a,b,p,q.k,q.L,20/q.L,q.scale,true); c.log(w); }
  if(s.boolean()){ unsigned i=(unsigned)s.below(nc+1); double v=s.logreal(1e-5,1e-3),h=q.L*s.real(0.001,0.01); bool t1=throws_([&]{ a->Set_rel_error(v,i); a->Set_h(h,i); a->Set_h_max(2*h,i); a->Set_h_min(1e-7*h,i); a->Set_abs_error(v*q.scale,i); }); bool t2=false; for(auto m: {std::make_pair("Set_rel_error",v),std::make_pair("Set_h",h),std::make_pair("Set_h_max",2*h),std::make_pair("Set_h_min",1e-7*h),std::make_pair("Set_abs_error",v*q.scale)}) t2|=call(b,m.first,m.second,i).refused; PBT_CHECK(c,t1==t2,"numerics of one zenith refused by one side"); }
  unsigned th=(unsigned)s.range(1,3); a->Set_EvalThreads(th); must(c,b,"Set_EvalThreads",th); PBT_CHECK(c,bp::extract<unsigned>(must(c,b,"Get_EvalThreads"))()==th,"Get_EvalThreads");
  V v; for(auto& i: q.in) for(auto& e: i.v) for(auto& r: e) for(double z: r) v.push_back(z); std::vector<size_t> sh{nc,p.E.size()}; if(p.nrho()==2) sh.push_back(2); sh.push_back(p.n); bp::object st=array(s,v,sh);
  setInitialAtm(*a,q,q.basis); if(q.basis==flavor&&s.boolean()) must(c,b,"Set_initial_state",st); else must(c,b,"Set_initial_state",st,pybasis(q.basis));
  auto check=[&](Atm& a,const bp::object& b,const std::string& when){ V w,g; auto get=[&](bp::object o){ g.push_back(bp::extract<double>(o)()); }; for(double x: a.GetERange()) w.push_back(x); for(double x: a.GetCosthRange()) w.push_back(x); for(double x: list(must(c,b,"GetERange"))) g.push_back(x); for(double x: list(must(c,b,"GetCosthRange"))) g.push_back(x);
    w.push_back(a.GetNumE()); w.push_back(a.GetNumCos()); w.push_back(a.GetNumNeu()); w.push_back(a.GetNumRho()); get(must(c,b,"GetNumE")); get(must(c,b,"GetNumCos")); get(must(c,b,"GetNumNeu")); get(must(c,b,"GetNumRho"));
    for(unsigned j=1;j<p.n;j++){ w.push_back(a.Get_SquareMassDifference(j)); get(must(c,b,"Get_SquareMassDifference",j)); for(unsigned i=0;i<j;i++){ w.push_back(a.Get_MixingAngle(i,j)); get(must(c,b,"Get_MixingAngle",i,j)); w.push_back(a.Get_CPPhase(i,j)); get(must(c,b,"Get_CPPhase",i,j)); } }
    for(unsigned r=0;r<p.nrho();r++){ auto m=a.GetStates(r); for(double x: m) w.push_back(x); bp::object o=r==0&&s.boolean()?must(c,b,"GetStates"):must(c,b,"GetStates",r); for(double x: list(o)) g.push_back(x); V e=list(o.attr("shape")); PBT_CHECK(c,e.size()==2&&e[0]==m.extent(0)&&e[1]==m.extent(1),"shape of the states"); }
    for(int k=0;k<3;k++){ Probe r=genProbe(s,p); double cz=q.cz[0]+(q.cz.back()-q.cz[0])*s.unit(); unsigned f=r.f,rho=r.rho; std::vector<bool> m(p.n); for(unsigned i=0;i<p.n;i++) m[i]=r.mask[i]; w.push_back(a.EvalFlavor(f,cz,r.E,rho)); get(rho==0&&r.one?must(c,b,"EvalFlavor",f,cz,r.E):must(c,b,"EvalFlavor",f,cz,r.E,rho)); w.push_back(a.EvalFlavor(f,cz,r.E,rho,r.scale,m)); get(must(c,nsq(),"EvalFlavor",b,f,cz,r.E,rho,r.scale,helper("masks")(pylist(r.mask),r.how))); unsigned z=(unsigned)s.below(nc); w.push_back(a.GetnuSQuIDS(z).EvalFlavorAtNode(f,r.node,rho)); get(must(c,must(c,b,"GetnuSQuIDS",z),"EvalFlavorAtNode",f,r.node,rho)); }
    agree(c,w,g,when); };
  check(*a,b,"initial state"); bool ta=throws_([&]{ a->EvolveState(); }); R r=call(b,"EvolveState"); if(ta!=r.refused) c.fail(std::string("EvolveState refused only from ")+(ta?"C++":"Python: "+r.err)); if(ta){ c.label("refused"); return; } check(*a,b,"evolved");
  if(s.boolean()){ Rm f1{workdir()+fmt("/a%d.h5",(int)getpid())},f2{workdir()+fmt("/b%d.h5",(int)getpid())}; a->WriteStateHDF5(f1.f,true); must(c,b,"WriteStateHDF5",f2.f,true); R x=attempt([&]{ return nsq().attr("nuSQUIDSAtm")(f1.f); }); if(x.refused) c.fail("the ensemble C++ wrote cannot be read from Python: "+x.err); Atm a2(f2.f); check(a2,x.v,"read from the other's file"); c.label("files"); }
  c.nontrivial(nc>1); }

// the rest: vectors, grids, tau decays, cross sections, names
PBT_PROP(rest,4){
  V w,g; auto get=[&](bp::object o){ g.push_back(bp::extract<double>(o)()); };
  { double a=s.logreal(1e-3,1e6),b=a*s.logreal(1,1e6); unsigned n=(unsigned)s.range(0,9); c.log(fmt("grids %g %g %u",a,b,n)); for(bool lg: {false,true}){ marray<double,1> m; bool t=throws_([&]{ m=lg?logspace(a,b,n):linspace(a,b,n); }); R r=call(nsq(),lg?"logspace":"linspace",a,b,n); PBT_CHECK(c,t==r.refused,"a grid refused by one side"); if(!t){ for(double x: m) w.push_back(x); for(double x: list(r.v)) g.push_back(x); } } agree(c,w,g,"grids"); }
  w.clear(); g.clear();
  { V E; double e=s.logreal(1,1e6)*1e9; unsigned n=(unsigned)s.range(2,5); for(unsigned i=0;i<n;i++){ E.push_back(e); e*=1+s.logreal(0.05,3); } marray<double,1> m{n}; for(unsigned i=0;i<n;i++) m[i]=E[i]; c.log("taus "+strv(E,6)); TauDecaySpectra t(m); R r=attempt([&]{ return nsq().attr("TauDecaySpectra")(array(s,E,{n})); }); if(r.refused) c.fail("TauDecaySpectra: "+r.err); bp::object p=r.v;
    unsigned i=(unsigned)s.below(n),j=(unsigned)s.below(n); double en=E[0]*s.unit(),et=E[0]*s.real(1,2); 
    bool an=s.boolean(); auto ty=an?XS::antineutrino:XS::neutrino; bp::object pty=pyenum("NeutrinoCrossSections_NeutrinoType",an?"antineutrino":"neutrino"); (void)pty; (void)ty;
    w={t.dNdEnu_All(i,j,ty),t.dNdEnu_Lep(i,j,ty),t.dNdEle_All(i,j,ty),t.dNdEle_Lep(i,j,ty),t.GetTauToHadronBranchingRatio(),t.GetTauToLeptonBranchingRatio(),t.TauDecayToLepton(et,en),t.TauDecayToHadron(et,en),t.TauDecayToAll(et,en),t.TauDecayToPion(et,en),t.TauDecayToRho(et,en),t.TauDecayToA1(et,en)};
    get(must(c,p,"dNdEnu_All",i,j,pty)); get(must(c,p,"dNdEnu_Lep",i,j,pty)); get(must(c,p,"dNdEle_All",i,j,pty)); get(must(c,p,"dNdEle_Lep",i,j,pty)); get(must(c,p,"GetTauToHadronBranchingRatio")); get(must(c,p,"GetTauToLeptonBranchingRatio")); for(auto f: {"TauDecayToLepton","TauDecayToHadron","TauDecayToAll","TauDecayToPion","TauDecayToRho","TauDecayToA1"}) get(must(c,p,f,et,en)); agree(c,w,g,"tau decays"); }
  { static const char* fn[]={"electron","muon","tau","sterile"}; static const XS::NeutrinoFlavor fl[]={XS::electron,XS::muon,XS::tau,XS::sterile}; static const char* cn[]={"CC","NC","GR"}; static const XS::Current cu[]={XS::CC,XS::NC,XS::GR}; GlashowResonanceCrossSection gr; NullCrossSections nu; bp::object pg=nsq().attr("GlashowResonanceCrossSection")(),pn=nsq().attr("NullCrossSections")();
    std::shared_ptr<NeutrinoDISCrossSectionsFromTables> dis; bp::object pd; xsgen::Tables tb; xsgen::Dir dir; bool tables=s.chance(1,3); if(tables){ tb=xsgen::genTables(s,false); c.log(tb.str()); xsgen::writeH5Tables(tb,dir.file("t.h5"),0,false); dis=std::make_shared<NeutrinoDISCrossSectionsFromTables>(dir.path+"t.h5"); R r=attempt([&]{ return nsq().attr("NeutrinoDISCrossSectionsFromTables")(dir.path+"t.h5"); }); if(r.refused) c.fail("tables: "+r.err); pd=r.v; PBT_CHECK(c,same(dis->GetEmin(),bp::extract<double>(must(c,pd,"GetEmin"))())&&same(dis->GetEmax(),bp::extract<double>(must(c,pd,"GetEmax"))()),"range of the tables"); }
    for(int k=0;k<4;k++){ int f=(int)s.below(4),t=(int)s.below(2),u=(int)s.below(3); double E=tables?1e9*tb.E.front()*std::pow(tb.E.back()/tb.E.front(),s.real(-0.02,1.02)):1e9*s.logreal(1,1e8),E2=E*s.real(0,1.01); bp::object pf=pyenum("NeutrinoCrossSections_NeutrinoFlavor",fn[f]),pt=pyenum("NeutrinoCrossSections_NeutrinoType",t?"antineutrino":"neutrino"),pc=pyenum("NeutrinoCrossSections_Current",cn[u]);
      auto both=[&](const XS& x,const bp::object& o,const char* name){ for(bool d: {false,true}){ double v=0; bool ta=throws_([&]{ v=d?x.SingleDifferentialCrossSection(E,E2,fl[f],t?XS::antineutrino:XS::neutrino,cu[u]):x.TotalCrossSection(E,fl[f],t?XS::antineutrino:XS::neutrino,cu[u]); }); R r=d?call(o,"SingleDifferentialCrossSection",E,E2,pf,pt,pc):call(o,"TotalCrossSection",E,pf,pt,pc); if(ta!=r.refused) c.fail(std::string(name)+": refused only from "+(ta?"C++":"Python: "+r.err)); if(!ta&&!same(v,r.num())) c.fail(std::string(name)+fmt(": %.17g instead of %.17g",r.num(),v)); } };
      both(gr,pg,"Glashow resonance"); both(nu,pn,"no cross sections"); if(dis) both(*dis,pd,"tables"); R r=call(nsq().attr("GlashowResonanceCrossSection"),"WDecayBranchingFraction",pf); if(r.refused||!same(r.num(),GlashowResonanceCrossSection::WDecayBranchingFraction(fl[f]))) c.fail("branching fraction of W: "+r.err); }
    if(tables){ must(c,pd,"WriteHDF",dir.file("u.h5"),(unsigned)s.below(3)); NeutrinoDISCrossSectionsFromTables back(dir.path+"u.h5"); PBT_CHECK(c,close(back.GetEmin(),dis->GetEmin(),1e-4)&&close(back.GetEmax(),dis->GetEmax(),1e-4),"tables written from Python"); } }
  { unsigned n=(unsigned)s.range(2,6); V x,y; for(unsigned i=0;i<n*n;i++){ x.push_back(s.dyadic()); y.push_back(s.dyadic()); } squids::SU_vector a(x),b(y); R r=attempt([&]{ return nsq().attr("SU_vector")(pylist(x)); }); if(r.refused) c.fail("SU_vector: "+r.err); bp::object p=r.v,o=nsq().attr("SU_vector")(pylist(y)); c.log("vectors "+strv(x)+" "+strv(y)); double k=s.dyadic(); unsigned i=(unsigned)s.below(n);
    auto vec=[&](const squids::SU_vector& v,bp::object o,const char* name){ V w=v.GetComponents(); agree(c,w,list(must(c,o,"GetComponents")),name); };
    try{ vec(a,p,"components"); vec(a+b,p+o,"sum"); vec(a-b,p-o,"difference"); vec(a*k,p*k,"multiple"); vec(k*a,bp::object(k)*p,"multiple"); vec(-1.0*a,-1.0*p,"negative"); double d=a*b; PBT_CHECK(c,same(d,bp::extract<double>(p*o)()),"product"); PBT_CHECK(c,bp::extract<bool>(p==p)(),"equality"); PBT_CHECK(c,bp::extract<bool>(p==o)()==(x==y),"equality of others"); vec(squids::SU_vector::Projector(n,i),nsq().attr("SU_vector").attr("Projector")(n,i),"projector"); vec(squids::SU_vector::Identity(n),nsq().attr("SU_vector").attr("Identity")(n),"identity"); PBT_CHECK(c,bp::extract<unsigned>(p.attr("Dim")())()==n&&bp::extract<unsigned>(p.attr("Size")())()==n*n,"dimension");
      squids::Const u; bp::object pu=nsq().attr("Const")(); for(unsigned j=1;j<n;j++) for(unsigned i=0;i<j;i++){ double t=s.real(0,1.5),d=s.real(0,6); u.SetMixingAngle(i,j,t); u.SetPhase(i,j,d); must(c,pu,"SetMixingAngle",i,j,t); must(c,pu,"SetPhase",i,j,d); PBT_CHECK(c,same(t,bp::extract<double>(must(c,pu,"GetMixingAngle",i,j))())&&same(d,bp::extract<double>(must(c,pu,"GetPhase",i,j))()),"angles of a Const"); }
      for(unsigned j=1;j<n;j++){ double m=s.real(-1,1); must(c,pu,"SetSquareMassDifference",j,m); PBT_CHECK(c,same(m,bp::extract<double>(must(c,pu,"GetSquareMassDifference",j))()),"differences of a Const"); }
      squids::SU_vector a1(a); a1.RotateToB1(u); must(c,p,"RotateToB1",pu); vec(a1,p,"rotation"); a1.RotateToB0(u); must(c,p,"RotateToB0",pu); vec(a1,p,"rotation back"); must(c,p,"SetAllComponents",k); vec(squids::SU_vector(V(n*n,k)),p,"all components");
    }catch(const bp::error_already_set&){ c.fail("vectors: "+pyerr()); } }
  { static const squids::Const u; bp::object p=nsq().attr("Const")();
    #define K(x) {#x,u.x}
    static const std::vector<std::pair<const char*,double>> ks={K(GF),K(Na),K(PeV),K(TeV),K(GeV),K(MeV),K(keV),K(eV),K(kg),K(gr),K(meter),K(cm),K(km),K(fermi),K(angstrom),K(AU),K(parsec),{"pb",u.picobarn},{"fb",u.femtobarn},K(sec),K(hour),K(day),K(year),K(picobarn),K(femtobarn),K(Pascal),K(atm),K(psi),K(Kelvin),K(C),K(A),K(T)};
    for(auto& k: ks){ R r=attempt([&]{ return bp::object(p.attr(k.first)); }); if(r.refused||!same(r.num(),k.second)) c.fail(std::string("the unit ")+k.first+" "+r.err); R w=attempt([&]{ p.attr(k.first)=1.0; return bp::object(); }); PBT_CHECK(c,w.refused,"a unit could be changed"); }
    auto val=[&](const char* e,const char* v,int x){ PBT_CHECK(c,bp::extract<int>(pyenum(e,v))()==x,std::string(e)+"."+v); }; val("Basis","mass",mass); val("Basis","flavor",flavor); val("Basis","interaction",interaction); val("NeutrinoType","neutrino",neutrino); val("NeutrinoType","antineutrino",antineutrino); val("NeutrinoType","both",both); val("PDGCode","electron",electron); val("PDGCode","proton",proton); val("PDGCode","neutron",neutron); val("PDGCode","isoscalar_nucleon",isoscalar_nucleon); }
  c.nontrivial(true); }
