// P17: tau decay spectra.
#include "tau_ref.h"
#include <nuSQuIDS/taudecay.h>
using namespace pbt; using nusquids::TauDecaySpectra;
static double channel(const TauDecaySpectra& t,int k,double E,double e){ switch(k){ case 0: return t.TauDecayToLepton(E,e); case 1: return t.TauDecayToPion(E,e); case 2: return t.TauDecayToRho(E,e); case 3: return t.TauDecayToA1(E,e); case 4: return t.TauDecayToHadron(E,e); default: return t.TauDecayToAll(E,e); } }
static long double ref(int k,long double z){ switch(k){ case 0: return tau::lepton(z); case 1: return tau::pion(z); case 2: return tau::vec(z,tau::rrho); case 3: return tau::vec(z,tau::ra1); case 4: return tau::hadron(z); default: return tau::all(z); } }
static const char* names[]={"lepton","pion","rho","a1","hadron","all"};
static long double cutoff(int k){ switch(k){ case 1: return 1-tau::rpi; case 2: return 1-tau::rrho; case 3: return 1-tau::ra1; case 4: return 0.3L; default: return 1; } }
PBT_PROP(spectrum,1){
  TauDecaySpectra t(s.boolean()); int k=s.below(6); double E=s.logreal(1e-3,1e15),z; switch(s.below(4)){ case 0: z=s.pick({0.0,1.0,0.5,0.25}); break; case 1:{ long double e= s.pick({1-tau::rpi,1-tau::rrho,1-tau::ra1,0.3L}); z=e*(1+s.real(-1e-3,1e-3)); z=std::min(z,1.0); break; } default: z=s.unit(); }
  double e=E*z; if(e>E) e=E; long double Z=(long double)e/E; c.log(std::string(names[k])+fmt(" E_tau %.17g E_nu %.17g",E,e)); c.nontrivial(z>0&&z<1); if(tau::edge(Z)) return; double v=channel(t,k,E,e); long double w=ref(k,Z);
  PBT_CHECK(c,fabsl(v-w)<=1e-13L*(5+fabsl(w)),fmt("the spectrum is %.17g, should be %.17Lg",v,w)); PBT_CHECK(c,v>=-1e-13,fmt("negative spectrum %.17g",v));
  if(k!=0&&k!=5&&Z>cutoff(k)) PBT_CHECK(c,v==0,fmt("%.17g beyond the kinematic limit",v));
  // only the fraction matters
  double f=std::ldexp(1.0,s.range(-40,40)); PBT_CHECK(c,channel(t,k,E*f,e*f)==v,"the spectrum depends on more than the energy fraction");
}
// every channel's spectrum is normalised, the total is one and is the sum of its parts
PBT_PROP(normalisation,0.2){
  TauDecaySpectra t; double E=s.logreal(1e-3,1e15); c.log("E_tau "+str(E)); c.nontrivial(); static const double gx[5]={0,0.5384693101056831,-0.5384693101056831,0.9061798459386640,-0.9061798459386640},gw[5]={0.5688888888888889,0.4786286704993665,0.4786286704993665,0.2369268850561891,0.2369268850561891};
  std::vector<double> cut={0,0.3,(double)(1-tau::ra1),(double)(1-tau::rrho),(double)(1-tau::rpi),1};
  for(int k=0;k<6;k++){ double I=0; for(size_t q=0;q+1<cut.size();q++) for(int g=0;g<5;g++){ double z=(cut[q]+cut[q+1])/2+gx[g]*(cut[q+1]-cut[q])/2; I+=gw[g]*(cut[q+1]-cut[q])/2*channel(t,k,E,E*z); } PBT_CHECK(c,fabs(I-1)<1e-9,std::string(names[k])+" spectrum integrates to "+str(I)); }
  double z=s.unit(),e=E*z; double sum=2*t.GetTauToLeptonBranchingRatio()*t.TauDecayToLepton(E,e)+0.12*t.TauDecayToPion(E,e)+0.26*t.TauDecayToRho(E,e)+0.13*t.TauDecayToA1(E,e)+t.GetTauToHadronBranchingRatio()*t.TauDecayToHadron(E,e); PBT_CHECK(c,close(sum,t.TauDecayToAll(E,e),1e-13),"the total is not the sum of the channels"); 
  PBT_CHECK(c,t.GetTauToLeptonBranchingRatio()==0.18,"leptonic branching ratio"); PBT_CHECK(c,fabs(2*t.GetTauToLeptonBranchingRatio()+0.12+0.26+0.13+t.GetTauToHadronBranchingRatio()-1)<1e-12,"the branching ratios do not add up to one");
}
