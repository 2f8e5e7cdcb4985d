// P18: tau decay tables over energy nodes.
#include "tau_ref.h"
#include <nuSQuIDS/taudecay.h>
using namespace pbt; using namespace nusquids;
static marray<double,1> nodes(Src& s,size_t n){ marray<double,1> e({n}); double v=s.logreal(1e9,1e14),f=s.real(1.01,3); bool reg=s.boolean(); for(size_t i=0;i<n;i++){ e[i]=v; v*=reg?f:s.real(1.001,4); } return e; }
static void verify(Src& s,Case& c,const TauDecaySpectra& t,const marray<double,1>& E){
  size_t n=E.size(); double GeV=1e9; double BL=t.GetTauToLeptonBranchingRatio();
  for(unsigned q=0;q<40&&n;q++){ size_t i=s.below(n),j=s.below(i+1); unsigned ty=s.below(2); double e1=E[i]/GeV,e2=E[j]/GeV; long double z=(long double)e2/e1; if(tau::edge(z)) continue; long double a=tau::all(z),l=tau::lepton(z)*BL; bool hi=q<2; (void)hi;
    auto cmp=[&](double v,long double w,const char* what){ PBT_CHECK(c,fabsl(v-w)<=1e-12L*fabsl(w)+1e-13L/e1,fmt("%s at %zu,%zu (%g to %g GeV) is %.17g, should be %.17Lg",what,i,j,e1,e2,v,w)); };
    cmp(t.dNdEnu_All(i,j,ty),a/e1,"dN/dE_nu"); cmp(t.dNdEnu_Lep(i,j,ty),l/e1,"leptonic dN/dE_nu"); cmp(t.dNdEle_All(i,j,ty),a*e2/((long double)e1*e1),"dN/dE_le"); cmp(t.dNdEle_Lep(i,j,ty),l*e2/((long double)e1*e1),"leptonic dN/dE_le");
    // agrees with the functions, for both kinds alike, and by default for the first
    PBT_CHECK(c,close(t.dNdEnu_All(i,j,ty),t.TauDecayToAll(e1,e2)/e1,1e-13),"table and function differ"); PBT_CHECK(c,t.dNdEnu_All(i,j)==t.dNdEnu_All(i,j,0)&&t.dNdEnu_All(i,j,0)==t.dNdEnu_All(i,j,1)&&t.dNdEle_Lep(i,j,0)==t.dNdEle_Lep(i,j,1)&&t.dNdEnu_Lep(i,j)==t.dNdEnu_Lep(i,j,1)&&t.dNdEle_All(i,j)==t.dNdEle_All(i,j,1),"neutrino and antineutrino spectra differ"); }
  for(unsigned q=0;q<4;q++){ unsigned i=n?s.below(n):0,j=n?s.below(n):0; unsigned bad=s.boolean()?n:n+s.below(5); if(s.boolean()) i=bad; else j=bad; if(s.chance(1,5)){ i=j=bad; } PBT_CHECK(c,throws<std::runtime_error>([&]{ t.dNdEnu_All(i,j); })&&throws<std::runtime_error>([&]{ t.dNdEnu_Lep(i,j); })&&throws<std::runtime_error>([&]{ t.dNdEle_All(i,j); })&&throws<std::runtime_error>([&]{ t.dNdEle_Lep(i,j); }),"an index beyond the nodes was accepted"); }
}
PBT_PROP(tables,1){
  size_t n=s.size(1,60); auto E=nodes(s,n); c.log(str(n)+" nodes "+strv(E,8)); c.nontrivial(n>2); 
  switch(s.below(5)){ case 0:{ TauDecaySpectra t(E); verify(s,c,t,E); break; } case 1:{ TauDecaySpectra t; t.Init(E); verify(s,c,t,E); break; }
    case 2:{ size_t m=s.size(1,60); auto E0=nodes(s,m); TauDecaySpectra t(E0); t.Init(E); c.label("initialized twice"); verify(s,c,t,E); break; }
    case 3:{ TauDecaySpectra t(E); TauDecaySpectra u(t); verify(s,c,u,E); TauDecaySpectra v; v=u; verify(s,c,v,E); verify(s,c,u,E); break; }
    default:{ TauDecaySpectra t(E); TauDecaySpectra u(std::move(t)); verify(s,c,u,E); TauDecaySpectra v; v=std::move(u); verify(s,c,v,E); } }
}
PBT_PROP(unset,0.02){ TauDecaySpectra t; c.nontrivial(); marray<double,1> none; c.log("no nodes"); verify(s,c,t,none); }
