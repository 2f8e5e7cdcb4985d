// P07: text tables survive writing and reading; reading takes exactly the numbers of the file.
#include "util.h"
#include <nuSQuIDS/tools.h>
using namespace pbt; using nusquids::marray;

static double value(Src& s){ double v=s.anyfinite(); return fabs(v)>1.7e308?v/2:v; } // beyond, 15 digits may round to infinity
PBT_PROP(round_trip,1){
  size_t n=s.size(0,40),m=s.size(0,12); if(s.chance(1,4)){ n=s.range(1,3); m=s.size(1,60); }
  marray<double,2> a({n,m}); for(auto& x: a) x=value(s);
  c.log("array "+str(n)+"x"+str(m)+" "+strv(a,12)); c.nontrivial(n>1&&m>1);
  Scratch f(".dat"); if(s.chance(1,5)){ std::ofstream o(f.path); for(int i=0;i<200;i++) o<<"1 2 3\n"; c.label("overwrites an old file"); }
  int r=nusquids::quickwrite(f.path,a); PBT_CHECK(c,r==0,"quickwrite returned "+str(r)); PBT_CHECK(c,nusquids::fexists(f.path),"the file written does not exist");
  marray<double,2> b=nusquids::quickread(f.path);
  if(n*m==0){ PBT_CHECK(c,b.size()==0,"an empty array came back as "+str(b.extent(0))+"x"+str(b.extent(1))); return; }
  PBT_CHECK(c,b.extent(0)==n&&b.extent(1)==m,"an array of "+str(n)+"x"+str(m)+" came back as "+str(b.extent(0))+"x"+str(b.extent(1)));
  for(size_t i=0;i<n;i++) for(size_t j=0;j<m;j++) PBT_CHECK(c,close(a[i][j],b[i][j],2e-15*5,1e-323),fmt("element %zu,%zu: wrote %.17g, read %.17g",i,j,a[i][j],b[i][j]));
  // a second trip changes nothing more
  Scratch g(".dat"); nusquids::quickwrite(g.path,b); marray<double,2> d=nusquids::quickread(g.path);
  for(size_t i=0;i<n;i++) for(size_t j=0;j<m;j++) PBT_CHECK(c,close(d[i][j],b[i][j],1e-15*2),fmt("element %zu,%zu changed in a second trip: %.17g to %.17g",i,j,b[i][j],d[i][j]));
}
PBT_PROP(free_text,1){
  // a file written by something else: any layout of the same numbers
  size_t m=s.size(1,8),n=s.size(0,14); bool ragged=n>1&&s.chance(1,4); size_t bad=ragged?1+s.below(n-1):0; size_t badm=m;
  if(ragged){ badm=1+s.below(m+3); if(badm==m) badm=m+1; c.label("unequal rows"); }
  std::string text; std::vector<std::vector<double>> want; auto filler=[&]{ while(s.chance(1,5)){ text+=s.pick<const char*>({"\n","   \n","\t\n","# comment 1 2 3\n","#\n","\r\n","x 1 2\n"}); c.label("lines without numbers"); } };
  filler();
  for(size_t i=0;i<n;i++){ size_t k=(ragged&&i==bad)?badm:m; std::vector<double> row; if(s.chance(1,3)) text+=s.pick<const char*>({" ","\t","   "});
    for(size_t j=0;j<k;j++){ double v=value(s); char b[400]; switch(s.below(6)){ case 0: snprintf(b,400,"%.17g",v); break; case 1: snprintf(b,400,"%g",v); break; case 2: snprintf(b,400,"%.10e",v); break; case 3: if(fabs(v)<1e30) snprintf(b,400,"%f",v); else snprintf(b,400,"%.3E",v); break; case 4: snprintf(b,400,"%+.17g",v); break; default: snprintf(b,400,"%d",(int)s.range(-99,99)); }
      double p=strtod(b,nullptr); if(!std::isfinite(p)){ strcpy(b,"1.5"); p=1.5; } row.push_back(p); text+=b; if(j+1<k) text+=s.pick<const char*>({" ","\t","  "," \t "}); }
    text+=s.pick<const char*>({""," ","\t"," # note 7","\r"," stop 1 2"}); if(i+1<n||!s.chance(1,5)) text+="\n"; else c.label("no newline at the end"); want.push_back(row); if(!text.empty()&&text.back()=='\n') filler(); }
  { Scratch f(".dat"); std::ofstream(f.path,std::ios::binary)<<text; c.log(str(n)+" rows of "+str(m)+(ragged?" (one of "+str(badm)+")":std::string())+": "+engine::json_escape(text)); c.nontrivial(n>1&&m>1);
    if(ragged){ PBT_CHECK(c,throws<std::runtime_error>([&]{ nusquids::quickread(f.path); }),"rows of unequal length were accepted"); return; }
    marray<double,2> b=nusquids::quickread(f.path);
    if(n==0){ PBT_CHECK(c,b.size()==0&&b.extent(0)==0,"a file without numbers gave "+str(b.extent(0))+" rows"); return; }
    PBT_CHECK(c,b.extent(0)==n&&b.extent(1)==m,"a table of "+str(n)+"x"+str(m)+" was read as "+str(b.extent(0))+"x"+str(b.extent(1)));
    for(size_t i=0;i<n;i++) for(size_t j=0;j<m;j++) PBT_CHECK(c,b[i][j]==want[i][j],fmt("element %zu,%zu: file has %.17g, read %.17g",i,j,want[i][j],b[i][j])); }
}
PBT_PROP(missing,0.05){
  Scratch f(".dat"); std::string dir=f.path+"/sub/x"; bool w=s.boolean(); c.log(w?"write into a missing directory":"read a missing file"); c.nontrivial();
  PBT_CHECK(c,!nusquids::fexists(f.path)&&!nusquids::fexists(dir),"a missing file is said to exist");
  if(w){ marray<double,2> a({1+s.below(3),2}); PBT_CHECK(c,throws<std::runtime_error>([&]{ nusquids::quickwrite(dir,a); }),"writing into a missing directory was not reported"); }
  else PBT_CHECK(c,throws<std::runtime_error>([&]{ nusquids::quickread(f.path); }),"reading a missing file was not reported");
}
