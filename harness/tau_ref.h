// The tau decay spectra of Dutta, Reno and Sarcevic, PRD 62 123001, table I: dn/dz = g0(z) + P g1(z)
#ifndef TAU_REF_H
#define TAU_REF_H
#include "util.h"
namespace tau{
typedef long double LD;
const LD P=-1,rpi=0.07856L*0.07856L,rrho=0.43335L*0.43335L,ra1=0.70913L*0.70913L, Blep=0.18L,Bpi=0.12L,Brho=0.26L,Ba1=0.13L,Bhad=0.13L;
inline LD lepton(LD z){ return (5-9*z*z+4*z*z*z)/3+P*(1-9*z*z+8*z*z*z)/3; }
inline LD pion(LD z){ return z<1-rpi? 1/(1-rpi)-P*(2*z-1+rpi)/((1-rpi)*(1-rpi)):0; }
inline LD vec(LD z,LD r){ return z<1-r? (1-P*(2*z-1+r)*(1-2*r)/(1+2*r))/(1-r):0; }
inline LD hadron(LD z){ return z<0.3L? 1/0.3L:0; }
inline LD all(LD z){ return 2*Blep*lepton(z)+Bpi*pion(z)+Brho*vec(z,rrho)+Ba1*vec(z,ra1)+Bhad*hadron(z); }
// true where a threshold is too near for its side to be certain
inline bool edge(LD z){ for(LD e: {1-rpi,1-rrho,1-ra1,0.3L}) if(fabsl(z-e)<1e-14L) return true; return false; }
}
#endif
