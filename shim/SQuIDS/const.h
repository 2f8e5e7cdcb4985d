// A stand-in for the SQuIDS library's const.h, which is not installed here:
// units, physical constants and mixing parameters with the interface nuSQuIDS uses.
#ifndef SQUIDS_CONST_H
#define SQUIDS_CONST_H
#include <array>
#include <cmath>
#include <complex>
#include <memory>
#include <stdexcept>
#include <vector>
#include <gsl/gsl_complex.h>
#include <gsl/gsl_complex_math.h>
#include <gsl/gsl_matrix.h>
#include <SQuIDS/version.h>
#ifndef SQUIDS_MAX_HILBERT_DIM
#define SQUIDS_MAX_HILBERT_DIM 6
#endif
namespace squids{
class Const{
public:
  double GF,Na,sw_sq,G,alpha;
  double proton_mass,neutron_mass,electron_mass,muon_mass,tau_mass;
  double TeV,GeV,MeV,keV,eV,Joule,kg,gr,meter,cm,km,fermi,angstrom,AU,ly,parsec,nanobarn,picobarn,femtobarn,barn,sec,hour,day,year;
  double pi,piby2,sqrt2,ln2,degree,radian,arcsec,atm,Kelvin,Pascal,Hz,kHz,MHz,GHz;
#ifdef SHIM_PYTHON
  double PeV=1.0e15,psi=6.89475e3*5.62e35/5.06773093741e6/1.523e15/1.523e15,C=6.24150965e18*0.302822121,A=C/1.523e15,T=1.95353e2;
#endif
  Const(){
    pi=3.14159265358979; piby2=1.57079632679489; sqrt2=1.41421356237309; ln2=std::log(2.0);
    TeV=1.0e12; GeV=1.0e9; MeV=1.0e6; keV=1.0e3; eV=1.0; Joule=1.0/1.60225e-19;
    kg=5.62e35; gr=1e-3*kg;
    meter=5.06773093741e6; cm=1.0e-2*meter; km=1.0e3*meter; fermi=1.0e-15*meter; angstrom=1.0e-10*meter; AU=149.60e9*meter; ly=9.4605284e15*meter; parsec=3.08568025e16*meter;
    barn=1.0e-28*meter*meter; nanobarn=1e-9*barn; picobarn=1e-12*barn; femtobarn=1e-15*barn;
    sec=1.523e15; hour=3600.0*sec; day=24.0*hour; year=365.0*day;
    GF=1.16639e-23; Na=6.0221415e+23; sw_sq=0.2312; G=6.67300e-11*meter*meter*meter/kg/sec/sec; alpha=1.0/137.0;
    proton_mass=938.272*MeV; neutron_mass=939.565*MeV; electron_mass=0.510998910*MeV; muon_mass=105.658367*MeV; tau_mass=1776.82*MeV;
    degree=pi/180.0; radian=1.0; arcsec=degree/3600.0; atm=101325.0*Joule/(meter*meter*meter); Kelvin=1/1.16045221e4; Pascal=Joule/(meter*meter*meter);
    Hz=1.0/sec; kHz=1e3*Hz; MHz=1e6*Hz; GHz=1e9*Hz;
    for(auto& r: th) r.fill(0); for(auto& r: dcp) r.fill(0); dmsq.fill(0);
  }
  void SetMixingAngle(unsigned int i,unsigned int j,double a){ pair(i,j,"SetMixingAngle"); th[i][j]=a; }
  double GetMixingAngle(unsigned int i,unsigned int j) const{ pair(i,j,"GetMixingAngle"); return th[i][j]; }
  void SetPhase(unsigned int i,unsigned int j,double a){ pair(i,j,"SetPhase"); dcp[i][j]=a; }
  double GetPhase(unsigned int i,unsigned int j) const{ pair(i,j,"GetPhase"); return dcp[i][j]; }
  void SetEnergyDifference(unsigned int i,double d){ upper(i,"SetEnergyDifference"); dmsq[i]=d; }
  double GetEnergyDifference(unsigned int i) const{ upper(i,"GetEnergyDifference"); return dmsq[i]; }
  // U = ... R34 R24 R14 R23 R13 R12, R_ij carrying s e^{-i delta} at (i,j)
  std::vector<std::complex<double>> transformation(unsigned int n) const{
    typedef std::complex<double> C;
    std::vector<C> U(n*n,C(0)); for(unsigned i=0;i<n;i++) U[i*n+i]=1;
    for(unsigned j=1;j<n;j++) for(unsigned i=0;i<j;i++){
      double c=std::cos(th[i][j]),s=std::sin(th[i][j]); C e=std::polar(1.0,-dcp[i][j]);
      for(unsigned k=0;k<n;k++){ C a=U[i*n+k],b=U[j*n+k]; U[i*n+k]=c*a+s*e*b; U[j*n+k]=-s*std::conj(e)*a+c*b; }
    }
    return U;
  }
  std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)> GetTransformationMatrix(size_t dim) const{
    if(dim>SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("Const::GetTransformationMatrix: dimension too large");
    auto U=transformation((unsigned)dim); gsl_matrix_complex* m=gsl_matrix_complex_alloc(dim,dim);
    for(size_t i=0;i<dim;i++) for(size_t j=0;j<dim;j++) gsl_matrix_complex_set(m,i,j,gsl_complex_rect(U[i*dim+j].real(),U[i*dim+j].imag()));
    return std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)>(m,gsl_matrix_complex_free);
  }
private:
  std::array<std::array<double,SQUIDS_MAX_HILBERT_DIM>,SQUIDS_MAX_HILBERT_DIM> th,dcp;
  std::array<double,SQUIDS_MAX_HILBERT_DIM> dmsq;
  static void pair(unsigned i,unsigned j,const char* f){ if(i>=j) throw std::runtime_error(std::string("Const::")+f+": the first index must be smaller than the second"); if(j>=SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error(std::string("Const::")+f+": index out of range"); }
  static void upper(unsigned i,const char* f){ if(i==0) throw std::runtime_error(std::string("Const::")+f+": the upper state must not be the first"); if(i>=SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error(std::string("Const::")+f+": index out of range"); }
};
}
#endif
