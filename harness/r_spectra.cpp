/* emission laws: spectra, their integrals, emission and absorption coefficients */
#include "gv.h"
#include "GyotoPowerLawSpectrum.h"
#include "GyotoBlackBodySpectrum.h"
#include "GyotoThermalBremsstrahlungSpectrum.h"
#include "GyotoThermalSynchrotronSpectrum.h"
#include "GyotoPowerLawSynchrotronSpectrum.h"
#include "GyotoKappaDistributionSynchrotronSpectrum.h"
#include "GyotoError.h"
#include "GyotoDefs.h"
#include "GyotoConverters.h"
#include "GyotoUtils.h"
#include <cmath>
using namespace Gyoto;
static double pos(const char *n, double a, double b) { double x=gv_real(n,a,b); gv_assume(x>0); return x; }
GV_HARNESS(H_powerlaw) { gv_no_throw(); double p=gv_real("exponent",0.5,2.), c=gv_real("constant",1.,2.), n=pos("nu",1.,2.), a=gv_real("c0",0.,3.), b=gv_real("c1",0.,3.); int how=int(gv_choose("how",3)); Spectrum::PowerLaw s; if (how==0) { Spectrum::PowerLaw t(p,c); s=t; } else if (how==1) { s.exponent(p); s.constant(c); } else { s.constant(c); s.exponent(p); } gv_eq(s.exponent(),p,"exponent"); gv_eq(s.constant(),c,"constant"); if (!gv_choose("cut",2)) { gv_assume(n<1e30); gv_eq(s(n),c*pow(n,p),"power law"); return; } s.cutoff({a,b}); double lo=a<b?a:b, hi=a<b?b:a; std::vector<double> v=s.cutoff(); gv_eq(v[0],lo,"lower cut-off"); gv_eq(v[1],hi,"upper cut-off"); if (n<lo||n>hi) gv_eq(s(n),0.,"nothing outside the cut-offs"); else gv_eq(s(n),c*pow(n,p),"power law inside the cut-offs"); }
GV_HARNESS(H_powerlaw_units) { gv_no_throw(); Units::Init(); Spectrum::PowerLaw s; double a=pos("c0",1.,2.), b=pos("c1",3.,4.); gv_assume(a<b); static const char *const U[]={"Hz","GHz","m","mm","eV"}; int u=int(gv_choose("unit",5)); bool r=gv_choose("reversed",2); s.cutoff(r?std::vector<double>{b,a}:std::vector<double>{a,b},U[u]); std::vector<double> v=s.cutoff(U[u]), h=s.cutoff(); gv_true(h[0]<=h[1],"ordered in frequency"); bool w=u==2||u==3; gv_eq(v[w],a,"first cut-off"); gv_eq(v[!w],b,"second cut-off"); }
GV_HARNESS(H_cutoff_size) { size_t k=gv_choose("size",4); std::vector<double> v; for (size_t i=0;i<k;++i) v.push_back(i+1.); Spectrum::PowerLaw s; bool t=false; try { s.cutoff(v); } catch (Gyoto::Error &) { t=true; } gv_true(t==(k!=2),"exactly two cut-offs"); }
/* 2 h nu^3/c^2 / (exp(h nu/kT)-1), diluted by f^4 at f T */
GV_HARNESS(H_blackbody) { gv_no_throw(); double T=pos("T",1.,2.), T0=pos("T0",1.,2.), c=pos("scaling",1.,2.), f=pos("color correction",1.,2.), f0=pos("previous correction",1.,2.), n=pos("nu",1.,2.); int how=int(gv_choose("how",6)); double e=1; Spectrum::BlackBody s; s.scaling(c); switch (how) { case 0: { Spectrum::BlackBody t(T,c); s=t; break; } case 1: s.temperature(T); break; case 2: s.temperature(T); s.colorCorrection(f); e=f; break; case 3: s.colorCorrection(f); s.temperature(T); e=f; break; case 4: s.temperature(T); s.colorCorrection(f0); s.colorCorrection(f); e=f; break; default: s.temperature(T0); s.colorCorrection(f); s.temperature(T); e=f; } gv_eq(s.temperature(),T,"temperature"); gv_eq(s.scaling(),c,"scaling"); gv_eq(s.colorCorrection(),e,"color correction"); gv_eq(s(n)*e*e*e*e*expm1(GYOTO_PLANCK_OVER_BOLTZMANN*n/(T*e)),c*n*n*n,"Planck law"); }
/* a spectrum that is linear in nu: the trapezoidal rule is exact */
struct Linear : public Spectrum::Generic { double a, b; Linear(double x, double y) : Generic("linear"), a(x), b(y) {} double operator()(double n) const { return a+b*n; } double operator()(double n, double o, double d) const { return Generic::operator()(n,o,d); } Property const *getProperties() const { return 0; } };
GV_HARNESS(H_integrate) { gv_no_throw(); double a=gv_real("a",1.,2.), b=gv_real("b",1.,2.), lo=gv_real("nu1",1.,2.), hi=gv_real("nu2",3.,4.); gv_assume(lo<hi); gv_assume(a+b*lo>0); gv_assume(a+b*hi>0); Linear s(a,b); bool r=gv_choose("reversed",2); double i=r?s.integrate(hi,lo):s.integrate(lo,hi); gv_eq(i,(hi-lo)*(a+b*(lo+hi)/2),"integral over the band"); }
struct Const : public Linear { double t; Const(double x) : Linear(x,0) {} };
GV_HARNESS(H_integrate_thick) { gv_no_throw(); double a=pos("a",1.,2.), k=pos("opacity",1.,2.), d=pos("ds",1.,2.), lo=gv_real("nu1",1.,2.), hi=gv_real("nu2",3.,4.); gv_assume(lo<hi); gv_assume(exp(-k*d)<1); Linear s(a,0), o(k,0); bool r=gv_choose("reversed",2); double i=r?s.integrate(hi,lo,&o,d):s.integrate(lo,hi,&o,d); gv_eq(i,(hi-lo)*a*(1-exp(-k*d)),"integral over the band"); }
GV_HARNESS(H_thick) { gv_no_throw(); double a=gv_real("a",1.,2.), b=gv_real("b",1.,2.), k=gv_real("opacity",0.,2.), d=gv_real("ds",0.,2.), n=gv_real("nu",1.,2.); Linear s(a,b); if (gv_choose("transparent",2)) k=0; gv_eq(s(n,k,d),(a+b*n)*(1-exp(-k*d)),"emission of an absorbing slab"); }
/* Kirchhoff: absorption is emission over the Planck function of the same temperature */
/* coefficients are tiny numbers: compared in units of u */
static void near_(double x, double y, double u, const char *l) { gv_eq(x/u,y/u,l); }
GV_HARNESS(H_bremsstrahlung) { gv_no_throw(); double T=pos("T",1e6,2e6), ne=pos("density",1.,2.), n[2]={pos("nu0",1e12,2e12),pos("nu1",1e12,2e12)}, j[2], a[2], d=pos("ds",1.,2.); gv_assume(T<1e9); Spectrum::ThermalBremsstrahlung s; if (gv_choose("order",2)) { s.temperature(T); s.numberdensityCGS(ne); } else { s.numberdensityCGS(ne); s.temperature(T); } SmartPointer<Spectrum::Generic> c=s.clone(); Spectrum::BlackBody B; B.temperature(T); gv_lbl l; s.radiativeQ(j,a,n,2); for (int i=0;i<2;++i) { double b=B(n[i]); gv_assume(b!=0); gv_eq(a[i]*b,j[i],gv_ij(l,"Kirchhoff",i)); gv_eq(s.alphanuCGS(n[i])*b,s.jnuCGS(n[i])*GYOTO_INU_CGS_TO_SI,gv_ij(l,"Kirchhoff, cgs",i)); gv_eq(j[i],s.jnuCGS(n[i])*GYOTO_JNU_CGS_TO_SI,gv_ij(l,"emission in SI",i)); gv_eq((*c)(n[i],0.,d),s(n[i],0.,d),gv_ij(l,"clone",i)); gv_eq(s(n[i],0.,d),j[i]*d*exp(-a[i]*d),gv_ij(l,"increment of intensity",i)); } s.numberdensityCGS(3*ne); gv_eq(s.jnuCGS(n[0])*GYOTO_JNU_CGS_TO_SI,9*j[0],"emission by pairs of particles"); }
/* the three synchrotron laws */
typedef Spectrum::ThermalSynchrotron Th; typedef Spectrum::PowerLawSynchrotron Pl; typedef Spectrum::KappaDistributionSynchrotron Ka;
static void setup(Th &s) { double T=pos("T",1e10,2e10); gv_assume(T>1e9); s.temperature(T); }
static void setup(Pl &s) { double p=gv_real("index",2.,3.), g=gv_real("gamma min",1.,2.); gv_assume(p>2); gv_assume(p<5); gv_assume(g>=1); gv_assume(g<100); s.PLindex(p); s.gamma_min(g); s.gamma_max(1e30); }
static void setup(Ka &s) { double t=gv_real("thetae",1.,2.), h=pos("hypergeometric",0.1,0.2); gv_assume(t>1); s.thetae(t); s.kappaindex(3.5+0.5*gv_choose("kappa",4)); s.hypergeometric(h); }
struct Env { double ne, nu0, th, n; Env() { ne=pos("density",1.,2.); nu0=pos("cyclotron",1e7,1e8); th=gv_real("angle",0.5,1.); n=pos("nu",1e11,1e12); gv_assume(th>0); gv_assume(th<M_PI/2); gv_assume(sin(th)>0); gv_assume(cos(th)>0); gv_assume(n<1e15); gv_assume(nu0>1); } template<class S> void set(S &s) { s.numberdensityCGS(ne); s.cyclotron_freq(nu0); s.angle_B_pem(th); } };
static bool rates(Ka &s, const Env &e) { gv_assume(e.n/(e.nu0*s.thetae()*s.kappaindex()*s.thetae()*s.kappaindex()*sin(e.th))>=0.1); return true; }
template<class S> static bool rates(S &, const Env &) { return true; }
/* units: n e^2 nu0/c for emission, n e^2/(nu m c) for absorption */
static double emi(const Env &e) { return e.ne*GYOTO_ELEMENTARY_CHARGE_CGS*GYOTO_ELEMENTARY_CHARGE_CGS*e.nu0/GYOTO_C_CGS; }
static double abso(const Env &e) { return e.ne*GYOTO_ELEMENTARY_CHARGE_CGS*GYOTO_ELEMENTARY_CHARGE_CGS/(e.n*GYOTO_ELECTRON_MASS_CGS*GYOTO_C_CGS); }
struct Q { double j[4], a[4], r[3]; };
template<class S> static void coef(S &s, double n, Q &q) { q.j[0]=s.jnuCGS(n); q.j[1]=s.jQnuCGS(n); q.j[2]=s.jUnuCGS(n); q.j[3]=s.jVnuCGS(n); q.a[0]=s.alphanuCGS(n); q.a[1]=s.alphaQnuCGS(n); q.a[2]=s.alphaUnuCGS(n); q.a[3]=s.alphaVnuCGS(n); q.r[0]=s.rQnuCGS(n); q.r[1]=s.rUnuCGS(n); q.r[2]=s.rVnuCGS(n); }
template<class S> static void all(S &s, double *n, size_t k, Q *q) { double b[11][2]; s.radiativeQ(b[0],b[1],b[2],b[3],b[4],b[5],b[6],b[7],b[8],b[9],b[10],n,k); for (size_t i=0;i<k;++i) { for (int m=0;m<4;++m) { q[i].j[m]=b[m][i]; q[i].a[m]=b[4+m][i]; } for (int m=0;m<3;++m) q[i].r[m]=b[8+m][i]; } }
/* what the transfer is given, with and without polarization, for every frequency, are these coefficients in SI */
template<class S> static void lists() { gv_no_throw(); Env e; S s; setup(s); e.set(s); rates(s,e); double n[2]={e.n,2*e.n}, j[2], a[2], d=pos("ds",1.,2.); Q q[2], c[2]; gv_lbl l; for (int i=0;i<2;++i) coef(s,n[i],c[i]); all(s,n,2,q); s.radiativeQ(j,a,n,2); for (int i=0;i<2;++i) { for (int m=0;m<4;++m) { near_(q[i].j[m],c[i].j[m]*GYOTO_JNU_CGS_TO_SI,emi(e),gv_ij(l,"emission",i,m)); near_(q[i].a[m],c[i].a[m]*GYOTO_ANU_CGS_TO_SI,abso(e),gv_ij(l,"absorption",i,m)); } for (int m=0;m<3;++m) near_(q[i].r[m],c[i].r[m]*GYOTO_ANU_CGS_TO_SI,abso(e),gv_ij(l,"Faraday rotation",i,m)); near_(j[i],q[i].j[0],emi(e),gv_ij(l,"emission, no polarization",i)); near_(a[i],q[i].a[0],abso(e),gv_ij(l,"absorption, no polarization",i)); near_(s(n[i],0.,d),j[i]*d*exp(-a[i]*d),emi(e),gv_ij(l,"increment of intensity",i)); } }
GV_HARNESS(H_lists_thermal) { lists<Th>(); }
GV_HARNESS(H_lists_powerlaw) { lists<Pl>(); }
GV_HARNESS(H_lists_kappa) { lists<Ka>(); }
/* proportional to the density; reversing the magnetic field changes the sign of circular polarization only; U vanishes in this frame */
template<class S> static void laws() { gv_no_throw(); Env e; S s; setup(s); e.set(s); rates(s,e); Q q, d, m; gv_lbl l; coef(s,e.n,q); s.numberdensityCGS(7*e.ne); coef(s,e.n,d); e.set(s); s.angle_B_pem(M_PI-e.th); coef(s,e.n,m); for (int i=0;i<4;++i) { near_(d.j[i],7*q.j[i],emi(e),gv_ij(l,"emission proportional to the density",i)); near_(d.a[i],7*q.a[i],abso(e),gv_ij(l,"absorption proportional to the density",i)); double g=i==3?-1:1; near_(m.j[i],g*q.j[i],emi(e),gv_ij(l,"emission in the reversed field",i)); near_(m.a[i],g*q.a[i],abso(e),gv_ij(l,"absorption in the reversed field",i)); } for (int i=0;i<3;++i) { near_(d.r[i],7*q.r[i],abso(e),gv_ij(l,"rotation proportional to the density",i)); near_(m.r[i],(i==2?-1:1)*q.r[i],abso(e),gv_ij(l,"rotation in the reversed field",i)); } near_(q.j[2],0.,emi(e),"no U emission"); near_(q.a[2],0.,abso(e),"no U absorption"); near_(q.r[1],0.,abso(e),"no U rotation"); }
GV_HARNESS(H_laws_thermal) { laws<Th>(); }
GV_HARNESS(H_laws_powerlaw) { laws<Pl>(); }
GV_HARNESS(H_laws_kappa) { laws<Ka>(); }
GV_HARNESS(H_kirchhoff_synchrotron) { gv_no_throw(); Env e; Th s; setup(s); e.set(s); Spectrum::BlackBody B; B.temperature(s.temperature()); double b=B(e.n), n[1]={e.n}, j[1], a[1]; gv_assume(b!=0); Q q; gv_lbl l; coef(s,e.n,q); for (int i=0;i<4;++i) near_(q.a[i]*b,q.j[i]*GYOTO_INU_CGS_TO_SI,abso(e),gv_ij(l,"Kirchhoff, cgs",i)); s.radiativeQ(j,a,n,1); gv_eq(a[0]*b,j[0],"Kirchhoff"); }
/* averages over the direction of the field: the same with and without polarization, for every frequency, whatever the angle set before; odd coefficients average out */
template<class S> static void averages(bool abs=true) { gv_no_throw(); Env e; S s; setup(s); e.set(s); double n[1]={e.n}, j[1], a[1]; Q q[1], p[1]; s.angle_averaged(true); all(s,n,1,q); s.radiativeQ(j,a,n,1); s.angle_B_pem(e.th); all(s,n,1,p); gv_lbl l; gv_eq(j[0],q[0].j[0],"average emission"); if (abs) gv_eq(a[0],q[0].a[0],"average absorption"); for (int i=0;i<4;++i) { gv_true(p[0].j[i]==q[0].j[i],gv_ij(l,"emission does not depend on the angle",i)); gv_true(p[0].a[i]==q[0].a[i],gv_ij(l,"absorption does not depend on the angle",i)); } gv_eq(q[0].j[2],0.,"no average U emission"); }
GV_HARNESS(H_averages_thermal) { averages<Th>(false); }
GV_HARNESS(H_averages_powerlaw) { averages<Pl>(); }
/* the published fits (Pandya et al. 2016, Marszewski et al. 2021), in units of n e^2 nu0/c for emission and n e^2/(nu m c) for absorption */
static double rot(const Env &e) { return e.ne*pow(GYOTO_ELEMENTARY_CHARGE_CGS,2.)/(e.n*(GYOTO_ELECTRON_MASS_CGS*GYOTO_C_CGS)); }
GV_HARNESS(H_fit_thermal) { gv_no_throw(); Env e; Th s; setup(s); gv_assume(s.temperature()>4e9); e.set(s); double st=sin(e.th), t=s.temperature()*GYOTO_BOLTZMANN_CGS/(GYOTO_ELECTRON_MASS_CGS*GYOTO_C2_CGS), X=e.n/(2./9.*e.nu0*t*t*st), E=exp(-pow(X,1./3.)), u=pow(X,1./2.), w=pow(2.,11./12.)*pow(X,1./6.), z=pow(t,24./25.), k=(7*z+35)/(10*z+75); Q q; coef(s,e.n,q);
  near_(q.j[0],emi(e)*E*sqrt(2.)*M_PI/27.*st*(u+w)*(u+w),emi(e),"I emission"); near_(q.j[1],emi(e)*E*sqrt(2.)*M_PI/27.*st*(u+k*w)*(u+k*w),emi(e),"Q emission"); near_(q.j[3],emi(e)*E*cos(e.th)/t*(M_PI/3.+M_PI/3.*pow(X,1./3.)+2./300.*sqrt(X)+2.*M_PI/19.*pow(X,2./3.)),emi(e),"V emission");
  double f0=2.011*exp(-19.78*pow(X,-0.5175))-cos(39.89*pow(X,-0.5))*exp(-70.16*pow(X,-0.6))-0.011*exp(-1.69*pow(X,-0.5)), fm=f0+(0.011*exp(-1.69*pow(X,-0.5))-0.003135*pow(X,4./3.))*0.5*(1.+tanh(10*log(0.6648*pow(X,-0.5)))), b0=bessk0(1/t), b1=bessk1(1/t), b2=bessk(2,1/t); gv_assume(b2!=0);
  near_(q.r[0],rot(e)*e.nu0*e.nu0*st*st/(e.n*e.n)*fm*(b1/b2+6*t),abso(e),"Q rotation"); near_(q.r[2],2*rot(e)*e.nu0/e.n*(b0-0.4379*log(1.+1.3414*pow(X,-0.7515)))/b2*cos(e.th),abso(e),"V rotation"); }
GV_HARNESS(H_fit_powerlaw) { gv_no_throw(); Env e; Pl s; setup(s); e.set(s); double st=sin(e.th), p=s.PLindex(), X=e.n/(e.nu0*st), g=pow(s.gamma_min(),1-p)-pow(s.gamma_max(),1-p); gv_assume(g!=0); Q q; coef(s,e.n,q);
  double jI=pow(3.,p/2)*(p-1)*st/(2*(p+1)*g)*tgamma((3*p-1)/12)*tgamma((3*p+19)/12)*pow(X,(1-p)/2), aI=pow(3.,(p+1)/2)*(p-1)/(4*g)*tgamma((3*p+2)/12)*tgamma((3*p+22)/12)*pow(X,-(p+2)/2);
  near_(q.j[0],emi(e)*jI,emi(e),"I emission"); near_(q.j[1]*(p+7./3.),emi(e)*jI*(p+1),emi(e),"Q emission"); near_(q.j[3],emi(e)*jI*171./250.*pow(p,49./100.)*cos(e.th)/st*pow(e.n/(3*e.nu0*st),-0.5),emi(e),"V emission"); near_(q.a[0],abso(e)*aI,abso(e),"I absorption"); near_(q.a[1],abso(e)*aI*pow(17./500.*p-43./1250.,43./500.),abso(e),"Q absorption"); near_(q.a[3],abso(e)*aI*pow(71./100.*p+22./625.,197./500.)*pow(31./10.*pow(st,-48./25.)-31./10.,64./125.)*pow(X,-0.5),abso(e),"V absorption");
  double g0=s.gamma_min(), r=e.ne*GYOTO_ELEMENTARY_CHARGE_CGS*GYOTO_ELEMENTARY_CHARGE_CGS/(GYOTO_ELECTRON_MASS_CGS*GYOTO_C_CGS*e.nu0*st)*(p-1)/g; near_(q.r[0]*X*X*X,r*pow(g0,2-p)*(1-pow(2*e.nu0*g0*g0*st/3/e.n,p/2-1)),abso(e),"Q rotation"); near_(q.r[2]*X*X,2*r*(p+2)/(p+1)*pow(g0,-(p+1))*log(g0)*cos(e.th)/st,abso(e),"V rotation"); }
static double bridge(double lo, double hi, double x) { return pow(pow(lo,-x)+pow(hi,-x),-1./x); }
GV_HARNESS(H_fit_kappa) { gv_no_throw(); Env e; Ka s; setup(s); e.set(s); rates(s,e); double st=sin(e.th), k=s.kappaindex(), t=s.thetae(), X=e.n/(e.nu0*t*k*t*k*st), h=s.hypergeometric(); Q q; coef(s,e.n,q);
  double jl=pow(X,1./3.)*st*4*M_PI*tgamma(k-4./3.)/(pow(3.,7./3.)*tgamma(k-2)), jh=pow(X,-(k-2)/2)*st*pow(3.,(k-1)/2)*(k-1)*(k-2)/4*tgamma(k/4-1./3.)*tgamma(k/4+4./3.), al=pow(X,-2./3.)*pow(3.,1./6.)*10./41.*2*M_PI/pow(t*k,10./3.-k)*(k-1)*(k-2)*k/(3*k-1)*tgamma(5./3.)*h, ah=pow(X,-(1+k)/2)*pow(M_PI,3./2.)/3*(k-1)*(k-2)*k/(t*k*t*k*t*k)*(2*tgamma(2+k/2)/(2+k)-1);
  near_(q.j[0],emi(e)*bridge(jl,jh,3.*pow(k,-3./2.)),emi(e),"I emission"); if (k!=4) near_(q.j[1],emi(e)*bridge(0.5*jl,(pow(4./5.,2.)+k/50)*jh,3.7*pow(k,-8./5.)),emi(e),"Q emission"); near_(q.a[0],abso(e)*bridge(al,ah*(pow(3./k,19./4.)+3./5.),pow(-7./4.+8./5.*k,-43./50.)),abso(e),"I absorption"); near_(q.a[1],abso(e)*bridge(25./48.*al,ah*(441.*pow(k,-pow(12./5.,2.))+11./20.),7./5.*pow(k,-23./20.)),abso(e),"Q absorption");
  double vl=9./16.*pow(pow(st,-12./5.)-1.,12./25.)*pow(k,-66./125.)/t*pow(X,-7./20.), vh=49./64.*pow(pow(st,-5./2.)-1.,11./25.)*pow(k,-11./25.)/t*pow(X,-0.5); if (k>4) near_(q.j[3],emi(e)*bridge(vl*jl,vh*jh,3.*pow(k,-3./2.)),emi(e),"V emission");
  double wl=77./100./t*pow(pow(st,-114./50.)-1.,223./500.)*pow(k,-7./10.)*pow(X,-7./20.), wh=143./10.*pow(t,-116./125.)*pow(pow(st,-41./20.)-1.,1./2.)*(pow(13.,2.)*pow(k,-8.)+13./2500.*k-263./5000.+47./200./k)*pow(X,-0.5); near_(q.a[3],abso(e)*bridge(wl*al,wh*ah,61./50.*pow(k,-142./125.)+7./1000.),abso(e),"V absorption");
  static const double c[4][6]={{17,3,7,30,0.1,0.471},{46./3.,5./3.,17./3.,18,1./6.,0.5},{14,13./8.,4.5,12,0.25,0.525},{12.5,1,5,8,3./8.,0.541}}, x[4]={1.5,7./4.,2,9./4.}, d[4][6]={{1,2,1,25./8.,4,0.447},{1,54,50,30./11.,134,0.391},{1,43,38,7./3.,92.5,0.348},{0,1,13./14.,0,2,0.313}}; int m=int(2*k-7); const double *C=c[m], *D=d[m];
  double h2=GYOTO_ELEMENTARY_CHARGE_CGS*e.nu0*st; near_(q.r[0],e.ne*h2*h2/(GYOTO_ELECTRON_MASS_CGS*GYOTO_C_CGS*e.n*e.n*e.n)*(C[0]*t-C[1]*sqrt(t)+C[2]*sqrt(t)*exp(-5*t)*(1-exp(-pow(X,0.84)/C[3])-sin(X*C[4])*exp(-x[m]*pow(X,C[5])))),abso(e),"Q rotation");
  double b0=bessk0(1/t), b2=bessk(2,1/t); gv_assume(b2!=0); near_(q.r[2],2*rot(e)*e.nu0/e.n*cos(e.th)*b0/b2*(D[0]*t*t+D[1]*t+D[2])/(D[3]*t*t+D[4]*t+D[2])*(1-0.17*log(1+D[5]*pow(X,-0.5))),abso(e),"V rotation"); }
