/* the emission laws of thin disks, hot spots and inflating stars */
#include "line.h"
#include "GyotoMinkowski.h"
#include "GyotoKerrBL.h"
#include "GyotoKerrKS.h"
#include "GyotoBlackBodySpectrum.h"
#include "GyotoThinDiskPL.h"
#include "GyotoPageThorneDisk.h"
#include "GyotoThinDiskIronLine.h"
#include "GyotoPatternDiskBB.h"
#include "GyotoInflateStar.h"
#include "GyotoConverters.h"
#include "GyotoThinDiskProfile.h"
#include "GyotoUniformSpectrometer.h"
using namespace Gyoto; using namespace Gyoto::Astrobj;
static Metric::Minkowski *flat(bool sph) { Metric::Minkowski *m=new Metric::Minkowski(); m->spherical(sph); return m; }
/* Page and Thorne (1974), with x=sqrt(r), M=1: the three roots of x^3-3x+2a are x1, x2, -(x1+x2) */
struct PT { PageThorneDisk *o; double x0, a; PT() { o=new PageThorneDisk(); double s=gv_real("s",0.2,0.4); gv_assume(s>0); gv_assume(s<1); double q=-(3+3*s)/(1+s+s*s), x1=1+q, x2=1+s*q, x3=-(x1+x2); a=-x1*x2*x3/2; x0=gv_real("x0",2.1,2.6); gv_assume(x0>2); gv_assume(a>-1); gv_assume(a<1); o->aa_=a; o->aa2_=a*a; o->x0_=x0; o->x1_=x1; o->x2_=x2; o->x3_=x3; o->gg_=new Metric::KerrBL(); o->gg_->mass(1.); } };
GV_HARNESS(H_pagethorne_law) { gv_no_throw(); PT p; double x=gv_real("x",2.7,5.), a=p.a; gv_assume(x>p.x0);
  /* flux per unit of surface: F=f/(4 pi r), f=-Omega' (E-Omega L)^-2 Int (E-Omega L) L' dr; E-Omega L=sqrt(Q) x^3/(x^3+a), L=N/sqrt(Q), Omega=1/(x^3+a) */
  double X[1]={x}; auto G=[&](const double *y) { double z=y[0], z3=z*z*z, c[8]={0.,z*z,M_PI/2,0.,1.,0.,0.,0.}; double I=p.o->bolometricEmission(1.,1.,c)/GYOTO_INU_CGS_TO_SI, k=4.*M_PI*M_PI, f=I*k*z*z, Q=1-3/(z*z)+2*a/z3, w=z3/(z3+a), dOm=-3*z/(2*(z3+a)*(z3+a)); return f*Q*w*w/(-dOm); };
  double z=x, z3=z*z*z, Q=1-3/(z*z)+2*a/z3, dQ=6/z3-6*a/(z3*z), N=z*(1-2*a/z3+a*a/(z3*z)), dN=1+4*a/z3-3*a*a/(z3*z), w=z3/(z3+a);
  gv_eq(gv_D(G,X,1,0),w*(dN-N*dQ/(2*Q)),"torque balance of the disk"); }
GV_HARNESS(H_pagethorne_edge) { gv_no_throw(); PT p; double c[8]={0.,p.x0*p.x0,M_PI/2,0.,1.,0.,0.,0.}; gv_eq(p.o->bolometricEmission(1.,1.,c),0.,"no stress at the inner edge"); }
GV_HARNESS(H_pagethorne_units) { gv_no_throw(); PT p; double m=gv_real("M",1e30,2e30), d=gv_real("Mdot",1e15,2e15), r=gv_real("r",7.,20.); gv_assume(m>1); gv_assume(d>1); gv_assume(r>p.x0*p.x0); double c[8]={0.,r,M_PI/2,0.,1.,0.,0.,0.}; double e=p.o->bolometricEmission(1.,1.,c); p.o->mdot(d); p.o->gg_->mass(m); double C=GYOTO_C_CGS*GYOTO_C_CGS*GYOTO_C_CGS*GYOTO_C_CGS*GYOTO_C_CGS*GYOTO_C_CGS, G=GYOTO_G_CGS*GYOTO_G_CGS; gv_eq(p.o->bolometricEmission(1.,1.,c),e*d*C/(G*(m*1e3)*(m*1e3)),"accretion rate over mass squared, in SI"); p.o->uniFlux(true); gv_eq(p.o->bolometricEmission(1.,1.,c),1.,"uniform flux"); }
GV_HARNESS(H_thindisk_pl) { gv_no_throw(); ThinDiskPL *o=new ThinDiskPL(); bool sph=gv_choose("spherical",2); o->metric(flat(sph)); double T=gv_real("T",1e3,1e4), s=gv_real("slope",-1.,1.), r0=gv_real("r0",1.,2.), nu=gv_real("nu",1e14,2e14); gv_assume(T>0); gv_assume(r0>0); gv_assume(nu>0); o->Tinner(T); o->Slope(s); o->innerRadius(r0); double r=gv_real("r",2.,4.), f=gv_real("phi",0.,6.); gv_assume(r>0); double c[8]={0.,sph?r:r*std::cos(f),sph?M_PI/2:r*std::sin(f),sph?f:0.,1.,0.,0.,0.}; double R=sph?r:std::sqrt(c[1]*c[1]+c[2]*c[2]); state_t ph(8); Spectrum::BlackBody *b=new Spectrum::BlackBody(); b->temperature(T*std::pow(R/r0,s)); gv_eq(o->emission(nu,1.,ph,c),(*b)(nu),"black body of the local temperature"); double e=o->emission(nu,1.,ph,c); gv_eq(o->emission(nu,2.,ph,c),e,"twice the same, whatever the path"); }
GV_HARNESS(H_ironline) { gv_no_throw(); ThinDiskIronLine *o=new ThinDiskIronLine(); o->metric(flat(true)); double p=gv_real("index",2.,4.), nu0=gv_real("line",1e18,2e18), rc=gv_real("rc",2.,4.), r=gv_real("r",1.,6.), nu=gv_real("nu",0.9e18,2.1e18); gv_assume(nu0>0); gv_assume(r>0); o->PowerLawIndex(p); bool unit=gv_choose("unit",2); if (unit) { Units::Init(); o->LineFreq(nu0,"Hz"); } else o->LineFreq(nu0/2.417989579752276e+17); o->CutRadius(rc); double c[8]={0.,r,M_PI/2,0.,1.,0.,0.,0.}; state_t ph(8); double f=nu0; bool on=r>=rc && nu<=f*1.01 && nu>=f*0.99; gv_eq(o->emission(nu,1.,ph,c),on?std::pow(r,-p):0.,"power of the radius within the line"); }
GV_HARNESS(H_patterndiskbb) { gv_no_throw(); PatternDiskBB *o=new PatternDiskBB(); o->metric(flat(true)); double r0=gv_real("r0",1.,2.), r1=gv_real("r1",3.,4.), T0=gv_real("T0",1e3,2e3), T1=gv_real("T1",1e3,2e3), r=gv_real("r",0.5,4.5), nu=gv_real("nu",1e14,2e14); gv_assume(r0>0); gv_assume(r1>r0); gv_assume(T0>0); gv_assume(T1>0); gv_assume(r>r0-0.5*(r1-r0)); gv_assume(r>0); gv_assume(r<r1+(r1-r0)); gv_assume(r!=r0); double *I=new double[2]; I[0]=T0; I[1]=T1; o->emission_=I; o->nr_=2; o->nphi_=1; o->nnu_=1; o->nu0_=nu; o->dnu_=1; o->repeat_phi_=1; o->phimin_=0; o->phimax_=6; o->dphi_=1; o->radius_=0; o->dr_=r1-r0; o->rin_=r0; o->rout_=r1; bool bb=gv_choose("spectral",2); o->spectralEmission(bb); double c[8]={0.,r,M_PI/2,1.,1.,0.,0.,0.}; state_t ph(8); gv_enum_floor(); double v=T0+(T1-T0)*(r-r0)/(r1-r0); Spectrum::BlackBody *b=new Spectrum::BlackBody(); b->temperature(v); gv_eq(o->emission(nu,1.,ph,c),r<r0||r>r1?0.:bb?(*b)(nu):v,"grid value, or black body of the grid temperature"); }
GV_HARNESS(H_inflate) { gv_no_throw(); InflateStar *o=new InflateStar(); double R=gv_real("R",1.,2.), Rs=gv_real("Rstop",3.,4.), t0=gv_real("t0",-1.,0.), t1=gv_real("t1",1.,2.), t=gv_real("t",-2.,3.); gv_assume(R>0); gv_assume(Rs>R); gv_assume(t1>t0); o->radius_=R; o->timeInflateInit(t0); o->timeInflateStop(t1); o->radiusStop(Rs); double r= t<=t0?R: t>=t1?Rs: R+(Rs-R)*(t-t0)/(t1-t0); gv_eq(o->radiusAt(t),r,"radius grows evenly between the dates"); state_t ph(8); ph[0]=t; double c[8]={t,1.,0.,0.,1.,0.,0.,0.}, ds=gv_real("ds",0.1,1.), nu=gv_real("nu",1e14,2e14); gv_assume(ds>0); gv_assume(nu>0); bool thin=gv_choose("thin",2); o->opticallyThin(thin); double e=o->UniformSphere::emission(nu,ds,ph,c); gv_eq(o->emission(nu,ds,ph,c)*r*r*r,e*R*R*R,"diluted with the volume"); }
GV_HARNESS(B_pagethorne_cache) { gv_no_throw(); PageThorneDisk *o=new PageThorneDisk(); o->innerRadius(5.); double a=gv_real("a",0.05,0.95), b=gv_real("b",0.05,0.95); gv_assume(a>0); gv_assume(a<1); gv_assume(b>0); gv_assume(b<1); Metric::KerrBL *m=new Metric::KerrBL(); m->spin(b); o->metric(m); m->spin(a); gv_eq(o->aa_,a,"follows the spin of its metric"); double x[3]={o->x1_,o->x2_,o->x3_}, y=o->x0_; for (int i=0;i<3;++i) gv_eq(x[i]*x[i]*x[i],3*x[i]-2*a,"root of the cubic"); gv_true(x[0]>x[1] && x[1]>x[2],"three different roots"); gv_eq(y*y*y*y+8*a*y,6*y*y+3*a*a,"innermost stable orbit"); }
/* what a hit on such a disk adds */
struct PTD : public PageThorneDisk { static double f(const char *n, double nu, double ds) { double v[2]={nu,ds}; return gv_uf(n,2,v); } double emission(double nu, double ds, state_t const &, double const *) const { return f("em",nu,ds); } double bolometricEmission(double, double ds, double const *) const { return f("bol",0.,ds); } };
GV_HARNESS(H_pagethorne_hit) { gv_no_throw(); AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); PTD *o=new PTD(); o->gg_=m; int n=1+int(gv_choose("n",2)), q=1+int(gv_choose("quantities",15)); double na=gv_real("nu0",1.,2.), nb=gv_real("nu1",3.,4.); gv_assume(na>0); gv_assume(nb>na); Photon *p=new Photon(); p->spectro_=new Spectrometer::Uniform(size_t(n),na,nb,Spectrometer::Uniform::FreqKind); p->parallel_transport_=false; p->_allocateTransmission(); double T=gv_real("Tobs",0.,1.); p->transmission_freqobs_=T; gv_lbl l; state_t ph(8); double ob[8]; for (int i=0;i<8;++i) { ph[i]=gv_real(gv_ij(l,"p",i),0.5,2.); ob[i]=gv_real(gv_ij(l,"o",i),0.5,2.); } double dt=gv_real("dt",0.1,1.); gv_assume(ph[4]!=0); double g=-m->dot(ob+4,&ph[4]); gv_assume(g>0); bool red=gv_choose("redshift",2), un=gv_choose("uniform",2); o->redshift(red); o->uniFlux(un); if (!red) g=1; double ds=dt/ph[4]*g, z=un?1.:1/g, sp[4]={1,2,3,4}, u4=gv_real("u4",0.,1.), u0=u4, zr=7, tt=7, sc=1; Astrobj::Properties d; d.offset=2; if (q&1) d.spectrum=sp; if (q&2) d.user4=&u4; if (q&4) d.redshift=&zr; if (q&8) d.time=&tt; if (q&1) if (gv_choose("converted",2)) { Units::Init(); d.spectrumConverter(std::string("erg.cm-2.s-1.sr-1.Hz-1")); sc=1000; }
  o->processHitQuantities(p,ph,ob,dt,&d); for (int i=0;i<4;++i) gv_eq(sp[i],(q&1) && i%2==0 && i/2<n? i+1+sc*PTD::f("em",p->spectro_->getMidpoints()[i/2]*g,ds)*T*z*z*z : i+1,"spectrum of the hit"); gv_eq(u4,q&2? u0+PTD::f("bol",0.,ds)*T*z*z*z*z:u0,"bolometric intensity"); gv_eq(zr,q&4?z:7.,"redshift"); gv_eq(tt,q&8?ph[0]:7.,"date"); gv_eq(p->transmission_freqobs_,0.,"the disk is opaque"); }
struct Prof : public ThinDiskProfile { double emission(double nu, double ds, state_t const &, double const *) const { return PTD::f("em",nu,ds); } };
GV_HARNESS(H_profile_hit) { gv_no_throw(); AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); Prof *o=new Prof(); o->gg_=m; int q=int(gv_choose("quantity",5)); double na=gv_real("nu0",1.,2.), nb=gv_real("nu1",3.,4.); gv_assume(na>0); gv_assume(nb>na); Photon *p=new Photon(); p->maxCrossEqplane(3.); p->spectro_=new Spectrometer::Uniform(size_t(1),na,nb,Spectrometer::Uniform::FreqKind); p->parallel_transport_=false; p->_allocateTransmission(); double T=gv_real("Tobs",0.,1.); p->transmission_freqobs_=T; gv_lbl l; state_t ph(8); double ob[8], ic[16]; for (int i=0;i<16;++i) ic[i]=7; for (int i=0;i<8;++i) { ph[i]=gv_real(gv_ij(l,"p",i),0.5,2.); ob[i]=gv_real(gv_ij(l,"o",i),0.5,2.); } double dt=gv_real("dt",0.1,1.); gv_assume(ph[4]!=0); double g=-m->dot(ob+4,&ph[4]); gv_assume(g>0); bool red=gv_choose("redshift",2); o->redshift(red); if (!red) g=1; double ds=dt/ph[4]*g, z=1/g, sp=1, u4=2, zr=7; Astrobj::Properties d; if (q==1) d.spectrum=&sp; if (q==2) d.user4=&u4; if (q==3) d.redshift=&zr; if (q==4) d.impactcoords=ic;
  o->processHitQuantities(p,ph,ob,dt,q?&d:0); gv_eq(sp,q==1?1+PTD::f("em",(na+nb)/2*g,ds)*T*z*z*z:1.,"spectrum of the hit"); gv_eq(u4,q==2?2+PTD::f("em",g,ds)*T*z*z*z*z:2.,"bolometric intensity"); gv_eq(zr,q==3?z:7.,"redshift"); for (int i=0;i<16;++i) gv_eq(ic[i],q==4?(i<8?ob[i]:ph[i-8]):7.,"impact coordinates"); }
