/* emission, absorption and velocity of a disk given on a grid of radii and azimuths, possibly rotating */
#include "line.h"
#include "GyotoMinkowski.h"
#include "GyotoPatternDisk.h"
using namespace Gyoto; using namespace Gyoto::Astrobj;
struct PD { PatternDisk *o; int nr, np; double *I, *K, *V, rad[4], dph, c[8], om, t0; PD() { Metric::Minkowski *m=new Metric::Minkowski(); m->spherical(true); o=new PatternDisk(); o->metric(m); nr=3; np=gv_choose("columns",2)?3:1; I=gv_array("I",np*nr); K=gv_array("K",np*nr); o->emission_=I; o->opacity_=K; o->nr_=nr; o->nphi_=np; o->nnu_=1; o->nu0_=0; o->dnu_=1; o->repeat_phi_=1; o->phimin_=0; dph=gv_real("dphi",1.8,2.2); gv_assume(dph>0); gv_assume((np-1)*dph<2*M_PI); o->dphi_=dph; o->phimax_=(np-1)*dph;
  rad[0]=gv_real("r0",1.,2.); if (gv_choose("radii given",2)) { rad[1]=gv_real("r1",2.5,3.); rad[2]=gv_real("r2",3.5,5.); gv_assume(rad[0]>0); gv_assume(rad[1]>rad[0]); gv_assume(rad[2]>rad[1]); double *r=new double[3]; for (int i=0;i<3;++i) r[i]=rad[i]; o->radius_=r; o->dr_=0; }
  else { double d=gv_real("dr",1.,2.); gv_assume(d>0); gv_assume(rad[0]>0); rad[1]=rad[0]+d; rad[2]=rad[0]+2*d; o->dr_=d; o->radius_=0; } o->rin_=rad[0]; o->rout_=rad[2];
  om=gv_real("Omega",-1.,1.); t0=gv_real("t0",-1.,1.); o->Omega_=om; o->t0_=t0; c[0]=gv_real("t",-1.,1.); c[1]=gv_real("r",0.5,6.); c[2]=M_PI/2; c[3]=gv_real("phi",0.,6.28); gv_assume(c[1]<rad[0]+6*(rad[2]-rad[0])); for (int i=4;i<8;++i) c[i]=0; gv_enum_floor(); }
  /* azimuth in the frame of the pattern, within one turn */
  double az() { double f=c[3]-om*(c[0]-t0); gv_assume(c[3]>0); gv_assume(c[3]<2*M_PI); gv_assume(f>-2*M_PI); gv_assume(f<4*M_PI); if (f<0) f+=2*M_PI; if (f>2*M_PI) f-=2*M_PI; return f; }
  double at(const double *A, double r, double f) { int i=r<rad[1]?0:1; double x=(r-rad[i])/(rad[i+1]-rad[i]); if (np==1) return A[i]*(1-x)+A[i+1]*x; int j=f<dph?0:f<2*dph?1:2, k=(j+1)%np; double hi=j<np-1?(j+1)*dph:2*M_PI, y=(f-j*dph)/(hi-j*dph); return (1-x)*((1-y)*A[j*nr+i]+y*A[k*nr+i])+x*((1-y)*A[j*nr+i+1]+y*A[k*nr+i+1]); } };
GV_HARNESS(H_pattern_emission) { gv_no_throw(); PD p; double f=p.az(), r=p.c[1]; gv_assume(r>p.rad[0]); gv_assume(r!=p.rad[1]); if (p.np>1) { gv_assume(f!=0); gv_assume(f!=p.dph); gv_assume(f!=2*p.dph); } state_t ph(8); p.o->opticallyThin(false); double e=p.o->emission(1.,1.,ph,p.c); gv_eq(e,r>p.rad[2]?0.:p.at(p.I,r,f),"bilinear value of the cell, rotated"); }
GV_HARNESS(H_pattern_outside) { gv_no_throw(); PD p; p.az(); gv_assume(p.c[1]>0); gv_assume(p.c[1]>p.rad[0]-0.5*(p.rad[2]-p.rad[0])); gv_assume(p.c[1]<p.rad[0] || p.c[1]>p.rad[2]); if (p.np>1) { double f=p.az(); gv_assume(f!=2*p.dph); } state_t ph(8); p.o->opticallyThin(false); gv_eq(p.o->emission(1.,1.,ph,p.c),0.,"no emission beyond the radii"); }
GV_HARNESS(H_pattern_absorb) { gv_no_throw(); PD p; double f=p.az(), r=p.c[1], ds=gv_real("ds",0.1,1.); gv_assume(r>p.rad[0]); if (p.np>1) { gv_assume(f!=0); gv_assume(f!=p.dph); gv_assume(f!=2*p.dph); } gv_assume(r!=p.rad[1]); gv_assume(r<p.rad[2]); state_t ph(8); p.o->opticallyThin(true); double T=p.o->transmission(1.,ds,ph,p.c), E=p.o->emission(1.,ds,ph,p.c); int i=r<p.rad[1]?1:2, j=p.np==1?0:f<p.dph?1:f<2*p.dph?2:0; double k=p.K[j*p.nr+i]; gv_eq(T,k==0?1.:std::exp(-k*ds),"transmission of the grid point"); gv_eq(E,k*ds==0?0.:p.at(p.I,r,f)*(1-std::exp(-k*ds)),"emission of the absorbing layer"); }
GV_HARNESS(H_pattern_transparent) { gv_no_throw(); PD p; p.o->opacity_=0; state_t ph(8); bool thin=gv_choose("thin",2); p.o->opticallyThin(thin); gv_eq(p.o->transmission(1.,1.,ph,p.c),thin?1.:0.,"no opacity, no absorption; opaque disks stop the ray"); }
GV_HARNESS(H_pattern_velocity) { gv_no_throw(); PD p; double f=p.az(), r=p.c[1], u[4]; gv_assume(r>p.rad[0]); gv_assume(r!=p.rad[1]); gv_assume(r<=p.rad[2]); if (p.np>1) { gv_assume(f!=0); gv_assume(f!=p.dph); gv_assume(f!=2*p.dph); } const char *nm[18]={"V0","V1","V2","V3","V4","V5","V6","V7","V8","V9","V10","V11","V12","V13","V14","V15","V16","V17"}; p.V=new double[2*p.np*p.nr]; for (int k=0;k<2*p.np*p.nr;++k) p.V[k]=gv_real(nm[k],-0.1,0.1); p.o->velocity_=p.V; p.o->dir_=1; double vr=p.at(p.V,r,f), vp=p.at(p.V+p.np*p.nr,r,f); gv_assume(vr*vr+r*r*vp*vp<1); p.o->getVelocity(p.c,u); gv_eq(u[1],u[0]*vr,"interpolated radial velocity, rotated"); gv_eq(u[2],0,"in the plane"); gv_eq(u[3],u[0]*vp,"interpolated angular velocity, rotated"); }
