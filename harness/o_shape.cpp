/* shapes of the extended objects, in either kind of coordinates */
#include "line.h"
#include "GyotoMinkowski.h"
#include "GyotoKerrBL.h"
#include "GyotoStandardAstrobj.h"
#include "GyotoJet.h"
#include "GyotoSphericalAccretion.h"
#include "GyotoDeformedTorus.h"
#include "GyotoOscilTorus.h"
#include "GyotoPolishDoughnut.h"
#include "GyotoFlaredDiskSynchrotron.h"
using namespace Gyoto; using namespace Gyoto::Astrobj;
/* a place, its Cartesian coordinates and its coordinates in the kind chosen */
struct Place { double c[4], r, rho, z; bool sph; Metric::Minkowski *m; Place() { sph=gv_choose("spherical",2); m=new Metric::Minkowski(); m->spherical(sph); c[0]=gv_real("t",0.,1.);
  if (sph) { c[1]=gv_real("r",1.,5.); c[2]=gv_real("th",0.2,2.9); c[3]=gv_real("ph",0.,6.); gv_assume(c[1]>0); gv_assume(std::sin(c[2])>0); r=c[1]; rho=c[1]*std::sin(c[2]); z=c[1]*std::cos(c[2]); }
  else { for (int i=1;i<4;++i) { gv_lbl l; c[i]=gv_real(gv_ij(l,"x",i),-3.,3.); } rho=std::sqrt(c[1]*c[1]+c[2]*c[2]); z=c[3]; r=std::sqrt(c[1]*c[1]+c[2]*c[2]+c[3]*c[3]); } } };
GV_HARNESS(H_shape_jet) { gv_no_throw(); Place p; Jet *o=new Jet(); o->metric(p.m); bool par=gv_choose("parabolic",2); o->parabolic(par); double ri=gv_real("rin",0.5,3.), a=gv_real("a",0.1,0.5), b=gv_real("b",0.6,1.); gv_assume(a>0); gv_assume(b>0); o->jetInnerRadius(ri); double Z=std::fabs(p.z), in, out;
  if (par) { o->jetShapeInnerParabolaParam_=a; o->jetShapeOuterParabolaParam_=b; in=std::sqrt(Z/a); out=std::sqrt(Z/b); } else { o->jetInnerOpeningAngle_=a; o->jetOuterOpeningAngle_=b; in=Z*std::tan(a); out=Z*std::tan(b); }
  double d=(*o)(p.c); gv_eq(d,p.r<ri? ri-p.r : (p.rho-in)*(p.rho-out),"negative inside the sheath, above the base"); }
GV_HARNESS(H_shape_spherical) { gv_no_throw(); Place p; SphericalAccretion *o=new SphericalAccretion(); o->metric(p.m); double ri=gv_real("rin",0.5,3.); o->sphericalAccretionInnerRadius(ri); gv_eq((*o)(p.c),ri-p.r,"everything beyond the inner radius"); }
GV_HARNESS(H_shape_flared) { gv_no_throw(); Place p; FlaredDiskSynchrotron *o=new FlaredDiskSynchrotron(); o->metric(p.m); double h=gv_real("hoverr",0.1,1.), a=gv_real("rmin",0.1,1.), b=gv_real("rmax",2.,3.); o->hoverR(h); o->rmin(a); o->rmax(b); double d=(*o)(p.c), e=p.rho<a || p.rho>b? 1. : std::fabs(p.z)-h*p.rho; gv_eq(d,e,"below the height of the flared disk, between the radii of the grid"); }
GV_HARNESS(H_shape_deltamax) { gv_no_throw(); Place p; Jet *o=new Jet(); o->metric(p.m); double rm=gv_real("rmax",1.,4.), dm=gv_real("dmax",0.1,1.); o->rMax(rm); o->deltaMaxInsideRMax(dm); double c[8]; for (int i=0;i<4;++i) { c[i]=p.c[i]; c[4+i]=0; } gv_eq(static_cast<Astrobj::Generic*>(o)->deltaMax(c),p.r<rm?dm:p.r/2,"step limit"); }
static void sphpos(double *x) { x[0]=gv_real("t",-3,3); x[1]=gv_real("r",3,10); x[2]=gv_real("th",0.3,2.8); x[3]=gv_real("ph",0.1,6); gv_assume(x[1]>0); gv_assume(std::sin(x[2])>0); }
/* slender torus around r=c, deformed by a time-dependent affine map of its cross-section */
GV_HARNESS(H_shape_deformed) { gv_no_throw(); double x[4]; sphpos(x); Metric::KerrBL *m=new Metric::KerrBL(); double a=gv_real("a",-0.9,0.9), c=gv_real("c",6.,10.), be=gv_real("beta",0.1,0.3), et=gv_real("eta",0.1,0.5); gv_assume(c>0); gv_assume(be>0); m->spin(a); DeformedTorus *o=new DeformedTorus(); o->gg_=m; o->Astrobj::Generic::gg_=m; o->c_=c; o->param_beta_=be; o->param_eta_=et; int k=1+int(gv_choose("kind",7)); o->perturb_kind_=DeformedTorus::perturb_t(k);
  double q[4]={0,c,M_PI/2,0}, X=std::sqrt(m->gmunu(q,1,1))*(x[1]-c)/(be*c), Y=std::sqrt(m->gmunu(q,2,2))*(M_PI/2-x[2])/(be*c), W=x[0]/(std::pow(c,1.5)+a), S=std::sin(W), C=std::cos(W), u=X, v=Y, e=1+et*S; if (k==4 || k==7) gv_assume(e!=0);
  switch (k) { case 1: u=X+et*S; break; case 2: v=Y+et*S; break; case 3: u=C*X+S*Y; v=C*Y-S*X; break; case 4: u=e*X; v=e*Y; break; case 5: u=X+et*S*Y; break; case 6: v=Y+et*S*X; break; case 7: u=e*X; v=Y/e; break; }
  double wr=1-6/c+8*a*std::pow(c,-1.5)-3*a*a/(c*c), wt=1-4*a*std::pow(c,-1.5)+3*a*a/(c*c); gv_eq((*o)(x),wr*u*u+wt*v*v-1,"elliptical section in the deformed coordinates"); }
GV_HARNESS(H_shape_doughnut) { gv_no_throw(); double x[4]; sphpos(x); Metric::KerrBL *m=new Metric::KerrBL(); m->spin(gv_real("a",-0.9,0.9)); PolishDoughnut *o=new PolishDoughnut(); o->gg_=m; double l0=gv_real("l0",3.,4.), W=gv_real("W",-0.1,0.), rc=gv_real("rcusp",3.,5.), ri=gv_real("rin",2.,4.); o->l0_=l0; o->W_surface_=W; o->r_cusp_=rc; o->rintorus_=ri; double d=(*o)(x), P[4]; for (int i=0;i<4;++i) P[i]=x[i];
  if (x[1]<ri || m->gmunu_up(x,0,0)-2*l0*m->gmunu_up(x,0,3)+l0*l0*m->gmunu_up(x,3,3)>0) gv_true(d>0,"outside where the flow does not exist"); else { double f=W-m->getPotential(P,l0), R=x[1]*std::sin(x[2]); gv_eq(d,R<rc? std::fabs(f)+rc-R : f,"negative where the potential exceeds that of the surface, outside the cusp"); } }
