/* the matter that emits: its velocity is a unit, future-directed vector of the stated kind, it moves at that velocity, and
   the magnetic field it carries is a unit vector orthogonal to it -- in an arbitrary circular spacetime */
#include "anymetric.h"
#include "GyotoKerrBL.h"
#include "GyotoThinDisk.h"
#include "GyotoThickDisk.h"
#include "GyotoJet.h"
#include "GyotoSphericalAccretion.h"
#include "GyotoBlob.h"
#include "GyotoPlasmoid.h"
#include "GyotoFreeStar.h"
#include "GyotoFixedStar.h"
#include "GyotoTorus.h"
#include "GyotoPolishDoughnut.h"
#include "GyotoOscilTorus.h"
#include "GyotoDeformedTorus.h"
#include "GyotoEquatorialHotSpot.h"
#include "GyotoPatternDisk.h"
#include "GyotoDisk3D.h"
#include "GyotoSimBridge.h"
#include "GyotoFlaredDiskSynchrotron.h"
using namespace Gyoto; using namespace Gyoto::Astrobj;
/* a circular metric: its five coefficients at the event at hand are arbitrary */
template<class B> struct Circ : public B {
  double G[4][4], U[4][4], cv[4], cp[4]; double cd; int asked, asked_dir;
  void init() { gv_lbl l; asked=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) G[i][j]=U[i][j]=0;
    double n=gv_real("lapse",0.7,0.95), c=gv_real("g.0.3",-0.2,0.2), q[4]; gv_assume(n>0); for (int i=1;i<4;++i) { q[i]=gv_real(gv_ij(l,"s",i),0.7,1.4); gv_assume(q[i]>0); G[i][i]=q[i]*q[i]; U[i][i]=1/G[i][i]; }
    G[0][3]=G[3][0]=c; G[0][0]=c*c/G[3][3]-n*n; gv_assume(G[0][0]<0); /* every circular metric of Lorentzian signature with a timelike d/dt: n, s.i are its lapse and scale factors */
    U[0][0]=-1/(n*n); U[0][3]=U[3][0]=c/(n*n*G[3][3]); U[3][3]=1/G[3][3]-c*c/(n*n*G[3][3]*G[3][3]);
    for (int i=0;i<4;++i) cv[i]=gv_real(gv_ij(l,"cv",i),0.5,2); }
  template<class...A> Circ(A...a) : B(a...) { init(); }
  Circ *clone() const { return new Circ(*this); }
  void gmunu(double g[4][4], double const *) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=G[i][j]; }
  double gmunu(double const *, int i, int j) const { return G[i][j]; }
  void gmunu_up(double g[4][4], double const *) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=U[i][j]; }
  double gmunu_up(double const *, int i, int j) const { return U[i][j]; }
  /* contract of the circular velocity (proved for every metric elsewhere): some velocity, recorded with its arguments */
  void circularVelocity(double const p[4], double v[4], double dir) const { Circ *s=const_cast<Circ*>(this); ++s->asked; s->cd=dir; s->asked_dir=1; for (int i=0;i<4;++i) { s->cp[i]=p[i]; v[i]=cv[i]; } }
  void circularVelocity(double const p[4], double v[4]) const { Circ *s=const_cast<Circ*>(this); ++s->asked; s->asked_dir=0; s->cd=1; for (int i=0;i<4;++i) { s->cp[i]=p[i]; v[i]=cv[i]; } }
  double dot(const double *u, const double *v) const { double s=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) s+=G[i][j]*u[i]*v[j]; return s; }
  double low(const double *u, int i) const { double s=0; for (int j=0;j<4;++j) s+=G[i][j]*u[j]; return s; }
};
struct Sph : public Metric::Generic { Sph() : Metric::Generic(GYOTO_COORDKIND_SPHERICAL,"any") {} Sph *clone() const { return new Sph(*this); } virtual Property const *getProperties() const { return 0; } };
typedef Circ<Sph> CM; typedef Circ<Metric::KerrBL> CK;
static void event(double *x) { x[0]=gv_real("t",-3,3); x[1]=gv_real("r",3,10); x[2]=gv_real("th",0.3,2.8); x[3]=gv_real("ph",0.1,6); gv_assume(x[1]>0); gv_assume(std::sin(x[2])>0); }
template<class M> static void unit(M *m, const double *u) { gv_eq(m->dot(u,u),-1,"velocity.unit"); gv_true(u[0]>=0,"velocity.future" /* zero is excluded by the norm */); }
template<class M> static void circular(M *m, const double *x, const double *u, double dir) { gv_lbl l; gv_eqi(m->asked,1,"circular velocity of the metric"); gv_eq(m->cd,dir,"circular velocity.direction"); for (int i=0;i<4;++i) { gv_eq(m->cp[i],x[i],gv_ij(l,"circular velocity.where",i)); gv_eq(u[i],m->cv[i],gv_ij(l,"circular velocity.returned",i)); } }
GV_HARNESS(H_vel_thindisk) { gv_no_throw(); CM *m=new CM(); double x[4],u[4]; event(x); ThinDisk *o=new ThinDisk("disk"); o->metric(m); double d=gv_choose("retrograde",2)?-1:1; o->dir(int(d));
  if (gv_choose("zamo",2)) { o->velocityKind("ZAMO"); o->getVelocity(x,u); unit(m,u); gv_eq(m->low(u,3),0,"zamo.no angular momentum"); gv_eq(u[1],0,"zamo.r"); gv_eq(u[2],0,"zamo.theta"); gv_eqi(m->asked,0,"zamo.not circular"); }
  else { o->velocityKind("Keplerian"); o->getVelocity(x,u); circular(m,x,u,d); } }
GV_HARNESS(H_vel_thickdisk) { CM *m=new CM(); double x[4],u[4]; event(x); ThickDisk *o=new ThickDisk(); o->metric(m); double al=gv_real("alpha",0,1), be=gv_real("beta",0,1); std::vector<double> v(2); v[0]=al; v[1]=be; gv_assume(al>=0); gv_assume(al<=1); gv_assume(be>=0); gv_assume(be<=1); o->veloParam(v);
  double rc=x[1]*std::sin(x[2]), ll=std::pow(rc,1.5)/(rc+1); gv_assume(m->U[0][0]-2*ll*m->U[0][3]+ll*ll*m->U[3][3]<0); gv_assume(m->U[0][0]<=-1);
  gv_allow_throw(); o->getVelocity(x,u); gv_no_throw(); unit(m,u); gv_eq(u[2],0,"no vertical motion");
  gv_eq(u[1],-(1-al)*std::sqrt((-1-m->U[0][0])*m->U[1][1]),"radial part"); double Oc=(-m->U[0][3]+ll*m->U[3][3])/(-m->U[0][0]+ll*m->U[0][3]), Or=m->U[0][3]/m->U[0][0]; gv_eq(u[3]/u[0],Oc+(1-be)*(Or-Oc),"angular velocity between circular and infalling"); }
GV_HARNESS(H_vel_spherical) { CM *m=new CM(); double x[4],u[4]; event(x); SphericalAccretion *o=new SphericalAccretion(); o->metric(m); gv_assume(m->U[0][0]<=-1); gv_allow_throw(); o->getVelocity(x,u); gv_no_throw(); unit(m,u); gv_eq(m->low(u,0),-1,"energy at rest at infinity"); gv_eq(m->low(u,3),0,"no angular momentum"); gv_eq(u[2],0,"radial"); gv_true(u[1]<=0,"inward"); }
GV_HARNESS(H_vel_jet) { CM *m=new CM(); double x[4],u[4]; event(x); Jet *o=new Jet(); o->metric(m); double ga=gv_real("gamma",1.1,5), q=gv_real("vphi/vr",-1,1); gv_assume(ga>1); o->gammaJet(ga); o->jetVphiOverVr(q); bool par=gv_choose("parabolic",2), out=gv_choose("outflowing",2); o->parabolic(par); o->outflowing(out); double p=gv_real("a",0.1,1), s=gv_real("stagnation",0,20); o->jetShapeInnerParabolaParam_=p; o->jetStagnationRadius(s);
  if (par) gv_assume(std::cos(x[2])!=0);
  gv_allow_throw(); o->getVelocity(x,u); gv_no_throw(); unit(m,u); double z[4], e[4]={0,0,0,1}; static_cast<Metric::Generic*>(m)->zamoVelocity(x,z); gv_eq(-m->dot(u,z),ga,"Lorentz factor with respect to the zamo");
  double g=1; if (!(out && x[1]>s)) g=-1; double Vr=u[1]*std::sqrt(m->G[1][1]), Vt=u[2]*std::sqrt(m->G[2][2]), Vp=(u[3]-ga*z[3])*std::sqrt(m->G[3][3]);
  if (!par) { gv_eq(Vt,0,"conical.radial motion"); gv_true(g*Vr>0,"conical.outflow or inflow"); gv_eq(Vp,q*g*Vr,"conical.azimuthal motion"); }
  else { double S=std::cos(x[2])<0?-1:1, rc=x[1]*std::sin(x[2]), a=std::sin(x[2])+2*S*p*rc*std::cos(x[2]), b=std::cos(x[2])-2*S*p*rc*std::sin(x[2]); double R=std::sqrt(a*a+b*b), V=g*std::sqrt(ga*ga-1)/std::sqrt(1+q*q*(a/R)*(a/R)); gv_eq(Vr,V*a/R,"parabolic.along the sheath, r"); gv_eq(Vt,V*b/R,"parabolic.along the sheath, theta"); gv_eq(Vp,q*g*V*a/R,"parabolic.azimuthal motion"); } }
static std::vector<double> vec(const char *n, int k, double lo, double hi) { gv_lbl l; std::vector<double> v(k); for (int i=0;i<k;++i) v[i]=gv_real(gv_ij(l,n,i),lo,hi); return v; }
static void slow(CM *m, const double *v) { double w[4]={1,v[0],v[1],v[2]}; gv_assume(m->dot(w,w)<0); }
/* dx/dt of the centre, from its position at that date, against the velocity at the centre */
static void sphcart(double r, double th, double ph, double *X) { X[0]=r*std::sin(th)*std::cos(ph); X[1]=r*std::sin(th)*std::sin(ph); X[2]=r*std::cos(th); }
template<class O> static void moves(O *o, double t, const double *x, const double *u, const char *what) { gv_lbl l; double X[3]; o->getCartesian(&t,1,X,X+1,X+2,0,0,0); double s=std::sin(x[2]), c=std::cos(x[2]), sp=std::sin(x[3]), cp=std::cos(x[3]), r=x[1], dr=u[1]/u[0], dt=u[2]/u[0], dp=u[3]/u[0], Y[3]; sphcart(x[1],x[2],x[3],Y);
  double D[3]={dr*s*cp+r*c*cp*dt-r*s*sp*dp, dr*s*sp+r*c*sp*dt+r*s*cp*dp, dr*c-r*s*dt}; for (int i=0;i<3;++i) { gv_eq(X[i],Y[i],gv_ij(l,what,i)); auto f=[&](const double*q){ double Z[3]; o->getCartesian(q,1,Z,Z+1,Z+2,0,0,0); return Z[i]; }; gv_eq(gv_D(f,&t,1,0),D[i],gv_ij(l,"moves at its velocity",i)); } }
GV_HARNESS(H_vel_blob) { gv_no_throw(); CM *m=new CM(); Blob *o=new Blob(); o->metric(m); int k=int(gv_choose("motion",3)); std::vector<double> c=vec("c",4,1,2), v=vec("v",3,0.05,0.1); double t=gv_real("t",1.2,1.5), T=t-c[0]; gv_assume(c[1]>0);
  if (k) c[2]=M_PI/2; o->blobMotionType(k==0?"HelicalConical":k==1?"Equatorial":"HelicalCylindrical"); o->init4Coord(c); o->init3Velo(v); double x[4]={t}, w[3], u[4];
  if (k==0) { gv_assume(v[0]!=0); x[1]=c[1]+v[0]*T; gv_assume(x[1]>0); x[2]=c[2]; x[3]=c[3]+c[1]*c[1]*v[2]/v[0]*(1/c[1]-1/x[1]); w[0]=v[0]; w[1]=0; w[2]=v[2]*c[1]*c[1]/(x[1]*x[1]); }
  else if (k==1) { x[1]=c[1]; x[2]=M_PI/2; x[3]=c[3]+v[2]*T; w[0]=w[1]=0; w[2]=v[2]; }
  else { double E=std::exp(v[1]*T), e=std::exp(-v[1]*T); x[1]=c[1]*(E+e)/2; x[2]=2*std::atan(E); x[3]=c[3]+v[2]*T; w[0]=c[1]*v[1]*(E-e)/2; w[1]=c[1]/x[1]*v[1]; w[2]=v[2]; }
  slow(m,w); o->getVelocity(x,u); unit(m,u); gv_lbl l; for (int i=0;i<3;++i) gv_eq(u[i+1],w[i]*u[0],gv_ij(l,"blob velocity",i)); if (k!=2) moves(o,t,x,u,"blob position"); else { double X[3]; o->getCartesian(&t,1,X,X+1,X+2,0,0,0); auto g=[&](const double*q){ double Z[3]; o->getCartesian(q,1,Z,Z+1,Z+2,0,0,0); return Z[0]*Z[0]+Z[1]*Z[1]; }; gv_eq(gv_D(g,&t,1,0),0,"cylindrical.distance to the axis"); for (int i=0;i<2;++i) { auto f=[&](const double*q){ double Z[3]; o->getCartesian(q,1,Z,Z+1,Z+2,0,0,0); return Z[i]; }; gv_eq(gv_D(f,&t,1,0),i?v[2]*X[0]:-v[2]*X[1],gv_ij(l,"cylindrical.turns",i)); } } }
GV_HARNESS(H_vel_freestar) { CM *m=new CM(); FreeStar *o=new FreeStar(); o->metric(m); std::vector<double> c=vec("c",4,1,2), v=vec("v",3,0.05,0.1); o->initPosition(c); gv_allow_throw(); o->initVelocity(v); gv_no_throw(); double t=gv_real("t",1.2,1.5), T=t-c[0], u[4], x[4]={t,c[1]+v[0]*T,c[2]+v[1]*T,c[3]+v[2]*T}; o->getVelocity(x,u); unit(m,u); gv_lbl l; for (int i=0;i<3;++i) gv_eq(u[i+1],v[i]*u[0],gv_ij(l,"free star velocity",i)); moves(o,t,x,u,"free star position"); }
GV_HARNESS(H_vel_plasmoid) { CM *m=new CM(); Plasmoid *o=new Plasmoid(); o->metric(m); std::vector<double> c=vec("c",4,1,2), v=vec("v",3,0.05,0.1); bool hel=gv_choose("helical",2); if (!hel) c[2]=M_PI/2; o->motionType(hel?"Helical":"Equatorial"); o->initPosition(c); gv_allow_throw(); o->initVelocity(v); gv_no_throw(); double t=gv_real("t",1.2,1.5), T=t-c[0], u[4], x[4]={t}; gv_lbl l;
  if (!hel) { gv_assume(m->cv[0]!=0); x[1]=c[1]; x[2]=M_PI/2; x[3]=c[3]+m->cv[3]/m->cv[0]*T; o->getVelocity(x,u); circular(m,x,u,1); m->cv[1]=m->cv[2]=0; u[1]=u[2]=0; moves(o,t,x,u,"plasmoid position"); }
  else { gv_assume(v[0]!=0); x[1]=c[1]+v[0]*T; gv_assume(x[1]>0); x[2]=c[2]; x[3]=c[3]+c[1]*c[1]*v[2]/v[0]*(1/c[1]-1/x[1]); double w[3]={v[0],0,v[2]*c[1]*c[1]/(x[1]*x[1])}; slow(m,w); o->getVelocity(x,u); unit(m,u); for (int i=0;i<3;++i) gv_eq(u[i+1],w[i]*u[0],gv_ij(l,"plasmoid velocity",i)); moves(o,t,x,u,"plasmoid position"); } }
GV_HARNESS(H_vel_fixedstar) { gv_no_throw(); CM *m=new CM(); double x[4],u[4]; event(x); FixedStar *o=new FixedStar(); o->metric(m); if (gv_choose("rotating",2)) { o->rotating(true); o->getVelocity(x,u); circular(m,x,u,1); } else { o->getVelocity(x,u); unit(m,u); for (int i=1;i<4;++i) gv_eq(u[i],0,"fixed star at rest"); } }
GV_HARNESS(H_vel_torus) { gv_no_throw(); CM *m=new CM(); double x[4],u[4]; event(x); Torus *o=new Torus(); o->metric(m); o->getVelocity(x,u); gv_lbl l; gv_eqi(m->asked,1,"circular velocity of the metric"); for (int i=0;i<4;++i) gv_eq(u[i],m->cv[i],gv_ij(l,"torus velocity",i)); gv_eq(m->cd,1,"prograde"); gv_eq(m->cp[1]*std::sin(m->cp[2]),x[1]*std::sin(x[2]),"at the projected radius"); }
GV_HARNESS(H_vel_doughnut) { CK *m=new CK(); double x[4],u[4]; event(x); PolishDoughnut *o=new PolishDoughnut(); o->gg_=m; double l0=gv_real("l0",1,4); o->l0_=l0; if (gv_choose("adaf",2)) { o->adaf_=true; gv_no_throw(); o->getVelocity(x,u); circular(m,x,u,1); return; } o->adaf_=false; gv_assume(l0*m->G[0][3]+m->G[3][3]>0); gv_allow_throw(); o->getVelocity(x,u); gv_no_throw(); unit(m,u); gv_eq(-m->low(u,3)/m->low(u,0),l0,"angular momentum per unit energy"); gv_eq(u[1],0,"doughnut.r"); gv_eq(u[2],0,"doughnut.theta"); }
GV_HARNESS(H_vel_osciltorus) { CK *m=new CK(); double x[4],u[4]; event(x); OscilTorus *o=new OscilTorus(); o->kerrbl_=m; o->gg_=m; o->c_=gv_real("c",5,10); o->mode_=gv_choose("mode",2); o->polycst_=gv_real("polycst",0.01,0.02); o->polyindex_=1.5; o->central_density_=gv_real("rho",0.5,1); o->perturb_intens_=gv_real("eps",0.1,0.2); o->perturb_kind_=OscilTorus::perturb_t(1+gv_choose("kind",5)); o->sigma_=gv_real("sigma",0.5,1); o->alpha_=gv_real("al",0.5,1); o->w1_=gv_real("w1",0.5,1); o->w2_=gv_real("w2",0.5,1); o->Omegac_=gv_real("Oc",0.1,0.2); double lc=gv_real("lc",0.5,1.5); o->lc_=lc; o->g_rr_=gv_real("grr",1,2); o->g_thth_=gv_real("gthth",1,2); o->omr2_=gv_real("omr2",.01,.02); o->omth2_=gv_real("omth2",.01,.02);
  gv_assume(m->U[0][0]-2*lc*m->U[0][3]+lc*lc*m->U[3][3]<0); gv_assume(-m->U[0][0]+lc*m->U[0][3]>0); gv_assume(o->central_density_>0); gv_assume(o->polycst_>0); gv_assume(o->g_rr_>0); gv_assume(o->g_thth_>0); gv_assume(o->c_>0);
  gv_allow_throw(); o->getVelocity(x,u); gv_no_throw(); unit(m,u); gv_eq(m->low(u,3),-lc*m->low(u,0),"angular momentum per unit energy"); }
GV_HARNESS(H_vel_deformed) { CK *m=new CK(); double x[4],u[4]; event(x); DeformedTorus *o=new DeformedTorus(); o->gg_=m; o->Astrobj::Generic::gg_=m; o->c_=gv_real("c",5,10); o->param_beta_=gv_real("beta",0.01,0.1); o->param_eta_=gv_real("eta",0.01,0.1); gv_assume(o->c_>0); gv_assume(o->param_beta_>0); gv_assume(o->param_eta_>0); gv_assume(o->param_eta_<1); o->perturb_kind_=DeformedTorus::perturb_t(1+gv_choose("kind",7)); m->spin(gv_real("a",0,0.9));
  gv_allow_throw(); o->getVelocity(x,u); gv_no_throw(); gv_eq(m->dot(u,u),-1,"velocity.unit"); }
/* the orientation of the magnetic field */
GV_HARNESS(H_field) { gv_no_throw(); CM *m=new CM(); ThinDisk *o=new ThinDisk("disk"); o->metric(m); double co[8]; event(co); state_t ph(8); gv_lbl l; double *u=co+4; for (int i=1;i<4;++i) u[i]=gv_real(gv_ij(l,"v",i),-0.3,0.3); double w[4]={1,u[1],u[2],u[3]}; gv_assume(m->dot(w,w)<0); u[0]=1/std::sqrt(-m->dot(w,w)); for (int i=1;i<4;++i) u[i]*=u[0]; for (int i=0;i<4;++i) { ph[i]=co[i]; ph[4+i]=gv_real(gv_ij(l,"k",i),0.5,1); }
  static const char *N[4][2]={{"Vertical","Vertical-n"},{"Radial","Radial-n"},{"Toroidal","Toroidal-n"},{"Poloidal","Poloidal-n"}}; int k=int(gv_choose("field",4)), neg=int(gv_choose("reversed",2)); double b[4]; gv_assume(m->G[0][0]*w[0]+m->G[0][3]*w[3]<0); gv_allow_throw(); o->computeB4vect(b,N[k][neg],co,ph); gv_no_throw(); double s=neg?-1:1; for (int i=0;i<4;++i) b[i]*=s;
  gv_eq(m->dot(b,b),1,"field.unit"); gv_eq(m->dot(b,u),0,"field.orthogonal to the velocity");
  double br=b[1]*std::sqrt(m->G[1][1]), bt=b[2]*std::sqrt(m->G[2][2]), S=std::sin(co[2]), C=std::cos(co[2]);
  if (k==0) { gv_eq(br*S+bt*C,0,"vertical.direction"); gv_eq(br*C-bt*S,std::sqrt(1-m->G[0][0]*b[0]*b[0]),"vertical.sense"); gv_eq(b[3],0,"vertical.phi"); } if (k==1) { gv_true(br>=0,"radial.sense"); gv_eq(bt,0,"radial.theta"); gv_eq(b[3],0,"radial.phi"); } if (k==2) { gv_true(b[3]>=0,"toroidal.sense"); gv_eq(br,0,"toroidal.r"); gv_eq(bt,0,"toroidal.theta"); } if (k==3) { gv_true(bt>=0,"poloidal.sense"); gv_eq(br,0,"poloidal.r"); gv_eq(b[3],0,"poloidal.phi"); } }
GV_HARNESS(H_field_parabolic) { gv_no_throw(); CM *m=new CM(); ThinDisk *o=new ThinDisk("disk"); o->metric(m); double co[8]; event(co); state_t ph(8); gv_lbl l; double *u=co+4; for (int i=1;i<4;++i) u[i]=gv_real(gv_ij(l,"v",i),-0.3,0.3); double w[4]={1,u[1],u[2],u[3]}; gv_assume(m->dot(w,w)<0); u[0]=1/std::sqrt(-m->dot(w,w)); for (int i=1;i<4;++i) u[i]*=u[0]; for (int i=0;i<4;++i) { ph[i]=co[i]; ph[4+i]=gv_real(gv_ij(l,"k",i),0.5,1); }
  double p=gv_real("w",0.5,1.2), b[4]; gv_assume(p>=0); gv_assume(p<=1.25); gv_assume(co[2]>0); gv_assume(co[2]<M_PI); gv_assume(co[2]!=M_PI/2); gv_assume(std::cos(co[2])!=0); gv_assume(m->G[0][0]*w[0]+m->G[0][3]*w[3]<0); o->computeB4vect(b,"Parabolic",co,ph,p); double C=std::cos(co[2]), S=std::sin(co[2]), A=std::fabs(C);
  gv_eq(m->dot(b,b),1,"field.unit"); gv_eq(m->dot(b,u),0,"field.orthogonal to the velocity"); gv_eq(b[3],0,"parabolic.phi"); gv_eq(b[1]*p*(1-A)/S*(C>0?-1:1)*std::pow(co[1],p-3),b[2]*std::pow(co[1],p-2),"parabolic.direction"); }
/* Cartesian coordinates, any metric */
GV_HARNESS(H_field_cart) { gv_no_throw(); AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); ThinDisk *o=new ThinDisk("disk"); o->metric(m); double co[8]; state_t ph(8); gv_lbl l; anyvec("x",co,0.5,2); anyvec("v",co+4,-0.3,0.3); double *u=co+4; u[0]=gv_real("u0",1,2); for (int i=0;i<4;++i) { ph[i]=co[i]; ph[4+i]=gv_real(gv_ij(l,"k",i),0.5,1); } gv_assume(co[1]*co[1]+co[2]*co[2]>0); double ut=0; for (int i=0;i<4;++i) ut+=m->G[0][i]*u[i]; gv_assume(ut<0);
  static const char *N[4][2]={{"Vertical","Vertical-n"},{"Radial","Radial-n"},{"Toroidal","Toroidal-n"},{"Poloidal","Poloidal-n"}}; int k=int(gv_choose("field",4)), neg=int(gv_choose("reversed",2)); double x=co[1], y=co[2], z=co[3], D[4][3]={{0,0,1},{x,y,z},{-y,x,0},{x*z,y*z,-x*x-y*y}}, e[4]={0,D[k][0],D[k][1],D[k][2]}; double c=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) c-=m->G[i][j]*e[i]*u[j]; e[0]=c/ut; double n=m->dot(e,e); gv_assume(n>0); double b[4]; if (k==3) gv_assume(x*x+y*y+z*z>0); o->computeB4vect(b,N[k][neg],co,ph); double s=neg?-1:1; 
  gv_eq(m->dot(b,b),1,"field.unit"); gv_eq(m->dot(b,u),0,"field.orthogonal to the velocity"); double q=1/std::sqrt(n); for (int i=0;i<4;++i) gv_eq(s*b[i],e[i]*q,gv_ij(l,"field.direction",i)); }
