/* where and when a ray meets an object: the generic search along one step, thin disks, spheres, tori, composites */
#include "line.h"
#include "GyotoStandardAstrobj.h"
#include "GyotoThinDisk.h"
#include "GyotoUniformSphere.h"
#include "GyotoFixedStar.h"
#include "GyotoStar.h"
#include "GyotoTorus.h"
#include "GyotoComplexAstrobj.h"
#include "GyotoMinkowski.h"
#include "GyotoSchwarzschildHarmonic.h"
#include "GyotoBlackBodySpectrum.h"
#include "GyotoPowerLawSpectrum.h"
using namespace Gyoto; using namespace Gyoto::Astrobj;
static double Vel(int i, double t) { gv_lbl l; t*=tscale; return gv_uf(gv_ij(l,"v",i),1,&t); }
/* what was asked and what was reported while one step was examined */
struct Log { double t[64], f[64]; int n; double end[16], dt[16]; int hits; double lo, hi; Log() : n(0), hits(0) {}
  double at(double tt, double v) { gv_true(tt>=lo && tt<=hi,"the ray is never followed outside the step"); if (n<64) { t[n]=tt; f[n]=v; } ++n; return v; }
  void hit(state_t const &ph, double const *ob, double d) { gv_lbl l; if (hits<16) { end[hits]=ph[0]; dt[hits]=d; } ++hits; for (int i=1;i<8;++i) gv_eq(ph[i],i==4?c0:X(i,ph[0]),gv_ij(l,"photon state at the hit",i)); for (int i=0;i<4;++i) { gv_eq(ob[i],ph[i],gv_ij(l,"position of the emitter",i)); gv_eq(ob[4+i],Vel(i,ph[0]),gv_ij(l,"velocity of the emitter there",i)); } }
  bool inside_near(double tt, double crit) { bool r=false; for (int i=0;i<n && i<64;++i) r = r || (f[i]<=crit && std::fabs(t[i]-tt)<=GYOTO_T_TOL); return r; }
  bool outside_near(double tt, double crit) { bool r=false; for (int i=0;i<n && i<64;++i) r = r || (f[i]>=crit && std::fabs(t[i]-tt)<=GYOTO_T_TOL); return r; } };
static Log *L_;
static double F(double t) { t*=tscale; return gv_uf("f",1,&t); }
struct Any : public Standard { double delta; Any() : Standard("any"), delta(1) {} Any *clone() const { return new Any(*this); } double deltaMax(double*) { return 1; } double giveDelta(double*) { return delta; }
  double operator()(double const c[4]) { return L_->at(c[0],F(c[0])); } void getVelocity(double const p[4], double v[4]) { for (int i=0;i<4;++i) v[i]=Vel(i,p[0]); }
  void processHitQuantities(Photon *, state_t const &ph, double const *ob, double dt, Properties *) const { L_->hit(ph,ob,dt); } };
struct Set { Line *w; Any *o; double len, crit; Log log; Set(bool pol=false) { L_=&log; c0=1; tscale=2e4; len=gv_real("len",1.1e-4,3.9e-4); gv_assume(len>0); gv_assume(len<=4*GYOTO_T_TOL); w=new Line(2,1,pol,len); w->p->xFill(len/2); log.lo=0; log.hi=len; o=new Any(); o->metric(w->m); crit=gv_real("crit",-1.,1.); o->critical_value_=crit; o->safety_value_=gv_real("safety",0.,2.); o->delta=gv_real("delta",1e-4,2e-4); gv_assume(o->delta>0); gv_assume(3*o->delta>=len); } };
GV_HARNESS(H_impact) { gv_no_throw(); Set s; Log &g=s.log; int r=s.o->Impact(s.w->p,s.w->p->i0_,0); gv_eqi(s.w->p->get_nelements(),2,"the trajectory is not extended"); bool any=false; for (int i=0;i<g.n && i<64;++i) any = any || g.f[i]<=s.crit;
  if (r==0) { gv_eqi(g.hits,0,"a miss adds nothing"); gv_true(!any,"a miss means that no point looked at is inside"); return; }
  gv_eqi(r,1,"hit"); gv_true(any,"a hit means that some point is inside"); gv_true(g.hits<=16,"few pieces");
  double up=s.len; for (int k=0;k<g.hits;++k) { double e=g.end[k], b=e-g.dt[k]; gv_true(g.dt[k]>0,"pieces have a positive length"); gv_true(e<=up && b>=0,"pieces are disjoint, from late to early, within the step"); gv_true(F(e)<=s.crit,"the late end of a piece is inside"); gv_true(F(b)<=s.crit || g.inside_near(b,s.crit),"the early end of a piece is inside or at the surface"); if (e!=up) gv_true(g.outside_near(e,s.crit) || g.outside_near(up,s.crit),"what is left out late of a piece is outside"); up=b; }
  if (up!=0) gv_true(g.outside_near(up,s.crit) || F(0)>s.crit || g.outside_near(0,s.crit),"what is left out early is outside"); }
GV_HARNESS(H_impact_full) { gv_no_throw(); Set s(gv_choose("polarized",2)); Log &g=s.log; gv_assume(F(0)<=s.crit); gv_assume(F(s.len)<=s.crit); gv_assume(F(s.len-s.o->delta)<=s.crit); gv_assume(F(s.len-2*s.o->delta)<=s.crit); gv_eqi(s.o->Impact(s.w->p,s.w->p->i0_,0),1,"hit"); double sum=0; for (int k=0;k<g.hits;++k) sum+=g.dt[k]; gv_eq(sum,s.len,"a step inside the object is counted entirely"); gv_true(g.hits>=1,"a hit is reported"); gv_eq(g.end[0],s.len,"starting from the observer side"); }
GV_HARNESS(H_impact_miss) { gv_no_throw(); Set s; Log &g=s.log; gv_assume(F(0)>s.crit); gv_assume(F(s.len)>s.crit); Properties d; double tm=7, ds=gv_real("d0",0.,3.), fd=gv_real("fd0",0.,3.), d0=ds, fd0=fd; d.time=&tm; d.distance=&ds; d.first_dmin=&fd; int found=int(gv_choose("found",2)); d.first_dmin_found=found; int r=s.o->Impact(s.w->p,s.w->p->i0_,&d);
  if (r) { gv_eq(ds,d0,"distance unchanged on a hit"); return; } double m=F(tm); gv_true(tm>=0 && tm<=s.len,"time of closest approach within the step"); gv_true(m<=F(0) && m<=F(s.len),"closest approach is not farther than the ends"); gv_eq(ds,m<d0?m:d0,"minimum distance"); if (found || m>=fd0) { gv_eq(fd,fd0,"first minimum kept"); gv_eqi(d.first_dmin_found,1,"first minimum found"); } else { gv_eq(fd,m,"first minimum goes down"); gv_eqi(d.first_dmin_found,0,"first minimum not reached yet"); } }
/* ---- thin disk: crossing of the equatorial plane */
struct Disk : public ThinDisk { Disk() : ThinDisk("disk") {} Disk *clone() const { return new Disk(*this); } double operator()(double const c[4]) { return L_->at(c[0],ThinDisk::operator()(c)); } void getVelocity(double const p[4], double v[4]) { for (int i=0;i<4;++i) v[i]=Vel(i,p[0]); } void processHitQuantities(Photon *, state_t const &ph, double const *ob, double dt, Properties *) const { L_->hit(ph,ob,dt); } };
struct Cross { Line *w; Disk *o; double len; Log log; Cross() { L_=&log; c0=1; tscale=2e4; len=gv_real("len",1.1e-4,3.9e-4); gv_assume(len>0); gv_assume(len<=4*GYOTO_T_TOL); w=new Line(2,1,false,len); w->p->xFill(len/2); log.lo=0; log.hi=len; o=new Disk(); o->metric(w->m); } };
static double R(double t) { double x=X(1,t), y=X(2,t); return std::sqrt(x*x+y*y); }
GV_HARNESS(H_disk) { gv_no_throw(); Cross s; Log &g=s.log; double a=gv_real("rin",0.,1.), b=gv_real("rout",1.,2.), h=gv_real("thickness",0.01,0.1); s.o->innerRadius(a); s.o->outerRadius(b); s.o->thickness(h); bool thin=gv_choose("thin",2); s.o->opticallyThin(thin); int r=s.o->Impact(s.w->p,s.w->p->i0_,0); gv_eqi(s.w->p->get_nelements(),2,"the trajectory is not extended"); gv_eqi(g.hits,r,"one report per hit"); if (!r) return;
  double t=g.end[0]; gv_true(t>=0 && t<=s.len,"hit within the step"); bool up=false, dn=false; for (int i=0;i<g.n && i<64;++i) { up = up || (g.f[i]>=0 && std::fabs(g.t[i]-t)<=GYOTO_T_TOL); dn = dn || (g.f[i]<=0 && std::fabs(g.t[i]-t)<=GYOTO_T_TOL); } gv_true(up && dn,"the ray crosses the plane at the hit"); double q=R(t); gv_true(q>=a && q<=b,"the hit lies between the inner and the outer radius");
  double vx=X(5,t), vy=X(6,t), vz=X(7,t); gv_eq(g.dt[0],!thin? 0. : vz==0? s.len : std::sqrt(1+(vx*vx+vy*vy)/(vz*vz))*h,"path inside the disk is its thickness along the ray"); }
GV_HARNESS(H_disk_all) { gv_no_throw(); Cross s; Log &g=s.log; double q=gv_real("rout",0.5,2.); gv_assume(q>0); s.o->outerRadius(q); gv_assume(R(0)<=2*q || R(s.len)<=2*q); double a=X(3,0), b=X(3,s.len); gv_assume(a!=0); gv_assume(b!=0); int r=s.o->Impact(s.w->p,s.w->p->i0_,0); if ((a>0)==(b>0)) gv_eqi(r,0,"no crossing, no hit"); else if (!r) { bool out=false; for (int i=0;i<g.n && i<64;++i) for (int j=0;j<g.n && j<64;++j) if (j!=i) out = out || (g.f[i]*g.f[j]<=0 && std::fabs(g.t[i]-g.t[j])<=GYOTO_T_TOL && R(g.t[i])>q); gv_true(out,"every crossing within the radii is a hit"); } }
GV_HARNESS(H_disk_coord) { gv_no_throw(); bool sph=gv_choose("spherical",2); Metric::Minkowski *m=new Metric::Minkowski(); m->spherical(sph); ThinDisk *o=new ThinDisk("disk"); o->metric(m); double c[4]; gv_lbl l; for (int i=0;i<4;++i) c[i]=gv_real(gv_ij(l,"c",i),0.5,1.5);
  if (sph) { gv_assume(c[2]>-3*M_PI); gv_assume(c[2]<4*M_PI); gv_assume(c[1]>0); double h=(*o)(c); gv_true(h>=-M_PI && h<M_PI,"height within one turn"); gv_eq(std::sin(h),-std::cos(c[2]),"height above the equator"); gv_eq(std::cos(h),std::sin(c[2]),"height on the right side"); gv_eq(o->projectedRadius(c),c[1],"radius"); gv_eq(o->sphericalPhi(c),c[3],"azimuth"); }
  else { gv_eq((*o)(c),c[3],"height"); double r=std::sqrt(c[1]*c[1]+c[2]*c[2]); gv_assume(r>0); gv_eq(o->projectedRadius(c),r,"radius"); double p=o->sphericalPhi(c); gv_true(p>=0 && p<=2*M_PI,"azimuth within one turn"); gv_eq(r*std::cos(p),c[1],"azimuth x"); gv_eq(r*std::sin(p),c[2],"azimuth y"); } }
/* ---- spheres */
struct Ball : public UniformSphere { Ball() : UniformSphere("ball") {} Ball *clone() const { return new Ball(*this); } void getVelocity(double const *, double *) {} 
  void getCartesian(double const * const t, size_t const n, double * const x, double * const y, double * const z, double * const, double * const, double * const) { for (size_t i=0;i<n;++i) { x[i]=X(1,t[i]); y[i]=X(2,t[i]); z[i]=X(3,t[i]); } } };
static void cart(bool sph, const double *c, double *x) { if (sph) { x[0]=c[1]*std::sin(c[2])*std::cos(c[3]); x[1]=c[1]*std::sin(c[2])*std::sin(c[3]); x[2]=c[1]*std::cos(c[2]); } else for (int i=0;i<3;++i) x[i]=c[i+1]; }
GV_HARNESS(H_sphere) { gv_no_throw(); bool sph=gv_choose("spherical",2); Metric::Minkowski *m=new Metric::Minkowski(); m->spherical(sph); Ball *o=new Ball(); o->metric(m); double c[4], x[3], d=0, R=gv_real("R",0.1,1.); gv_lbl l; for (int i=0;i<4;++i) c[i]=gv_real(gv_ij(l,"c",i),0.5,1.5); cart(sph,c,x); for (int i=0;i<3;++i) { double u=x[i]-X(i+1,c[0]); d+=u*u; } o->radius(R); gv_eq((*o)(c),d,"square of the distance to the centre at that date"); gv_eq(o->critical_value_,R*R,"the surface is at one radius"); gv_true(o->safety_value_>o->critical_value_,"the search starts outside the surface");
  double kr=gv_real("kr",0.1,1.), kd=gv_real("kd",0.1,1.), rm=gv_real("rmax",1.,2.), r=sph?c[1]:std::sqrt(c[1]*c[1]+c[2]*c[2]+c[3]*c[3]); o->deltaMaxOverRadius(kr); o->deltaMaxOverDistance(kd); bool lim=gv_choose("rmax set",2); if (lim) { gv_assume(rm<1e9); o->rMax(rm); } double dm=o->deltaMax(c), e=kd*std::sqrt(d), f=kr*R; gv_eq(dm,lim && r>rm? r/2 : e>f? e:f,"step limit"); }
GV_HARNESS(H_sphere_harmonic) { gv_no_throw(); Ball *o=new Ball(); o->metric(new Metric::SchwarzschildHarmonic()); double c[4], n[3], d=0, X_[3]; gv_lbl l; for (int i=0;i<4;++i) c[i]=gv_real(gv_ij(l,"c",i),0.5,1.5); for (int i=0;i<3;++i) X_[i]=X(i+1,c[0]); double r=std::sqrt(X_[0]*X_[0]+X_[1]*X_[1]+X_[2]*X_[2]), s=X_[0]*X_[0]+X_[1]*X_[1]; gv_assume(s>0); gv_assume(r>0); c[1]+=1; cart(true,c,n); c[1]-=1; for (int i=0;i<3;++i) { double u=n[i]-X_[i]*(1+1/r); d+=u*u; } gv_eq((*o)(c),d,"square of the distance in Schwarzschild radius"); }
struct Const : public Spectrum::Generic { double a; Const(double x) : Generic("const"), a(x) {} Const *clone() const { return new Const(*this); } using Spectrum::Generic::operator(); double operator()(double) const { return a; } Property const *getProperties() const { return 0; } };
/* emission of a uniform sphere or torus */
template<class T> static void emit(T *o) { double a=gv_real("T",1.,2.), n=gv_real("nu",1.,2.), n2=gv_real("nu2",3.,4.), ds=gv_real("ds",0.1,1.), k=gv_real("opac",0.1,1.); gv_assume(n>0); gv_assume(n2>n); gv_assume(ds>0); gv_assume(k>=0); gv_assume(a>0); if (k!=0) gv_assume(std::exp(-k*ds)<1); Const *s=new Const(a), *q=new Const(k); o->spectrum(s); o->opacity(q); bool thin=gv_choose("thin",2); o->opticallyThin(thin); state_t ph(8); double ob[8]; double E=o->emission(n,ds,ph,ob), Tr=o->transmission(n,ds,ph,ob), I=o->integrateEmission(n,n2,ds,ph,ob);
  if (!thin) { gv_eq(E,a,"an opaque surface emits its spectrum"); gv_eq(Tr,0.,"an opaque surface stops the ray"); gv_eq(I,a*(n2-n),"emission in a band"); } else { double w=std::exp(-k*ds); gv_eq(Tr,k==0?1.:w,"transmission of the medium"); gv_eq(E,k==0?0:a*(1-w),"an absorbing medium emits its source function times one minus the transmission"); gv_eq(I,E*(n2-n),"emission in a band"); } }
GV_HARNESS(H_sphere_emission) { gv_no_throw(); Ball *o=new Ball(); o->metric(new Metric::Minkowski()); emit(o); }
GV_HARNESS(H_torus_emission) { gv_no_throw(); Torus *o=new Torus(); o->metric(new Metric::Minkowski()); emit(o); }
GV_HARNESS(H_sphere_isotropic) { gv_no_throw(); Ball *o=new Ball(); o->metric(new Metric::Minkowski()); o->isotropic(true); { double a=gv_real("T",1.,2.); gv_assume(a>0); o->spectrum(new Const(a)); } double n=gv_real("nu",1.,2.), n2=gv_real("nu2",3.,4.), ds=gv_real("ds",0.1,1.); gv_assume(n>0); gv_assume(n2>n); gv_assume(ds>0); bool thin=gv_choose("thin",2); o->opticallyThin(thin); state_t ph(8); double ob[8]; double e=thin?ds:1.; gv_eq(o->emission(n,ds,ph,ob),e,"isotropic emission is flat"); gv_eq(o->integrateEmission(n,n2,ds,ph,ob),e*(n2-n),"isotropic emission in a band"); }
/* ---- fixed star */
struct AnyVel : public Metric::Minkowski { mutable int n; mutable double at[4], dir; AnyVel() : n(0) {} void circularVelocity(double const p[4], double v[4], double d=1.) const { ++n; dir=d; for (int i=0;i<4;++i) { at[i]=p[i]; v[i]=10+i; } } };
GV_HARNESS(H_fixed) { gv_no_throw(); bool sph=gv_choose("spherical",2), rot=gv_choose("rotating",2); AnyVel *m=new AnyVel(); m->spherical(sph); FixedStar *o=new FixedStar(); o->metric(m); gv_lbl l; double c[4], x[3], p[3], t[2]={1,2}, a[2],b[2],d[2],e[2],f[2],g[2]; for (int i=0;i<4;++i) c[i]=gv_real(gv_ij(l,"c",i),0.5,1.5); if (gv_choose("vector",2)) { std::vector<double> v(c+1,c+4); o->position(v); } else o->setPos(c+1); cart(sph,c,x); o->rotating(rot); o->getCartesian(t,2,a,b,d,e,f,g);
  for (int i=0;i<2;++i) { gv_eq(a[i],x[0],"x"); gv_eq(b[i],x[1],"y"); gv_eq(d[i],x[2],"z"); gv_eq(e[i],0,"x'"); gv_eq(f[i],0,"y'"); gv_eq(g[i],0,"z'"); } double P[4], v[4]; for (int i=0;i<4;++i) P[i]=gv_real(gv_ij(l,"q",i),0.5,1.5); o->getVelocity(P,v); if (rot) { gv_eqi(m->n,1,"circular velocity"); for (int i=0;i<4;++i) { gv_eq(m->at[i],P[i],"circular velocity at the place"); gv_eq(v[i],10+i,"circular velocity"); } } else for (int i=0;i<4;++i) gv_eq(v[i],i==0,gv_ij(l,"a fixed star is at rest",i));
  double R=gv_real("R",0.1,1.), dist=std::sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); gv_assume(R>0); if (sph) { gv_assume(c[1]>0); dist=c[1]; } gv_assume(dist+R<1e9); o->radius(R); gv_true(o->rMax()>=dist+R,"the star lies within its maximum radius"); }
/* ---- star: maximum radius covers the computed orbit whatever its direction */
GV_HARNESS(H_star_rmax) { gv_no_throw(); bool sph=gv_choose("spherical",2); Metric::Minkowski *m=new Metric::Minkowski(); m->spherical(sph); Star *o=new Star(); o->metric(m); o->imin_=2; o->i0_=3; o->imax_=3+int(gv_choose("n",2)); gv_lbl l; for (size_t i=o->imin_;i<=o->imax_;++i) { o->x1_[i]=gv_real(gv_ij(l,"x",int(i)),-2.,2.); o->x2_[i]=gv_real(gv_ij(l,"y",int(i)),-2.,2.); o->x3_[i]=gv_real(gv_ij(l,"z",int(i)),-2.,2.); if (sph) gv_assume(o->x1_[i]>0); gv_assume(o->x1_[i]<1e9); }
  double rm=o->rMax(); for (size_t i=o->imin_;i<=o->imax_;++i) { double a=o->x1_[i], b=o->x2_[i], c=o->x3_[i]; gv_true(sph? a<=rm : a*a+b*b+c*c<=rm*rm && rm>=0,"every computed position is within the maximum radius"); } }
/* ---- torus */
GV_HARNESS(H_torus) { gv_no_throw(); bool sph=gv_choose("spherical",2); AnyVel *m=new AnyVel(); m->spherical(sph); Torus *o=new Torus(); o->metric(m); double c[4], x[3], C=gv_real("C",1.,2.), r=gv_real("r",0.1,1.); gv_lbl l; gv_assume(C>0); gv_assume(r>0); for (int i=0;i<4;++i) c[i]=gv_real(gv_ij(l,"c",i),0.5,1.5); o->largeRadius(C); o->smallRadius(r); cart(sph,c,x); double s=std::sqrt(x[0]*x[0]+x[1]*x[1]); if (sph) { gv_assume(c[1]>0); gv_assume(c[2]>0); gv_assume(c[2]<M_PI); s=c[1]*std::sin(c[2]); } double d=(s-C)*(s-C)+x[2]*x[2]; gv_eq((*o)(c),d,"square of the distance to the circle of the large radius"); gv_eq(o->critical_value_,r*r,"the surface is one small radius away"); gv_eq(o->deltaMax(c),0.1*(d<r*r? r : std::sqrt(d)),"step limit"); gv_true(o->rMax()>=C+r,"the torus lies within its maximum radius");
  double v[4]; o->getVelocity(c,v); gv_eqi(m->n,1,"circular velocity"); for (int i=0;i<4;++i) gv_eq(v[i],10+i,"circular velocity"); double y[3]; cart(sph,m->at,y); gv_eq(y[0],x[0],"below or above the place x"); gv_eq(y[1],x[1],"below or above the place y"); gv_eq(y[2],0,"in the equatorial plane"); gv_eq(m->at[0],c[0],"at the same date"); }
/* ---- composite */
struct Part : public Astrobj::Generic { int id, res; double dm, rm; static int n, ev[32][3]; static const void *who[32]; Part(int i) : Astrobj::Generic("part"), id(i), res(0), dm(0), rm(0) {} Part *clone() const { return new Part(*this); } double deltaMax(double*) { return dm; } using Astrobj::Generic::rMax; double rMax() { return rm; } int Impact(Photon *p, size_t i, Properties *d) { if (n<32) { ev[n][0]=id; ev[n][1]=int(i); ev[n][2]=d?1:0; who[n]=p; } ++n; return res; } };
int Part::n=0; int Part::ev[32][3]; const void *Part::who[32];
GV_HARNESS(H_composite) { gv_no_throw(); c0=1; Part::n=0; int k=1+int(gv_choose("n",3)), hits=0; Astrobj::Complex *o=new Astrobj::Complex(); Line w(3,1,false,1.); w.p->xFill(1.5); o->metric(w.m); Part *q[3]; gv_lbl l; double dm=0, rm=0; for (int i=0;i<k;++i) { q[i]=new Part(i); q[i]->res=int(gv_choose(gv_ij(l,"hit",i),2)); hits+=q[i]->res; q[i]->dm=gv_real(gv_ij(l,"dm",i),0.1,1.); gv_assume(q[i]->dm<1e9); q[i]->rm=gv_real(gv_ij(l,"rm",i),0.1,1.); gv_assume(q[i]->rm>0); o->append(q[i]); if (!i || q[i]->dm<dm) dm=q[i]->dm; if (!i || q[i]->rm>rm) rm=q[i]->rm; }
  double c[8]; gv_eq(o->deltaMax(c),dm,"step limit is the smallest of the parts"); gv_eq(o->rMax(),rm,"maximum radius is the largest of the parts"); static const double st[]={2.,0.5,0.4}; int si=int(gv_choose("step",3)); o->step_max_=st[si]; Properties d; size_t at=w.p->i0_+(gv_choose("second",2)?1:0); int r=o->Impact(w.p,at,&d); gv_eqi(r,hits>0,"hit when a part is hit");
  int e=k; for (int i=0;i<k;++i) gv_true(Part::ev[i][0]==i && Part::ev[i][2]==0 && Part::ev[i][1]==int(at) && Part::who[i]==w.p,"every part is asked once, without adding anything");
  if (hits==1) { for (int i=0;i<k;++i) if (q[i]->res) { gv_true(Part::ev[e][0]==i && Part::ev[e][1]==int(at) && Part::ev[e][2]==1 && Part::who[e]==w.p,"the part hit is asked for its quantities"); ++e; } }
  else if (hits>1) { int pieces=(Part::n-k)/hits; gv_true(pieces*st[si]>=1,"pieces are at most the step long"); for (int n=pieces-1;n>=0;--n) for (int i=0;i<k;++i) if (q[i]->res) { gv_true(Part::ev[e][0]==i && Part::ev[e][2]==1 && Part::ev[e][1]==n && Part::who[e]!=w.p,"the parts hit are asked piece by piece from late to early"); ++e; } }
  gv_eqi(Part::n,e,"nothing else is asked"); }
