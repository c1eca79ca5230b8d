// M08: one integration step.
#include "mkmetric.h"
#include "anymetric.h"
#include "GyotoWorldline.h"
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
struct Line : public Worldline { double m; std::string cn; double st[5];
  Line(double mm) : Worldline(), m(mm) {}
  double getMass() const { return m; }
  double lim=-1; using Worldline::deltaMax;
  double deltaMax(double const p[8], double e) const { return lim>0 ? lim : Worldline::deltaMax(p,e); }
  virtual std::string className() const { return "line"; }
  virtual std::string className_l() const { return "line"; }
};
static const char *const FN[16]={"f0","f1","f2","f3","f4","f5","f6","f7","f8","f9","f10","f11","f12","f13","f14","f15"};
struct AnyField : public AnyMetric { /* right-hand side: an arbitrary function of the state and the mass */
  long nfail; mutable long ncall;
  AnyField() : AnyMetric(GYOTO_COORDKIND_SPHERICAL), nfail(-1), ncall(0) {}
  AnyField *clone() const { return new AnyField(*this); }
  using Metric::Generic::diff;
  int diff(std::vector<double> const &x, std::vector<double> &d, double mass) const {
    if (ncall++==nfail) return 1;
    double a[9]; for (int i=0;i<8;++i) a[i]=x[i]; a[8]=mass;
    for (int i=0;i<8;++i) d[i]=gv_uf(FN[i],9,a);
    return 0; }
};
static void field(const double *y, double mass, double *k) { double a[9]; for (int i=0;i<8;++i) a[i]=y[i]; a[8]=mass; for (int i=0;i<8;++i) k[i]=gv_uf(FN[i],9,a); }
static void rk4(const double *y, double h, double mass, double *r) {
  double k1[8],k2[8],k3[8],k4[8],z[8];
  field(y,mass,k1); for (int i=0;i<8;++i) z[i]=y[i]+h*k1[i]/2;
  field(z,mass,k2); for (int i=0;i<8;++i) z[i]=y[i]+h*k2[i]/2;
  field(z,mass,k3); for (int i=0;i<8;++i) z[i]=y[i]+h*k3[i];
  field(z,mass,k4); for (int i=0;i<8;++i) r[i]=y[i]+h*(k1[i]+2*k2[i]+2*k3[i]+k4[i])/6;
}
GV_HARNESS(H_step_generic_rk4) {
  AnyField *m=new AnyField(); Line *w=new Line(gv_real("mass",0,1)); std::vector<double> x(8), r(8); gv_lbl l; double h=gv_real("h",0.01,1), e[8];
  for (int i=0;i<8;++i) x[i]=gv_real(gv_ij(l,"x",i),0.2,2);
  m->nfail=gv_choose("failing call",5);
  int rc=static_cast<Metric::Generic*>(m)->myrk4(w,x,h,r);
  gv_eqi(rc!=0, m->nfail<4, "step.status"); if (rc) return;
  rk4(&x[0],h,w->m,e); for (int i=0;i<8;++i) gv_eq(r[i],e[i],gv_ij(l,"step.classical fourth order Runge-Kutta",i));
}
/* KerrBL's private step on principal momenta */
struct KField : public Metric::KerrBL {
  long nfail; mutable long ncall; double c5[5];
  KField() : nfail(-1), ncall(0) {}
  int diff(const double y[8], const double cst[5], double d[8]) const {
    if (ncall++==nfail) return 1;
    double a[9]; for (int i=0;i<8;++i) a[i]=y[i]; a[8]=cst[1];
    for (int i=0;i<8;++i) d[i]=gv_uf(FN[i],9,a);
    return 0; }
  int step(const double *y, const double *c, double h, double *r) const { return Metric::KerrBL::myrk4(y,c,h,r); }
};
GV_HARNESS(H_step_kerr_rk4) {
  KField *m=new KField(); double y[8], r[8], e[8], c[5]; gv_lbl l; double h=gv_real("h",0.01,1);
  for (int i=0;i<8;++i) y[i]=gv_real(gv_ij(l,"x",i),0.2,2); for (int i=0;i<5;++i) c[i]=gv_real(gv_ij(l,"c",i),0.2,2);
  y[2]=M_PI/2; /* away from the polar axis no special treatment applies */
  m->nfail=gv_choose("failing call",5);
  int rc=m->step(y,c,h,r);
  gv_eqi(rc, m->nfail<4?2:0, "step.status"); if (rc) return;
  rk4(y,h,c[1],e); for (int i=0;i<8;++i) gv_eq(r[i],e[i],gv_ij(l,"step.classical fourth order Runge-Kutta",i));
}
/* step-size limits */
static void limits(bool line) {
  AnyField *m=new AnyField(); if (gv_choose("cartesian",2)) m->coordKind(GYOTO_COORDKIND_CARTESIAN);
  double p[8], lo=gv_real("min",0,1), hi=gv_real("max",1,9), f=gv_real("over r",0.1,2), ext=gv_real("ext",0.1,9), s; gv_lbl l; gv_assume(lo>0); gv_assume(hi>=lo); gv_assume(f>0);
  for (int i=0;i<8;++i) p[i]=gv_real(gv_ij(l,"p",i),-3,3);
  if (line) { Line *w=new Line(0); w->metric(m); w->deltaMin(lo); w->deltaMax(hi); w->deltaMaxOverR(f); gv_eq(w->deltaMin(),lo,"limit.set"); gv_eq(w->deltaMax(),hi,"limit.set"); gv_eq(w->deltaMaxOverR(),f,"limit.set"); s=w->deltaMax(p,ext); }
  else { m->deltaMin(lo); m->deltaMax(hi); m->deltaMaxOverR(f); s=static_cast<Metric::Generic*>(m)->deltaMax(p,ext); }
  double R=std::fabs(p[1]); if (m->coordKind()==GYOTO_COORDKIND_CARTESIAN) { if (std::fabs(p[2])>R) R=std::fabs(p[2]); if (std::fabs(p[3])>R) R=std::fabs(p[3]); }
  gv_true(s>=lo,"limit.at least the minimum step"); gv_true(s<=hi,"limit.at most the maximum step"); 
  gv_true(s<=lo || s<=f*R,"limit.proportional to the radius"); gv_true(s<=lo||s<=ext,"limit.at most what the caller allows");
  gv_true(s==lo||s==hi||s==ext||s==f*R,"limit.no smaller than needed");
}
GV_HARNESS(H_step_limits) { limits(false); }
GV_HARNESS(H_line_limits) { limits(true); }
/* angles folded into [0,pi]x[0,2pi]: same point, velocity components transformed along (|angle| bounded: loop unrolled) */
struct Sph : public AnyMetric { Sph() : AnyMetric(GYOTO_COORDKIND_SPHERICAL) {} Sph *clone() const { return new Sph(*this); } };
static void fold(double *c, const double *in, int n, const char *) {
  gv_lbl l; double T=c[2], P=c[3];
  gv_true(T>=0&&T<=M_PI,"angles.theta range"); gv_true(P>=0&&P<=2*M_PI,"angles.phi range");
  gv_eq(std::cos(T),std::cos(in[2]),"angles.same height");
  gv_eq(std::sin(T)*std::cos(P),std::sin(in[2])*std::cos(in[3]),"angles.same x"); gv_eq(std::sin(T)*std::sin(P),std::sin(in[2])*std::sin(in[3]),"angles.same y");
  for (int v=1; v<n/4; ++v) { /* push-forward of the vector to Cartesian-like components agrees */
    gv_eq(-std::sin(T)*c[4*v+2],-std::sin(in[2])*in[4*v+2],gv_ij(l,"angles.same vertical velocity",v));
    gv_eq(std::cos(T)*std::cos(P)*c[4*v+2]-std::sin(T)*std::sin(P)*c[4*v+3],std::cos(in[2])*std::cos(in[3])*in[4*v+2]-std::sin(in[2])*std::sin(in[3])*in[4*v+3],gv_ij(l,"angles.same x velocity",v));
    gv_eq(std::cos(T)*std::sin(P)*c[4*v+2]+std::sin(T)*std::cos(P)*c[4*v+3],std::cos(in[2])*std::sin(in[3])*in[4*v+2]+std::sin(in[2])*std::cos(in[3])*in[4*v+3],gv_ij(l,"angles.same y velocity",v));
    gv_eq(c[4*v],in[4*v],gv_ij(l,"angles.time component kept",v)); gv_eq(c[4*v+1],in[4*v+1],gv_ij(l,"angles.radial component kept",v));
  }
  gv_eq(c[0],in[0],"angles.time kept"); gv_eq(c[1],in[1],"angles.radius kept");
}
static void angles(double *x) { x[2]=gv_real("th",-7,7); x[3]=gv_real("ph",-9,9); gv_assume(x[2]>-3*M_PI); gv_assume(x[2]<3*M_PI); gv_assume(x[3]>-4*M_PI); gv_assume(x[3]<6*M_PI); }
GV_HARNESS(H_angles) {
  Line *w=new Line(0); w->metric(new Sph()); double x[8], c[8]; gv_lbl l; for (int i=0;i<8;++i) x[i]=gv_real(gv_ij(l,"x",i),0.2,2); angles(x);
  for (int i=0;i<8;++i) c[i]=x[i]; w->checkPhiTheta(c); fold(c,x,8,"");
}
/* Boost steps: 3+1 <-> 4D conversion, polar-axis folding, affine parameter and time bookkeeping around an arbitrary stepper */
struct Any31 : public AnyMetric {
  Any31(int k) : AnyMetric(k) {}
  Any31 *clone() const { return new Any31(*this); }
  void computeNBeta(const double c[4], double &N, double b[3]) const { N=gv_uf("lapse",4,c); b[0]=gv_uf("shift0",4,c); b[1]=gv_uf("shift1",4,c); b[2]=gv_uf("shift2",4,c); }
};
typedef Worldline::IntegState::Boost BB;
static void stepuf(std::vector<double> &x, double h, int n) { double a[17]; for (int i=0;i<n;++i) a[i]=x[i]; a[n]=h; for (int i=0;i<n;++i) x[i]=gv_uf(FN[i],n+1,a); }
static void lapse(const double *x, double &N, double b[3]) { N=gv_uf("lapse",4,x); b[0]=gv_uf("shift0",4,x); b[1]=gv_uf("shift1",4,x); b[2]=gv_uf("shift2",4,x); }
/* expected state after a stepper call of size h from x (Cartesian-like: no folding) */
static void expect(const std::vector<double> &x, double h, bool i31, int n, double *e, double &dtau) {
  if (!i31) { std::vector<double> y(x); stepuf(y,h,n); for (int i=0;i<n;++i) e[i]=y[i]; dtau=h; return; }
  double N,b[3]; lapse(&x[0],N,b); gv_assume(N!=0); gv_assume(x[4]!=0); std::vector<double> y(7);
  y[0]=N*x[4]; for (int i=0;i<3;++i) { y[1+i]=x[1+i]; y[4+i]=(x[5+i]/x[4]+b[i])/N; }
  stepuf(y,h,7);
  double p[4]={x[0]+h,y[1],y[2],y[3]}; lapse(p,N,b); gv_assume(N!=0); gv_assume(y[0]!=0);
  for (int i=0;i<4;++i) e[i]=p[i];
  e[4]=y[0]/N; for (int i=0;i<3;++i) e[5+i]=(N*y[4+i]-b[i])*e[4]; dtau=h/e[4];
}
static BB *mkboost(Line *w, bool i31, bool pt, bool adapt, Metric::Generic *g) {
  w->metric(g); BB *s=new BB(w,BB::runge_kutta_cash_karp54); s->line_=w; s->gg_=g; s->integ_31_=i31; s->adaptive_=adapt; s->parallel_transport_=pt; s->check_basis_=false; s->norm_=s->normref_=0; w->stopcond=0; return s;
}
static void bstep(bool i31, bool pt, bool next, bool adapt) {
  int n=pt?16:8; Line *w=new Line(0); Any31 *g=new Any31(GYOTO_COORDKIND_CARTESIAN); gv_lbl l; double h=gv_real("h",0.1,1), e[16], dt=0, tau=gv_real("tau",0,1), tau0=tau; gv_assume(h!=0);
  BB *s=mkboost(w,i31,pt,adapt,g); s->delta_=h;
  std::vector<double> x(n), r; for (int i=0;i<n;++i) x[i]=gv_real(gv_ij(l,"x",i),0.2,2); gv_assume(x[4]!=0);
  s->do_step_=[n,i31](std::vector<double> &y, double q){ stepuf(y,q,i31?7:n); };
  double used=h, prop=0;
  if (adapt) {
    double lo=gv_real("min",0.01,0.1), hi=gv_real("max",1,2); gv_assume(lo>0); gv_assume(hi>lo); w->delta_min_=lo; w->delta_max_=hi; double h1max=gv_real("limit here",0.5,2); w->lim=h1max; gv_assume(h1max>0); gv_assume(h1max>=lo); /* three cases: step in range, capped, floored */
    switch (gv_choose("case",3)) { case 0: gv_assume(std::fabs(h)<=h1max); gv_assume(std::fabs(h)>=lo); break; case 1: gv_assume(std::fabs(h)>h1max); used=h>0?h1max:-h1max; break; default: gv_assume(std::fabs(h)<lo); used=h>0?lo:-lo; }
    prop=gv_real("proposed",0.1,1); gv_assume(h>0?prop>0:prop<0);
    s->try_step_=[n,i31,prop](std::vector<double> &y, double &t, double &q)->::boost::numeric::odeint::controlled_step_result { stepuf(y,q,i31?7:n); t+=q; q=prop; return ::boost::numeric::odeint::success; };
  }
  expect(x,used,i31,n,e,dt);
  r=x;
  if (next) { s->nextStep(r,tau,5.); } else s->doStep(x,used,r);
  for (int i=0;i<n;++i) gv_eq(r[i],e[i],gv_ij(l,"boost.state",i));
  if (next) { gv_eq(tau,tau0+dt,"boost.proper time advances by the step"); if (adapt) gv_eq(s->delta_,prop,"boost.proposed step kept"); else gv_eq(s->delta_,h,"boost.fixed step kept"); }
}
GV_HARNESS(H_boost_dostep) { bstep(gv_choose("3+1",2),false,false,false); }
GV_HARNESS(H_boost_dostep_pt) { bstep(false,true,false,false); }
GV_HARNESS(H_boost_next_fixed) { bstep(gv_choose("3+1",2),false,true,false); }
GV_HARNESS(H_boost_next_adaptive) { bstep(gv_choose("3+1",2),false,true,true); }
GV_HARNESS(H_boost_next_pt) { bstep(false,true,true,gv_choose("adaptive",2)); }
GV_HARNESS(H_boost_pt31_refused) {
  Line *w=new Line(0); BB *s=mkboost(w,true,true,false,new Any31(GYOTO_COORDKIND_SPHERICAL)); s->delta_=1; s->do_step_=[](std::vector<double>&,double){}; std::vector<double> x(16,1.); double tau=0;
  gv_expect_throw("boost.parallel transport refused in 3+1"); s->nextStep(x,tau,1.);
}
/* spherical coordinates: identity stepper; the folding must be the push-forward of the whole state */
static void boostfold(bool i31, bool pt, bool next) {
  int n=pt?16:8; Line *w=new Line(0); Any31 *g=new Any31(GYOTO_COORDKIND_SPHERICAL); gv_lbl l; double tau=0;
  BB *s=mkboost(w,i31,pt,false,g); s->delta_=0; s->do_step_=[](std::vector<double>&,double){};
  std::vector<double> x(n), r(n); for (int i=0;i<n;++i) x[i]=gv_real(gv_ij(l,"x",i),0.2,2); angles(&x[0]); gv_assume(x[4]!=0);
  if (i31) { double N,b[3]; lapse(&x[0],N,b); gv_assume(N!=0); }
  r=x; if (next) s->nextStep(r,tau,5.); else s->doStep(x,0.,r);
  fold(&r[0],&x[0],n,"");
}
GV_HARNESS(H_boostfold_do) { boostfold(false,false,false); }
GV_HARNESS(H_boostfold_do31) { boostfold(true,false,false); }
GV_HARNESS(H_boostfold_next) { boostfold(false,false,true); }
GV_HARNESS(H_boostfold_next31) { boostfold(true,false,true); }
GV_HARNESS(H_boostfold_do_pt) { boostfold(false,true,false); }
GV_HARNESS(H_boostfold_next_pt) { boostfold(false,true,true); }
/* basis re-orthonormalisation: spans preserved, roles preserved (no exchange), orthonormal */
GV_HARNESS(H_basis_gs) {
  Line *w=new Line(0); Any31 *g=new Any31(GYOTO_COORDKIND_CARTESIAN); BB *s=mkboost(w,false,true,false,g); gv_lbl l; std::vector<double> x(16); for (int i=0;i<16;++i) x[i]=gv_real(gv_ij(l,"x",i),i==4?2:i==9?1:i==14?1:-0.1,i==4?3:i==9?2:i==14?2:0.1);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) g->G[i][j]=i==j?(i?1:-1):0; x[5]=x[6]=0; /* local inertial frame with the third axis along the tangent */
  double *k=&x[4], *p=&x[8], *t=&x[12]; double kk=g->dot(k,k); gv_assume(kk<0); /* a tangent vector with non-zero norm */
  double t1[4], p1[4]; for (int i=0;i<4;++i) t1[i]=t[i]-g->dot(t,k)/kk*k[i]; double tt=g->dot(t1,t1); gv_assume(tt>0);
  for (int i=0;i<4;++i) p1[i]=p[i]-g->dot(p,k)/kk*k[i]; double pt=g->dot(p1,t1); for (int i=0;i<4;++i) p1[i]-=pt/tt*t1[i]; double pp=g->dot(p1,p1); gv_assume(pp>0);
  std::vector<double> r(x); s->reorthonormalizeBasis(r);
  for (int i=0;i<8;++i) gv_eq(r[i],x[i],gv_ij(l,"basis.position and tangent untouched",i));
  for (int i=0;i<4;++i) { gv_eq(r[12+i],t1[i]/std::sqrt(tt),gv_ij(l,"basis.second vector",i)); gv_eq(r[8+i],p1[i]/std::sqrt(pp),gv_ij(l,"basis.first vector",i)); }
}
