// M05: four-vector algebra, for an arbitrary metric at an arbitrary event.
#include "anymetric.h"
GV_HARNESS(H_scalarprod) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); double x[4],u[4],v[4],w[4];
  anyvec("x",x); anyvec("u",u); anyvec("v",v);
  gv_eq(m->ScalarProd(x,u,v), m->dot(u,v), "ScalarProd");
  m->dualOneForm(x,u,w); double s=0; for (int i=0;i<4;++i) s+=w[i]*v[i];
  gv_eq(s, m->dot(u,v), "dualOneForm");
  double n=m->norm(x,u), n2=m->dot(u,u);
  gv_eq(n*std::fabs(n), n2, "norm");
  double a=gv_real("a",-3,3), y[4]; for (int i=0;i<4;++i) y[i]=u[i];
  m->multiplyFourVect(y,a); gv_lbl l;
  for (int i=0;i<4;++i) gv_eq(y[i], a*u[i], gv_ij(l,"multiply",i));
  m->addFourVect(y,v);
  for (int i=0;i<4;++i) gv_eq(y[i], a*u[i]+v[i], gv_ij(l,"add",i));
}
GV_HARNESS(H_project) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); double x[4],u[4],v[4],w[4];
  anyvec("x",x); anyvec("u",u); anyvec("v",v);
  gv_assume(m->dot(v,v)!=0);
  for (int i=0;i<4;++i) w[i]=u[i];
  m->projectFourVect(x,w,v); gv_lbl l;
  gv_eq(m->dot(w,v), 0, "project.orthogonal");
  double c=m->dot(u,v)/m->dot(v,v);
  for (int i=0;i<4;++i) gv_eq(w[i], u[i]-c*v[i], gv_ij(l,"project.value",i));
}
GV_HARNESS(H_nullify) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); double c[8],d[8],t2;
  anyvec("x",c); anyvec("u",c+4); for (int i=0;i<8;++i) d[i]=c[i];
  double a=m->G[0][0], b=0, q=0; gv_lbl l;
  for (int i=1;i<4;++i) { b+=m->G[0][i]*c[4+i]; for (int j=1;j<4;++j) q+=m->G[i][j]*c[4+i]*c[4+j]; }
  gv_assume(a<0); gv_assume(b*b-a*q>0);
  m->nullifyCoord(d,t2);
  gv_eq(m->dot(d+4,d+4), 0, "nullify.null");
  for (int i=0;i<8;++i) if (i!=4) gv_eq(d[i],c[i],gv_ij(l,"nullify.frame",i));
  double e[4]={t2,d[5],d[6],d[7]}; gv_eq(m->dot(e,e),0,"nullify.tdot2 null");
  gv_true(d[4]>t2,"nullify.future root");
  double f[8]; for (int i=0;i<8;++i) f[i]=c[i]; m->nullifyCoord(f);
  for (int i=0;i<8;++i) gv_eq(f[i],d[i],gv_ij(l,"nullify.overload",i));
}
GV_HARNESS(H_tdot) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); double x[4],v[3]; gv_lbl l;
  anyvec("x",x); for (int i=0;i<3;++i) v[i]=gv_real(gv_ij(l,"v",i),-0.3,0.3);
  double w[4]={1,v[0],v[1],v[2]}; double n=m->dot(w,w);
  double t=m->SysPrimeToTdot(x,v);
  if (n>=0) { gv_eq(t,0,"SysPrimeToTdot.superluminal=0"); return; }
  for (int i=0;i<4;++i) w[i]*=t;
  gv_eq(m->dot(w,w),-1,"SysPrimeToTdot.unit"); gv_true(t>0,"SysPrimeToTdot.future");
  double c[8]={x[0],x[1],x[2],x[3]}; double k=gv_real("k",0.2,3); gv_assume(k!=0);
  c[4]=k; for (int i=0;i<3;++i) c[5+i]=k*v[i];
  m->normalizeFourVel(c);
  for (int i=0;i<4;++i) { gv_eq(c[i],x[i],gv_ij(l,"normalize.frame",i)); gv_eq(c[4+i],w[i],gv_ij(l,"normalize.value",i)); }
  double z[4]={k,k*v[0],k*v[1],k*v[2]}; m->normalizeFourVel(x,z);
  for (int i=0;i<4;++i) gv_eq(z[i],w[i],gv_ij(l,"normalize.overload",i));
}
static void gs_check(AnyMetric *m, const double *u0, const double *u1, const double *u2, const double *u3) {
  const double *u[4]={u0,u1,u2,u3}; gv_lbl l;
  for (int i=0;i<4;++i) for (int j=i;j<4;++j)
    gv_eq(m->dot(u[i],u[j]), i!=j?0.:(i?1.:-1.), gv_ij(l,"tetrad.orthonormal",i,j));
}
/* precondition: u0 timelike and the rest of the basis spacelike, orthogonalised in the order given */
static void lorentz(AnyMetric *m, const double *u0, const double *u1, const double *u2, const double *u3) {
  const double *u[4]={u0,u1,u2,u3}; double w[4][4], n[4];
  for (int k=0;k<4;++k) {
    for (int a=0;a<4;++a) w[k][a]=u[k][a];
    for (int j=0;j<k;++j) { double c=m->dot(u[k],w[j])/n[j]; for (int a=0;a<4;++a) w[k][a]-=c*w[j][a]; }
    n[k]=m->dot(w[k],w[k]);
    if (k) gv_assume(n[k]>0); else gv_assume(n[k]<0);
  }
}
GV_HARNESS(H_gramschmidt) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); double x[4],u[4][4];
  anyvec("x",x); anyvec("u0",u[0],0.2,.4); anyvec("u1",u[1]); anyvec("u2",u[2]); anyvec("u3",u[3]);
  u[0][0]=gv_real("u00",1,3);
  lorentz(m,u[0],u[1],u[2],u[3]);
  double v0[4]; for (int i=0;i<4;++i) v0[i]=u[0][i];
  m->GramSchmidt(x,u[0],u[1],u[2],u[3]);
  gs_check(m,u[0],u[1],u[2],u[3]);
  gv_lbl l; for (int i=0;i<3;++i) for (int j=i+1;j<4;++j) gv_eq(u[0][i]*v0[j],u[0][j]*v0[i],gv_ij(l,"GramSchmidt.u0 direction kept",i,j));
}
GV_HARNESS(H_tetrad_sph) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); double x[4],u[4][4];
  anyvec("x",x,0.5,2); anyvec("u0",u[0],0.1,.3); u[0][0]=gv_real("u00",1,3);
  double eph[4]={0,0,0,-1}, eth[4]={0,0,-1,0}, er[4]={0,-1,0,0};
  lorentz(m,u[0],eth,er,eph);
  m->observerTetrad(x,u[0],u[1],u[2],u[3]);
  gs_check(m,u[0],u[1],u[2],u[3]);
}
GV_HARNESS(H_zamo_sph) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); double x[4],u[4];
  anyvec("x",x,0.5,2); double D=m->G[0][0]*m->G[3][3]-m->G[0][3]*m->G[0][3];
  gv_assume(m->G[3][3]>0); gv_assume(D<0);
  m->zamoVelocity(x,u);
  gv_eq(m->dot(u,u),-1,"zamo.unit"); double e[4]={0,0,0,1};
  gv_eq(m->dot(u,e),0,"zamo.zero angular momentum"); gv_true(u[0]>0,"zamo.future");
  gv_eq(u[1],0,"zamo.r"); gv_eq(u[2],0,"zamo.th");
}
GV_HARNESS(H_zamo_cart) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); double x[4],u[4];
  anyvec("x",x,0.5,2); double t[4]={1,0,0,0};
  gv_assume(x[1]*x[1]+x[2]*x[2]>0);
  double ph=std::atan2(x[2],x[1]); double e[4]={0,-std::sin(ph),std::cos(ph),0};
  double gpp=m->dot(e,e); gv_assume(gpp>0); gv_assume(m->G[0][0]-m->dot(t,e)*m->dot(t,e)/gpp<0);
  m->zamoVelocity(x,u);
  gv_eq(m->dot(u,u),-1,"zamo.unit"); 
  gv_eq(m->dot(u,e),0,"zamo.zero angular momentum"); gv_true(u[0]>0,"zamo.future");
  gv_eq(u[3],0,"zamo.z"); gv_eq(u[1]*x[1]+u[2]*x[2],0,"zamo.radial");
}
/* orientation: an observer at rest in an orthogonal metric looks along the coordinate directions */
GV_HARNESS(H_tetrad_orient) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); double x[4],u[4][4]; gv_lbl l;
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) if (i!=j) m->G[i][j]=0;
  gv_assume(m->G[0][0]<0); for (int i=1;i<4;++i) gv_assume(m->G[i][i]>0);
  anyvec("x",x,0.5,2); u[0][0]=gv_real("u00",1,3); gv_assume(u[0][0]>0); u[0][1]=u[0][2]=u[0][3]=0;
  m->observerTetrad(x,u[0],u[1],u[2],u[3]);
  for (int k=1;k<4;++k) for (int i=0;i<4;++i) gv_eq(u[k][i], i==4-k?-1/std::sqrt(m->G[i][i]):0., gv_ij(l,"tetrad.orientation",k,i));
  gv_eq(u[0][0],1/std::sqrt(-m->G[0][0]),"tetrad.velocity");
}
GV_HARNESS(H_tetrad_cart) {
  AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); double x[4],u[4][4]; gv_lbl l;
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) m->G[i][j]=i!=j?0:i?1:-1;
  static const int D[4][5]={{3,4,12,5,13},{-4,3,-12,5,13},{-12,-5,84,13,85},{5,-12,-84,13,85}}; const int *d=D[gv_choose("direction",4)];
  double k=1; x[0]=gv_real("t",-1,1); for (int i=0;i<3;++i) x[1+i]=k*d[i]; double rp=k*d[3], R=k*d[4];
  double st=rp/R, ct=x[3]/R, sp=x[2]/rp, cp=x[1]/rp;
  u[0][0]=gv_real("u00",1,3); gv_assume(u[0][0]>0); u[0][1]=u[0][2]=u[0][3]=0;
  m->observerTetrad(x,u[0],u[1],u[2],u[3]);
  double e[3][4]={{0,sp,-cp,0},{0,-ct*cp,-ct*sp,st},{0,-st*cp,-st*sp,-ct}};
  for (int k=1;k<4;++k) for (int i=0;i<4;++i) gv_eq(u[k][i], e[k-1][i], gv_ij(l,"tetrad.orientation",k,i));
}
/* which velocity an observer kind stands for */
struct Kinds : public AnyMetric {
  Kinds() : AnyMetric(GYOTO_COORDKIND_SPHERICAL) { for (int i=0;i<4;++i) for (int j=0;j<4;++j) G[i][j]=i!=j?0:i?1:-1; }
  Kinds *clone() const { return new Kinds(*this); }
  static void put(double *v, const char *n) { gv_lbl l; for (int i=0;i<4;++i) v[i]=gv_real(gv_ij(l,n,i),-1,1); }
  void zamoVelocity(double const *, double v[4]) const { put(v,"zamo"); }
  void circularVelocity(double const *, double v[4], double d) const { gv_eq(d,1,"kind.sense"); put(v,"kep"); }
  using AnyMetric::observerTetrad;
  void observerTetrad(double const *x, double v[4], double a[4], double b[4], double c[4]) const { put(a,"ta"); put(b,"tb"); put(c,"tc"); ++n; for (int i=0;i<4;++i) seen[i]=v[i]; }
  mutable int n=0; mutable double seen[4];
};
GV_HARNESS(H_tetrad_kind) {
  Kinds *m=new Kinds(); double x[4],u[4],v[4],a[4],b[4],c[4],w[4],t[3][4]; gv_lbl l; anyvec("x",x,0.5,2); anyvec("u",u,0.1,.3); u[0]=gv_real("u0",1,3);
  gv_assume(m->dot(u,u)<0); gv_assume(u[0]>0);
  for (int i=0;i<4;++i) { v[i]=u[i]; a[i]=10+i; b[i]=20+i; c[i]=30+i; }
  long k=1+gv_choose("kind",4);
  static_cast<Metric::Generic*>(m)->observerTetrad(k,x,v,a,b,c);
  if (k==GYOTO_OBSKIND_ZAMO) Kinds::put(w,"zamo"); else if (k==GYOTO_OBSKIND_KEPLERIAN) Kinds::put(w,"kep");
  else for (int i=0;i<4;++i) w[i]=k==GYOTO_OBSKIND_FULLYSPECIFIED?u[i]:u[i]/std::sqrt(-m->dot(u,u));
  for (int i=0;i<4;++i) gv_eq(v[i],w[i],gv_ij(l,"kind.velocity",k,i));
  gv_eqi(m->n, k==GYOTO_OBSKIND_FULLYSPECIFIED?0:1, "kind.tetrad made once");
  if (m->n) for (int i=0;i<4;++i) gv_eq(m->seen[i],w[i],gv_ij(l,"kind.tetrad of this velocity",k,i));
  Kinds::put(t[0],"ta"); Kinds::put(t[1],"tb"); Kinds::put(t[2],"tc");
  for (int i=0;i<4;++i) {
    gv_eq(a[i], m->n?t[0][i]:10+i, gv_ij(l,"kind.screen1",i)); gv_eq(b[i], m->n?t[1][i]:20+i, gv_ij(l,"kind.screen2",i)); gv_eq(c[i], m->n?t[2][i]:30+i, gv_ij(l,"kind.screen3",i));
  }
}
/* KerrBL's own versions, for any circular (block-diagonal) metric */
#include "GyotoKerrBL.h"
struct CircBL : public Metric::KerrBL {
  double G[4][4];
  CircBL() { gv_lbl l; for (int i=0;i<4;++i) for (int j=0;j<4;++j) G[i][j]=i==j?gv_real(gv_ij(l,"g",i,i),i?0.5:-2,i?2:-0.5):0; G[0][3]=G[3][0]=gv_real("g.0.3",-0.3,0.3);
    gv_assume(G[0][0]<0); for (int i=1;i<4;++i) gv_assume(G[i][i]>0); }
  CircBL *clone() const { return new CircBL(*this); }
  using Metric::KerrBL::gmunu;
  void gmunu(double g[4][4], double const *) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=G[i][j]; }
  double gmunu(double const *, int i, int j) const { return G[i][j]; }
  double dot(const double *u, const double *v) const { double s=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) s+=G[i][j]*u[i]*v[j]; return s; }
};
GV_HARNESS(H_kerrbl_zamo) {
  CircBL *m=new CircBL(); double x[4],u[4]; anyvec("x",x,0.5,2);
  static_cast<Metric::Generic*>(m)->zamoVelocity(x,u); double e[4]={0,0,0,1};
  gv_eq(m->dot(u,u),-1,"zamo.unit"); gv_eq(m->dot(u,e),0,"zamo.zero angular momentum"); gv_true(u[0]>0,"zamo.future"); gv_eq(u[1],0,"zamo.r"); gv_eq(u[2],0,"zamo.th");
}
GV_HARNESS(H_kerrbl_nullify) {
  CircBL *m=new CircBL(); double c[8],d[8],t2; gv_lbl l; anyvec("x",c); anyvec("u",c+4); for (int i=0;i<8;++i) d[i]=c[i];
  gv_assume(m->G[0][3]*m->G[0][3]*c[7]*c[7]-m->G[0][0]*(m->G[1][1]*c[5]*c[5]+m->G[2][2]*c[6]*c[6]+m->G[3][3]*c[7]*c[7])>0);
  if (gv_choose("short form",2)) { double w[8]; for (int i=0;i<8;++i) w[i]=c[i]; static_cast<Metric::Generic*>(m)->nullifyCoord(w); static_cast<Metric::Generic*>(m)->nullifyCoord(d,t2); gv_eq(w[4],d[4],"nullify.short form"); }
  else static_cast<Metric::Generic*>(m)->nullifyCoord(d,t2);
  gv_eq(m->dot(d+4,d+4),0,"nullify.null"); for (int i=0;i<8;++i) if (i!=4) gv_eq(d[i],c[i],gv_ij(l,"nullify.frame",i));
  double e[4]={t2,d[5],d[6],d[7]}; gv_eq(m->dot(e,e),0,"nullify.tdot2 null"); gv_true(d[4]>t2,"nullify.future root");
}
GV_HARNESS(H_kerrbl_tetrad) {
  CircBL *m=new CircBL(); double x[4],u[4][4]; gv_lbl l; anyvec("x",x,0.5,2); anyvec("u0",u[0],0.1,.3); u[0][0]=gv_real("u00",1,3); gv_assume(u[0][0]>0); gv_assume(m->dot(u[0],u[0])<0);
  double v[4], n=std::sqrt(-m->dot(u[0],u[0])); for (int i=0;i<4;++i) v[i]=u[0][i]/n;
  static_cast<Metric::Generic*>(m)->observerTetrad(x,u[0],u[1],u[2],u[3]);
  for (int i=0;i<4;++i) gv_eq(u[0][i],v[i],gv_ij(l,"tetrad.velocity",i));
  for (int i=0;i<4;++i) for (int j=i;j<4;++j) gv_eq(m->dot(u[i],u[j]), i!=j?0.:(i?1.:-1.), gv_ij(l,"tetrad.orthonormal",i,j));
}
GV_HARNESS(H_kerrbl_tetrad_orient) {
  CircBL *m=new CircBL(); m->G[0][3]=m->G[3][0]=0; double x[4],u[4][4]; gv_lbl l; anyvec("x",x,0.5,2);
  u[0][0]=1/std::sqrt(-m->G[0][0]); u[0][1]=u[0][2]=u[0][3]=0;
  static_cast<Metric::Generic*>(m)->observerTetrad(x,u[0],u[1],u[2],u[3]);
  for (int k=1;k<4;++k) for (int i=0;i<4;++i) gv_eq(u[k][i], i==4-k?-1/std::sqrt(m->G[i][i]):0., gv_ij(l,"tetrad.orientation",k,i));
}
