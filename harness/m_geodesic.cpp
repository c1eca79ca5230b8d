// M04: the right-hand sides handed to the integrators are the geodesic and
// parallel-transport equations of the metric.
#include "mkmetric.h"
#include "anymetric.h"
struct AnyConnection : public AnyMetric { /* connection coefficients arbitrary at the event at hand */
  double C[4][4][4]; long st;
  AnyConnection() : AnyMetric(GYOTO_COORDKIND_SPHERICAL) {
    gv_lbl l; st=gv_int("christoffel.status",0,3);
    for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=i;j<4;++j) C[a][i][j]=C[a][j][i]=gv_real(gv_ij(l,"C",a,i,j),-1,1);
  }
  AnyConnection *clone() const { return new AnyConnection(*this); }
  using Metric::Generic::christoffel;
  int christoffel(double d[4][4][4], double const *) const { for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) d[a][i][j]=C[a][i][j]; return st; }
};
static void transport(int n) {
  AnyConnection *m=new AnyConnection(); std::vector<double> x(n), dx(n); gv_lbl l;
  for (int i=0;i<n;++i) x[i]=gv_real(gv_ij(l,"y",i),i==4?0.3:-1,2);
  int rc=static_cast<Metric::Generic*>(m)->diff(x,dx,gv_real("mass",0,1));
  if (x[4]<1e-6) { gv_true(rc!=0,"diff.status when time runs backwards"); return; }
  gv_eqi(rc, m->st, "diff.status"); if (rc) return;
  for (int a=0;a<4;++a) {
    gv_eq(dx[a],x[4+a],gv_ij(l,"diff.velocity",a));
    for (int v=1;v<n/4;++v) {
      double s=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) s-=m->C[a][i][j]*x[4+i]*x[4*v+j];
      gv_eq(dx[4*v+a], s, gv_ij(l, v==1?"diff.geodesic":"diff.parallel transport", v, a));
    }
  }
  gv_cover("decided");
}
GV_HARNESS(H_diff_8)  { transport(8); }
GV_HARNESS(H_diff_16) { transport(16); }
GV_HARNESS(H_diff_size) {
  AnyConnection *m=new AnyConnection(); long n=gv_choose("n",8); std::vector<double> x(n,1.), dx(n,1.);
  gv_expect_throw("diff.short state rejected"); static_cast<Metric::Generic*>(m)->diff(x,dx,1.);
}
GV_HARNESS(H_diff_size2) {
  AnyConnection *m=new AnyConnection(); std::vector<double> x(8,1.), dx(8+4*(1+gv_choose("n",3)),1.);
  gv_expect_throw("diff.size mismatch rejected"); static_cast<Metric::Generic*>(m)->diff(x,dx,1.);
}
/* the generic connection: built from the metric and its derivatives */
struct AnyJacobian : public AnyMetric {
  double U[4][4], J[4][4][4];
  AnyJacobian() : AnyMetric(GYOTO_COORDKIND_SPHERICAL) {
    gv_lbl l;
    for (int i=0;i<4;++i) for (int j=i;j<4;++j) { U[i][j]=U[j][i]=gv_real(gv_ij(l,"U",i,j),-1,1); for (int a=0;a<4;++a) J[a][i][j]=J[a][j][i]=gv_real(gv_ij(l,"J",a,i,j),-1,1); }
  }
  AnyJacobian *clone() const { return new AnyJacobian(*this); }
  using Metric::Generic::gmunu_up; using Metric::Generic::jacobian; using Metric::Generic::christoffel;
  void gmunu_up(double u[4][4], double const *) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) u[i][j]=U[i][j]; }
  void jacobian(double d[4][4][4], double const *) const { for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) d[a][i][j]=J[a][i][j]; }
};
GV_HARNESS(H_connection_generic) {
  AnyJacobian *m=new AnyJacobian(); double x[4], C[4][4][4]; gv_lbl l; anyvec("x",x);
  long first=gv_choose("single component first",2); double c0=0;
  if (first) c0=static_cast<Metric::Generic*>(m)->christoffel(x,1,2,3);
  else { static_cast<Metric::Generic*>(m)->gmunu_up(x,0,0); }
  c0=static_cast<Metric::Generic*>(m)->christoffel(x,1,2,3);
  static_cast<Metric::Generic*>(m)->christoffel(C,x);
  for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) {
    double s=0; for (int k=0;k<4;++k) s+=0.5*m->U[a][k]*(m->J[i][k][j]+m->J[j][k][i]-m->J[k][i][j]);
    gv_eq(C[a][i][j], s, gv_ij(l,"generic connection",a,i,j));
  }
  gv_eq(c0,C[1][2][3],"generic connection.component");
}
/* Hamilton's equations for KerrBL's momentum form: H = g^{mu nu} p_mu p_nu / 2 */
template<class M> static double ham(M *m, const double *y) {
  double u[4][4], h=0; static_cast<Metric::Generic*>(m)->gmunu_up(u,y);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) h+=0.5*u[i][j]*y[4+i]*y[4+j];
  return h;
}
GV_HARNESS(H_kerrbl_hamilton) {
  Metric::KerrBL *m=mk_kerrbl(); double y[8], cst[5], res[8]; gv_lbl l;
  pos_sphp(y); for (int i=0;i<4;++i) y[4+i]=gv_real(gv_ij(l,"p",i),-1,1);
  double a=m->spin(), D=y[1]*y[1]-2*y[1]+a*a; gv_assume(D>0); gv_assume(y[1]>1+std::sqrt(1-a*a)+m->horizonSecurity()); gv_assume(a*a<1); gv_assume(m->horizonSecurity()>=0);
  cst[0]=gv_real("mu",0,1); cst[1]=-y[4]; cst[2]=y[7]; cst[3]=gv_real("Q",0,3); cst[4]=gv_real("Qm1",0,3);
  gv_assume(y[1]*y[1]+a*a*std::cos(y[2])*std::cos(y[2])!=0);
  int rc=m->diff(y,cst,res);
  gv_eqi(rc,0,"hamilton.status");
  for (int i=0;i<4;++i) gv_eq(res[i], gv_D([&](const double*z){return ham(m,z);}, y, 8, 4+i), gv_ij(l,"hamilton.xdot",i));
  for (int i=0;i<4;++i) gv_eq(res[4+i], -gv_D([&](const double*z){return ham(m,z);}, y, 8, i), gv_ij(l,"hamilton.pdot",i));
}
/* the slow-rotation form: exact to first order in the spin */
GV_HARNESS(H_chernsimons_hamilton) {
  Metric::ChernSimons *m=new Metric::ChernSimons(); double z=gv_real("dzeta",0,2); m->dzetaCS(z);
  double y[8], cst[5], x[1]={gv_real("a",0,0)}; gv_lbl l;
  y[0]=gv_real("t",-10,10); y[1]=gv_real("r",4,30); y[2]=gv_real("th",0.3,2.8); y[3]=gv_real("ph",-3,3); gv_assume(y[1]>4); gv_assume(std::sin(y[2])!=0);
  for (int i=0;i<4;++i) y[4+i]=gv_real(gv_ij(l,"p",i),-1,1);
  cst[0]=gv_real("mu",0,1); cst[1]=-y[4]; cst[2]=y[7]; cst[3]=gv_real("Q",0,3); cst[4]=gv_real("Qm1",0,3);
  gv_assume(x[0]*x[0]<0.25);
  double v[8], d[8], hv[8], hd[8];
  for (int i=0;i<8;++i) {
    auto f=[&](const double *q){ double r[8]; m->spin(q[0]); m->diff(y,cst,r); return r[i]; };
    auto g=[&](const double *q){ m->spin(q[0]); int k=i<4?4+i:i-4; double e=gv_D([&](const double*z){return ham(m,z);}, y, 8, k); return i<4?e:-e; };
    v[i]=f(x); d[i]=gv_D(f,x,1,0); hv[i]=g(x); hd[i]=gv_D(g,x,1,0);
  }
  gv_assume(x[0]==0);
  for (int i=0;i<8;++i) { gv_eq(v[i],hv[i],gv_ij(l,"slow rotation.order 0",i)); gv_eq(d[i],hd[i],gv_ij(l,"slow rotation.order 1",i)); }
}
/* without coupling: Kerr to second order */
GV_HARNESS(H_chernsimons_second) {
  Metric::ChernSimons *m=new Metric::ChernSimons(); m->dzetaCS(0);
  double y[8], cst[5], x[1]={gv_real("a",0,0)}; gv_lbl l;
  y[0]=gv_real("t",-10,10); y[1]=gv_real("r",4,30); y[2]=gv_real("th",0.3,2.8); y[3]=gv_real("ph",-3,3); gv_assume(y[1]>4); gv_assume(std::sin(y[2])!=0);
  for (int i=0;i<4;++i) y[4+i]=gv_real(gv_ij(l,"p",i),-1,1);
  cst[0]=gv_real("mu",0,1); cst[1]=-y[4]; cst[2]=y[7]; cst[3]=gv_real("Q",0,3); cst[4]=gv_real("Qm1",0,3);
  gv_assume(x[0]*x[0]<0.25);
  double d[8], hd[8];
  for (int i=0;i<8;++i) {
    auto f=[&](const double *q){ double r[8]; m->spin(q[0]); m->diff(y,cst,r); return r[i]; };
    auto g=[&](const double *q){ m->spin(q[0]); int k=i<4?4+i:i-4; double e=gv_D([&](const double*z){return ham(m,z);}, y, 8, k); return i<4?e:-e; };
    d[i]=gv_D([&](const double*q){return gv_D(f,q,1,0);},x,1,0); hd[i]=gv_D([&](const double*q){return gv_D(g,q,1,0);},x,1,0);
  }
  gv_assume(x[0]==0);
  for (int i=0;i<8;++i) { gv_eq(d[i],hd[i],gv_ij(l,"slow rotation.order 2",i)); }
}
GV_HARNESS(H_kerrbl_sink) {
  Metric::KerrBL *m=mk_kerrbl(); double y[8], cst[5]={0,1,0,0,1}, res[8]; gv_lbl l;
  double a=m->spin(); gv_assume(a*a<1); pos_sphp(y); y[1]=gv_real("r",0.1,3); gv_assume(y[1]>=0);
  for (int i=0;i<4;++i) y[4+i]=gv_real(gv_ij(l,"p",i),-1,1);
  gv_assume(y[1]<1+std::sqrt(1-a*a)+m->horizonSecurity());
  gv_true(m->diff(y,cst,res)!=0,"hamilton.refuses inside the sink");
  gv_true(m->isStopCondition(y)!=0,"stop condition inside the sink");
}
GV_HARNESS(H_kerrbl_momenta) {
  Metric::KerrBL *m=mk_kerrbl(); double c[8], cst[5], p[8], d[8], g[4][4]; gv_lbl l;
  pos_sphp(c); for (int i=0;i<4;++i) c[4+i]=gv_real(gv_ij(l,"u",i),i?-0.1:1,i?0.1:2);
  m->computeCst(c,cst); static_cast<Metric::Generic*>(m)->gmunu(g,c);
  double pc[4]; for (int i=0;i<4;++i) { pc[i]=0; for (int j=0;j<4;++j) pc[i]+=g[i][j]*c[4+j]; }
  double a=m->spin(), ct=std::cos(c[2]), st=std::sin(c[2]);
  gv_assume(c[1]*c[1]-2*c[1]+a*a>0); gv_assume(c[1]*c[1]+a*a*ct*ct!=0);
  gv_eq(cst[1],-pc[0],"cst.energy"); gv_eq(cst[2],pc[3],"cst.angular momentum");
  double n=0; for (int i=0;i<4;++i) n+=pc[i]*c[4+i];
  gv_eq(cst[0], std::fabs(n)<std::fabs(n+1)?0.:1., "cst.mass");
  gv_eq(cst[3], pc[2]*pc[2]+ct*ct*(a*a*(cst[0]*cst[0]-pc[0]*pc[0])+pc[3]*pc[3]/(st*st)), "cst.Carter");
  gv_eq(cst[4], cst[3]==0?1.:1/cst[3], "cst.inverse Carter");
  m->MakeMomentum(c,cst,p);
  for (int i=0;i<4;++i) { gv_eq(p[i],c[i],gv_ij(l,"momentum.position",i)); gv_eq(p[4+i],pc[i],gv_ij(l,"momentum.value",i)); }
  m->MakeCoord(p,cst,d);
  for (int i=0;i<8;++i) gv_eq(d[i],c[i],gv_ij(l,"momentum round trip",i));
}
GV_HARNESS(H_kerrbl_normalize) {
  Metric::KerrBL *m=mk_kerrbl(); double c[8], d[8]; gv_lbl l; Metric::Generic *G=m;
  pos_sphp(c); for (int i=0;i<4;++i) c[4+i]=d[4+i]=gv_real(gv_ij(l,"u",i),i?-0.05:1,i?0.05:2); for (int i=0;i<4;++i) d[i]=c[i];
  long massive=gv_choose("massive",2); double g[4][4]; G->gmunu(g,c); double a=m->spin(); gv_assume(a*a<1);
  double q=-((massive?1:0)+g[0][0]*c[4]*c[4]+2*g[0][3]*c[4]*c[7]+g[2][2]*c[6]*c[6]+g[3][3]*c[7]*c[7])/g[1][1];
  gv_assume(g[1][1]>0); gv_assume(q>=0);
  m->Normalize4v(d, massive?1.:0.);
  for (int i=0;i<8;++i) if (i!=5) gv_eq(d[i],c[i],gv_ij(l,"normalize4v.frame",i));
  double n=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) n+=g[i][j]*d[4+i]*d[4+j];
  gv_eq(n, massive?-1.:0., "normalize4v.norm");
  gv_true(c[5]>0 ? d[5]>=0 : d[5]<=0, "normalize4v.sign of rdot kept");
}
/* 3+1 form: E, position, V with u = E (n + V) */
struct NB { double N, b; };
static double lapse(Metric::KerrBL *m, const double *x) { double u[4][4]; static_cast<Metric::Generic*>(m)->gmunu_up(u,x); return 1/std::sqrt(-u[0][0]); }
static double shiftp(Metric::KerrBL *m, const double *x) { double u[4][4]; static_cast<Metric::Generic*>(m)->gmunu_up(u,x); return -u[0][3]/u[0][0]; }
GV_HARNESS(H_kerrbl_nbeta) {
  Metric::KerrBL *m=mk_kerrbl(); double x[4], N, b[3]; pos_sphp(x); double a=m->spin();
  double D=x[1]*x[1]-2*x[1]+a*a; gv_assume(D>0);
  m->computeNBeta(x,N,b);
  double u[4][4]; static_cast<Metric::Generic*>(m)->gmunu_up(u,x);
  gv_eq(N*N*u[0][0],-1,"lapse"); gv_true(N>0,"lapse positive"); gv_eq(b[0],0,"shift.r"); gv_eq(b[1],0,"shift.th"); gv_eq(b[2],-u[0][3]/u[0][0],"shift.ph");
}
GV_HARNESS(H_kerrbl_diff31) {
  Metric::KerrBL *m=mk_kerrbl(); double x[4]; gv_lbl l; pos_sphp(x); double a=m->spin();
  gv_assume(x[1]*x[1]-2*x[1]+a*a>0);
  std::vector<double> s(7), d(7);
  s[0]=gv_real("E",0.5,2); gv_assume(s[0]>0); s[1]=x[1]; s[2]=x[2]; s[3]=x[3];
  for (int i=0;i<3;++i) s[4+i]=gv_real(gv_ij(l,"V",i),-0.1,0.1);
  static_cast<Metric::Generic*>(m)->diff31(s,d,0.);
  double G[4][4][4]; static_cast<Metric::Generic*>(m)->christoffel(G,x);
  double N=lapse(m,x), b=shiftp(m,x), E=s[0], V[4]={0,s[4],s[5],s[6]}, B[4]={0,0,0,b};
  double dx[4]={1,N*V[1],N*V[2],N*V[3]-b};
  for (int i=1;i<4;++i) gv_eq(d[i],dx[i],gv_ij(l,"diff31.position",i));
  double dN=0, db=0;
  for (int i=1;i<4;++i) {
    dN+=gv_D([&](const double*y){return lapse(m,y);},x,4,i)*dx[i];
    db+=gv_D([&](const double*y){return shiftp(m,y);},x,4,i)*dx[i];
  }
  double u[4]; u[0]=E/N; for (int i=1;i<4;++i) u[i]=E*(V[i]-B[i]/N);
  /* d u^mu/dt = -Gamma u u / u^t */
  double du[4]; for (int k=0;k<4;++k) { du[k]=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) du[k]-=G[k][i][j]*u[i]*u[j]; du[k]/=u[0]; }
  gv_eq(d[0]/N-E*dN/(N*N), du[0], "diff31.energy");
  for (int i=1;i<4;++i) {
    double dB=i==3?db:0;
    gv_eq(d[0]*(V[i]-B[i]/N)+E*(d[3+i]-dB/N+B[i]*dN/(N*N)), du[i], gv_ij(l,"diff31.velocity",i));
  }
}
/* Minkowski with the Keplerian flag: massive particles follow Newton's law */
static void newton(bool sph) {
  Metric::Minkowski *m=mk_mink(sph); m->keplerian(true); std::vector<double> x(8), d(8); gv_lbl l;
  for (int i=0;i<8;++i) x[i]=gv_real(gv_ij(l,"y",i),0.5,2);
  gv_assume(x[4]>0); if (sph) { gv_assume(x[1]>0); gv_assume(std::sin(x[2])>0); } else gv_assume(x[1]*x[1]+x[2]*x[2]+x[3]*x[3]>0);
  double mass=gv_real("mass",0.5,1); gv_assume(mass!=0);
  int rc=static_cast<Metric::Generic*>(m)->diff(x,d,mass); gv_eqi(rc,0,"newton.status");
  double X[3],U[3],A[3],r3;
  if (sph) {
    double r=x[1],st=std::sin(x[2]),ct=std::cos(x[2]),sp=std::sin(x[3]),cp=std::cos(x[3]);
    double e[3][3]={{st*cp,st*sp,ct},{ct*cp,ct*sp,-st},{-sp,cp,0}};
    double rd=x[5],td=x[6],pd=x[7];
    double v[3]={rd,r*td,r*st*pd};
    double acc[3]={d[5]-r*td*td-r*st*st*pd*pd, r*d[6]+2*rd*td-r*st*ct*pd*pd, r*st*d[7]+2*rd*st*pd+2*r*ct*td*pd};
    for (int k=0;k<3;++k) { X[k]=r*e[0][k]; U[k]=A[k]=0; for (int j=0;j<3;++j) { U[k]+=v[j]*e[j][k]; A[k]+=acc[j]*e[j][k]; } }
    r3=r*r*r;
  } else { for (int k=0;k<3;++k) { X[k]=x[1+k]; U[k]=x[5+k]; A[k]=d[5+k]; } double r=std::sqrt(X[0]*X[0]+X[1]*X[1]+X[2]*X[2]); r3=r*r*r; }
  double T=x[4];
  for (int i=0;i<4;++i) gv_eq(d[i],x[4+i],gv_ij(l,"newton.velocity",i));
  for (int k=0;k<3;++k) gv_eq((A[k]*T-d[4]*U[k]), -X[k]*T*T*T/r3, gv_ij(l,"newton.acceleration",k));
}
GV_HARNESS(H_newton_cart) { newton(false); }
GV_HARNESS(H_newton_sph) { newton(true); }
GV_HARNESS(H_newton_null) { /* light is not affected by the Keplerian flag */
  Metric::Minkowski *m=mk_mink(true); m->keplerian(gv_choose("keplerian",2)); std::vector<double> x(8), d(8), e(8); gv_lbl l;
  for (int i=0;i<8;++i) x[i]=gv_real(gv_ij(l,"y",i),0.5,2); gv_assume(x[4]>1e-6); gv_assume(std::sin(x[2])!=0); gv_assume(x[1]>0);
  int rc=static_cast<Metric::Generic*>(m)->diff(x,d,0.); gv_eqi(rc,0,"newton.null status");
  double G[4][4][4]; static_cast<Metric::Generic*>(m)->christoffel(G,x.data());
  for (int a=0;a<4;++a) { double s=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) s-=G[a][i][j]*x[4+i]*x[4+j];
    gv_eq(d[4+a],s,gv_ij(l,"light geodesic",a)); gv_eq(d[a],x[4+a],gv_ij(l,"light velocity",a)); }
}
