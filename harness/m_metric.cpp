// M01 (coefficients), M02 (inverse), M03 (connection) for every analytic metric.
#include "mkmetric.h"
template<class M> void sym_and_forms(M *mm, const double *x) {
  Metric::Generic *m=mm; double g[4][4]; gv_lbl l;
  m->gmunu(g, x);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) {
    gv_eq(m->gmunu(x,i,j), g[i][j], gv_ij(l,"gmunu.component=matrix",i,j));
    gv_eq(g[i][j], g[j][i], gv_ij(l,"gmunu.symmetric",i,j));
  }
}
template<class M> void inverse(M *mm, const double *x) {
  Metric::Generic *m=mm; double g[4][4], u[4][4]; gv_lbl l;
  m->gmunu(g, x); m->gmunu_up(u, x);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) {
    double s=0; for (int k=0;k<4;++k) s+=u[i][k]*g[k][j];
    gv_eq(s, i==j?1.:0., gv_ij(l,"gmunu_up.gmunu=1",i,j));
    gv_eq(m->gmunu_up(x,i,j), u[i][j], gv_ij(l,"gmunu_up.component=matrix",i,j));
  }
}
template<class M> void dmetric(M *m, const double *x, double dg[4][4][4]) {
  for (int k=0;k<4;++k) for (int i=0;i<4;++i) for (int j=0;j<4;++j)
    dg[k][i][j]=gv_D([&](const double*y){ double h[4][4]; m->gmunu(h,y); return h[i][j]; }, x, 4, k);
}
template<class M> void connection(M *mm, const double *x) {
  Metric::Generic *m=mm; double g[4][4], dg[4][4][4], G[4][4][4]; gv_lbl l;
  m->gmunu(g, x); dmetric(m,x,dg);
  int st=m->christoffel(G, x); gv_eqi(st,0,"christoffel.status");
  for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) {
    double s=0; for (int k=0;k<4;++k) s+=g[a][k]*G[k][i][j];
    gv_eq(s, 0.5*(dg[i][a][j]+dg[j][a][i]-dg[a][i][j]), gv_ij(l,"christoffel=LeviCivita",a,i,j));
    gv_eq(m->christoffel(x,a,i,j), G[a][i][j], gv_ij(l,"christoffel.component=matrix",a,i,j));
  }
}
template<class M> void jac(M *mm, const double *x) {
  Metric::Generic *m=mm; double dg[4][4][4], J[4][4][4], J2[4][4][4], U[4][4], U2[4][4]; gv_lbl l;
  dmetric(m,x,dg);
  m->jacobian(J,x); m->gmunu_up_and_jacobian(U2,J2,x); m->gmunu_up(U,x);
  for (int k=0;k<4;++k) for (int i=0;i<4;++i) for (int j=0;j<4;++j) {
    gv_eq(J[k][i][j], dg[k][i][j], gv_ij(l,"jacobian=d gmunu",k,i,j));
    gv_eq(J2[k][i][j], J[k][i][j], gv_ij(l,"gmunu_up_and_jacobian.jac",k,i,j));
    if (!k) gv_eq(U2[i][j], U[i][j], gv_ij(l,"gmunu_up_and_jacobian.up",i,j));
  }
}
template<class M> void scalar(M *mm, const double *x) { /* M05: the metric's own scalar product, norm and one-form */
  Metric::Generic *m=mm; double g[4][4], u[4], v[4], w[4], s=0, t=0; gv_lbl l; m->gmunu(g,x);
  for (int i=0;i<4;++i) { u[i]=gv_real(gv_ij(l,"u",i),-1,1); v[i]=gv_real(gv_ij(l,"v",i),-1,1); }
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) s+=g[i][j]*u[i]*v[j];
  gv_eq(m->ScalarProd(x,u,v), s, "ScalarProd of this metric");
  m->dualOneForm(x,u,w); for (int i=0;i<4;++i) t+=w[i]*v[i];
  gv_eq(t, s, "one-form of this metric");
}
#define ALL3(nm, mk, ps) \
 GV_HARNESS(H_scalar_##nm) { double x[4]; ps(x); auto *m=mk; scalar(m,x); } \
 GV_HARNESS(H_coef_##nm) { double x[4]; ps(x); auto *m=mk; sym_and_forms(m,x); } \
 GV_HARNESS(H_inv_##nm)  { double x[4]; ps(x); auto *m=mk; inverse(m,x); } \
 GV_HARNESS(H_conn_##nm) { double x[4]; ps(x); auto *m=mk; connection(m,x); }
ALL3(kerrbl, mk_kerrbl(), pos_sph)
ALL3(kerrks, mk_kerrks(), pos_cart)
ALL3(mink_sph, mk_mink(true), pos_sph)
ALL3(mink_cart, mk_mink(false), pos_cart)
ALL3(hayward, mk_hayward(), pos_all)
ALL3(kerr2pn, mk_2pn(), pos_sph)
ALL3(rn, mk_rn(), pos_sphp)
GV_HARNESS(H_coef_rz) { double x[4]; pos_sphp(x); auto *m=mk_rz(); sym_and_forms(m,x); }
GV_HARNESS(H_inv_rz)  { double x[4]; pos_sphp(x); auto *m=mk_rz(); inverse(m,x); }
GV_HARNESS(H_conn_rz) { double x[4]; pos_sphp(x); auto *m=mk_rz(); /* outside the horizon r0=2/(1+epsilon) */
  double e=m->epsilon(); gv_assume(e>-1); gv_assume(2/(1+e)<x[1]); connection(m,x); }
ALL3(sh, mk_sh(), pos_sphp)
#define KRZ(h,s) ALL3(krz_##h##s, mk_krz(h,s), pos_sphp)
KRZ(0,0) KRZ(1,1) KRZ(2,2) KRZ(3,3) KRZ(4,0) KRZ(5,1)
KRZ(0,1) KRZ(0,2) KRZ(0,3) KRZ(1,0) KRZ(1,2) KRZ(1,3) KRZ(2,0) KRZ(2,1) KRZ(2,3) KRZ(3,0) KRZ(3,1) KRZ(3,2) KRZ(4,1) KRZ(4,2) KRZ(4,3) KRZ(5,0) KRZ(5,2) KRZ(5,3)
ALL3(bg, mk_bg(), pos_sph)
GV_HARNESS(H_coef_cs) { double x[4]; pos_sph(x); auto *m=mk_cs(); sym_and_forms(m,x); }
GV_HARNESS(H_scalar_cs) { double x[4]; pos_sph(x); auto *m=mk_cs(); scalar(m,x); }
GV_HARNESS(H_scalar_rz) { double x[4]; pos_sphp(x); auto *m=mk_rz(); scalar(m,x); }
GV_HARNESS(H_inv_cs)  { double x[4]; pos_sph(x); auto *m=mk_cs(); inverse(m,x); }
GV_HARNESS(H_jac_kerrks) { double x[4]; pos_cart(x); auto *m=mk_kerrks(); jac(m,x); }
/* ---- the coefficients are those of the documented line element ---- */
static void same(Metric::Generic *m, const double *x, const double s[4][4]) {
  double g[4][4]; gv_lbl l; m->gmunu(g,x);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) gv_eq(g[i][j], s[i][j], gv_ij(l,"line element",i,j));
}
static void zero(double s[4][4]) { for (int i=0;i<4;++i) for (int j=0;j<4;++j) s[i][j]=0; }
/* Kerr-like line element in Boyer-Lindquist coordinates with mass function M at this r */
static void kerrlike(double s[4][4], const double *x, double a, double M) {
  double r=x[1], c=std::cos(x[2]), sn=std::sin(x[2]), S=r*r+a*a*c*c, D=r*r-2*M*r+a*a; zero(s);
  s[0][0]=-(1-2*M*r/S); s[0][3]=s[3][0]=-2*M*a*r*sn*sn/S; s[1][1]=S/D; s[2][2]=S;
  s[3][3]=sn*sn*(r*r+a*a+2*M*a*a*r*sn*sn/S);
}
GV_HARNESS(H_coef_spec_kerrbl) { double x[4], s[4][4]; pos_sph(x); auto *m=mk_kerrbl(); kerrlike(s,x,m->spin(),1.); same(m,x,s); }
GV_HARNESS(H_coef_spec_hayward) { double x[4], s[4][4]; pos_all(x); auto *m=mk_hayward(); double R=std::fabs(x[1]), b=m->charge();
  gv_assume(x[1]!=0); kerrlike(s,x,m->spin(), R*R*R/(R*R*R+2*b*b)); same(m,x,s); }
GV_HARNESS(H_coef_spec_mink_sph) { double x[4], s[4][4]; pos_sph(x); auto *m=mk_mink(true); zero(s);
  s[0][0]=-1; s[1][1]=1; s[2][2]=x[1]*x[1]; s[3][3]=x[1]*x[1]*std::sin(x[2])*std::sin(x[2]); same(m,x,s); }
GV_HARNESS(H_coef_spec_mink_cart) { double x[4], s[4][4]; pos_cart(x); auto *m=mk_mink(false); zero(s); s[0][0]=-1; s[1][1]=s[2][2]=s[3][3]=1; same(m,x,s); }
GV_HARNESS(H_coef_spec_rn) { double x[4], s[4][4]; pos_sphp(x); auto *m=mk_rn(); double q=m->charge(), r=x[1], f=1-2/r+q*q/(r*r); zero(s);
  s[0][0]=-f; s[1][1]=1/f; s[2][2]=r*r; s[3][3]=r*r*std::sin(x[2])*std::sin(x[2]); same(m,x,s); }
GV_HARNESS(H_coef_spec_sh) { double x[4], s[4][4]; pos_sphp(x); auto *m=mk_sh(); double R=x[1]+1; zero(s); /* Schwarzschild with areal radius R=r+1 */
  s[0][0]=-(1-2/R); s[1][1]=1/(1-2/R); s[2][2]=R*R; s[3][3]=R*R*std::sin(x[2])*std::sin(x[2]); same(m,x,s); }
GV_HARNESS(H_coef_spec_bg) { double x[4], s[4][4]; pos_sph(x); auto *m=mk_bg(); zero(s);
  double r=x[1], z=r*std::cos(x[2]), p2=r*r*std::sin(x[2])*std::sin(x[2]), V=m->V0value(), R=m->Rvalue(), r0=m->r0value();
  auto d=[&](double h){ return std::sqrt(p2+(z-h)*(z-h)); };
  double N=V*(R-r0)+V/2*(d(r0)+d(-r0)-d(R)-d(-R));
  s[0][0]=-1; s[0][3]=s[3][0]=N; s[1][1]=1; s[2][2]=r*r; s[3][3]=p2-N*N; same(m,x,s); }
GV_HARNESS(H_coef_spec_cs) { /* Kerr through second order in the spin, plus the first-order Chern-Simons term in g_{t phi} */
  double x[4], s[4][4]; pos_sphp(x); auto *m=mk_cs(); double a=m->spin(), z=m->dzetaCS(), r=x[1], c=std::cos(x[2]), sn=std::sin(x[2]), f=1-2/r; zero(s);
  s[0][0]=-f-2*a*a*c*c/(r*r*r); s[1][1]=1/f+a*a/(f*r*r)*(c*c-1/f); s[2][2]=r*r+a*a*c*c; s[3][3]=sn*sn*(r*r+a*a+2*a*a*sn*sn/r);
  s[0][3]=s[3][0]=sn*sn*(-2*a/r+0.625*z*a/(r*r*r*r)*(1+12/(7*r)+27/(10*r*r))); same(m,x,s); }
GV_HARNESS(H_coef_spec_kerrks) {
  double x[4], s[4][4]; pos_cart(x); auto *m=mk_kerrks(); double a=m->spin();
  /* Kerr-Schild radius: x = sqrt(r^2+a^2) ..., z = r cos(th) */
  double R2=x[1]*x[1]+x[2]*x[2]+x[3]*x[3], q=R2-a*a, r=std::sqrt((q+std::sqrt(q*q+4*a*a*x[3]*x[3]))/2);
  double k[4]={1,(r*x[1]+a*x[2])/(r*r+a*a),(r*x[2]-a*x[1])/(r*r+a*a),x[3]/r}, H=r*r*r/(r*r*r*r+a*a*x[3]*x[3]);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) s[i][j]=(i==j?(i?1:-1):0)+2*H*k[i]*k[j];
  same(m,x,s); }
GV_HARNESS(H_coef_spec_rz) { double x[4], s[4][4]; pos_sphp(x); auto *m=mk_rz(); zero(s);
  double e=m->epsilon(), r=x[1], y=2/((1+e)*r), X=1-y, sn=std::sin(x[2]); gv_assume(e!=-1);
  std::vector<double> a=m->aparam(), b=m->bparam();
  double A=1-e*y+(a[0]-e)*y*y+a[1]/(1+a[2]*X/(1+a[3]*X))*y*y*y, B=1+b[0]*y+b[1]/(1+b[2]*X/(1+b[3]*X))*y*y;
  s[0][0]=-X*A; s[1][1]=B*B/(X*A); s[2][2]=r*r; s[3][3]=r*r*sn*sn; same(m,x,s); }
GV_HARNESS(H_coef_spec_krz_kerr) { /* no deformation: Kerr */
  double x[4], s[4][4]; pos_sphp(x); auto *m=new Metric::KonoplyaRezzollaZhidenko(); double a=gv_real("a",0.1,0.98); gv_assume(a>0); gv_assume(a<1);
  m->spin(a); kerrlike(s,x,a,1.); same(m,x,s); }
