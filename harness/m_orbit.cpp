// M07: circular orbits.  In the equatorial plane the velocity returned is the
// unit-timelike tangent of the circular geodesic, prograde for dir=+1 and
// retrograde for dir=-1; with the Keplerian flag it is r^{-3/2} everywhere.
#include "mkmetric.h"
static double om(Metric::Generic *m, const double *x, double O) {
  double g[4][4]; m->gmunu(g,x); return g[0][0]+2*O*g[0][3]+O*O*g[3][3];
}
/* spherical coordinates, equator */
static void circ(Metric::Generic *m, double *x, double dir, int sense=1) {
  x[2]=M_PI*0.5; double v[4]; gv_lbl l;
  gv_allow_throw(); m->circularVelocity(x,v,dir); gv_no_throw(); gv_assume(v[0]!=0);
  double g[4][4]; m->gmunu(g,x); double n=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) n+=g[i][j]*v[i]*v[j];
  double O=v[3]/v[0];
  gv_assume(om(m,x,O)<0); /* a timelike orbit exists there */ gv_assume(O!=0);
  gv_eq(v[1],0,"circular.no radial motion"); gv_eq(v[2],0,"circular.no polar motion");
  gv_eq(n,-1,"circular.unit norm");
  auto D=[&](int i, int j){ return gv_D([&](const double*y){ double h[4][4]; double z[4]={y[0],y[1],M_PI*0.5,y[3]}; m->gmunu(h,z); return h[i][j]; }, x, 4, 1); };
  gv_eq(D(0,0)*v[0]*v[0]+2*D(0,3)*v[0]*v[3]+D(3,3)*v[3]*v[3], 0, "circular.geodesic");
  if (sense==1) gv_true(dir*v[3]>0,"circular.sense of rotation");
  else if (sense==0) { double q=D(3,3)*O+D(0,3); gv_eq(q, dir*std::fabs(q), "circular.sense of rotation"); }
  gv_true(v[0]>0,"circular.future directed");
}
static double dir() { return gv_choose("retrograde",2)?-1.:1.; }
GV_HARNESS(H_circ_kerrbl) { double x[4]; pos_sph(x); auto *m=mk_kerrbl(); double a=m->spin(); gv_assume(a*a<1); gv_assume(x[1]>1); circ(m,x,dir()); }
GV_HARNESS(H_circ_rn) { double x[4]; pos_sph(x); auto *m=mk_rn(); double q=m->charge(); gv_assume(x[1]>0); gv_assume(x[1]>q*q); circ(m,x,dir()); }
GV_HARNESS(H_circ_sh) { double x[4]; pos_sph(x); auto *m=mk_sh(); gv_assume(x[1]>1); circ(m,x,dir()); }
GV_HARNESS(H_circ_hayward) { double x[4]; pos_sph(x); auto *m=mk_hayward(); double b=m->charge(), a=m->spin(); gv_assume(x[1]>=1);
  gv_assume(x[1]*x[1]*x[1]>4*b*b); circ(m,x,dir(),false); (void)a; }
GV_HARNESS(H_circ_rz) { double x[4]; pos_sph(x); auto *m=mk_rz(); double e=m->epsilon(); gv_assume(e>-1); gv_assume(2/(1+e)<x[1]); circ(m,x,dir()); }
GV_HARNESS(H_circ_cs) { double x[4]; pos_sph(x); auto *m=mk_cs(); double a=m->spin(); gv_assume(x[1]>2); gv_assume(x[1]*x[1]*x[1]>a*a); circ(m,x,dir(),0); }
GV_HARNESS(H_circ_krz_kerr) { double x[4]; pos_sph(x); auto *m=new Metric::KonoplyaRezzollaZhidenko(); double a=gv_real("a",0.1,0.9); gv_assume(a>0); gv_assume(a<1); m->spin(a); gv_assume(x[1]>2); circ(m,x,dir(),-1); }
/* sense of rotation for KRZ: bounded, on listed radii and spins (the general statement is beyond the solvers) */
GV_HARNESS(H_circ_krz_sense) { static const double R[]={6,10,40}, A[]={0.25,0.5,0.75};
  double x[4]={0,R[gv_choose("radius",3)],M_PI*0.5,0}, v[4], d=dir(); auto *m=new Metric::KonoplyaRezzollaZhidenko(); m->spin(A[gv_choose("spin",3)]);
  m->circularVelocity(x,v,d); gv_true(d*v[3]>0,"circular.sense of rotation"); }
GV_HARNESS(H_circ_kerrks) {
  double x[4]; pos_cart(x); x[3]=0.; auto *m=mk_kerrks(); Metric::Generic *G=m; double a=m->spin(), d=dir(), v[4]; gv_lbl l;
  gv_assume(a*a<1); gv_assume(x[1]*x[1]+x[2]*x[2]>1+a*a);
  gv_allow_throw(); m->circularVelocity(x,v,d); gv_no_throw(); gv_assume(v[0]!=0); /* 0 flags the absence of a timelike orbit */
  double g[4][4]; G->gmunu(g,x); double n=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) n+=g[i][j]*v[i]*v[j];
  gv_eq(n,-1,"circular.unit norm"); gv_eq(v[1]*x[1]+v[2]*x[2],0,"circular.no radial motion"); gv_eq(v[3],0,"circular.no polar motion");
  double C[4][4][4]; G->christoffel(C,x); double O=(v[2]*x[1]-v[1]*x[2])/((x[1]*x[1]+x[2]*x[2])*v[0]);
  double acc[4]={0,-O*v[0]*v[2],O*v[0]*v[1],0};
  for (int k=0;k<4;++k) { double s=acc[k]; for (int i=0;i<4;++i) for (int j=0;j<4;++j) s+=C[k][i][j]*v[i]*v[j]; gv_eq(s,0,gv_ij(l,"circular.geodesic",k)); }
  /* the two roots are 1/(+-r^{3/2}+a); with |a|<1<r their signs are +-: O is the one of the requested sense */
  double rc=std::sqrt(x[1]*x[1]+x[2]*x[2]-a*a); gv_eq(O*(d*rc*std::sqrt(rc)+a),1,"circular.sense of rotation");
}
/* the Keplerian flag: r^{-3/2} at the projected radius, for every metric */
static void kep(Metric::Generic *m, double *x, double d) {
  m->keplerian(true); double v[4]; gv_assume(x[1]>0); gv_assume(std::sin(x[2])>0);
  gv_allow_throw(); m->circularVelocity(x,v,d); gv_no_throw(); gv_assume(v[0]!=0); /* 0 flags the absence of a timelike orbit */
  double r=x[1]*std::sin(x[2]), O=v[3]/v[0];
  gv_eq(v[1],0,"keplerian.no radial motion"); gv_eq(v[2],0,"keplerian.no polar motion");
  gv_eq(O*O*r*r*r,1,"keplerian.third law"); gv_true(d*O>0,"keplerian.sense of rotation");
  gv_eq(v[0]*v[0]*om(m,x,O),-1,"keplerian.unit norm");
}
#define KEP(nm,mk,cond) GV_HARNESS(H_kep_##nm) { double x[4]; pos_sph(x); auto *m=mk; cond; kep(m,x,dir()); }
KEP(kerrbl, mk_kerrbl(), ) KEP(rn, mk_rn(), ) KEP(sh, mk_sh(), ) KEP(hayward, mk_hayward(), gv_assume(x[1]>0)) KEP(cs, mk_cs(), )
KEP(rz, mk_rz(), ) KEP(mink, mk_mink(true), ) KEP(bg, mk_bg(), )
GV_HARNESS(H_kep_krz) { double x[4]; pos_sph(x); auto *m=new Metric::KonoplyaRezzollaZhidenko(); kep(m,x,dir()); }
static void kepc(Metric::Generic *m) {
  double x[4], v[4]; pos_cart(x); gv_assume(x[1]*x[1]+x[2]*x[2]>0); double d=dir(); m->keplerian(true);
  gv_allow_throw(); m->circularVelocity(x,v,d); gv_no_throw(); gv_assume(v[0]!=0); /* 0 flags the absence of a timelike orbit */
  double r2=x[1]*x[1]+x[2]*x[2], O=(v[2]*x[1]-v[1]*x[2])/(r2*v[0]), g[4][4], n=0; m->gmunu(g,x);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) n+=g[i][j]*v[i]*v[j];
  gv_eq(n,-1,"keplerian.unit norm"); gv_eq(v[1]*x[1]+v[2]*x[2],0,"keplerian.no radial motion"); gv_eq(v[3],0,"keplerian.no vertical motion");
  gv_eq(O*O*r2*std::sqrt(r2),1,"keplerian.third law"); gv_true(d*O>0,"keplerian.sense of rotation");
}
GV_HARNESS(H_kep_mink_cart) { kepc(mk_mink(false)); }
GV_HARNESS(H_kep_kerrks) { kepc(mk_kerrks()); }
GV_HARNESS(H_kep_refused) { Metric::Generic *m=mk_mink(gv_choose("spherical",2)); double x[4]={0,1,1,1}, v[4]; m->keplerian(false); gv_expect_throw("circular velocity refused without the Keplerian flag"); m->circularVelocity(x,v,1); }
/* specific angular momentum and potential of circular motion: -u_phi/u_t and -ln|u_t| */
static void ang(Metric::Generic *m, double *x) {
  x[2]=M_PI*0.5; double v[4]; gv_allow_throw(); m->circularVelocity(x,v,1.); double L=m->getSpecificAngularMomentum(x[1]); gv_no_throw(); gv_assume(v[0]!=0);
  double g[4][4]; m->gmunu(g,x); double O=v[3]/v[0];
  gv_assume(om(m,x,O)<0); gv_assume(g[0][0]+O*g[0][3]<0);
  gv_eq(L, -(g[0][3]+O*g[3][3])/(g[0][0]+O*g[0][3]), "specific angular momentum of the circular orbit");
}
GV_HARNESS(H_ang_kerrbl) { double x[4]; pos_sph(x); auto *m=mk_kerrbl(); double a=m->spin(); gv_assume(a*a<1); gv_assume(x[1]>1); ang(m,x); }
GV_HARNESS(H_ang_rn) { double x[4]; pos_sph(x); auto *m=mk_rn(); double q=m->charge(); gv_assume(x[1]>0); gv_assume(x[1]>q*q); ang(m,x); }
GV_HARNESS(H_ang_rz) { double x[4]; pos_sph(x); auto *m=mk_rz(); double e=m->epsilon(); gv_assume(e>-1); gv_assume(2/(1+e)<x[1]); ang(m,x); }
GV_HARNESS(H_ang_hayward) { double x[4]; pos_sph(x); auto *m=mk_hayward(); double b=m->charge(); gv_assume(x[1]>=1); gv_assume(x[1]*x[1]*x[1]>4*b*b); ang(m,x); }
static void pot(Metric::Generic *m, double *x) {
  double l=gv_real("l",2,5), g[4][4]; m->gmunu(g,x); gv_allow_throw(); double W=m->getPotential(x,l); gv_no_throw();
  /* u_t^2 = (g_tp^2 - g_tt g_pp)/(g_pp + 2 l g_tp + l^2 g_tt) */
  double d=g[0][3]*g[0][3]-g[0][0]*g[3][3], q=g[3][3]+2*l*g[0][3]+l*l*g[0][0]; gv_assume(d>0); gv_assume(q>0);
  gv_eq(std::exp(-4*W), d*d/(q*q), "potential is -ln|u_t|");
}
GV_HARNESS(H_pot_kerrbl) { double x[4]; pos_sphp(x); auto *m=mk_kerrbl(); pot(m,x); }
GV_HARNESS(H_pot_hayward) { double x[4]; pos_sphp(x); auto *m=mk_hayward(); pot(m,x); }
GV_HARNESS(H_pot_rn) { double x[4]; pos_sphp(x); auto *m=mk_rn(); pot(m,x); }
GV_HARNESS(H_pot_rz) { double x[4]; pos_sphp(x); auto *m=mk_rz(); double e=m->epsilon(); gv_assume(e>-1); gv_assume(2/(1+e)<x[1]); pot(m,x); }
