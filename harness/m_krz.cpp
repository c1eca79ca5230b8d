// M01: KRZ line element in terms of the class's own five functions (uses private members).
#include "mkmetric.h"
static void zero(double s[4][4]) { for (int i=0;i<4;++i) for (int j=0;j<4;++j) s[i][j]=0; }
static void same(Metric::Generic *m, const double *x, const double s[4][4]) {
  double g[4][4]; gv_lbl l; m->gmunu(g,x);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) gv_eq(g[i][j], s[i][j], gv_ij(l,"line element",i,j));
}
GV_HARNESS(H_coef_spec_krz) { /* KRZ line element in terms of its five functions */
  long h=gv_choose("horizon deformation",6), q=gv_choose("asymptotic deformation",4);
  double x[4], s[4][4]; pos_sphp(x); auto *m=mk_krz(h,q); zero(s); double r=x[1], t=x[2], sn=std::sin(t), N2=m->N2(r,t), B=m->B(r,t), S=m->Sigma(r,t), W=m->W(r,t), K2=m->K2(r,t);
  s[0][0]=-(N2-W*W*sn*sn)/K2; s[0][3]=s[3][0]=-W*r*sn*sn; s[3][3]=K2*r*r*sn*sn; s[1][1]=S*B*B/N2; s[2][2]=S*r*r; same(m,x,s); }
