/* composite metrics: sums and translated metrics of arbitrary functions of the event */
#include "gv.h"
#include "GyotoMetric.h"
#include "GyotoComplexMetric.h"
#include "GyotoShift.h"
#include "GyotoError.h"
using namespace Gyoto;
struct Fun : public Metric::Generic { const char *n; Fun(const char *k) : Metric::Generic(GYOTO_COORDKIND_CARTESIAN,"fun"), n(k) {} 
  double ev(const char *w, int i, int j, int k, const double *x) const { gv_lbl l; char b[24]; int q=0; while (n[q]) { b[q]=n[q]; ++q; } while (*w) b[q++]=*w++; b[q]=0; return gv_uf(gv_ij(l,b,i,j,k),4,x); }
  Metric::Generic *clone() const { return new Fun(*this); } using Metric::Generic::gmunu; using Metric::Generic::gmunu_up;
  void gmunu(double g[4][4], const double *x) const { for (int i=0;i<4;++i) for (int j=i;j<4;++j) g[i][j]=g[j][i]=ev("g",i,j,-1,x); }
  void gmunu_up(double g[4][4], const double *x) const { for (int i=0;i<4;++i) for (int j=i;j<4;++j) g[i][j]=g[j][i]=ev("u",i,j,-1,x); }
  void jacobian(double J[4][4][4], const double *x) const { for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=i;j<4;++j) J[a][i][j]=J[a][j][i]=ev("j",a,i,j,x); }
  int isStopCondition(double const c[8]) const { return gv_uf((std::string(n)+"stop").c_str(),8,c)>0.; }
  Property const *getProperties() const { return 0; } };
static void x4(double *x) { gv_lbl l; for (int i=0;i<4;++i) x[i]=gv_real(gv_ij(l,"x",i),-5.,5.); }
GV_HARNESS(H_sum) { gv_no_throw(); int n=int(gv_choose("n",4)); const char *nm[]={"A","B","C"}; Fun *f[3]; Metric::Complex *c=new Metric::Complex();
  for (int i=0;i<n;++i) c->append(f[i]=new Fun(nm[i])); if (n) gv_eqi(c->coordKind(),GYOTO_COORDKIND_CARTESIAN,"coordinate kind");
  double x[4],g[4][4],h[4][4],J[4][4][4],K[4][4][4]; x4(x); c->gmunu(g,x); c->jacobian(J,x); gv_lbl l;
  double s[4][4]={{0}}, S[4][4][4]={{{0}}}; for (int k=0;k<n;++k) { f[k]->gmunu(h,x); f[k]->jacobian(K,x); for (int i=0;i<4;++i) for (int j=0;j<4;++j) { s[i][j]+=h[i][j]; for (int a=0;a<4;++a) S[a][i][j]+=K[a][i][j]; } }
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) { gv_eq(g[i][j],s[i][j],gv_ij(l,"sum of the coefficients",i,j)); gv_eq(c->gmunu(x,i,j),s[i][j],gv_ij(l,"sum, one coefficient",i,j)); for (int a=0;a<4;++a) gv_eq(J[a][i][j],S[a][i][j],gv_ij(l,"sum of the derivatives",a,i,j)); }
  double y[8]; for (int i=0;i<8;++i) y[i]=gv_real(gv_ij(l,"y",i),-5.,5.); bool stop=false; for (int k=0;k<n;++k) stop=stop||f[k]->isStopCondition(y); gv_eqi(!!c->isStopCondition(y),stop,"stops when an element stops"); }
struct Sph : public Fun { Sph() : Fun("S") { coordKind(GYOTO_COORDKIND_SPHERICAL); } };
GV_HARNESS(H_sum_kind) { Metric::Complex *c=new Metric::Complex(); c->append(new Fun("A")); gv_expect_throw("elements of another coordinate kind are refused"); c->append(new Sph()); }
GV_HARNESS(H_shift) { gv_no_throw(); Fun *f=new Fun("A"); f->mass(gv_real("m",1.,2.)); Metric::Shift *s=new Metric::Shift(); s->subMetric(f); std::vector<double> o(4); double x[4],y[4],g[4][4],h[4][4],J[4][4][4],K[4][4][4]; x4(x); gv_lbl l;
  for (int i=0;i<4;++i) { o[i]=gv_real(gv_ij(l,"o",i),-5.,5.); y[i]=x[i]-o[i]; } s->offset(o);
  gv_eq(((Metric::Generic*)s)->mass(),gv_real("m",1.,2.),"mass of the sub-metric"); gv_eqi(s->coordKind(),GYOTO_COORDKIND_CARTESIAN,"coordinate kind");
  s->gmunu(g,x); f->gmunu(h,y); for (int i=0;i<4;++i) for (int j=0;j<4;++j) { gv_eq(g[i][j],h[i][j],gv_ij(l,"translated coefficients",i,j)); gv_eq(s->gmunu(x,i,j),h[i][j],gv_ij(l,"translated, one coefficient",i,j)); }
  s->gmunu_up(g,x); f->gmunu_up(h,y); for (int i=0;i<4;++i) for (int j=0;j<4;++j) gv_eq(g[i][j],h[i][j],gv_ij(l,"translated inverse",i,j));
  s->jacobian(J,x); f->jacobian(K,y); for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) gv_eq(J[a][i][j],K[a][i][j],gv_ij(l,"translated derivatives",a,i,j));
  double G[4][4][4],H[4][4][4]; s->christoffel(G,x); f->christoffel(H,y); for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) gv_eq(G[a][i][j],H[a][i][j],gv_ij(l,"translated Christoffel",a,i,j));
  double c[8],d[8]; for (int i=0;i<8;++i) c[i]=d[i]=gv_real(gv_ij(l,"c",i),-5.,5.); for (int i=0;i<4;++i) d[i]-=o[i]; gv_eqi(s->isStopCondition(c),f->isStopCondition(d),"translated stop condition");
  double m2=gv_real("m2",1.,2.); if (gv_choose("which",2)) s->mass(m2); else f->mass(m2); gv_eq(((Metric::Generic*)s)->mass(),m2,"mass stays that of the sub-metric"); gv_eq(f->mass(),m2,"sub-metric mass"); }
