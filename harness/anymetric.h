/* An arbitrary metric: at the event at hand its ten coefficients are arbitrary reals. */
#ifndef ANYMETRIC_H
#define ANYMETRIC_H
#include "gv.h"
#include "GyotoMetric.h"
#include "GyotoUtils.h"
using namespace Gyoto;
struct AnyMetric : public Metric::Generic {
  double G[4][4];
  AnyMetric(int kind) : Metric::Generic(kind, "any") {
    gv_lbl l;
    for (int i=0;i<4;++i) for (int j=i;j<4;++j)
      G[i][j]=G[j][i]=gv_real(gv_ij(l,"g",i,j), i==j?(i?0.5:-2.0):-0.3, i==j?(i?2.0:-0.5):0.3);
  }
  virtual AnyMetric *clone() const { return new AnyMetric(*this); }
  using Metric::Generic::gmunu;
  void gmunu(double g[4][4], double const *) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=G[i][j]; }
  double dot(const double *u, const double *v) const { double s=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) s+=G[i][j]*u[i]*v[j]; return s; }
  virtual Property const * getProperties() const { return 0; }
};
static inline void anyvec(const char *n, double *v, double lo=-1, double hi=1) { gv_lbl l; for (int i=0;i<4;++i) v[i]=gv_real(gv_ij(l,n,i),lo,hi); }
#endif
