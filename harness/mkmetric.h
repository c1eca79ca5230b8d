/* Constructors of every analytic metric with arbitrary parameters, and an arbitrary event. */
#ifndef MKMETRIC_H
#define MKMETRIC_H
#include "gv.h"
#include "GyotoKerrBL.h"
#include "GyotoKerrKS.h"
#include "GyotoMinkowski.h"
#include "GyotoChernSimons.h"
#include "GyotoHayward.h"
#include "GyotoKerr2PN.h"
#include "GyotoReissnerNordstrom.h"
#include "GyotoRezzollaZhidenko.h"
#include "GyotoSchwarzschildHarmonic.h"
#include "GyotoKonoplyaRezzollaZhidenko.h"
#include "GyotoBalasinGrumiller.h"
#include "GyotoShift.h"
#include "GyotoComplexMetric.h"
#include <vector>
using namespace Gyoto;
static inline void pos_sph(double *x) {
  x[0]=gv_real("t",-10,10); x[1]=gv_real("r",3,30); x[2]=gv_real("th",0.3,2.8); x[3]=gv_real("ph",-3,3);
}
static inline void pos_all(double *x) { /* also sampled at small and negative r */
  x[0]=gv_real("t",-10,10); x[1]=gv_real("r",-4,4); x[2]=gv_real("th",0.3,2.8); x[3]=gv_real("ph",-3,3);
}
/* same, off the axis and at r>0: the domain on which the spherical-coordinate metrics are defined */
static inline void pos_sphp(double *x) { pos_sph(x); gv_assume(x[1]>0); gv_assume(std::sin(x[2])!=0); }
static inline void pos_cart(double *x) {
  x[0]=gv_real("t",-10,10); x[1]=gv_real("x",3,12); x[2]=gv_real("y",-9,9); x[3]=gv_real("z",-9,9);
}
static inline Metric::KerrBL *mk_kerrbl() { Metric::KerrBL *m=new Metric::KerrBL(); m->spin(gv_real("a",-0.99,0.99)); return m; }
static inline Metric::KerrKS *mk_kerrks() { Metric::KerrKS *m=new Metric::KerrKS(); m->spin(gv_real("a",-0.99,0.99)); return m; }
static inline Metric::Minkowski *mk_mink(bool sph) { Metric::Minkowski *m=new Metric::Minkowski(); m->spherical(sph); return m; }
static inline Metric::ChernSimons *mk_cs() { Metric::ChernSimons *m=new Metric::ChernSimons(); m->spin(gv_real("a",-0.5,0.5)); m->dzetaCS(gv_real("dzeta",0,2)); return m; }
static inline Metric::Hayward *mk_hayward() { Metric::Hayward *m=new Metric::Hayward(); m->spin(gv_real("a",-0.99,0.99)); m->charge(gv_real("b",-2,2)); return m; }
static inline Metric::Kerr2PN *mk_2pn() { Metric::Kerr2PN *m=new Metric::Kerr2PN(); m->spin(gv_real("a",-0.99,0.99)); return m; }
static inline Metric::ReissnerNordstrom *mk_rn() { Metric::ReissnerNordstrom *m=new Metric::ReissnerNordstrom(); m->charge(gv_real("q",-0.99,0.99)); return m; }
static inline Metric::RezzollaZhidenko *mk_rz() {
  Metric::RezzollaZhidenko *m=new Metric::RezzollaZhidenko();
  m->epsilon(gv_real("eps",-0.3,0.3));
  std::vector<double> v(4); v[0]=gv_real("a0",0,.5); v[1]=gv_real("a1",0,.5); v[2]=gv_real("a2",0,.5); v[3]=gv_real("a3",0,.5);
  gv_allow_throw(); /* negative coefficients are rejected */
  m->aparam(v);
  v[0]=gv_real("b0",0,.5); v[1]=gv_real("b1",0,.5); v[2]=gv_real("b2",0,.5); v[3]=gv_real("b3",0,.5);
  m->bparam(v); gv_no_throw();
  return m;
}
static inline Metric::SchwarzschildHarmonic *mk_sh() { return new Metric::SchwarzschildHarmonic(); }
static inline Metric::KonoplyaRezzollaZhidenko *mk_krz(int nh, int ns) {
  Metric::KonoplyaRezzollaZhidenko *m=new Metric::KonoplyaRezzollaZhidenko();
  double a=gv_real("a",0.1,0.98); gv_assume(a!=0); m->spin(a);
  std::vector<double> h(6,0.), s(4,0.);
  h[nh]=gv_real("dh",-0.3,0.3);
  s[ns]=gv_real("ds",-0.3,0.3);
  gv_allow_throw();
  m->deltashorizon(h); m->deltasasymptotics(s);
  gv_no_throw();
  return m;
}
static inline Metric::BalasinGrumiller *mk_bg() {
  Metric::BalasinGrumiller *m=new Metric::BalasinGrumiller();
  m->V0value(gv_real("V0",1e-4,1e-2)); m->Rvalue(gv_real("R",50,100)); m->r0value(gv_real("r0",1,3)); return m;
}
#endif
