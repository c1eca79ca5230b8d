/* a photon whose trajectory is an arbitrary function of time, followed exactly by the integrator */
#include "anymetric.h"
#include "GyotoPhoton.h"
#include "GyotoAstrobj.h"
#include "GyotoWorldline.h"
#include "GyotoError.h"
#include "GyotoDefs.h"
#include <cfloat>
using namespace Gyoto;
/* the trajectory: at coordinate time t, component i is X(i,t); coordinate time runs at the constant rate c */
static bool still=false;
static double tscale=1;
static double X(int i, double t) { if (still && i<4) return i; gv_lbl l; t*=tscale; return gv_uf(gv_ij(l,"x",i),1,&t); }
static double c0=1;
struct Fake : public Worldline::IntegState::Generic { int dir, bad; double step; static int made;
  Fake(Worldline *w) : Worldline::IntegState::Generic(w), dir(0), bad(0), step(1) {} Fake *clone(Worldline *w) const { Fake *f=new Fake(w); f->step=step; return f; } std::string kind() { return "fake"; }
  void init() {} void init(Worldline *, const state_t &, const double d) { dir=d>0?1:-1; }
  void put(state_t &x, double t) { x[0]=t; for (size_t i=1;i<x.size();++i) x[i]= i==4? c0 : X(int(i),t); }
  int nextStep(state_t &x, double &tau, double) { ++made; if (made>20) gv_assume(0); put(x,x[0]+dir*step); tau+=dir*step/c0; return 0; }
  void doStep(state_t const &in, double d, state_t &out) { put(out,in[0]+c0*d); } };
int Fake::made=0;
struct Flat : public Metric::Generic { double stop; Flat() : Metric::Generic(GYOTO_COORDKIND_CARTESIAN,"flat"), stop(1e9) {} Flat *clone() const { return new Flat(*this); } Property const *getProperties() const { return 0; } int isStopCondition(double const *x) const { return x[0]<-stop || x[0]>stop; } };
struct Line { Photon *p; Flat *m; int n; Line(int size, int dir, bool pol, double step=1) { Fake::made=0; m=new Flat(); p=new Photon(); p->metric(m); p->check_basis_=false; double x[8], e[4], f[4]; delete [] p->tau_; delete [] p->x0_; delete [] p->x1_; delete [] p->x2_; delete [] p->x3_; delete [] p->x0dot_; delete [] p->x1dot_; delete [] p->x2dot_; delete [] p->x3dot_; p->parallel_transport_=pol; p->xAllocate(size); n=pol?16:8;
    Fake *s=new Fake(p); s->step=step; p->state_=s; x[0]=0; for (int i=1;i<8;++i) x[i]= i==4? c0 : X(i,0); for (int i=0;i<4;++i) { e[i]=X(8+i,0); f[i]=X(12+i,0); } if (pol) p->Worldline::setInitCoord(x,dir,e,f); else p->Worldline::setInitCoord(x,dir); }
  /* every stored event is the trajectory's, in order, none missing; the starting event is still the starting event */
  void sane(bool full=true, double step=1) { gv_true(p->imin_<=p->i0_ && p->i0_<=p->imax_ && p->imax_<p->x_size_,"indices in order"); gv_eqi(p->get_nelements(),p->imax_-p->imin_+1,"number of elements"); gv_eq(p->x0_[p->i0_],0.,"starting event");
    gv_lbl l; size_t k=p->get_nelements(); double *t=new double[k], *u=new double[k]; p->get_t(t); p->get_tau(u); for (size_t j=p->imin_;j<=p->imax_;++j) { double e=(double(j)-double(p->i0_))*step; gv_true(p->x0_[j]==e,"events are contiguous"); gv_eq(p->tau_[j],e/c0,"proper time"); gv_true(t[j-p->imin_]==e,"get_t"); gv_true(u[j-p->imin_]==p->tau_[j],"get_tau"); if (!full) continue; state_t y(n); p->getCoord(j,y); bool ok=y[0]==e; for (int i=1;i<n;++i) if (!(y[i]==(i==4?c0:X(i,e)))) ok=false; gv_true(ok,"stored event"); } } };
