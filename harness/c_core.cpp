#include "gv.h"
#include "GyotoSmartPointer.h"
#include "GyotoHooks.h"
#include "GyotoError.h"
#include "GyotoComplexAstrobj.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoComplexMetric.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoShift.h"
#include "GyotoUniformSphere.h"
#include "GyotoFixedStar.h"
#include "GyotoKerrBL.h"
#include "GyotoMinkowski.h"
#include "GyotoProperty.h"
#include "GyotoPageThorneDisk.h"
#include "GyotoXillverReflection.h"
#include "GyotoPolishDoughnut.h"
#include "GyotoStar.h"
#include "GyotoOscilTorus.h"
using namespace Gyoto;
/* ---- reference counting: invariant refCount == number of smart pointers to the object.
   Every operation is checked from an arbitrary count, hence for every history. */
struct Ptee : public SmartPointee { SmartPointer<Ptee> next; int id; Ptee(int i=0) : SmartPointee(), next(NULL), id(i) {} virtual ~Ptee() {} };
struct Other : public SmartPointee { int k; virtual ~Other() {} };
static Ptee *shared(const char *n, long &c) { Ptee *p=new Ptee(7); c=gv_int(n,0,1000000); p->refCount=int(c); return p; }
static void count(Ptee *p, long c, const char *what) { if (c==0) gv_true(!gv_alive(p),what); else { gv_true(gv_alive(p),what); gv_eqi(p->refCount,c,what); } }
static void drop(SmartPointer<Ptee> *s) { s->~SmartPointer<Ptee>(); }
GV_HARNESS(H_ref_construct) { gv_no_throw(); long c; Ptee *p=shared("n",c);
  gv_eqi(Ptee().refCount,0,"new object has no reference");
  SmartPointer<Ptee> a(p); count(p,c+1,"construct"); SmartPointer<Ptee> b(a); count(p,c+2,"copy"); SmartPointer<SmartPointee> d(a); count(p,c+3,"convert");
  gv_eqp((Ptee*)a,p,"pointer"); gv_eqp((Ptee*)b,p,"copied pointer"); gv_true(a==b,"equal");
  SmartPointer<Other> o(d); gv_eqp((Other*)o,0,"failed conversion is null"); count(p,c+3,"failed conversion"); SmartPointer<Ptee> z; gv_true(!z,"default is null"); }
GV_HARNESS(H_ref_release) { gv_no_throw(); long c; Ptee *p=shared("n",c); SmartPointer<Ptee> *a=new SmartPointer<Ptee>(p); count(p,c+1,"before"); drop(a); count(p,c,"release frees the object exactly with its last reference"); }
GV_HARNESS(H_ref_assign) { gv_no_throw(); long c,d; Ptee *p=shared("n",c), *q=shared("m",d); gv_assume(c>0);
  SmartPointer<Ptee> *a=new SmartPointer<Ptee>(p), *b=new SmartPointer<Ptee>(q);
  switch (gv_choose("form",3)) { case 0: *a=*b; break; case 1: *a=(Ptee*)*b; break; default: { SmartPointer<Ptee> const &k=*b; *a=k; } }
  gv_eqp((Ptee*)*a,q,"assigned pointer"); gv_eqp((Ptee*)*b,q,"source kept"); count(p,c,"old target"); count(q,d+2,"new target"); }
GV_HARNESS(H_ref_assign_last) { gv_no_throw(); long d; Ptee *p=new Ptee(1), *q=shared("m",d); SmartPointer<Ptee> a(p), *b=new SmartPointer<Ptee>(q);
  switch (gv_choose("form",3)) { case 0: a=*b; count(q,d+2,"new target"); break; case 1: a=(Ptee*)*b; count(q,d+2,"new target"); break; default: a=NULL; count(q,d+1,"untouched"); gv_true(!a,"null"); } gv_true(!gv_alive(p),"the last reference frees the object"); }
GV_HARNESS(H_ref_self) { gv_no_throw(); long c; Ptee *p=shared("n",c); SmartPointer<Ptee> *a=new SmartPointer<Ptee>(p);
  switch (gv_choose("form",3)) { case 0: *a=*a; break; case 1: *a=(Ptee*)*a; break; default: { SmartPointer<Ptee> const &k=*a; *a=k; } } count(p,c+1,"self assignment"); }
GV_HARNESS(H_ref_chain) { gv_no_throw(); Ptee *p=new Ptee(1), *q=new Ptee(2); SmartPointer<Ptee> *a=new SmartPointer<Ptee>(p); p->next=q;
  switch (gv_choose("form",2)) { case 0: *a=p->next; break; default: *a=(Ptee*)p->next; }
  gv_true(!gv_alive(p),"holder freed"); gv_true(gv_alive(q),"an object still pointed to stays alive"); if (gv_alive(q)) gv_eqi(q->refCount,1,"count"); }
GV_HARNESS(H_ref_value) { gv_no_throw(); long c,d; Ptee *p=shared("n",c), *q=shared("m",d); *(SmartPointee*)p=*(SmartPointee*)q; gv_eqi(p->refCount,c,"assigning values leaves the number of references"); gv_eqi(q->refCount,d,"source"); }
GV_HARNESS(H_ref_null) { SmartPointer<Ptee> a; gv_expect_throw("dereferencing null is an error"); switch (gv_choose("form",4)) { case 0: a->id=3; break; case 1: (*a).id=3; break; case 2: { SmartPointer<Ptee> const &k=a; k->id=3; break; } default: { SmartPointer<Ptee> const &k=a; gv_eqi((*k).id,3,"unreachable"); } } }
/* ---- hooks */
struct Ear : public Hook::Listener { int heard; Hook::Teller *who; Ear() : heard(0), who(0) {} void tell(Hook::Teller *t) { ++heard; who=t; } };
struct Mouth : public Hook::Teller { void speak() { tellListeners(); } };
GV_HARNESS(H_hook) { gv_no_throw(); Mouth m; Ear e[3]; int n=int(gv_choose("n",4)), want[3]={0,0,0}; gv_lbl l;
  for (int i=0;i<n;++i) { int k=int(gv_choose(gv_ij(l,"who",i),3)); m.hook(&e[k]); ++want[k]; }
  m.speak(); for (int k=0;k<3;++k) { gv_eqi(e[k].heard,want[k],gv_ij(l,"told once per hook",k)); if (want[k]) gv_eqp(e[k].who,(Hook::Teller*)&m,"told by"); }
  int u=int(gv_choose("unhook",3)); m.unhook(&e[u]); for (int k=0;k<3;++k) e[k].heard=0; m.speak();
  for (int k=0;k<3;++k) gv_eqi(e[k].heard,k==u?0:want[k],gv_ij(l,"told after unhook",k));
  Mouth c(m); for (int k=0;k<3;++k) e[k].heard=0; c.speak(); for (int k=0;k<3;++k) gv_eqi(e[k].heard,0,gv_ij(l,"a copy has no listener",k)); }
/* ---- containers */
template<class C,class G> static void container(C *o, G **g, long base) {
  int n=int(gv_choose("n",4)); gv_lbl l; for (int i=0;i<n;++i) o->append(g[i]);
  gv_eqi(o->getCardinal(),n,"cardinal"); for (int i=0;i<n;++i) { gv_eqp((G*)(*o)[i],g[i],gv_ij(l,"element",i)); gv_eqi(g[i]->refCount,base+1,gv_ij(l,"owned once",i)); }
  if (!n) return; int k=int(gv_choose("k",n)); o->remove(k); gv_eqi(o->getCardinal(),n-1,"cardinal after remove");
  for (int i=0,j=0;i<n;++i) if (i!=k) { gv_eqp((G*)(*o)[j],g[i],gv_ij(l,"kept element",j)); gv_eqi(g[i]->refCount,base+1,gv_ij(l,"kept owned once",i)); ++j; } else gv_eqi(g[i]->refCount,base,"removed element released");
}
template<class C> static void range(C *o, C const *co) { size_t n=o->getCardinal(); size_t k=n+size_t(gv_int("past",0,1000)); gv_expect_throw("index past the end is an error"); switch (gv_choose("op",3)) { case 0: (*o)[k]; break; case 1: (*co)[k]; break; default: o->remove(k); } }
GV_HARNESS(H_cont_metric) { gv_no_throw(); Metric::Generic *g[3]; for (int i=0;i<3;++i) { g[i]=new Metric::Minkowski(); g[i]->incRefCount(); } container(new Metric::Complex(),g,1); }
GV_HARNESS(H_cont_astrobj) { gv_no_throw(); Astrobj::Generic *g[3]; for (int i=0;i<3;++i) { g[i]=new Astrobj::FixedStar(); g[i]->incRefCount(); } Astrobj::Complex *o=new Astrobj::Complex(); Metric::Generic *m=new Metric::Minkowski(); o->metric(m); container(o,g,1); gv_eqp((Metric::Generic*)g[0]->metric(), gv_choose("n",4)>0?m:0,"element gets the metric"); }
GV_HARNESS(H_cont_spectro) { gv_no_throw(); Spectrometer::Generic *g[3]; for (int i=0;i<3;++i) { g[i]=new Spectrometer::Uniform(i+1,1.,4.,Spectrometer::Uniform::FreqKind); g[i]->incRefCount(); } container(new Spectrometer::Complex(),g,1); }
GV_HARNESS(H_range_metric) { Metric::Complex *o=new Metric::Complex(); int n=int(gv_choose("n",3)); for (int i=0;i<n;++i) o->append(new Metric::Minkowski()); range(o,o); }
GV_HARNESS(H_range_astrobj) { Astrobj::Complex *o=new Astrobj::Complex(); int n=int(gv_choose("n",3)); for (int i=0;i<n;++i) o->append(new Astrobj::FixedStar()); range(o,o); }
GV_HARNESS(H_range_spectro) { Spectrometer::Complex *o=new Spectrometer::Complex(); int n=int(gv_choose("n",3)); for (int i=0;i<n;++i) o->append(new Spectrometer::Uniform(1,1.,4.,Spectrometer::Uniform::FreqKind)); range(o,o); }
/* ---- whoever listens to a part stops listening when the part is replaced or the listener destroyed, and keeps listening in a clone */
static int ears(Hook::Teller *t) { return t->listeners_!=0; }
template<class T,class F,class G> static void listens(T *o_, F set, G part, bool hooks) { SmartPointer<Metric::Generic> a(new Metric::KerrBL()), b(new Metric::KerrBL()); { SmartPointer<T> o(o_); set(o_,a); int n=hooks; gv_eqi(ears(a),n,"listens"); set(o_,b); gv_eqi(ears(a),0,"a replaced part has no listener left"); gv_eqi(ears(b),n,"listens to the new part");
  { SmartPointer<T> c(o_->clone()); T *cp=c; Metric::Generic *q=part(cp); gv_true(q!=(Metric::Generic*)b,"own part"); gv_eqi(ears(q),n,"the clone listens to its own part"); q->unhook(cp); gv_eqi(ears(q),0,"alone"); b->unhook(cp); gv_eqi(ears(b),n,"the original still listens"); q->hook(cp); } gv_eqi(ears(b),n,"nor after the clone is gone"); } gv_eqi(ears(b),0,"a destroyed object does not listen"); }
#define OWN(T) GV_HARNESS(H_listen_##T) { gv_no_throw(); listens(new Astrobj::T(), [](Astrobj::T *o, Metric::Generic *m) { o->metric(m); }, [](Astrobj::T *o) { return (Metric::Generic*)o->gg_; }, true); }
OWN(PageThorneDisk) OWN(OscilTorus) OWN(XillverReflection) OWN(PolishDoughnut)
GV_HARNESS(H_listen_Star) { gv_no_throw(); listens(new Astrobj::Star(), [](Astrobj::Star *o, Metric::Generic *m) { o->metric(m); }, [](Astrobj::Star *o) { return (Metric::Generic*)o->metric_; }, true); }
GV_HARNESS(H_listen_Shift) { gv_no_throw(); listens(new Metric::Shift(), [](Metric::Shift *o, Metric::Generic *m) { o->subMetric(m); }, [](Metric::Shift *o) { return (Metric::Generic*)o->submet_; }, true); }
