/* walk the property table of an object */
#ifndef PROPS_H
#define PROPS_H
#include "gv.h"
#include "GyotoObject.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoError.h"
#include "GyotoConverters.h"
#include "GyotoMetric.h"
#include "GyotoAstrobj.h"
#include "GyotoSpectrum.h"
#include "GyotoSpectrometer.h"
#include "GyotoScreen.h"
#include "GyotoKerrBL.h"
#include "GyotoPowerLawSpectrum.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoFixedStar.h"
using namespace Gyoto;
template<class T> static T *raw(SmartPointer<T> const &x) { return (T*)x(); }
static const char *cat(gv_lbl &l, const char *a, const std::string &b) { int n=0; const char *c=b.c_str(); while (a[n]&&n<60) { l.b[n]=a[n]; ++n; } while (*c&&n<90) l.b[n++]=*c++; l.b[n]=0; return l.b; }
static bool streq(const std::string &a, const char *b) { return a==b; }
/* parameters whose meaning requires a positive value */
static bool positive(const std::string &n) { return n=="SmallRadius"; }
/* set one property to an arbitrary value of its type; false when there is nothing to set */
static bool setany(Object *o, Property const &p, const char *tag) {
  gv_lbl l; const char *nm=cat(l,tag,p.name);
  if (p.type==Property::double_t && positive(p.name)) { double v=gv_real(nm,0.1,2.); gv_assume(v>0.); o->set(p,Value(v)); return true; }
  try {
    switch (p.type) {
    case Property::double_t: o->set(p, Value(gv_real(nm,0.1,2.))); return true;
    case Property::bool_t: o->set(p, Value((bool)gv_bool(nm))); return true;
    case Property::long_t: o->set(p, Value((long)gv_int(nm,0,1000))); return true;
    case Property::unsigned_long_t: o->set(p, Value((unsigned long)gv_int(nm,0,1000))); return true;
    case Property::size_t_t: o->set(p, Value((size_t)(tag[0]?5:7))); return true; /* sizes: two concrete values */
    case Property::vector_double_t: { std::vector<double> v=o->get(p); if (v.empty()||v.size()>40) return false; gv_lbl k; for (size_t i=0;i<v.size();++i) v[i]=gv_real(gv_ij(k,nm,i),0.1,2.); o->set(p, Value(v)); return true; }
    case Property::metric_t: { SmartPointer<Metric::KerrBL> m=new Metric::KerrBL(); m->spin(gv_real("metric spin",0.1,0.9)); m->mass(gv_real("metric mass",1.,2.)); SmartPointer<Metric::Generic> g(raw(m)); o->set(p, Value(g)); return true; }
    case Property::spectrum_t: { SmartPointer<Spectrum::PowerLaw> m=new Spectrum::PowerLaw(gv_real(nm,0.1,2.),1.); SmartPointer<Spectrum::Generic> g(raw(m)); o->set(p, Value(g)); return true; }
    case Property::spectrometer_t: { SmartPointer<Spectrometer::Generic> g(new Spectrometer::Uniform(3,gv_real("spr lo",1.,2.),gv_real("spr hi",3.,4.),Spectrometer::Uniform::FreqKind)); o->set(p, Value(g)); return true; }
    case Property::astrobj_t: { SmartPointer<Astrobj::FixedStar> f=new Astrobj::FixedStar(); f->radius(gv_real("star radius",1.,2.)); SmartPointer<Astrobj::Generic> g(raw(f)); o->set(p, Value(g)); return true; }
    default: return false;
    }
  } catch (Gyoto::Error &) { return false; }
}
/* give an object the metric and spectra it can hold */
static void fill(Object *o, const char *const *skip=0);
static void sameall(Object *a, Object *b, const char *what);
static void sameprop(Object *a, Object *b, Property const &p, const char *what) {
  gv_lbl l; const char *nm=cat(l,what,p.name);
  switch (p.type) {
  case Property::double_t: { double x=a->get(p), y=b->get(p); gv_eq(x,y,nm); break; }
  case Property::bool_t: { bool x=a->get(p), y=b->get(p); gv_eqi(x,y,nm); break; }
  case Property::long_t: { long x=a->get(p), y=b->get(p); gv_eqi(x,y,nm); break; }
  case Property::unsigned_long_t: { unsigned long x=a->get(p), y=b->get(p); gv_eqi(x,y,nm); break; }
  case Property::size_t_t: { size_t x=a->get(p), y=b->get(p); gv_eqi(x,y,nm); break; }
  case Property::string_t: case Property::filename_t: { std::string x=a->get(p), y=b->get(p); gv_true(x==y,nm); break; }
  case Property::vector_double_t: { std::vector<double> x=a->get(p), y=b->get(p); gv_eqi(x.size(),y.size(),nm); gv_lbl k; if (x.size()==y.size()&&x.size()<=40) for (size_t i=0;i<x.size();++i) gv_eq(x[i],y[i],gv_ij(k,nm,i)); break; }
  case Property::metric_t: { SmartPointer<Metric::Generic> x=a->get(p), y=b->get(p); gv_eqi(!!x(),!!y(),nm); if (x&&y) { gv_true(x->kind()==y->kind(),nm); gv_lbl k; sameall(raw(x),raw(y),cat(k,nm,".")); } break; }
  case Property::spectrum_t: { SmartPointer<Spectrum::Generic> x=a->get(p), y=b->get(p); gv_eqi(!!x(),!!y(),nm); if (x&&y) { gv_true(x->kind()==y->kind(),nm); gv_lbl k; sameall(raw(x),raw(y),cat(k,nm,".")); } break; }
  case Property::spectrometer_t: { SmartPointer<Spectrometer::Generic> x=a->get(p), y=b->get(p); gv_eqi(!!x(),!!y(),nm); if (x&&y) { gv_true(x->kind()==y->kind(),nm); gv_lbl k; sameall(raw(x),raw(y),cat(k,nm,".")); } break; }
  default: break;
  }
}
static inline bool skipped(const std::string &n, const char *const *skip) { for (; skip && *skip; ++skip) if (streq(n,*skip)) return true; return false; }
template<class F> static void eachprop(Object *o, F f) { Property const *p=o->getProperties(); while (p) { if (*p) { if (p->type!=Property::empty_t) f(*p); ++p; } else p=p->parent; } }
static void sameall(Object *a, Object *b, const char *what) { gv_eqi((long)(a->getProperties()==b->getProperties()),1,what); if (a->getProperties()==b->getProperties()) eachprop(a,[&](Property const &p){ sameprop(a,b,p,what); }); }
static void fill(Object *o, const char *const *skip) { eachprop(o,[&](Property const &p){ if (skipped(p.name,skip)) return; if (p.type==Property::metric_t||p.type==Property::spectrum_t) setany(o,p,""); }); }
/* set everything, clone, compare, then change the clone and compare again with remembered values */
template<class T> static void cloned(T *o, const char *const *skip=0) {
  fill(o,skip); eachprop(o,[&](Property const &p){ if (!skipped(p.name,skip)&&p.type!=Property::metric_t&&p.type!=Property::spectrum_t) setany(o,p,""); });
  T *c=o->clone();
  gv_true(c!=o,"clone.distinct object"); gv_true(o->kind()==c->kind(),"clone.kind");
  gv_eqi((long)(c->getProperties()==o->getProperties()),1,"clone.same class");
  eachprop(o,[&](Property const &p){ if (!skipped(p.name,skip)) sameprop(o,c,p,"clone."); });
  gv_samefields(o,c,"clone.");
}
/* the values of all the properties of o, in order */
static void snapshot(Object *o, std::vector<double> &v, const char *const *skip) {
  eachprop(o,[&](Property const &p){ if (skipped(p.name,skip)) return;
    switch (p.type) {
    case Property::double_t: { double x=o->get(p); v.push_back(x); break; }
    case Property::bool_t: { bool x=o->get(p); v.push_back(x); break; }
    case Property::long_t: { long x=o->get(p); v.push_back(double(x)); break; }
    case Property::unsigned_long_t: { unsigned long x=o->get(p); v.push_back(double(x)); break; }
    case Property::size_t_t: { size_t x=o->get(p); v.push_back(double(x)); break; }
    case Property::vector_double_t: { std::vector<double> x=o->get(p); v.push_back(double(x.size())); for (size_t i=0;i<x.size()&&i<40;++i) v.push_back(x[i]); break; }
    case Property::metric_t: { SmartPointer<Metric::Generic> x=o->get(p); v.push_back(x?1.:0.); if (x) snapshot(raw(x),v,0); break; }
    case Property::spectrum_t: { SmartPointer<Spectrum::Generic> x=o->get(p); v.push_back(x?1.:0.); if (x) snapshot(raw(x),v,0); break; }
    case Property::spectrometer_t: { SmartPointer<Spectrometer::Generic> x=o->get(p); v.push_back(x?1.:0.); if (x) snapshot(raw(x),v,0); break; }
    default: break;
    } });
}
/* change every property of o, and of the objects it holds */
static void changeall(Object *o, const char *const *skip, int depth=0) {
  eachprop(o,[&](Property const &p){ if (skipped(p.name,skip)) return;
    if (depth<2) switch (p.type) {
    case Property::metric_t: { SmartPointer<Metric::Generic> x=o->get(p); if (x) changeall(raw(x),0,depth+1); return; }
    case Property::spectrum_t: { SmartPointer<Spectrum::Generic> x=o->get(p); if (x) changeall(raw(x),0,depth+1); return; }
    case Property::spectrometer_t: { SmartPointer<Spectrometer::Generic> x=o->get(p); if (x) changeall(raw(x),0,depth+1); return; }
    default: break; }
    setany(o,p,"new "); });
}
/* a change made to the clone is not seen by the original */
template<class T> static void independent(T *o, const char *const *skip=0) {
  fill(o,skip); 
  std::vector<double> before, after; snapshot(o,before,skip);
  T *c=o->clone(); changeall(c,skip);
  snapshot(o,after,skip);
  gv_lbl l; gv_eqi(after.size(),before.size(),"independent.count");
  if (after.size()==before.size()) for (size_t i=0;i<after.size();++i) gv_eq(after[i],before[i],gv_ij(l,"independent",i/10,i%10));
}
/* what was set is what is read back */
template<class T> static void readback(T *o, const char *const *skip=0) {
  eachprop(o,[&](Property const &p){
    if (skipped(p.name,skip)) return; gv_lbl l; const char *nm=cat(l,"read back.",p.name);
    switch (p.type) {
    case Property::double_t: { gv_lbl k; double v=gv_real(cat(k,"",p.name),0.1,2.); if (positive(p.name)) gv_assume(v>0.); try { o->set(p,Value(v)); } catch (Gyoto::Error &) { return; } double w=o->get(p); gv_eq(w,v,nm); break; }
    case Property::bool_t: { gv_lbl k; bool v=gv_bool(cat(k,"",p.name)); try { o->set(p,Value(v)); } catch (Gyoto::Error &) { return; } bool w=o->get(p); gv_eqi(w,v,nm); break; }
    case Property::long_t: { gv_lbl k; long v=gv_int(cat(k,"",p.name),0,1000); try { o->set(p,Value(v)); } catch (Gyoto::Error &) { return; } long w=o->get(p); gv_eqi(w,v,nm); break; }
    case Property::unsigned_long_t: { gv_lbl k; unsigned long v=gv_int(cat(k,"",p.name),0,1000); try { o->set(p,Value(v)); } catch (Gyoto::Error &) { return; } unsigned long w=o->get(p); gv_eqi(w,v,nm); break; }
    case Property::size_t_t: { try { o->set(p,Value((size_t)7)); } catch (Gyoto::Error &) { return; } size_t w=o->get(p); gv_eqi(w,7,nm); break; }
    case Property::vector_double_t: { std::vector<double> v=o->get(p); if (v.empty()||v.size()>40) return; gv_lbl k,k2; const char *n0=cat(k2,"",p.name); for (size_t i=0;i<v.size();++i) v[i]=gv_real(gv_ij(k,n0,i),0.1,2.);
      try { o->set(p,Value(v)); } catch (Gyoto::Error &) { return; } std::vector<double> w=o->get(p); gv_eqi(w.size(),v.size(),nm); if (w.size()==v.size()) for (size_t i=0;i<v.size();++i) gv_eq(w[i],v[i],gv_ij(k,nm,i)); break; }
    default: break;
    } });
}
/* the same with a unit, wherever the accessor accepts it */
template<class T> static void readunit(T *o, const char *const *skip=0) {
  fill(o,skip); const char *units[]={"km","kpc","min","degree","cm-3","sunmass","eV","erg/cm3"};
  eachprop(o,[&](Property const &p){ if (skipped(p.name,skip)||(p.type!=Property::double_t&&p.type!=Property::vector_double_t)) return;
    for (auto u : units) { gv_lbl k,l,l2; const char *nm=cat(l,"",p.name), *lb=cat(l2,"unit.",p.name+" "+u); std::string us(u);
      if (p.type==Property::double_t) { double v=gv_real(nm,0.1,2.); gv_assume(v!=0.); double w; try { o->set(p,Value(v),us); w=o->get(p,us); } catch (Gyoto::Error &) { continue; } gv_eq(w,v,lb); }
      else { std::vector<double> v=o->get(p),w; if (v.empty()||v.size()>40) return; for (size_t i=0;i<v.size();++i) { v[i]=gv_real(gv_ij(k,nm,i),0.1,2.); gv_assume(v[i]>0.); if (i) gv_assume(v[i]>v[i-1]); }
        try { o->set(p,Value(v),us); std::vector<double> t=o->get(p,us); w=t; } catch (Gyoto::Error &) { continue; } gv_eqi(w.size(),v.size(),lb); if (w.size()==v.size()) for (size_t i=0;i<v.size();++i) gv_eq(w[i],v[i],gv_ij(k,lb,i)); } } });
}
#endif
