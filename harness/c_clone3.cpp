#include "clone.h"
#include "GyotoBlackBodySpectrum.h"
#include "GyotoThermalSynchrotronSpectrum.h"
#include "GyotoPowerLawSynchrotronSpectrum.h"
#include "GyotoKappaDistributionSynchrotronSpectrum.h"
#include "GyotoThermalBremsstrahlungSpectrum.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoComplexAstrobj.h"
#include "GyotoComplexMetric.h"
#include "GyotoShift.h"
#include "GyotoPhoton.h"
#include "GyotoKerrKS.h"
#include "GyotoMinkowski.h"
#include "GyotoFixedStar.h"
static const char *const cutoff[]={"CutOff",0}; /* kept in increasing order */
MS(PowerLaw,Spectrum::PowerLaw,nothing,cutoff) M(BlackBody,Spectrum::BlackBody,"BlackBodySpectrum.C") MC(ThermalSynch,Spectrum::ThermalSynchrotron,"ThermalSynchrotronSpectrum.C") MC(PLSynch,Spectrum::PowerLawSynchrotron,"PowerLawSynchrotronSpectrum.C")
MC(KappaSynch,Spectrum::KappaDistributionSynchrotron,"KappaDistributionSynchrotronSpectrum.C") MC(Brems,Spectrum::ThermalBremsstrahlung,"ThermalBremsstrahlungSpectrum.C")
M(Screen,Screen,"Spectrometer.C","UniformSpectrometer.C","Screen.C")
M(Shift,Metric::Shift,"Shift.C")
static SmartPointer<Metric::Generic> kerr() { SmartPointer<Metric::KerrBL> m=new Metric::KerrBL(); m->spin(gv_real("a",0.1,0.9)); m->mass(gv_real("m",1.,2.)); return SmartPointer<Metric::Generic>(raw(m)); }
static SmartPointer<Astrobj::Generic> star(const char *n) { SmartPointer<Astrobj::FixedStar> f=new Astrobj::FixedStar(); f->radius(gv_real(n,1.,2.)); return SmartPointer<Astrobj::Generic>(raw(f)); }
#define AI "BlackBodySpectrum.C","Astrobj.C","StandardAstrobj.C","UniformSphere.C","FixedStar.C","Spectrometer.C","UniformSpectrometer.C"
GV_HARNESS(H_copy_shift_mass) { inits("Shift.C"); gv_no_throw();
  Metric::Shift *s=new Metric::Shift(); s->subMetric(kerr()); Metric::Generic *c=s->clone(), *sg=s;
  double m=gv_real("new mass",1.,2.), m0=sg->mass(); gv_eq(c->mass(),m0,"clone.mass"); SmartPointer<Metric::Generic> g=((Metric::Shift*)c)->subMetric(); raw(g)->mass(m);
  gv_eq(c->mass(),m,"clone.follows its own sub-metric"); gv_eq(sg->mass(),m0,"independent.mass"); }
GV_HARNESS(H_copy_photon) { inits(AI,"Photon.C"); gv_no_throw();
  Photon *p=new Photon(); p->metric(kerr()); p->astrobj(star("r0")); p->spectrometer(new Spectrometer::Uniform(3,1.,4.,Spectrometer::Uniform::FreqKind)); p->freqObs(gv_real("nu",1.,2.));
  p->resetTransmission(); p->resetTransmissionMatrix();
  double t[4]; gv_lbl l; Eigen::Matrix4d mm[4];
  for (int i=0;i<4;++i) { t[i]=gv_real(gv_ij(l,"t",i),0.1,0.9); size_t ch= i<3? size_t(i) : size_t(-1); p->transmit(ch,t[i]);
    for (int j=0;j<4;++j) for (int k=0;k<4;++k) mm[i](j,k)=gv_real(gv_ij(l,"M",i,j,k),0.1,0.9); p->transmit(ch,mm[i]); }
  Photon *c=p->clone();
  gv_true(raw(c->metric())!=raw(p->metric()),"clone.own metric"); gv_true(raw(c->astrobj())!=raw(p->astrobj()),"clone.own object"); gv_true(raw(c->spectrometer())!=raw(p->spectrometer()),"clone.own spectrometer");
  gv_eqp(raw(c->astrobj()->metric()),raw(c->metric()),"clone.object uses the metric of the photon");
  gv_eq(c->freqObs(),p->freqObs(),"clone.freqObs");
  for (int i=0;i<4;++i) { size_t ch= i<3? size_t(i) : size_t(-1); gv_eq(c->getTransmission(ch),t[i],gv_ij(l,"clone.transmission",i));
    Eigen::Matrix4d x=c->getTransmissionMatrix(ch); for (int j=0;j<4;++j) for (int k=0;k<4;++k) gv_eq(x(j,k),mm[i](j,k),gv_ij(l,"clone.transmissionMatrix",i,j,k)); }
  c->resetTransmission(); c->resetTransmissionMatrix();
  for (int i=0;i<4;++i) { size_t ch= i<3? size_t(i) : size_t(-1); gv_eq(p->getTransmission(ch),t[i],gv_ij(l,"independent.transmission",i));
    Eigen::Matrix4d x=p->getTransmissionMatrix(ch); for (int j=0;j<4;++j) for (int k=0;k<4;++k) gv_eq(x(j,k),mm[i](j,k),gv_ij(l,"independent.transmissionMatrix",i,j,k)); }
}
static const char *const tr[]={"Metric",0};
GV_HARNESS(H_copy_photon_par) { inits(AI,"Photon.C"); Photon *p=new Photon(); p->metric(kerr()); cloned(p,tr); }
GV_HARNESS(H_copy_complexastrobj) { inits(AI); gv_no_throw();
  Astrobj::Complex *o=new Astrobj::Complex(); o->metric(kerr()); o->append(star("r0")); o->append(star("r1"));
  Astrobj::Complex *c=o->clone(); gv_eqi(c->getCardinal(),2,"clone.cardinal"); gv_true(raw(c->metric())!=raw(o->metric()),"clone.own metric");
  for (int i=0;i<2;++i) { gv_lbl l; gv_true(raw((*c)[i])!=raw((*o)[i]),"clone.own element"); gv_eqp(raw((*c)[i]->metric()),raw(c->metric()),"clone.element metric"); sameall(raw((*o)[i]),raw((*c)[i]),gv_ij(l,"clone.element.",i)); }
  for (int i=0;i<2;++i) changeall(raw((*c)[i]),0);
  gv_eq(((Astrobj::FixedStar*)raw((*o)[0]))->radius(),gv_real("r0",1.,2.),"independent.radius0"); gv_eq(((Astrobj::FixedStar*)raw((*o)[1]))->radius(),gv_real("r1",1.,2.),"independent.radius1");
}
GV_HARNESS(H_copy_complexspectro) { inits(AI); gv_no_throw();
  double a=gv_real("a",1.,2.), b=gv_real("b",3.,4.);
  Spectrometer::Complex *o=new Spectrometer::Complex(); o->append(new Spectrometer::Uniform(2,a,b,Spectrometer::Uniform::FreqKind)); o->append(new Spectrometer::Uniform(1,b,a,Spectrometer::Uniform::FreqKind));
  Spectrometer::Complex *c=o->clone(); gv_eqi(c->getCardinal(),2,"clone.cardinal"); gv_eqi(c->nSamples(),3,"clone.nsamples"); gv_eqi(c->getNBoundaries(),5,"clone.nboundaries"); gv_lbl l;
  for (int i=0;i<3;++i) { gv_eq(c->getMidpoints()[i],o->getMidpoints()[i],gv_ij(l,"clone.midpoint",i)); gv_eq(c->getWidths()[i],o->getWidths()[i],gv_ij(l,"clone.width",i)); gv_eqi(c->getChannelIndices()[2*i],o->getChannelIndices()[2*i],gv_ij(l,"clone.index",i)); }
  for (int i=0;i<2;++i) gv_true(raw((*c)[i])!=raw((*o)[i]),"clone.own element");
  ((Spectrometer::Uniform*)raw((*c)[0]))->nSamples(4);
  gv_eqi(c->nSamples(),5,"clone.follows its elements"); gv_eqi(o->nSamples(),3,"independent.nsamples");
  delete c; ((Spectrometer::Uniform*)raw((*o)[0]))->nSamples(5); gv_eqi(o->nSamples(),6,"original still follows its elements");
}
GV_HARNESS(H_copy_uniformspectro) { inits(AI); gv_no_throw();
  double a=gv_real("a",1.,2.), b=gv_real("b",3.,4.);
  Spectrometer::Uniform *o=new Spectrometer::Uniform(3,a,b,Spectrometer::Uniform::FreqKind); Spectrometer::Generic *c=o->clone(); gv_lbl l;
  gv_true(c->kind()==o->kind(),"clone.kind"); gv_eqi(c->nSamples(),3,"clone.nsamples"); gv_eqi(c->getNBoundaries(),4,"clone.nb");
  for (int i=0;i<3;++i) { gv_eq(c->getMidpoints()[i],o->getMidpoints()[i],gv_ij(l,"clone.midpoint",i)); gv_eq(c->getWidths()[i],o->getWidths()[i],gv_ij(l,"clone.width",i)); }
  double m1=o->getMidpoints()[1]; ((Spectrometer::Uniform*)c)->nSamples(2); gv_eqi(o->nSamples(),3,"independent.nsamples"); gv_eq(o->getMidpoints()[1],m1,"independent.midpoint");
}
GV_HARNESS(H_copy_complexmetric) { inits("KerrKS.C","ComplexMetric.C"); gv_no_throw(); gv_lbl l;
  auto el=[](const char *n){ SmartPointer<Metric::KerrKS> m=new Metric::KerrKS(); m->spin(gv_real(n,0.1,0.9)); return SmartPointer<Metric::Generic>(raw(m)); };
  Metric::Complex *o=new Metric::Complex(); o->append(el("a0")); o->append(el("a1")); Metric::Generic *og=o; og->mass(gv_real("m",1,2));
  Metric::Complex *c=(Metric::Complex*)o->clone(); Metric::Generic *cg=c;
  gv_eqi(c->getCardinal(),2,"clone.cardinal"); gv_eqi(cg->coordKind(),og->coordKind(),"clone.coordKind"); gv_eq(cg->mass(),og->mass(),"clone.mass");
  for (int i=0;i<2;++i) { gv_true(raw((*c)[i])!=raw((*o)[i]),"clone.own element"); sameall(raw((*o)[i]),raw((*c)[i]),gv_ij(l,"clone.element",i)); }
  for (int i=0;i<2;++i) changeall(raw((*c)[i]),0);
  gv_eq(((Metric::KerrKS*)raw((*o)[0]))->spin(),gv_real("a0",0.1,0.9),"independent.spin0"); gv_eq(((Metric::KerrKS*)raw((*o)[1]))->spin(),gv_real("a1",0.1,0.9),"independent.spin1");
  delete c; gv_eq(((Metric::KerrKS*)raw((*o)[1]))->spin(),gv_real("a1",0.1,0.9),"independent.after the clone is gone");
}
