/* radiative transfer: what one hit adds to the requested quantities, the photon's transmission, the defaults of the emission hooks */
#include "anymetric.h"
#include "GyotoAstrobj.h"
#include "GyotoPhoton.h"
#include "GyotoSpectrometer.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoError.h"
#include "GyotoConverters.h"
#include "GyotoDefs.h"
#include <cfloat>
using namespace Gyoto; using namespace Eigen;
static double F(const char *n, double nu, double ds) { double a[2]={nu,ds}; return gv_uf(n,2,a); }
static double F(const char *n, int i, int j, double nu, double ds) { gv_lbl l; return F(gv_ij(l,n,i,j),nu,ds); }
struct Thing : public Astrobj::Generic { Thing() : Astrobj::Generic("thing") {} Thing *clone() const { return new Thing(*this); } int Impact(Photon*,size_t,Astrobj::Properties*) { return 0; } Property const *getProperties() const { return 0; } };
/* what a class may provide (bits): 1 emission, 2 emission of an array, 4 transmission, 8 radiativeQ, 16 polarized radiativeQ */
struct Full : public Thing { using Astrobj::Generic::emission; using Astrobj::Generic::radiativeQ; using Astrobj::Generic::integrateEmission;
  double emission(double nu, double ds, state_t const &, double const *) const { return F("em",nu,ds); }
  double transmission(double nu, double ds, state_t const &, double const *) const { return F("tr",nu,ds); }
  void radiativeQ(double *I, double *T, double const *nu, size_t n, double ds, state_t const &, double const *) const { for (size_t i=0;i<n;++i) { I[i]=F("RI",nu[i],ds); T[i]=F("RT",nu[i],ds); } }
  void radiativeQ(double *I, double *Q, double *U, double *V, Matrix4d *O, double const *nu, size_t n, double ds, state_t const &, double const *) const { for (size_t i=0;i<n;++i) { I[i]=F("PI",nu[i],ds); Q[i]=F("PQ",nu[i],ds); U[i]=F("PU",nu[i],ds); V[i]=F("PV",nu[i],ds); for (int a=0;a<4;++a) for (int b=0;b<4;++b) O[i](a,b)=F("PO",a,b,nu[i],ds); } }
  double integrateEmission(double n1, double n2, double ds, state_t const &, double const *) const { double a[3]={n1,n2,ds}; return gv_uf("int",3,a); } };
static Spectrometer::Uniform *spectro(int n) { double a=gv_real("nu0",1.,2.), b=gv_real("nu1",3.,4.); gv_assume(a>0); gv_assume(b>a); return new Spectrometer::Uniform(size_t(n),a,b,Spectrometer::Uniform::FreqKind); }
static Photon *photon(Spectrometer::Generic *s, bool pol) { Photon *p=new Photon(); p->spectro_=s; p->parallel_transport_=pol; p->freqObs(gv_real("freqobs",0.5,2.)); p->_allocateTransmission(); p->_allocateTransmissionMatrix(); gv_lbl l;
  for (size_t i=0;i<s->nSamples();++i) { p->transmission_[i]=gv_real(gv_ij(l,"T",int(i)),0.,1.); if (pol) for (int a=0;a<4;++a) for (int b=0;b<4;++b) p->transmissionMatrix_[i](a,b)=gv_real(gv_ij(l,"M",int(i),a,b),-1.,1.); } p->transmission_freqobs_=gv_real("Tobs",0.,1.); return p; }
struct Hit { AnyMetric *m; Full *o; Photon *p; int n; state_t ph; double ob[8], dt, g, ds, nu[3]; int off;
  Hit(bool pol, int n_) : n(n_), ph(pol?16:8) { m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); o=new Full(); o->metric(m); p=photon(spectro(n),pol); gv_lbl l; for (size_t i=0;i<ph.size();++i) ph[i]=gv_real(gv_ij(l,"p",int(i)),0.5,2.); for (int i=0;i<8;++i) ob[i]=gv_real(gv_ij(l,"o",i),0.5,2.);
    dt=gv_real("dt",0.1,1.); gv_assume(ph[4]!=0); bool red=gv_choose("redshift",2); o->redshift(red); g=-m->dot(ob+4,&ph[4]); gv_assume(g>0); if (!red) g=1.; ds=dt/ph[4]*g; off=1+int(gv_choose("offset",2))*2; for (int i=0;i<n;++i) nu[i]=p->spectro_->getMidpoints()[i]*g; } };
struct Buf { double v[8], w[8]; Buf(const char *nm) { gv_lbl l; for (int i=0;i<8;++i) w[i]=v[i]=gv_real(gv_ij(l,nm,i),0.,1.); } void same(int n, int off, const char *l) { for (int i=0;i<8;++i) if (i%off || i/off>=n) gv_eq(v[i],w[i],l); } };
/* ---- scalar quantities */
GV_HARNESS(H_hit_scalar) { gv_no_throw(); Hit h(false,1); Astrobj::Properties d; double I,I0=I=gv_real("I",0.,1.), t=7, z=7, ic[16]; int q=int(gv_choose("quantities",16)), im=int(gv_choose("impact known",2)); double T0=h.p->transmission_freqobs_; gv_lbl l;
  if (q&1) d.intensity=&I; if (q&2) d.time=&t; if (q&4) d.redshift=&z; if (q&8) { for (int i=0;i<16;++i) ic[i]= im? 3.:DBL_MAX; d.impactcoords=ic; }
  double sc=1.; int cv=int(gv_choose("converted",2)); if (cv && (q&1)) { Units::Init(); d.intensityConverter(std::string("erg.cm-2.s-1.sr-1.Hz-1")); sc=1000.; }
  h.o->processHitQuantities(h.p,h.ph,h.ob,h.dt,&d); double fo=h.p->freqObs()*h.g;
  if (q&1) gv_eq(I,I0+sc*F("em",fo,h.ds)*T0/(h.g*h.g*h.g),"intensity grows by emission x transmission x (nu_obs/nu_em)^3"); else gv_eq(I,I0,"intensity left alone");
  if (q&2) gv_eq(t,h.ph[0],"emission time"); if (q&4) gv_eq(z,1/h.g,"redshift is nu_obs/nu_em");
  if (q&8) for (int i=0;i<16;++i) if (im) gv_eq(ic[i],3.,"first impact is kept"); else gv_eq(ic[i],i<8?h.ob[i]:h.ph[i-8],gv_ij(l,"impact coordinates",i));
  gv_eq(h.p->transmission_freqobs_, q? T0*F("tr",fo,h.ds):T0,"transmission is multiplied once"); gv_eq(h.p->transmission_[0],gv_real("T.0",0.,1.),"channels untouched"); }
GV_HARNESS(H_hit_none) { gv_no_throw(); Hit h(false,1); h.o->processHitQuantities(h.p,h.ph,h.ob,h.dt,NULL); gv_eq(h.p->transmission_freqobs_,gv_real("Tobs",0.,1.),"nothing requested, nothing changes"); gv_eq(h.p->transmission_[0],gv_real("T.0",0.,1.),"nothing requested, nothing changes in channels"); }
GV_HARNESS(H_hit_spectrum) { gv_no_throw(); Hit h(false,1+int(gv_choose("n",3))); Astrobj::Properties d; d.offset=h.off; Buf s("s"), b("b"); int q=1+int(gv_choose("quantities",3)); if (q&1) d.spectrum=s.v; if (q&2) d.binspectrum=b.v; gv_lbl l; double g3=h.g*h.g*h.g;
  double sc=1., sb=1.; if (gv_choose("converted",2)) { Units::Init(); d.spectrumConverter(std::string("erg.cm-2.s-1.sr-1.Hz-1")); d.binSpectrumConverter(std::string("erg.cm-2.s-1.sr-1")); sc=sb=1000.; }
  h.o->processHitQuantities(h.p,h.ph,h.ob,h.dt,&d); double const *B=h.p->spectro_->getChannelBoundaries();
  for (int i=0;i<h.n;++i) { double T=gv_real(gv_ij(l,"T",i),0.,1.), a[3]={B[i]*h.g,B[i+1]*h.g,h.ds};
    if (q&1) gv_eq(s.v[i*h.off],s.w[i*h.off]+sc*F("RI",h.nu[i],h.ds)*T/g3,gv_ij(l,"spectrum grows by emission x transmission x (nu_obs/nu_em)^3",i));
    if (q&2) gv_eq(b.v[i*h.off],b.w[i*h.off]+sb*gv_uf("int",3,a)*T/(g3*h.g),gv_ij(l,"binned spectrum grows by integrated emission x transmission x (nu_obs/nu_em)^4",i));
    gv_eq(h.p->transmission_[i],T*((q&1)?F("RT",h.nu[i],h.ds):F("tr",h.nu[i],h.ds)),gv_ij(l,"channel transmission is multiplied once",i)); }
  s.same(q&1?h.n:0,h.off,"spectrum outside its channels is left alone"); b.same(q&2?h.n:0,h.off,"binned spectrum outside its channels is left alone"); }
GV_HARNESS(H_hit_stokes) { gv_no_throw(); Hit h(true,1+int(gv_choose("n",2))); Astrobj::Properties d; d.offset=h.off; Buf s("s"), q("q"), u("u"), v("v"); int k=1+int(gv_choose("quantities",15)); Buf *B[4]={&s,&q,&u,&v}; if (k&1) d.spectrum=s.v; if (k&2) d.stokesQ=q.v; if (k&4) d.stokesU=u.v; if (k&8) d.stokesV=v.v; gv_lbl l; double g3=h.g*h.g*h.g; const char *pn[4]={"PI","PQ","PU","PV"};
  h.o->processHitQuantities(h.p,h.ph,h.ob,h.dt,&d);
  for (int i=0;i<h.n;++i) { double M[4][4]; for (int a=0;a<4;++a) for (int b=0;b<4;++b) M[a][b]=gv_real(gv_ij(l,"M",i,a,b),-1.,1.);
    for (int a=0;a<4;++a) { double S=0; for (int b=0;b<4;++b) S+=M[a][b]*F(pn[b],h.nu[i],h.ds); if (k>>a&1) gv_eq(B[a]->v[i*h.off],B[a]->w[i*h.off]+S/g3,gv_ij(l,"Stokes parameter grows by transmission matrix x emission x (nu_obs/nu_em)^3",a,i));
      for (int b=0;b<4;++b) { double O=0; for (int c=0;c<4;++c) O+=M[a][c]*F("PO",c,b,h.nu[i],h.ds); gv_eq(h.p->transmissionMatrix_[i](a,b),O,gv_ij(l,"transmission matrix is multiplied on the far side",i,a,b)); } } }
  for (int a=0;a<4;++a) B[a]->same(k>>a&1?h.n:0,h.off,"Stokes arrays outside their channels are left alone"); }
GV_HARNESS(H_hit_stokes_unpolarized) { gv_no_throw(); Hit h(false,2); Astrobj::Properties d; d.offset=h.off; Buf s("s"), q("q"); int k=1+int(gv_choose("quantities",3)); if (k&1) d.spectrum=s.v; if (k&2) d.stokesQ=q.v; gv_lbl l; h.o->processHitQuantities(h.p,h.ph,h.ob,h.dt,&d);
  for (int i=0;i<h.n;++i) { double T=gv_real(gv_ij(l,"T",i),0.,1.); if (k&1) gv_eq(s.v[i*h.off],s.w[i*h.off]+F("RI",h.nu[i],h.ds)*T/(h.g*h.g*h.g),gv_ij(l,"spectrum",i)); if (k&2) gv_eq(q.v[i*h.off],q.w[i*h.off],gv_ij(l,"no polarization is added",i)); gv_eq(h.p->transmission_[i],T*F("RT",h.nu[i],h.ds),gv_ij(l,"channel transmission",i)); } }
/* ---- photon transmission */
GV_HARNESS(H_photon_transmission) { gv_no_throw(); int n=1+int(gv_choose("n",3)); Photon *p=photon(spectro(n),false); gv_lbl l; double mx=0; for (int i=0;i<n;++i) { double T=gv_real(gv_ij(l,"T",i),0.,1.); gv_eq(p->getTransmission(size_t(i)),T,gv_ij(l,"channel",i)); if (T>mx) mx=T; }
  gv_eq(p->getTransmission(size_t(-1)),gv_real("Tobs",0.,1.),"observed frequency"); gv_eq(p->getTransmissionMax(),mx,"maximum over channels"); int k=int(gv_choose("k",n)); double t=gv_real("t",0.,1.); p->transmit(size_t(k),t); p->transmit(size_t(-1),2*t);
  for (int i=0;i<n;++i) gv_eq(p->transmission_[i],gv_real(gv_ij(l,"T",i),0.,1.)*(i==k?t:1.),gv_ij(l,"only that channel changes",i)); gv_eq(p->transmission_freqobs_,gv_real("Tobs",0.,1.)*2*t,"observed frequency changes");
  p->resetTransmission(); for (int i=0;i<n;++i) gv_eq(p->getTransmission()[i],1.,"reset"); gv_eq(p->transmission_freqobs_,1.,"reset"); }
GV_HARNESS(H_photon_matrix) { gv_no_throw(); int n=1+int(gv_choose("n",2)); Photon *p=photon(spectro(n),true); gv_lbl l; double mx=0; for (int i=0;i<n;++i) { double T=gv_real(gv_ij(l,"M",i,0,0),-1.,1.); if (T>mx) mx=T; } gv_eq(p->getTransmissionMax(),mx,"maximum over channels");
  p->resetTransmissionMatrix(); for (int i=0;i<n;++i) for (int a=0;a<4;++a) for (int b=0;b<4;++b) { gv_eq(p->getTransmissionMatrix(size_t(i))(a,b),a==b,gv_ij(l,"reset",a,b)); gv_eq(p->getTransmissionMatrix(size_t(-1))(a,b),a==b,gv_ij(l,"reset, observed frequency",a,b)); } }
GV_HARNESS(H_photon_range) { int n=1+int(gv_choose("n",3)); Photon *p=photon(spectro(n),true); size_t k=size_t(n)+size_t(gv_int("past",0,1000)); Matrix4d M=Matrix4d::Identity(); gv_expect_throw("a channel past the end is an error"); switch (gv_choose("op",4)) { case 0: p->getTransmission(k); break; case 1: p->transmit(k,0.5); break; case 2: p->getTransmissionMatrix(k); break; default: p->transmit(k,M); } }
GV_HARNESS(H_photon_refined) { gv_no_throw(); int n=1+int(gv_choose("n",2)); Photon *p=photon(spectro(n),false); p->metric(new AnyMetric(GYOTO_COORDKIND_CARTESIAN)); p->imin_=3; p->i0_=3; p->imax_=4; gv_lbl l; for (int i=3;i<5;++i) { p->tau_[i]=0; p->x0_[i]=i; p->x1_[i]=p->x2_[i]=p->x3_[i]=1; p->x0dot_[i]=p->x1dot_[i]=p->x2dot_[i]=p->x3dot_[i]=1; }
  double t=gv_real("t",0.,1.); p->transmission_freqobs_=gv_real("Tobs",0.,1.); { Photon::Refined r(p,3,1,10.); int k=int(gv_choose("k",n)); r.transmit(size_t(k),t); r.transmit(size_t(-1),2*t); for (int i=0;i<n;++i) { double w=gv_real(gv_ij(l,"T",i),0.,1.)*(i==k?t:1.); gv_eq(p->transmission_[i],w,gv_ij(l,"the refined photon absorbs for its parent",i)); gv_eq(r.getTransmission(size_t(i)),w,gv_ij(l,"and for itself",i)); } gv_eq(p->transmission_freqobs_,gv_real("Tobs",0.,1.)*2*t,"parent"); gv_eq(r.getTransmission(size_t(-1)),gv_real("Tobs",0.,1.)*2*t,"refined"); } }
/* ---- the defaults call one another and never forget what the class provides, whatever was asked before */
template<int S> struct Part : public Thing { using Astrobj::Generic::emission; using Astrobj::Generic::radiativeQ; };
struct Pick : public Full { int S; Pick(int s) : S(s) {}
  double emission(double nu, double ds, state_t const &c, double const *o) const { return S&1? F("em",nu,ds):Astrobj::Generic::emission(nu,ds,c,o); }
  void emission(double *I, double const *nu, size_t n, double ds, state_t const &c, double const *o) const { if (S&2) for (size_t i=0;i<n;++i) I[i]=F("ev",nu[i],ds); else Astrobj::Generic::emission(I,nu,n,ds,c,o); }
  double transmission(double nu, double ds, state_t const &c, double const *o) const { return S&4? F("tr",nu,ds):Astrobj::Generic::transmission(nu,ds,c,o); }
  void radiativeQ(double *I, double *T, double const *nu, size_t n, double ds, state_t const &c, double const *o) const { if (S&8) Full::radiativeQ(I,T,nu,n,ds,c,o); else Astrobj::Generic::radiativeQ(I,T,nu,n,ds,c,o); }
  void radiativeQ(double *I, double *Q, double *U, double *V, Matrix4d *O, double const *nu, size_t n, double ds, state_t const &c, double const *o) const { if (S&16) Full::radiativeQ(I,Q,U,V,O,nu,n,ds,c,o); else Astrobj::Generic::radiativeQ(I,Q,U,V,O,nu,n,ds,c,o); } };
GV_HARNESS(H_defaults) { gv_no_throw(); int S=int(gv_choose("provided",32)); bool thin=gv_choose("thin",2); Pick *o=new Pick(S); AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); o->metric(m); o->opticallyThin(thin); gv_lbl l; state_t c(16); double ob[8]; for (int i=0;i<16;++i) c[i]=1; for (int i=0;i<8;++i) ob[i]=1;
  double nu[2], ds=gv_real("ds",0.1,1.), I[2],T[2],Q[2],U[2],V[2]; gv_assume(ds>0); Matrix4d O[2]; for (int i=0;i<2;++i) nu[i]=gv_real(gv_ij(l,"nu",i),1.,2.);
  for (int ask=0;ask<2;++ask) { int what=int(gv_choose(ask?"then":"first",5)); if (what==0) I[0]=o->emission(nu[0],ds,c,ob); else if (what==1) o->emission(I,nu,2,ds,c,ob); else if (what==2) T[0]=o->transmission(nu[0],ds,c,ob); else if (what==3) o->radiativeQ(I,T,nu,2,ds,c,ob); else o->radiativeQ(I,Q,U,V,O,nu,2,ds,c,ob);
    for (int i=0;i<((what==0||what==2)?1:2);++i) { double n=nu[i], fall=thin? ds:1., E,X;
      switch (what) { case 0: E= S&1? F("em",n,ds): S&2? F("ev",n,ds): S&8? F("RI",n,ds): S&16? F("PI",n,ds):fall; break; case 1: E= S&2? F("ev",n,ds): S&8? F("RI",n,ds): S&16? F("PI",n,ds): S&1? F("em",n,ds):fall; break;
        case 3: E= S&8? F("RI",n,ds): S&16? F("PI",n,ds): S&2? F("ev",n,ds): S&1? F("em",n,ds):fall; break; default: E= S&16? F("PI",n,ds): S&8? F("RI",n,ds): S&2? F("ev",n,ds): S&1? F("em",n,ds):fall; }
      X= what==2? (S&4? F("tr",n,ds): S&8? F("RT",n,ds): S&16? F("PO",0,0,n,ds): double(thin)) : (S&8? F("RT",n,ds): S&16? F("PO",0,0,n,ds): S&4? F("tr",n,ds): double(thin));
      if (what!=2) gv_eq(I[i],E,gv_ij(l,"emitted intensity is what the class provides",what,i)); if (what==2||what==3) gv_eq(T[i],X,gv_ij(l,"transmission is what the class provides",what,i));
      if (what==4 && !(S&16)) { gv_eq(Q[i],0,"unpolarized Q"); gv_eq(U[i],0,"unpolarized U"); gv_eq(V[i],0,"unpolarized V"); for (int a=0;a<4;++a) for (int b=0;b<4;++b) gv_eq(O[i](a,b),a==b?X:0.,gv_ij(l,"transmission matrix of an unpolarized medium is its transmission",a,b)); } } } }
/* ---- emission integrated over a channel: trapezoid sums on successively halved intervals */
struct Lum : public Thing { mutable int calls; int lim; Lum(int m) : calls(0), lim(m) {} using Astrobj::Generic::emission; double emission(double nu, double ds, state_t const &, double const *) const { if (++calls>lim) gv_assume(0); return F("em",nu,ds); } };
GV_HARNESS(H_integrate) { gv_no_throw(); Lum *o=new Lum(9); state_t c(8); double ob[8], a=gv_real("a",1.,2.), b=gv_real("b",3.,4.), ds=gv_real("ds",0.1,1.); gv_assume(a<b); bool sw=gv_choose("swapped",2); double I=sw? o->integrateEmission(b,a,ds,c,ob): o->integrateEmission(a,b,ds,c,ob); int n=o->calls-1; double h=(b-a)/n, s=(F("em",a,ds)+F("em",b,ds))/2; for (int i=1;i<n;++i) s+=F("em",a+i*h,ds); gv_eq(I,s*h,"trapezoid sum over the channel"); gv_true(n>=2,"refined at least once"); }
GV_HARNESS(H_integrate_channels) { gv_no_throw(); Full *o=new Full(); state_t c(8); double ob[8], B[4], I[3], ds=gv_real("ds",0.1,1.); gv_lbl l; for (int i=0;i<4;++i) B[i]=gv_real(gv_ij(l,"b",i),1.,2.); size_t ci[6]={0,1,1,2,3,2}; o->integrateEmission(I,B,ci,3,ds,c,ob); for (int i=0;i<3;++i) { double a[3]={B[ci[2*i]],B[ci[2*i+1]],ds}; gv_eq(I[i],gv_uf("int",3,a),gv_ij(l,"each channel between its own boundaries",i)); } }
