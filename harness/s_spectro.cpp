/* spectrometers: channels tile the band they were given */
#include "gv.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoConverters.h"
#include "GyotoError.h"
#include "GyotoDefs.h"
using namespace Gyoto; using namespace Gyoto::Spectrometer;
static const char *kn[]={"freq","freqlog","wave","wavelog"};
static char const *kid(int k) { return k==0?Uniform::FreqKind:k==1?Uniform::FreqLogKind:k==2?Uniform::WaveKind:Uniform::WaveLogKind; }
static double nu(int k, double y) { double v= (k&1)? pow(10.,y) : y; return k>=2? GYOTO_C/v : v; }
static Uniform *make(int k, int n, double a, double b, int how) { Uniform *u;
  if (how==0) u=new Uniform(n,a,b,kid(k));
  else { u=new Uniform(); double bd[2]={a,b}; if (how==1) { u->kind(std::string(kn[k])); u->nSamples(n); u->band(bd); } else { u->band(bd); u->nSamples(n); u->kindid(kid(k)); } } return u; }
static int sizes(int i) { static const int t[]={1,2,3,5}; return t[i]; }
GV_HARNESS(H_uniform) { gv_no_throw(); int k=int(gv_choose("kind",4)), n=sizes(int(gv_choose("n",4))); double a=gv_real("a",1.,2.), b=gv_real("b",3.,4.); if (k==2) { gv_assume(a>0); gv_assume(b>a); }
  Uniform *u=make(k,n,a,b,int(gv_choose("how",3))); gv_lbl l; gv_eqi(u->nSamples(),n,"nSamples"); gv_eqi(u->getNBoundaries(),n+1,"nBoundaries"); gv_true(u->kind()==kn[k],"kind");
  double const *B=u->getChannelBoundaries(), *M=u->getMidpoints(), *W=u->getWidths(); size_t const *I=u->getChannelIndices();
  for (int i=0;i<=n;++i) gv_eq(B[i],nu(k,a+(b-a)*i/n),gv_ij(l,"boundary",i));
  for (int i=0;i<n;++i) { gv_eqi(I[2*i],i,gv_ij(l,"lower boundary of channel",i)); gv_eqi(I[2*i+1],i+1,gv_ij(l,"upper boundary of channel",i)); gv_eq(M[i],0.5*(B[i]+B[i+1]),gv_ij(l,"midpoint",i)); gv_eq(W[i],std::fabs(B[i+1]-B[i]),gv_ij(l,"width",i)); }
  std::vector<double> v=u->midpoints(), w=u->widths(), c=u->channelBoundaries(); gv_eqi(v.size(),n,"midpoints"); gv_eqi(w.size(),n,"widths"); gv_eqi(c.size(),n+1,"boundaries"); for (int i=0;i<n;++i) { gv_eq(v[i],M[i],gv_ij(l,"midpoints()",i)); gv_eq(w[i],W[i],gv_ij(l,"widths()",i)); gv_eq(c[i],B[i],gv_ij(l,"channelBoundaries()",i)); }
  std::vector<double> bd=u->band(); gv_eq(bd[0],a,"band low"); gv_eq(bd[1],b,"band high"); }
GV_HARNESS(H_uniform_unit) { gv_no_throw(); Units::Init(); int k=int(gv_choose("kind",4)); const char *fu[]={"eV","GHz","mm"}, *wu[]={"mm","nm","eV"}; std::string un((k>=2?wu:fu)[gv_choose("unit",3)]);
  Uniform *u=new Uniform(); u->kind(std::string(kn[k])); u->nSamples(2); std::vector<double> v(2), w; v[0]=gv_real("a",1.,2.); v[1]=gv_real("b",3.,4.); if (!(k&1)) { gv_assume(v[0]>0); gv_assume(v[1]>v[0]); } u->band(v,un); w=u->band(un); gv_eq(w[0],v[0],"band in unit, low"); gv_eq(w[1],v[1],"band in unit, high");
  double lo= (k&1)?pow(10.,v[0]):v[0], hi=(k&1)?pow(10.,v[1]):v[1]; gv_eq(u->getChannelBoundaries()[0],Units::ToHerz(lo,un),"first boundary"); gv_eq(u->getChannelBoundaries()[2],Units::ToHerz(hi,un),"last boundary");
  std::vector<double> m=u->midpoints("eV"), c=u->channelBoundaries("eV"), d=u->widths("eV"); gv_lbl l; for (int i=0;i<2;++i) { gv_eq(m[i],u->getMidpoints()[i]/GYOTO_eV2Hz,gv_ij(l,"midpoint in eV",i)); gv_eq(c[i],u->getChannelBoundaries()[i]/GYOTO_eV2Hz,gv_ij(l,"boundary in eV",i)); gv_eq(d[i],u->getWidths()[i]/GYOTO_eV2Hz,gv_ij(l,"width in eV",i)); } }
struct Ear : public Hook::Listener { int heard; Ear() : heard(0) {} void tell(Hook::Teller *) { ++heard; } };
GV_HARNESS(H_complex) { gv_no_throw(); int m=1+int(gv_choose("m",3)); Complex *c=new Complex(); Uniform *u[3]; gv_lbl l; int ns=0; Ear e; c->hook(&e);
  for (int i=0;i<m;++i) { double a=gv_real(gv_ij(l,"a",i),1.,2.), b=gv_real(gv_ij(l,"b",i),3.,4.); u[i]=new Uniform(sizes(int(gv_choose(gv_ij(l,"n",i),2))),a,b,Uniform::FreqKind); int h=e.heard; c->append(u[i]); gv_true(e.heard>h,"listeners are told"); }
  int last=int(gv_choose("then",3)); if (last==1) { int h=e.heard; u[0]->nSamples(3); gv_true(e.heard>h,"listeners are told of a change of an element"); } else if (last==2 && m>1) { c->remove(0); for (int i=1;i<m;++i) u[i-1]=u[i]; --m; }
  double const *B=c->getChannelBoundaries(), *M=c->getMidpoints(), *W=c->getWidths(); size_t const *I=c->getChannelIndices();
  for (int i=0;i<m;++i) { int n=int(u[i]->nSamples()); for (int j=0;j<n;++j,++ns) { gv_eq(M[ns],u[i]->getMidpoints()[j],gv_ij(l,"midpoint",i,j)); gv_eq(W[ns],u[i]->getWidths()[j],gv_ij(l,"width",i,j)); for (int s=0;s<2;++s) { gv_true(I[2*ns+s]<c->getNBoundaries(),"index in range"); gv_eq(B[I[2*ns+s]],u[i]->getChannelBoundaries()[j+s],gv_ij(l,"boundary of channel",i,j,s)); } } }
  gv_eqi(c->nSamples(),ns,"nSamples is the sum"); }
