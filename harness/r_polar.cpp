/* polarized transfer: transmission matrix, rotation of Stokes vectors, angles of the field */
#include "anymetric.h"
#include "GyotoAstrobj.h"
#include "GyotoPhoton.h"
#include "GyotoError.h"
#include "GyotoDefs.h"
using namespace Gyoto; using namespace Eigen;
struct Thing : public Astrobj::Generic { Thing() : Astrobj::Generic("thing") {} Thing *clone() const { return new Thing(*this); } int Impact(Photon*,size_t,Astrobj::Properties*) { return 0; } Property const *getProperties() const { return 0; } };
static Thing *thing(AnyMetric *m) { Thing *o=new Thing(); m->mass(gv_real("mass",0.5,2.)); gv_assume(m->mass()>0); o->metric(m); return o; }
static double v(const char *n) { return gv_real(n,-0.5,0.5); }
struct Coef { double aI,aQ,aU,aV,rQ,rU,rV,s2,c2,ds,K[4][4],L; };
/* aligned: medium described in the basis of the Stokes parameters; otherwise the coefficients are turned first */
static Coef coef(Thing *o, int special) { Coef c; c.aI=gv_real("aI",0.6,1.); c.ds=gv_real("ds",0.1,1.); c.s2=0; c.c2=1; c.L=o->gg_->unitLength();
  c.aQ=special==1?0.:v("aQ"); c.aU=special?0.:v("aU"); c.aV=special?0.:v("aV"); c.rQ=special==1||special==2?0.:v("rQ"); c.rU=special?0.:v("rU"); c.rV=special==1?0.:special==2?c.aQ:v("rV");
  double K[4][4]={{c.aI,c.aQ,c.aU,c.aV},{c.aQ,c.aI,c.rV,-c.rU},{c.aU,-c.rV,c.aI,c.rQ},{c.aV,c.rU,-c.rQ,c.aI}}; for (int i=0;i<4;++i) for (int j=0;j<4;++j) c.K[i][j]=K[i][j]; return c; }
static void expo(int special) { gv_allow_throw(); AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); Thing *o=thing(m); Coef c=coef(o,special); gv_lbl l; double x[1]={c.ds};
  if (!special) { double A=c.aQ*c.aQ+c.aU*c.aU+c.aV*c.aV-c.rQ*c.rQ-c.rU*c.rU-c.rV*c.rV, B=c.aQ*c.rQ+c.aU*c.rU+c.aV*c.rV; gv_assume(A*A+4*B*B>0); }
  Matrix4d Z=o->Omatrix(c.aI,c.aQ,c.aU,c.aV,c.rQ,c.rU,c.rV,c.s2,c.c2,0.), O=o->Omatrix(c.aI,c.aQ,c.aU,c.aV,c.rQ,c.rU,c.rV,c.s2,c.c2,c.ds);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) { gv_eq(Z(i,j),i==j,gv_ij(l,"no path, no absorption",i,j)); double d=gv_D([&](const double *y) { return o->Omatrix(c.aI,c.aQ,c.aU,c.aV,c.rQ,c.rU,c.rV,c.s2,c.c2,y[0])(i,j); },x,1,0), s=0; for (int k=0;k<4;++k) s-=c.L*c.K[i][k]*O(k,j); gv_eq(d,s,gv_ij(l,"transmission matrix solves the transfer equation",i,j)); } }
GV_HARNESS(H_omatrix) { expo(0); }
GV_HARNESS(H_omatrix_unpolarized) { expo(1); }
GV_HARNESS(H_omatrix_null) { expo(2); }
GV_HARNESS(H_omatrix_turned) { gv_allow_throw(); AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); Thing *o=thing(m); double aI=gv_real("aI",0.6,1.), aQ=v("aQ"),aU=v("aU"),aV=v("aV"),rQ=v("rQ"),rU=v("rU"),rV=v("rV"), s=v("s2"), c=v("c2"), ds=gv_real("ds",0.1,1.), chi=v("chi"); gv_lbl l; int form=int(gv_choose("form",4)); double al[4]={aI,aQ,aU,aV}, r[3]={rQ,rU,rV};
  if (form&1) { s=sin(2.*chi); c=cos(2.*chi); }
  Matrix4d O= form==0? o->Omatrix(aI,aQ,aU,aV,rQ,rU,rV,s,c,ds): form==1? o->Omatrix(aI,aQ,aU,aV,rQ,rU,rV,chi,ds): form==2? o->Omatrix(al,r,s,c,ds): o->Omatrix(al,r,chi,ds);
  Matrix4d P=o->Omatrix(aI,c*aQ-s*aU,s*aQ+c*aU,aV,c*rQ-s*rU,s*rQ+c*rU,rV,0.,1.,ds);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) gv_eq(O(i,j),P(i,j),gv_ij(l,"coefficients are turned by twice the angle",i,j)); }
GV_HARNESS(H_rotate) { gv_no_throw(); AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); Thing *o=thing(m); double I=v("I"),Q=v("Q"),U=v("U"),V=v("V"),chi=v("chi"), s=sin(2.*chi), c=cos(2.*chi); Vector4d j= gv_choose("form",2)? o->rotateJs(I,Q,U,V,chi):o->rotateJs(I,Q,U,V,s,c); gv_eq(j(0),I,"intensity"); gv_eq(j(1),c*Q-s*U,"Q"); gv_eq(j(2),s*Q+c*U,"U"); gv_eq(j(3),V,"circular"); }
GV_HARNESS(H_theta_mag) { gv_no_throw(); AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); Thing *o=thing(m); double B[4],u[4]; state_t c(8); gv_lbl l; anyvec("B",B); anyvec("u",u,0.5,1.); for (int i=0;i<8;++i) c[i]=gv_real(gv_ij(l,"c",i),0.5,1.);
  gv_assume(u[0]>0); m->G[0][0]=0; m->G[0][0]=(-1-m->dot(u,u))/(u[0]*u[0]); double b[4],k[4]; for (int i=0;i<4;++i) { b[i]=B[i]+m->dot(B,u)*u[i]; k[i]=c[4+i]+m->dot(&c[4],u)*u[i]; } gv_assume(m->dot(b,b)>0); gv_assume(m->dot(k,k)>0); gv_eq(o->get_theta_mag(B,c,u),acos(m->dot(k,b)/(sqrt(m->dot(k,k))*sqrt(m->dot(b,b)))),"angle between field and ray in the frame of the emitter"); }
GV_HARNESS(H_chi) { gv_no_throw(); AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); for (int i=0;i<4;++i) for (int j=0;j<4;++j) m->G[i][j]= i==j?(i?1.:-1.):0.; Thing *o=thing(m); double u[4]={1,0,0,0}, B[4], w=2., p=gv_choose("p",2)?0.5:0., q=gv_choose("q",2)?-0.25:0.; gv_lbl l; state_t c(16); for (int i=0;i<4;++i) c[i]=v(gv_ij(l,"x",i));
  double k[4]={w,0,0,w}; for (int i=0;i<4;++i) { c[4+i]=k[i]; c[8+i]=p*k[i]+(i==1); c[12+i]=q*k[i]+(i==2); }
  bool el=gv_choose("electric",2); static const double D[8][2]={{3,4},{-3,4},{3,-4},{-3,-4},{5,0},{-5,0},{0,5},{0,-5}}; int d=int(gv_choose("direction",8)); double a=0.5; B[1]=a*D[d][0]; B[2]=a*D[d][1]; B[3]=gv_choose("longitudinal",2)?12.*a:0.; B[0]=gv_choose("along the velocity",2)? (B[3]==0.?3.:5.)*a:0.;
  double chi=o->getChi(B,c,u,el), e=-atan2(D[d][0]/5.,D[d][1]/5.)+(el?0.:M_PI/2.); if (e>M_PI/2.) e-=M_PI; if (e<-M_PI/2.) e+=M_PI; gv_eq(chi,e,"position angle East of North of the electric vector");
  double s2,c2; o->getSinCos2Chi(B,c,u,&s2,&c2,el); gv_eq(s2,sin(2.*chi),"sine of twice the angle"); gv_eq(c2,cos(2.*chi),"cosine of twice the angle"); }
GV_HARNESS(H_chi_size) { AnyMetric *m=new AnyMetric(GYOTO_COORDKIND_CARTESIAN); Thing *o=thing(m); double u[4]={1,0,0,0}; state_t c(8); gv_expect_throw("no polarization basis is an error"); if (gv_choose("form",2)) o->getChi(u,c,u,false); else { double a,b; o->getSinCos2Chi(u,c,u,&a,&b,false); } }
