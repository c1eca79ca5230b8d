/* the screen: sky frame, observer position, direction and polarization basis of each ray, sets of pixels */
#include "anymetric.h"
#include "GyotoScreen.h"
#include "GyotoError.h"
#include "GyotoDefs.h"
#include "GyotoConverters.h"
using namespace Gyoto;
struct Flat : public Metric::Generic { Flat(int k) : Metric::Generic(k,"flat") {} Flat *clone() const { return new Flat(*this); } Property const *getProperties() const { return 0; } using Metric::Generic::gmunu;
  void gmunu(double g[4][4], double const *x) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=0; g[0][0]=-1; g[1][1]=g[2][2]=g[3][3]=1; if (coordKind()==GYOTO_COORDKIND_SPHERICAL) { g[2][2]=x[1]*x[1]; double h=x[1]*sin(x[2]); g[3][3]=h*h; } } };
/* unit vectors of the sky (East, North, away from the observer) in the frame of the metric, from the documented Euler angles */
struct Sky { Screen *s; Metric::Generic *m; double O,i,w,d, E[3], N[3], Z[3]; bool sph;
  Sky(bool sp, double mass=1) : sph(sp) { s=new Screen(); m=new Flat(sp?GYOTO_COORDKIND_SPHERICAL:GYOTO_COORDKIND_CARTESIAN); m->mass_=mass; s->metric(m); O=gv_real("paln",0.3,1.2); i=gv_real("incl",0.3,1.2); w=gv_real("arg",0.3,1.2); d=1000; s->PALN(O); s->inclination(i); s->argument(w); double cO=cos(O),sO=sin(O),ci=cos(i),si=sin(i),cw=cos(w),sw=sin(w);
    double e[3]={cO*cw-sO*ci*sw, -cO*sw-sO*ci*cw, si*sO}, n[3]={sO*cw+cO*ci*sw, -sO*sw+cO*ci*cw, -si*cO}, z[3]={si*sw, si*cw, ci}; for (int k=0;k<3;++k) { E[k]=e[k]; N[k]=n[k]; Z[k]=z[k]; } }
  void far() { s->distance_=d*m->unitLength(); s->dMax(1e7); gv_assume(i>0); gv_assume(i<M_PI); gv_assume(sin(i)>0); gv_assume(sin(M_PI-i)>0); away(1,d); }
  /* the observer is at the distance d: shown, then used */
  void away(double scale, double d) { double e[4]; s->getObserverPos(e); if (sph) return; double x=e[1]/scale, y=e[2]/scale, z=e[3]/scale, q=x*x+y*y+z*z; gv_eq(q,d*d,"distance of the observer"); gv_assume(q>=20); }
  /* Cartesian components of the spatial part of a vector at the position x */
  void cart(const double *x, const double *v, double *c) { if (!sph) { for (int k=0;k<3;++k) c[k]=v[k+1]; return; } double r=x[1], st=sin(x[2]), ct=cos(x[2]), sp=sin(x[3]), cp=cos(x[3]); c[0]=v[1]*st*cp+r*v[2]*ct*cp-r*st*v[3]*sp; c[1]=v[1]*st*sp+r*v[2]*ct*sp+r*st*v[3]*cp; c[2]=v[1]*ct-r*v[2]*st; } };
static double dot3(const double *a, const double *b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
GV_HARNESS(H_frame) { gv_no_throw(); Sky k(false,gv_real("mass",1.,2.)); double p[4]={0,gv_real("x",-1.,1.),gv_real("y",-1.,1.),gv_real("z",-1.,1.)}, q[3], b[4]; bool geo=gv_choose("geometrical",2); double u=geo?1.:k.m->unitLength(); gv_lbl l;
  k.s->coordToSky(p,q,geo); gv_eq(q[0],u*dot3(p+1,k.E),"alpha"); gv_eq(q[1],u*dot3(p+1,k.N),"delta"); gv_eq(q[2],u*dot3(p+1,k.Z),"depth"); gv_assume(u!=0); k.s->skyToCoord(q,b,geo); for (int a=1;a<4;++a) gv_eq(b[a],p[a],gv_ij(l,"skyToCoord inverts coordToSky",a)); double n1=dot3(p+1,p+1)*u*u; gv_eq(dot3(q,q),n1,"distances are kept"); }
GV_HARNESS(H_frame_sph) { gv_no_throw(); Sky k(true,gv_real("mass",1.,2.)); double r=gv_real("r",1.,2.), t=gv_real("theta",0.5,1.5), f=gv_real("phi",-1.,1.), p[4]={0,r,t,f}, c[3]={r*sin(t)*cos(f),r*sin(t)*sin(f),r*cos(t)}, q[3]; k.s->coordToSky(p,q,true); gv_eq(q[0],dot3(c,k.E),"alpha"); gv_eq(q[1],dot3(c,k.N),"delta"); gv_eq(q[2],dot3(c,k.Z),"depth"); }
GV_HARNESS(H_observer) { gv_no_throw(); bool sp=gv_choose("spherical",2); Sky k(sp,gv_real("mass",1.,2.)); double d=gv_real("distance",1.,2.), t=gv_real("time",1.,2.), x[4]; k.s->distance(d); k.s->time(t); gv_assume(k.m->unitLength()!=0); k.s->getObserverPos(x); double q[3]; gv_eq(x[0],t*GYOTO_C/k.m->unitLength(),"time"); k.s->coordToSky(x,q); gv_eq(q[0],0.,"observer on the line of sight, alpha"); gv_eq(q[1],0.,"observer on the line of sight, delta"); gv_eq(q[2],-d,"observer at the distance asked for"); }
GV_HARNESS(H_setobserver) { gv_no_throw(); Sky k(true,gv_real("mass",1.,2.)); double x[4]={gv_real("t",1.,2.),gv_real("r",1.,2.),gv_real("theta",0.5,1.5),gv_real("phi",-1.,1.)}, y[4]; gv_assume(k.m->unitLength()!=0); k.s->setObserverPos(x); k.s->getObserverPos(y); gv_lbl l; for (int i=0;i<4;++i) gv_eq(y[i],x[i],gv_ij(l,"observer position",i)); double q[3]; k.s->coordToSky(x,q,true); gv_eq(q[0],0.,"alpha"); gv_eq(q[1],0.,"delta"); gv_eq(q[2],-x[1],"depth"); }
/* ray through a point of the sky: v is the direction of propagation in the sky frame */
static void ray(Sky &k, double a, double b, double *c, const double *v, bool pol=false) { double Ep[4], Et[4], kc[3]; gv_lbl l; k.s->getRayTriad(a,b,c,pol,Ep,Et); double g=dot3(v,v); k.cart(c,c+4,kc);
  for (int i=0;i<3;++i) gv_eq(kc[i],v[0]*k.E[i]+v[1]*k.N[i]+v[2]*k.Z[i],gv_ij(l,"direction",i)); gv_eq(c[4]*c[4],g,"null"); gv_true(c[4]>=0,"future directed");
  if (pol) { double p[3], t[3]; k.cart(c,Ep,p); k.cart(c,Et,t); gv_eq(Ep[0],0.,"Ephi has no time part"); gv_eq(Et[0],0.,"Etheta has no time part"); gv_eq(dot3(p,p),1.,"Ephi is unit"); gv_eq(dot3(t,t),1.,"Etheta is unit"); gv_eq(dot3(p,t),0.,"Ephi and Etheta are orthogonal"); gv_eq(dot3(p,kc),0.,"Ephi is orthogonal to the ray"); gv_eq(dot3(t,kc),0.,"Etheta is orthogonal to the ray"); double x[3]={p[1]*t[2]-p[2]*t[1],p[2]*t[0]-p[0]*t[2],p[0]*t[1]-p[1]*t[0]}; for (int i=0;i<3;++i) gv_eq(x[i],kc[i],gv_ij(l,"(ray, Ephi, Etheta) is direct",i)); } }
GV_HARNESS(H_spherical) { gv_no_throw(); Sky k(gv_choose("spherical",2)); k.far(); k.s->anglekind_=Screen::spherical_angles; double a=gv_real("a",0.1,0.5), b=gv_real("b",0.1,0.5), c[8]; gv_assume(a>0); gv_assume(a<M_PI); gv_assume(b>=0); gv_assume(b<2*M_PI); double v[3]={-sin(a)*cos(b),-sin(a)*sin(b),-cos(a)}; ray(k,a,b,c,v,true); }
/* the other two angle kinds, seen by a screen aligned with the axes of the metric; n is the norm of v */
struct Aligned { SmartPointer<Metric::Generic> m; Screen s; double c[8]; Aligned(int kind) { m=new Flat(GYOTO_COORDKIND_CARTESIAN); m->mass_=1; s.metric(m); s.PALN(0.); s.inclination(0.); s.argument(0.); s.distance_=1000*m->unitLength(); s.dMax(1e7); s.anglekind(kind); }
  void square(const double *v) { gv_lbl l; for (int i=0;i<3;++i) { gv_eq(c[5+i]*c[5+i],v[i]*v[i],gv_ij(l,"direction",i)); gv_true(c[5+i]*v[i]>=0,gv_ij(l,"orientation",i)); } }
  void same(const double *v, double n) { gv_lbl l; for (int i=0;i<3;++i) gv_eq(c[5+i]*n,v[i],gv_ij(l,"direction",i)); } };
static void offaxis(double &a, double &b) { int z=int(gv_choose("on an axis",4)); if (z==1) a=0; else if (z==2) b=0; else if (z==3) a=b=0; else { gv_assume(a!=0); gv_assume(b!=0); } }
static void equ(double a, double b, double *v) { v[0]=-sin(a)*cos(b); v[1]=-sin(b); v[2]=-cos(a)*cos(b); }
static void small(double a) { gv_assume(a>-M_PI/2); gv_assume(a<M_PI/2); gv_assume(cos(a)>0); }
GV_HARNESS(H_equatorial) { gv_no_throw(); double a=gv_real("alpha",0.1,0.5), b=gv_real("delta",0.1,0.5), v[3]; offaxis(a,b); small(a); small(b); equ(a,b,v); Aligned k(Screen::equatorial_angles); k.s.getRayTriad(a,b,k.c); k.square(v); }
GV_HARNESS(H_rectilinear) { gv_no_throw(); double a=gv_real("x",0.1,0.5), b=gv_real("y",0.1,0.5), v[3]={-a,-b,-1}; offaxis(a,b); v[0]=-a; v[1]=-b; Aligned k(Screen::rectilinear); k.s.getRayTriad(a,b,k.c); k.same(v,sqrt(1+a*a+b*b)); }
/* pixels: (1,1) is the South-East corner; the pixel grid is centred on the line of sight */
GV_HARNESS(H_pixel_equatorial) { gv_no_throw(); size_t n=2+gv_choose("resolution",3), i=1+gv_choose("i",4), j=1+gv_choose("j",4); gv_assume(i<=n); gv_assume(j<=n); double f=gv_real("fov",0.1,0.5), v[3], a=f*((n+1)/2.-i)/n, b=f*(j-(n+1)/2.)/n; gv_assume(f>0); gv_assume(f<M_PI); small(a); small(b); equ(a,b,v); Aligned k(Screen::equatorial_angles); k.s.resolution(n); k.s.fieldOfView(f); k.s.getRayTriad(i,j,k.c); k.square(v); }
GV_HARNESS(H_pixel_rectilinear) { gv_no_throw(); size_t n=2+gv_choose("resolution",3), i=1+gv_choose("i",4), j=1+gv_choose("j",4); gv_assume(i<=n); gv_assume(j<=n); double f=gv_real("fov",0.1,0.5), a=2*tan(f/2)*((n+1)/2.-i)/n, b=2*tan(f/2)*(j-(n+1)/2.)/n, v[3]={-a,-b,-1}; gv_assume(f>0); gv_assume(f<M_PI); gv_assume(tan(f/2)>0); Aligned k(Screen::rectilinear); k.s.resolution(n); k.s.fieldOfView(f); k.s.getRayTriad(i,j,k.c); k.same(v,sqrt(1+a*a+b*b)); }
GV_HARNESS(H_pixel_spherical) { gv_no_throw(); size_t n=2+gv_choose("resolution",3), i=1+gv_choose("i",4), j=1+gv_choose("j",4); gv_assume(i<=n); gv_assume(j<=n); double f=gv_real("fov",0.1,0.5), z=gv_real("azimuthal fov",0.1,0.5), a=f*(i-1)/(2*(n-1.)), b=M_PI-z*(j-1)/(n-1.), v[3]={-sin(a)*cos(b),-sin(a)*sin(b),-cos(a)}; gv_assume(f>0); gv_assume(f<2*M_PI); gv_assume(z>0); gv_assume(z<=2*M_PI); Aligned k(Screen::spherical_angles); k.s.resolution(n); k.s.fieldOfView(f); k.s.azimuthalFieldOfView(z); k.s.getRayTriad(i,j,k.c); k.same(v,1.); }
GV_HARNESS(H_fov_too_large) { Aligned k(Screen::rectilinear); double f=gv_real("fov",3.2,3.5); gv_assume(f>=M_PI); k.s.fieldOfView(f); bool t=false; try { k.s.getRayTriad(size_t(1),size_t(1),k.c); } catch (Gyoto::Error &) { t=true; } gv_true(t,"no rectilinear projection beyond pi"); }
/* beyond DMax the observer is brought to DMax, on the same line of sight, at a time that keeps the ray's retarded time, with angles that keep the size of the image */
GV_HARNESS(H_dmax) { gv_no_throw(); bool sp=gv_choose("spherical",2); Sky k(sp); double a=0.001, b=0.002, t=gv_real("time",1.,2.), c[8], e[8], far=gv_real("distance",1e4,1e5); k.s->anglekind(Screen::rectilinear); gv_assume(k.i>0); gv_assume(k.i<M_PI); gv_assume(far>1000); gv_assume(far<1e5); k.s->dMax(1000.); k.s->distance_=far*k.m->unitLength(); k.s->time(t); k.s->getObserverPos(e); k.away(far/1000,1000); k.s->getRayTriad(a,b,c); gv_lbl l; gv_eq(c[0],e[0]-(far-1000),"time");
  if (sp) { gv_eq(c[1],1000.,"radius"); gv_eq(c[2],e[2],"theta"); gv_eq(c[3],e[3],"phi"); } else for (int i=1;i<4;++i) gv_eq(c[i]*far,e[i]*1000,gv_ij(l,"position",i)); }
GV_HARNESS(H_dmax_angles) { gv_no_throw(); int kind=int(gv_choose("kind",3)); double x=gv_real("x",0.1,0.5), y=gv_real("y",0.1,0.5), v[3]; gv_assume(x>0); gv_assume(y>0); double a=5*x, b=5*y; if (kind==0) { Aligned k(Screen::equatorial_angles); k.s.dMax(200.); small(a); small(b); equ(a,b,v); k.s.getRayTriad(x,y,k.c); k.square(v); } else if (kind==1) { Aligned k(Screen::rectilinear); k.s.dMax(200.); v[0]=-a; v[1]=-b; v[2]=-1; k.s.getRayTriad(x,y,k.c); k.same(v,sqrt(1+a*a+b*b)); } else { Aligned k(Screen::spherical_angles); k.s.dMax(200.); gv_assume(a<M_PI); gv_assume(y<2*M_PI); v[0]=-sin(a)*cos(y); v[1]=-sin(a)*sin(y); v[2]=-cos(a); k.s.getRayTriad(x,y,k.c); k.same(v,1.); } }
/* Dangle1 and Dangle2: the field is rotated about North, then about East; for spherical angles they are added */
GV_HARNESS(H_dangle) { gv_no_throw(); double x=gv_real("x",0.1,0.5), y=gv_real("y",0.1,0.5), p=gv_real("dangle1",0.1,0.2), q=gv_real("dangle2",0.1,0.2); gv_assume(x>0); gv_assume(y>0); gv_assume(p>0); gv_assume(q>0); if (gv_choose("kind",2)) { Aligned k(Screen::rectilinear); k.s.dangle1(p); k.s.dangle2(q); double u[3]={cos(p)*-x-sin(p),-y,sin(p)*x-cos(p)}, v[3]={u[0],cos(q)*u[1]-sin(q)*u[2],sin(q)*u[1]+cos(q)*u[2]}; k.s.getRayTriad(x,y,k.c); k.same(v,sqrt(1+x*x+y*y)); } else { Aligned k(Screen::spherical_angles); k.s.dangle1(p); k.s.dangle2(q); double a=x+p, b=y+q, v[3]={-sin(a)*cos(b),-sin(a)*sin(b),-cos(a)}; gv_assume(a<M_PI); gv_assume(b<2*M_PI); k.s.getRayTriad(x,y,k.c); k.same(v,1.); } }
/* local observer: the photon is u + p, p a unit vector of the rest space, in the tetrad the metric gives for that observer */
struct Local : public Flat { double t[4][4]; mutable int kind; mutable double at[4]; Local() : Flat(GYOTO_COORDKIND_CARTESIAN), kind(0) { gv_lbl l; for (int i=0;i<4;++i) for (int j=0;j<4;++j) t[i][j]=gv_real(gv_ij(l,"tetrad",i,j),0.1,1.); } void observerTetrad(obskind_t o, double const p[4], double *u, double *a, double *b, double *c) const { kind=o; for (int i=0;i<4;++i) { at[i]=p[i]; u[i]=t[0][i]; a[i]=t[1][i]; b[i]=t[2][i]; c[i]=t[3][i]; } } };
GV_HARNESS(H_local_observer) { gv_no_throw(); SmartPointer<Local> m=new Local(); m->mass_=1; Screen s; s.metric(m); double o=gv_real("paln",0.3,1.), x=gv_real("x",0.1,0.5), y=gv_real("y",0.1,0.5), c[8], e[4]; gv_assume(x>0); gv_assume(y>0); s.PALN(o); s.distance_=1000*m->unitLength(); s.dMax(1e7); static const obskind_t K[]={GYOTO_OBSKIND_KEPLERIAN,GYOTO_OBSKIND_ZAMO,GYOTO_OBSKIND_VELOCITYSPECIFIED,GYOTO_OBSKIND_FULLYSPECIFIED}; s.observerkind_=K[gv_choose("observer",4)]; s.anglekind(Screen::rectilinear); s.getRayTriad(x,y,c); s.getObserverPos(e); gv_lbl l; double n=sqrt(1+x*x+y*y), C=-cos(o), S=sin(o), p[3]={-C*x+S*y,-S*x-C*y,-1}; gv_true(m->kind==s.observerkind_,"kind of observer"); for (int i=0;i<4;++i) { gv_eq(m->at[i],e[i],gv_ij(l,"tetrad taken at the observer",i)); gv_eq((c[4+i]-m->t[0][i])*n,p[0]*m->t[1][i]+p[1]*m->t[2][i]+p[2]*m->t[3][i],gv_ij(l,"tangent vector",i)); } }
/* mask and pixel sets */
GV_HARNESS(H_mask) { gv_no_throw(); size_t n=3; double q[9]; gv_lbl l; for (int i=0;i<9;++i) q[i]=gv_real(gv_ij(l,"mask",i),0.,1.); Screen s; s.resolution(n); size_t i=1+gv_choose("i",3), j=1+gv_choose("j",3); gv_true(s(i,j),"no mask, every pixel"); s.mask(q,n); for (int k=0;k<9;++k) gv_eq(s.mask()[k],q[k],gv_ij(l,"mask copied",k)); gv_true(s(i,j)==(q[(i-1)+n*(j-1)]!=0),"pixel selected by the mask"); s.resolution(n); gv_true(s.mask()!=0,"same resolution keeps the mask"); s.resolution(2); gv_true(s.mask()==0,"another resolution drops the mask"); }
GV_HARNESS(H_mask_range) { Screen s; s.resolution(3); size_t i=gv_choose("i",5), j=gv_choose("j",5); bool t=false; try { s(i,j); } catch (Gyoto::Error &) { t=true; } gv_true(t==(i<1||j<1||i>3||j>3),"pixels out of the screen are refused"); }
GV_HARNESS(H_range) { gv_no_throw(); size_t a=1+gv_choose("min",3), b=a+gv_choose("length",5), d=1+gv_choose("step",3), k=0, e=a; Screen::Range r(a,b,d); for (int pass=0;pass<2;++pass) { k=0; e=a; for (r.begin();r.valid();++r,++k,e+=d) { gv_true(*r==e,"value"); gv_true(r.index()==k,"index"); gv_true(*r<=b,"inside"); } gv_true(k==r.size(),"size"); gv_true(e>b,"complete"); } }
GV_HARNESS(H_lists) { gv_no_throw(); size_t n=gv_choose("size",4), v[3], k=0; double d[3], val=gv_real("val",0.,1.); gv_lbl l; for (int i=0;i<3;++i) { v[i]=5*i+1; d[i]=gv_real(gv_ij(l,"angle",i),0.,1.); } Screen::Indices I(v,n); Screen::Angles A(d,n); Screen::RepeatAngle R(val,n); for (int pass=0;pass<2;++pass) { k=0; for (I.begin();I.valid();++I,++k) { gv_true(*I==v[k],"index list"); gv_true(I.index()==k,"rank"); } gv_true(k==n&&I.size()==n,"number of indices"); k=0; for (A.begin();A.valid();++A,++k) { gv_true(A.angle()==d[k],"angle list"); gv_true(A.index()==k,"rank"); } gv_true(k==n&&A.size()==n,"number of angles"); k=0; for (R.begin();R.valid();++R,++k) { gv_true(R.angle()==val,"repeated angle"); gv_true(R.index()==k,"rank"); } gv_true(k==n&&R.size()==n,"number of repeats"); } }
GV_HARNESS(H_grid) { gv_no_throw(); size_t ni=1+gv_choose("ni",3), nj=1+gv_choose("nj",3), di=1+gv_choose("di",2), dj=1+gv_choose("dj",2), k=0; Screen::Range I(2,2+di*(ni-1),di), J(4,4+dj*(nj-1),dj); Screen::Grid g(I,J); gv_true(g.size()==ni*nj,"size"); for (g.begin();g.valid()&&k<20;++g,++k) { GYOTO_ARRAY<size_t,2> ij=*g; gv_true(ij[0]==2+di*(k%ni),"i"); gv_true(ij[1]==4+dj*(k/ni),"j"); } gv_true(k==ni*nj,"every pixel exactly once"); }
GV_HARNESS(H_bucket) { gv_no_throw(); size_t n=1+gv_choose("size",3), k=0, v[3]={3,1,2}, w[3]={9,7,8}; double a[3], b[3]; gv_lbl l; for (int i=0;i<3;++i) { a[i]=gv_real(gv_ij(l,"alpha",i),0.,1.); b[i]=gv_real(gv_ij(l,"delta",i),0.,1.); } Screen::Indices I(v,n), J(w,n); Screen::Bucket g(I,J); for (g.begin();g.valid();++g,++k) { GYOTO_ARRAY<size_t,2> ij=*g; gv_true(ij[0]==v[k]&&ij[1]==w[k],"pair of pixels"); } gv_true(k==n&&g.size()==n,"number of pixels"); Screen::Angles A(a,n), B(b,n); Screen::Bucket h(A,B); k=0; for (h.begin();h.valid();++h,++k) { GYOTO_ARRAY<double,2> q=h.angles(); gv_true(q[0]==a[k]&&q[1]==b[k],"pair of angles"); } gv_true(k==n&&h.size()==n,"number of angles"); Screen::Empty e; e.begin(); gv_true(!e.valid()&&e.size()==0,"the empty set is empty"); }
GV_HARNESS(H_bucket_refused) { size_t v[3]={1,2,3}; double a[3]={1,2,3}; int w=int(gv_choose("case",2)); bool t=false; Screen::Indices I(v,3), J(v,2); Screen::Angles A(a,3); try { if (w) Screen::Bucket g(I,J); else Screen::Bucket g(I,A); } catch (Gyoto::Error &) { t=true; } gv_true(t,"pairs of unequal size or kind are refused"); }
GV_HARNESS(H_angle_units) { gv_no_throw(); Units::Init(); SmartPointer<Metric::Generic> m=new Flat(GYOTO_COORDKIND_CARTESIAN); m->mass_=gv_real("mass",1.,2.); Screen s; s.metric(m); double d=gv_real("distance",10.,20.), x=gv_real("angle",0.1,0.5); s.distance(d); gv_assume(d>0); gv_assume(m->unitLength()>0); int w=int(gv_choose("what",3)); static const char *const U[]={"","rad","degree","arcmin","arcsec","geometrical","m","km"}; int u=int(gv_choose("unit",8)); double K[]={1,1,180,10800,648000,d,d,d}, L[]={1,1,M_PI,M_PI,M_PI,m->unitLength(),1,1000}; double in, out; std::string un=U[u]; if (w==0) { s.fieldOfView(x,un); in=s.fieldOfView(); out=s.fieldOfView(un); } else if (w==1) { s.dangle1(x,un); in=s.dangle1(); out=s.dangle1(un); } else { s.dangle2(x,un); in=s.dangle2(); out=s.dangle2(un); } gv_eq(in*K[u],x*L[u],"angle in radians"); gv_eq(out,x,"unit round trip"); }
