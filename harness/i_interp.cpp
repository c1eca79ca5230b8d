/* grid interpolation: Astrobj::Generic::interpolate (1 and 2 dimensions, every boundary condition) and GridData2D */
#include "gv.h"
#include "GyotoAstrobj.h"
#include "GyotoGridData2D.h"
#include "GyotoError.h"
using namespace Gyoto;
struct Thing : public Astrobj::Generic { Thing() : Astrobj::Generic("thing") {} Thing *clone() const { return new Thing(*this); } int Impact(Photon*,size_t,Astrobj::Properties*) { return 0; } };
enum Cond { None, Constant, Linear, Periodic, Null };
static const char *cn[]={"None","Constant","Linear","Periodic","Null"};
/* an axis: its nodes, a query on it, and the two nodes and weights the documentation asks for */
struct Axis { int n; bool even; Cond c; double x[4], q, q0, w[2]; int k[2]; double par[3]; bool zero, refuse; static double org;
  Axis(const char *nm, int n_, bool even_, Cond c_, int where, int cell) : n(n_), even(even_), c(c_), zero(false), refuse(false) { gv_lbl l; double f=gv_real(gv_ij(l,nm,0),0.,1.), h=0.5; gv_assume(f>=0); gv_assume(f<=1); static const double un[]={-1.5,-1.25,1.,1.5};
    for (int i=0;i<n;++i) x[i]=even?org+h*i:un[i]+org;
    par[0]=x[0]; par[1]=x[n-1]; par[2]=n; k[0]=k[1]=0; w[0]=1; w[1]=0;
    if (n==1) { q=gv_real(gv_ij(l,nm,3),-1.,1.); q0=q; return; }
    double P=x[n-1]-x[0];
    if (where==0) { k[0]=cell; k[1]=cell+1; w[1]=f; w[0]=1-f; q=x[cell]+f*(x[cell+1]-x[cell]); }
    else { double d=gv_real(gv_ij(l,nm,3),0.1,1.); gv_assume(d>0); int b=where<0?0:n-2; k[0]=b; k[1]=b+1; double D=even?h:x[b+1]-x[b]; q= where<0? x[0]-d*D : x[n-1]+d*D;
      if (c==None) refuse=true; else if (c==Null) zero=true; else if (c==Constant) { w[0]=where<0; w[1]=where>0; } else if (c==Linear) { w[1]=where<0?-d:1+d; w[0]=1-w[1]; }
      else { k[0]=cell; k[1]=cell+1; w[1]=f; w[0]=1-f; q=x[cell]+f*(x[cell+1]-x[cell])+where*P; gv_assume(f>0); gv_assume(f<1); } } q0=q; } };
double Axis::org=0.75;
static double run(Thing *o, int N, Axis **A, double *Y) { double q[2], *X[2]; int len[2]; std::string c[2]; for (int i=0;i<N;++i) { q[i]=A[i]->q; X[i]=A[0]->even?A[i]->par:A[i]->x; len[i]=A[i]->n; c[i]=cn[A[i]->c]; } return A[0]->even? o->interpolate(N,Y,q,X,c) : o->interpolate(N,Y,q,X,len,c); }
GV_HARNESS(H_interp1) { gv_enum_floor(); Axis::org=gv_choose("origin",2)?0.75:-0.625; int n=1+int(gv_choose("n",4)); Cond c=Cond(gv_choose("condition",5)); bool even=gv_choose("even",2); int where=0, cell=0; if (n>1) { where=int(gv_choose("where",3))-1; if (c==Periodic && where) where*=1+int(gv_choose("turns",2)); cell=int(gv_choose("cell",n-1)); }
  if (c!=Periodic && where) gv_assume(cell==0); Axis a("x",n,even,c,where,cell); Axis *A[1]={&a}; double *Y=gv_array("Y",n); Thing *o=new Thing(); if (a.refuse || (n==1 && (c==Linear || c==Periodic))) gv_expect_throw("out of the grid"); else gv_no_throw();
  double r=run(o,1,A,Y); gv_eq(r, a.zero?0.:a.w[0]*Y[a.k[0]]+a.w[1]*Y[a.k[1]], "interpolated value"); }
static Axis *axis(const char *nm, bool even, const char *a, const char *b) { int n=1+int(gv_choose(a,3)); static const Cond cs[]={Constant,Linear,Periodic,Null}; Cond c=cs[gv_choose(b,4)]; int where=0; if (n>1) { gv_lbl l; where=int(gv_choose(gv_ij(l,a,1),3))-1; } else gv_assume(c==Constant || c==Null); return new Axis(nm,n,even,c,where,n>2?1:0); }
GV_HARNESS(H_interp2) { gv_enum_floor(); bool even=gv_choose("even",2); Axis *A[2]; A[0]=axis("x",even,"nx","cx"); A[1]=axis("y",even,"ny","cy"); Axis &a=*A[0], &b=*A[1]; double *Y=gv_array("Y",a.n*b.n); Thing *o=new Thing(); gv_no_throw();
  double r=run(o,2,A,Y), e=0; if (!a.zero && !b.zero) for (int i=0;i<2;++i) for (int j=0;j<2;++j) e+=a.w[i]*b.w[j]*Y[a.k[i]*b.n+b.k[j]]; gv_eq(r,e,"interpolated value"); }
/* GridData2D: (t, phi, r) grid, r fastest; stationary before and after the time range, phi periodic */
GV_HARNESS(H_grid2d) { gv_enum_floor(); gv_no_throw(); GridData2D *g=new GridData2D(); int nt=1+int(gv_choose("nt",3)), np=2+int(gv_choose("nphi",2)), nr=2+int(gv_choose("nr",2)); gv_lbl l;
  double t0=-0.75, ht=0.5, p0=0.125, hp=np==2?3.:2.5, r0=1.5, hr=0.25;
  g->nr(nr); g->rmin(r0); g->rmax(r0+hr*(nr-1)); g->nphi(np); g->phimin(p0); g->phimax(p0+hp*(np-1)); g->nt(nt); g->tmin(t0); g->tmax(t0+ht*(nt-1));
  double ft=gv_real("ft",0.,1.), fp=gv_real("fp",0.,1.), fr=gv_real("fr",0.,1.); gv_assume(ft>=0); gv_assume(ft<=1); gv_assume(fp>=0); gv_assume(fp<=1); gv_assume(fr>=0); gv_assume(fr<=1);
  int it, ct=int(gv_choose("cell t",nt+1))-1, cp=int(gv_choose("cell phi",np+1))-1, cr=int(gv_choose("cell r",nr-1)); double T,wt=0; /* ct: -1 before, nt-1 after */
  if (ct<0) { it=0; double d=gv_real("before",0.1,1.); gv_assume(d>0); T=t0-d; } else if (ct==nt-1) { it=nt-1; double d=gv_real("after",0.,1.); gv_assume(d>0); T=t0+ht*(nt-1)+d; } else { it=ct; int ed=int(gv_choose("time on a node",3)); if (ed==1) ft=0; else if (ed==2) ft=1; else { gv_assume(ft>0); gv_assume(ft<1); } wt=ft; T=t0+ht*(ct+ft); }
  int ip[2]; double ph, pm=p0+hp*(np-1); if (cp<0) { ip[0]=np-1; ip[1]=0; ph=p0-(1-fp)*(2*M_PI-hp*(np-1)); gv_assume(ph>=0); gv_assume(ph<p0); } else if (cp==np-1) { ip[0]=np-1; ip[1]=0; ph=pm+fp*(2*M_PI-hp*(np-1)); gv_assume(ph<=2*M_PI); gv_assume(ph>pm); } else { ip[0]=cp; ip[1]=cp+1; ph=p0+hp*(cp+fp); }
  double *Y=gv_array("Y",nt*np*nr), *ta=0; bool arr=gv_choose("time array",2); if (arr) { gv_assume(nt>1); ta=new double[nt]; for (int i=0;i<nt;++i) ta[i]=t0+ht*i; }
  double r=g->interpolate(T,ph,r0+hr*(cr+fr),Y,ta), e=0; for (int i=0;i<2;++i) { double wi=i?wt:1-wt; if (i && it==nt-1) continue; for (int j=0;j<2;++j) for (int k=0;k<2;++k) e+=wi*(j?fp:1-fp)*(k?fr:1-fr)*Y[((it+i)*np+ip[j])*nr+cr+k]; }
  gv_eq(r,e,"interpolated value"); }
