/* storage of trajectories: filling forwards and backwards in any order, look-up by date, refinement, Photon::hit */
#include "line.h"
static double lim(const char *nm) { static const double t[]={-3.5,-0.5,1.5,4.5}; return t[gv_choose(nm,4)]; }
GV_HARNESS(H_fill) { gv_no_throw(); c0=gv_real("rate",0.5,2.); gv_assume(c0>0); int sz=1+int(gv_choose("size",2)); Line w(sz,gv_choose("dir",2)?1:-1,sz==1); int n=3; double lo=0, hi=0; for (int i=0;i<n;++i) { gv_lbl l; double t=lim(gv_ij(l,"until",i)); w.p->xFill(t); if (t<lo) lo=t; if (t>hi) hi=t; w.sane(i==n-1); gv_true(w.p->x0_[w.p->imin_]<=lo && w.p->x0_[w.p->imax_]>=hi,"reaches the date asked for"); } }
GV_HARNESS(H_fill_proper) { gv_no_throw(); c0=gv_choose("rate",2)?0.5:2.; Line w(2,gv_choose("dir",2)?1:-1,false); for (int i=0;i<2;++i) { gv_lbl l; double t=lim(gv_ij(l,"until",i)); w.p->xFill(t,true); w.sane(); gv_true(w.p->tau_[w.p->imin_]<=t && w.p->tau_[w.p->imax_]>=t,"reaches the proper time asked for"); } }
GV_HARNESS(H_fill_stop) { gv_no_throw(); c0=1; Line w(2,gv_choose("dir",2)?1:-1,false); w.m->stop=2.5; w.p->xFill(lim("until")); w.sane(); gv_true(w.p->x0_[w.p->imin_]>=-2.5 && w.p->x0_[w.p->imax_]<=2.5,"does not enter the forbidden region"); }
GV_HARNESS(H_refill) { gv_no_throw(); c0=1; Line w(2,1,false); w.p->xFill(lim("first")); double x[8]={0,X(1,0),X(2,0),X(3,0),c0,X(5,0),X(6,0),X(7,0)}; w.p->Worldline::setInitCoord(x,int(gv_choose("dir",3))-1); gv_eqi(w.p->get_nelements(),1,"a new start forgets the trajectory"); w.sane(); w.p->xFill(lim("then")); w.sane(); w.p->reset(); }
/* look-up: exact at stored events; between them exact when each step is */
GV_HARNESS(H_lookup) { gv_no_throw(); c0=2; bool proper=gv_choose("proper",2), pol=!proper; double sc=proper?1/c0:1; Line w(2,gv_choose("dir",2)?1:-1,pol); int fl=int(gv_choose("filled before",3)); if (fl) w.p->xFill(fl==1?-3.5:1.5); int n=2, N=w.n; double d[2], f[2]; gv_lbl l; for (int i=0;i<n;++i) { static const double b[]={-3,0,2}; f[i]=b[gv_choose(gv_ij(l,"cell",i),3)]; if (gv_choose(gv_ij(l,"between",i),2)) { double u=gv_real(gv_ij(l,"fraction",i),0.,1.); gv_assume(u>0); gv_assume(u<1); f[i]+=u; } d[i]=f[i]*sc; }
  double v[16][2], o[2]; w.p->getCoord(d,n,v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15],o,proper); w.sane(false); for (int k=0;k<n;++k) { gv_eq(o[k],proper?f[k]:f[k]/c0,gv_ij(l,"other time",k)); for (int i=1;i<N;++i) gv_eq(v[i][k],i==4?c0:X(i,f[k]),gv_ij(l,"component",i,k)); } }
GV_HARNESS(H_lookup1) { gv_no_throw(); c0=2; bool proper=gv_choose("proper",2), pol=gv_choose("polarized",2); Line w(2,gv_choose("dir",2)?1:-1,pol); int sz=gv_choose("size",2)?w.n:4; double f=gv_choose("back",2)?-2.:1.; if (gv_choose("between",2)) { double u=gv_real("fraction",0.,1.); gv_assume(u>0); gv_assume(u<1); f+=u; } state_t y(sz); w.p->getCoord(proper?f/c0:f,y,proper); gv_lbl l; for (int i=0;i<sz;++i) gv_eq(y[i],i==0?f:i==4?c0:X(i,f),gv_ij(l,"component",i)); state_t z(sz); w.p->getCoord(w.p->i0_,z); for (int i=0;i<sz;++i) gv_eq(z[i],i==0?0:i==4?c0:X(i,0),gv_ij(l,"start",i)); }
GV_HARNESS(H_refined) { gv_no_throw(); c0=2; int dir=gv_choose("dir",2)?1:-1; Line w(2,dir,gv_choose("polarized",2)); w.p->xFill(dir*1.5); static const double s[]={2.,1.,0.75,0.3}; double st=s[gv_choose("step",4)]; size_t k=w.p->i0_+(gv_choose("start",2)?dir:0); double t0=w.p->x0_[k], t1=w.p->x0_[k+dir]; Photon *r=new Photon(w.p,k,dir,st); gv_lbl l; gv_true(r->imin_==0 && r->imax_+1==r->x_size_,"indices"); gv_eq(r->x0_[dir>0?0:r->imax_],t0,"starts at the event"); gv_eq(r->x0_[dir>0?r->imax_:0],t1,"ends at the next"); gv_eqi(r->i0_,dir>0?0:r->imax_,"start index");
  for (size_t j=0;j<=r->imax_;++j) { double t=r->x0_[j]; if (j) { gv_true(t>r->x0_[j-1],"in order"); gv_true(t-r->x0_[j-1]<=st,"fine enough"); } gv_eq(r->tau_[j],t/c0,"proper time"); state_t y(w.n); r->getCoord(j,y); for (int i=0;i<w.n;++i) gv_eq(y[i],i==0?t:i==4?c0:X(i,t),gv_ij(l,"component",i)); } }
/* Photon::hit: the object is shown every event once, in order */
struct Obj : public Astrobj::Generic { int seen, at, dir; double thick; Photon *ph; Obj() : Astrobj::Generic("obj"), seen(0), at(0), dir(0), thick(99), ph(0) {} Obj *clone() const { return new Obj(*this); } double rMax() { return 1e9; } double deltaMax(double*) { return 1; } 
  int Impact(Photon *p, size_t i, Astrobj::Properties *) { ++seen; at+=dir; gv_true(p->imin_<=i && i<=p->imax_ && p->imax_<p->x_size_,"index in range"); gv_eq(p->x0_[i],at,"shown every event in order"); if (seen>=thick) p->transmission_freqobs_=0; return seen>=thick; } };
GV_HARNESS(H_hit) { gv_no_throw(); c0=1; still=true; int dir=gv_choose("forward",2)?1:-1, start=gv_choose("start at the wrong end",2)?-dir:dir; Line w(1+int(gv_choose("size",3)),start,false); Obj *o=new Obj(); o->dir=dir; o->ph=w.p; w.p->astrobj(o); int stop=int(gv_choose("stop",3)); w.p->tMin(dir*(stop==0?2.5:1e6)); if (stop==1) o->thick=2; else if (stop==2) w.m->stop=3.5;
  Astrobj::Properties *d=new Astrobj::Properties(); int h=w.p->hit(stop==1&&gv_choose("quantities",2)?d:0); int want=stop==0?3:stop==1?2:3; gv_eqi(o->seen,want,"events shown"); gv_eqi(h,stop==1,"hit reported"); w.sane(); gv_eqi(w.p->get_nelements(),want+1,"events stored");
  if (stop!=1 && gv_choose("again",2)) { o->seen=o->at=0; w.p->tMin(dir*(stop==0?4.5:1e6)); w.p->hit(0); gv_eqi(o->seen,stop==0?5:3,"events shown again"); w.sane(); w.p->tMin(dir*1.5); o->seen=o->at=0; w.p->hit(0); gv_eqi(o->seen,1,"events shown up to an earlier date"); w.sane(); } }
/* Cartesian views of an event */
GV_HARNESS(H_cartesian) { gv_no_throw(); bool sph=gv_choose("spherical",2); Photon *p=new Photon(); Metric::Generic *m; if (sph) m=new AnyMetric(GYOTO_COORDKIND_SPHERICAL); else m=new Flat(); p->metric(m); double x[8]; gv_lbl l; for (int i=0;i<8;++i) x[i]=gv_real(gv_ij(l,"x",i),0.5,1.5); if (sph) { gv_assume(x[2]>0); gv_assume(x[2]<M_PI); gv_assume(x[3]>0); gv_assume(x[3]<2*M_PI); } gv_assume(x[4]>0);
  p->Worldline::setInitCoord(x,1); double X[4], V[3], r=x[1], st=sin(x[2]), ct=cos(x[2]), sp=sin(x[3]), cp=cos(x[3]); if (sph) { X[1]=r*st*cp; X[2]=r*st*sp; X[3]=r*ct; V[0]=x[5]*st*cp+r*ct*cp*x[6]-r*st*sp*x[7]; V[1]=x[5]*st*sp+r*ct*sp*x[6]+r*st*cp*x[7]; V[2]=x[5]*ct-r*st*x[6]; } else for (int i=0;i<3;++i) { X[i+1]=x[i+1]; V[i]=x[i+5]; }
  double a,b,c,d,e,f,q[4]; p->get_xyz(&a,&b,&c); gv_eq(a,X[1],"get_xyz x"); gv_eq(b,X[2],"get_xyz y"); gv_eq(c,X[3],"get_xyz z"); p->getCartesianPos(p->i0_,q); gv_eq(q[0],x[0],"t"); for (int i=1;i<4;++i) gv_eq(q[i],X[i],gv_ij(l,"getCartesianPos",i)); p->getCartesian(x,1,&a,&b,&c,&d,&e,&f); gv_eq(a,X[1],"x"); gv_eq(b,X[2],"y"); gv_eq(c,X[3],"z"); gv_eq(d,V[0]/x[4],"dx/dt"); gv_eq(e,V[1]/x[4],"dy/dt"); gv_eq(f,V[2]/x[4],"dz/dt");
  double u0,u1,u2,u3; p->get_dot(&u0,&u1,&u2,&u3); gv_eq(u0,x[4],"tdot"); gv_eq(u1,x[5],"x1dot"); gv_eq(u2,x[6],"x2dot"); gv_eq(u3,x[7],"x3dot"); p->get_prime(&u1,&u2,&u3); gv_eq(u1,x[5]/x[4],"x1prime"); gv_eq(u2,x[6]/x[4],"x2prime"); gv_eq(u3,x[7]/x[4],"x3prime"); p->getCoord(&u0,&u1,&u2,&u3); gv_eq(u0,x[0],"x0"); gv_eq(u1,x[1],"x1"); gv_eq(u2,x[2],"x2"); gv_eq(u3,x[3],"x3"); }
