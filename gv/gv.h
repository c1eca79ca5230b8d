/* Specification primitives.  Under the verifier (GV_SYM) gv_real() is a fresh
   symbol and gv_eq()/gv_true() are proof obligations; in the native replay
   build the same harness runs the real library on a concrete witness. */
#ifndef GV_H
#define GV_H
#include <cmath>
#include <string>
extern "C" {
double gv_real(const char *name, double lo, double hi); /* any real; lo,hi: range sampled when looking for a failing input */
long   gv_int(const char *name, long lo, long hi);      /* any integer in [lo,hi] */
unsigned long gv_bits(const char *name);                /* any 64-bit pattern */
int    gv_bool(const char *name);
long   gv_choose(const char *name, long n);             /* exhaustive finite choice 0..n-1 */
void   gv_assume(int c);
void   gv_eq(double a, double b, const char *label);    /* obligation: a == b over the reals */
void   gv_eqi(long a, long b, const char *label);
void   gv_eqp(const void *a, const void *b, const char *label);
void   gv_true(int c, const char *label);
void   gv_streq(const std::string *a, const char *b, const char *label);
double gv_deriv(double e, double x);
double gv_uf(const char *name, long n, const double *args);
void   gv_expect_throw(const char *label);              /* from here the path must end in an exception */
void   gv_allow_throw(void);
void   gv_no_throw(void);
void   gv_enum_floor(void);                             /* from here floor() and fmod() fork over their possible values */
void   gv_cover(const char *label);
void   gv_end(void);
void   gv_samefields(const void *a, const void *b, const char *label); /* same value of every real member that depends on an input */
void   gv_init(const char *file);                       /* run the static initialisers of a source file (no-op natively) */
int    gv_alive(const void *p);
double *gv_array(const char *name, long n);
void   gv_print(const char *l, double x);
}
#ifdef GV_SYM
# define GV_HARNESS(n) extern "C" void n(void)
template<class F> double gv_D(F f, const double *x, int n, int mu) { (void)n; return gv_deriv(f(x), x[mu]); }
#else
struct gv_reg { gv_reg(const char *n, void (*f)(void)); };
# define GV_HARNESS(n) extern "C" void n(void); static gv_reg gv_reg_##n(#n, n); extern "C" void n(void)
extern double gv_derr; /* largest relative error estimate of a numerical derivative in this run */
template<class F> double gv_D(F f, const double *x, int n, int mu) {
  double y[16]; for (int i=0;i<n;++i) y[i]=x[i];
  double h=2e-3*std::fmax(0.1,std::fabs(x[mu])), x0=x[mu];
  auto d=[&](double h){ y[mu]=x0+h; double a=f(y); y[mu]=x0-h; double b=f(y); return (a-b)/(2*h); };
  double d1=d(h), d2=d(h/2), d3=d(h/4);
  double r1=(4*d2-d1)/3, r2=(4*d3-d2)/3, r3=(16*r2-r1)/15, e=std::fabs(r2-r1)/(std::fabs(r3)+1e-3)/1e3; if (e>1e-9 && e>gv_derr) gv_derr=e; return r3;
}
#endif
struct gv_lbl { char b[96]; };
/* label helpers kept trivial so that labels stay concrete under the verifier */
static inline const char *gv_ij(gv_lbl &l, const char *p, int i, int j=-1, int k=-1) {
  int n=0; while (p[n] && n<80) { l.b[n]=p[n]; ++n; }
  int ix[3]={i,j,k};
  for (int q=0;q<3;++q) if (ix[q]>=0) { l.b[n++]='.'; if (ix[q]>=10) l.b[n++]=char('0'+ix[q]/10); l.b[n++]=char('0'+ix[q]%10); }
  l.b[n]=0; return l.b;
}
#endif
