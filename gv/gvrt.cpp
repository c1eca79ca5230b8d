// native runtime of the specification primitives: replays a witness
#include "gv.h"
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <vector>
#include <unistd.h>
#include <cmath>
#include <malloc.h>
#include "GyotoError.h"
static std::map<std::string,void(*)(void)> &tab() { static std::map<std::string,void(*)(void)> t; return t; }
gv_reg::gv_reg(const char*n, void(*f)(void)) { tab()[n]=f; }
static std::map<std::string,std::string> wit;
static int nfail=0, allow=0; static std::string expect; static double tol=1e-6; double gv_derr=0;
extern "C" int __asan_address_is_poisoned(void const volatile *) __attribute__((weak));
static void fail(const char*l,const char*d){ printf("FAIL %s : %s\n",l,d); fflush(stdout); nfail++; }
extern "C" {
double gv_real(const char*n,double lo,double hi){ auto i=wit.find(n); double v= i==wit.end()?0.5*(lo+hi):strtod(i->second.c_str(),0); return v; }
long gv_int(const char*n,long lo,long hi){ auto i=wit.find(n); return i==wit.end()?lo:strtol(i->second.c_str(),0,10); }
unsigned long gv_bits(const char*n){ auto i=wit.find(n); return i==wit.end()?0:strtoul(i->second.c_str(),0,10); }
int gv_bool(const char*n){ auto i=wit.find(n); return i==wit.end()?0:atoi(i->second.c_str()); }
long gv_choose(const char*n,long k){ auto i=wit.find(n); unsigned long v= i==wit.end()?0:strtoul(i->second.c_str(),0,10); return v>=(unsigned long)k?k-1:long(v); }
void gv_assume(int c){ if(!c){ printf("ASSUME\n"); fflush(stdout); _exit(nfail?1:77); } }
void gv_eq(double a,double b,const char*l){ double s=std::fmax(std::fabs(a),std::fabs(b)); bool ok= (a==b) || std::fabs(a-b)<=(tol+1e3*gv_derr)*s || std::fabs(a-b)<=1e-9;
  if(a!=a||b!=b) ok=(a!=a&&b!=b);
  if(!ok){ char d[128]; snprintf(d,128,"%.17g != %.17g",a,b); fail(l,d);} }
void gv_eqi(long a,long b,const char*l){ if(a!=b){ char d[128]; snprintf(d,128,"%ld != %ld",a,b); fail(l,d);} }
void gv_eqp(const void*a,const void*b,const char*l){ if(a!=b){ char d[128]; snprintf(d,128,"%p != %p",a,b); fail(l,d);} }
void gv_true(int c,const char*l){ if(!c) fail(l,"false"); }
void gv_streq(const std::string*a,const char*b,const char*l){ if(*a!=b) fail(l,(*a+" != "+b).c_str()); }
double gv_deriv(double,double){ abort(); }
static double h01(const char*n,long k){ unsigned long long h=1469598103934665603ULL; for(;*n;++n){h^=(unsigned char)*n;h*=1099511628211ULL;} h^=(unsigned long long)k+0x9e37; h*=1099511628211ULL; h^=h>>29; h*=1099511628211ULL; return double((h>>11)&((1ULL<<52)-1))/double(1ULL<<52); }
double gv_uf(const char*n,long k,const double*a){ double p=6*h01(n,1000); for(long i=0;i<k;++i) p+=(0.2+h01(n,i))*a[i]; return 0.5+h01(n,1001)+std::cos(p); }
void gv_expect_throw(const char*l){ expect=l; }
void gv_allow_throw(void){ allow=1; }
void gv_no_throw(void){ allow=0; }
void gv_enum_floor(void){}
void gv_cover(const char*){}
void gv_init(const char *) {}
void gv_samefields(const void *a, const void *b, const char *l) {
  size_t n=malloc_usable_size((void*)a), m=malloc_usable_size((void*)b); if (m<n) n=m;
  for (size_t o=0;o+8<=n;o+=8) { double x,y; memcpy(&x,(const char*)a+o,8); memcpy(&y,(const char*)b+o,8);
    double X=std::fabs(x), Y=std::fabs(y); if (!(X>1e-30&&X<1e30) || !(Y==0||(Y>1e-30&&Y<1e30))) continue;
    if (std::fabs(x-y)>1e-9*X) { char t[160]; snprintf(t,sizeof t,"%s member@%zu",l,o); gv_eq(x,y,t); } }
}
void gv_end(void){ throw 4242; }
int gv_alive(const void*p){ return __asan_address_is_poisoned ? !__asan_address_is_poisoned(p) : 1; }
double *gv_array(const char*n,long k){ double*p=new double[k]; for(long i=0;i<k;++i){ double x=i; p[i]=gv_uf(n,1,&x);} return p; }
void gv_print(const char*l,double x){ printf("%s %.17g\n",l,x); }
}
int main(int c,char**v){
  if(c<3) return 2;
  FILE*f=fopen(v[2],"r"); if(!f) return 2; char n[256],val[256]; while(fscanf(f,"%255[^\t]\t%255s\n",n,val)==2) wit[n]=val; fclose(f);
  auto i=tab().find(v[1]); if(i==tab().end()){ fprintf(stderr,"no harness %s\n",v[1]); return 2; }
  alarm(60);
  try { i->second(); if(!expect.empty()) fail(expect.c_str(),"did not throw"); }
  catch(int k){ if(k!=4242) throw; }
  catch(Gyoto::Error&e){ if(expect.empty()&&!allow) fail("no-throw",std::string(e).c_str()); }
  catch(std::exception&e){ if(expect.empty()&&!allow) fail("no-throw",e.what()); }
  printf(nfail?"RESULT fail\n":"RESULT ok\n"); fflush(stdout); _exit(nfail?1:0);
}
