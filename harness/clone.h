#include "props.h"
template<class...F> static void inits(F...f) { const char *t[]={"Object.C","Metric.C","KerrBL.C","Spectrum.C","PowerLawSpectrum.C",f...}; for (auto x : t) gv_init(x); Units::Init(); }
static const char *const nothing[]={0};
#define MS(n,T,cskip,rskip,...) \
 GV_HARNESS(H_copy_clone_##n) { inits(__VA_ARGS__); cloned(new T(),cskip); } \
 GV_HARNESS(H_copy_indep_##n) { inits(__VA_ARGS__); independent(new T(),cskip); } \
 GV_HARNESS(H_read_##n) { inits(__VA_ARGS__); readback(new T(),rskip); } \
 GV_HARNESS(H_readu_##n) { inits(__VA_ARGS__); readunit(new T(),rskip); gv_true(1,"end"); }
#define MC(n,T,...) \
 GV_HARNESS(H_copy_clone_##n) { inits(__VA_ARGS__); cloned(new T()); } \
 GV_HARNESS(H_copy_indep_##n) { inits(__VA_ARGS__); independent(new T()); }
#define M(n,T,...) MS(n,T,nothing,nothing,__VA_ARGS__)
