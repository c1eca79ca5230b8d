#include "mkmetric.h"
#include "clone.h"
M(kerrbl,Metric::KerrBL) M(kerrks,Metric::KerrKS,"KerrKS.C") M(mink,Metric::Minkowski,"Minkowski.C") M(hayward,Metric::Hayward,"Hayward.C")
M(rn,Metric::ReissnerNordstrom,"ReissnerNordstrom.C") M(rz,Metric::RezzollaZhidenko,"RezzollaZhidenko.C") M(krz,Metric::KonoplyaRezzollaZhidenko,"KonoplyaRezzollaZhidenko.C")
M(sh,Metric::SchwarzschildHarmonic,"SchwarzschildHarmonic.C") M(cs,Metric::ChernSimons,"ChernSimons.C") M(bg,Metric::BalasinGrumiller,"BalasinGrumiller.C") M(kerr2pn,Metric::Kerr2PN,"Kerr2PN.C")
