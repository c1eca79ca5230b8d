#include "clone.h"
#include "GyotoStar.h"
#include "GyotoFixedStar.h"
#include "GyotoFreeStar.h"
#include "GyotoInflateStar.h"
#include "GyotoStarTrace.h"
#include "GyotoBlob.h"
#include "GyotoPlasmoid.h"
#include "GyotoTorus.h"
#include "GyotoDeformedTorus.h"
#include "GyotoOscilTorus.h"
#include "GyotoPolishDoughnut.h"
#include "GyotoJet.h"
#include "GyotoThickDisk.h"
#include "GyotoSphericalAccretion.h"
#include "GyotoFlaredDiskSynchrotron.h"
#include "GyotoDisk3D.h"
#include "GyotoThinDisk.h"
#include "GyotoPageThorneDisk.h"
#include "GyotoPatternDisk.h"
#include "GyotoPatternDiskBB.h"
#include "GyotoDynamicalDisk.h"
#include "GyotoDynamicalDisk3D.h"
#include "GyotoThinDiskPL.h"
#include "GyotoThinDiskIronLine.h"
#include "GyotoThinDiskProfile.h"
#include "GyotoThinDiskGridIntensity.h"
#include "GyotoStochasticThinDisk.h"
#include "GyotoDirectionalDisk.h"
#include "GyotoXillverReflection.h"
#include "GyotoEquatorialHotSpot.h"
#include "GyotoSimThickDisk.h"
#include "GyotoSimThinDisk.h"
M(Star,Astrobj::Star,"Astrobj.C","StandardAstrobj.C","UniformSphere.C","Star.C")
M(FixedStar,Astrobj::FixedStar,"Astrobj.C","StandardAstrobj.C","UniformSphere.C","FixedStar.C")
M(FreeStar,Astrobj::FreeStar,"Astrobj.C","StandardAstrobj.C","UniformSphere.C","FreeStar.C")
M(InflateStar,Astrobj::InflateStar,"Astrobj.C","StandardAstrobj.C","UniformSphere.C","Star.C","InflateStar.C")
static const char *const tminmax[]={"TMin","TMax",0}; /* the two times are kept in increasing order */
MS(StarTrace,Astrobj::StarTrace,nothing,tminmax,"Astrobj.C","StandardAstrobj.C","UniformSphere.C","Star.C","StarTrace.C")
M(Blob,Astrobj::Blob,"Astrobj.C","StandardAstrobj.C","UniformSphere.C","Blob.C")
M(Plasmoid,Astrobj::Plasmoid,"Astrobj.C","StandardAstrobj.C","UniformSphere.C","Plasmoid.C")
M(Torus,Astrobj::Torus,"Astrobj.C","StandardAstrobj.C","Torus.C")
M(DeformedTorus,Astrobj::DeformedTorus,"Astrobj.C","StandardAstrobj.C","DeformedTorus.C")
M(OscilTorus,Astrobj::OscilTorus,"Astrobj.C","StandardAstrobj.C","OscilTorus.C")
static const char *const metric[]={"Metric",0}; /* with a metric, the setters solve for the torus geometry by iteration */
MS(PolishDoughnut,Astrobj::PolishDoughnut,metric,metric,"Astrobj.C","StandardAstrobj.C","PolishDoughnut.C")
M(Jet,Astrobj::Jet,"Astrobj.C","StandardAstrobj.C","Jet.C")
M(ThickDisk,Astrobj::ThickDisk,"Astrobj.C","StandardAstrobj.C","ThickDisk.C")
M(SphericalAccretion,Astrobj::SphericalAccretion,"Astrobj.C","StandardAstrobj.C","SphericalAccretion.C")
M(FlaredDiskSynchrotron,Astrobj::FlaredDiskSynchrotron,"Astrobj.C","StandardAstrobj.C","FlaredDiskSynchrotron.C")
M(Disk3D,Astrobj::Disk3D,"Astrobj.C","Disk3D.C")
M(ThinDisk,Astrobj::ThinDisk,"Astrobj.C","ThinDisk.C")
M(PageThorneDisk,Astrobj::PageThorneDisk,"Astrobj.C","ThinDisk.C","PageThorneDisk.C")
M(PatternDisk,Astrobj::PatternDisk,"Astrobj.C","ThinDisk.C","PatternDisk.C")
M(PatternDiskBB,Astrobj::PatternDiskBB,"Astrobj.C","ThinDisk.C","PatternDisk.C","PatternDiskBB.C")
M(DynamicalDisk,Astrobj::DynamicalDisk,"Astrobj.C","ThinDisk.C","PatternDisk.C","PatternDiskBB.C","DynamicalDisk.C")
M(DynamicalDisk3D,Astrobj::DynamicalDisk3D,"Astrobj.C","Disk3D.C","DynamicalDisk3D.C")
M(ThinDiskPL,Astrobj::ThinDiskPL,"Astrobj.C","ThinDisk.C","ThinDiskPL.C")
M(ThinDiskIronLine,Astrobj::ThinDiskIronLine,"Astrobj.C","ThinDisk.C","ThinDiskIronLine.C")
M(ThinDiskProfile,Astrobj::ThinDiskProfile,"Astrobj.C","ThinDisk.C","ThinDiskProfile.C")
M(ThinDiskGridIntensity,Astrobj::ThinDiskGridIntensity,"Astrobj.C","ThinDisk.C","ThinDiskGridIntensity.C")
M(StochasticThinDisk,Astrobj::StochasticThinDisk,"Astrobj.C","ThinDisk.C","StochasticThinDisk.C")
M(DirectionalDisk,Astrobj::DirectionalDisk,"Astrobj.C","ThinDisk.C","DirectionalDisk.C")
static const char *const lamp[]={"TimeLampPhiZero",0}; /* kept modulo the period of the lamp */
MS(XillverReflection,Astrobj::XillverReflection,nothing,lamp,"Astrobj.C","ThinDisk.C","XillverReflection.C")
M(EquatorialHotSpot,Astrobj::EquatorialHotSpot,"Astrobj.C","ThinDisk.C","EquatorialHotSpot.C")
M(SimThickDisk,Astrobj::SimThickDisk,"Astrobj.C","StandardAstrobj.C","SimBridge.C","SimThickDisk.C")
M(SimThinDisk,Astrobj::SimThinDisk,"Astrobj.C","StandardAstrobj.C","SimBridge.C","SimThinDisk.C")
