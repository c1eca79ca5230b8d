From 374009c12a5477b87b2a02289614395ce0849f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:13 +0000
Subject: [PATCH 01/52] fix: BalasinGrumiller::christoffel: theta-derivative of
 W had wrong sign and weights

---
 lib/BalasinGrumiller.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/BalasinGrumiller.C b/lib/BalasinGrumiller.C
index ad883d8..fc49c17 100644
--- a/lib/BalasinGrumiller.C
+++ b/lib/BalasinGrumiller.C
@@ -122,11 +122,11 @@ double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_
          + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
          + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
 
-  double DWDth = (V0value_ * Rvalue_ * r * sin(theta) * (
-         1.0 / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-         + 1.0 / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+  double DWDth = (V0value_ * r * sin(theta) * (
+         - Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+         + Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+         + r0value_ / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+         - r0value_ / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
 
 
 dst[0][0][1] = dst[0][1][0] = (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
-- 
2.43.0


From 1f54a609e45c7090b53e5e2a9b2f96e22f15dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:13 +0000
Subject: [PATCH 02/52] fix: Hayward::gmunu_up(pos,0,3): wrong sign of b^2
 terms for r<0

---
 lib/Hayward.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Hayward.C b/lib/Hayward.C
index 0e33e97..13308ca 100644
--- a/lib/Hayward.C
+++ b/lib/Hayward.C
@@ -344,7 +344,7 @@ double Hayward::gmunu_up(const double * pos, int mu, int nu) const
       if ((mu==1) && (nu==1)) return (a2_*r3+r5-2.*a2b2-2.*b2_*r2-2.*r4)/sigma/dm;
       if ((mu==2) && (nu==2)) return 1./sigma;
       if ((mu==3) && (nu==3)) return (a2_*r3*cth2-2.*a2b2*cth2+r5-2.*b2_*r2-2.*r4)/(a4_*r3*cth2+a2_*r5*cth2-2.*a4b2*cth2-2.*a2b2*r2*cth2+2.*a2_*r4*sth2+a2_*r5+r7-2.*a2b2*r2-2.*a2_*r4-2.*b2_*r4-2.*r6)/sth2;
-      if (((mu==0) && (nu==3)) || ((mu==3) && (nu==0)))return  -2.*spin_*r4/sigma/(a2_*r3+r5+2.*a2b2+2.*b2_*r2-2.*r4);
+      if (((mu==0) && (nu==3)) || ((mu==3) && (nu==0)))return  -2.*spin_*r4/sigma/(a2_*r3+r5-2.*a2b2-2.*b2_*r2-2.*r4);
     }
   
   return 0.;
-- 
2.43.0


From 9b743e6afdf5ec38b9576924a1ef70dfa12f0af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:13 +0000
Subject: [PATCH 03/52] fix: RezzollaZhidenko copy constructor copied rms into
 rmb

---
 lib/RezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 7f01d9a..5de4427 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -100,7 +100,7 @@ Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko()
 
 Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko(const RezzollaZhidenko & orig)
   : Generic(orig),
-    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rms_), aparam_(NULL), bparam_(NULL)
+    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rmb_), aparam_(NULL), bparam_(NULL)
 {
   GYOTO_DEBUG << endl;
   aparam_ = new double[GYOTO_NBPARAM_MAX];
-- 
2.43.0


From b98767c2cb85287aef6435a3fdfb21b4303eb1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:13 +0000
Subject: [PATCH 04/52] fix: KonoplyaRezzollaZhidenko copy constructor copied
 spin^4 into spin^3

---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index f7f7c2f..c058b15 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -148,7 +148,7 @@ Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko()
 
 Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko(const KonoplyaRezzollaZhidenko & orig)
   : Generic(orig),
-    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin4_), spin4_(orig.spin4_),
+    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin3_), spin4_(orig.spin4_),
     rms_(orig.rms_), deltashorizon_(NULL), deltasasymptotics_(NULL)
 {
   GYOTO_DEBUG << endl;
-- 
2.43.0


From 62c4f304afd7b13fe79a8baacc19636810efc0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:13 +0000
Subject: [PATCH 05/52] fix: KonoplyaRezzollaZhidenko::drN2 ignored the a00
 asymptotic parameter

---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index c058b15..a4b77a2 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -445,7 +445,7 @@ double KonoplyaRezzollaZhidenko::drN2(const double rr, const double th) const{
          k23 = DefineHorizonParameters(HorizonParameter::k23, r0);
          
   double drN2 = r0/rr2*(1.-epsilon0*r0/rr+(a00-epsilon0+k00)*r02/rr2+a01*r03/rr3)
-              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(k00-epsilon0)*r02/rr3-3.*a01*r03/rr4)
+              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(a00-epsilon0+k00)*r02/rr3-3.*a01*r03/rr4)
               -(2.*(k20+epsilon2)*r02/rr3
               +k21*k22*r04/rr5/((1.+(k23+k22)*(1.-r0/rr))*(1.+(k23+k22)*(1.-r0/rr)))
               +3.*(k21/(1.+k22*(1.-r0/rr)/(1.+k23*(1.-r0/rr)))+a20)*r03/rr4
-- 
2.43.0


From 3d23509994be8be05288a8b52b5db5c098a05153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:55 +0000
Subject: [PATCH 06/52] fix: KerrKS::circularVelocity must be geodesic for a
 spinning black hole

---
 lib/KerrKS.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/KerrKS.C b/lib/KerrKS.C
index ee28cf9..101e029 100644
--- a/lib/KerrKS.C
+++ b/lib/KerrKS.C
@@ -271,7 +271,8 @@ void KerrKS::circularVelocity(double const coor[4], double vel[4],
   }
 
   double rcross=sqrt ( coor[1]*coor[1] + coor[2]*coor[2] - spin_*spin_);
-  double Omega=dir*pow(rcross*rcross*rcross, -0.5);//angular Keplerian velocity
+  // Angular velocity of the equatorial circular geodesic
+  double Omega=1./(dir*pow(rcross, 1.5)+spin_);
   
   vel[1] = -coor[2]*Omega;
   vel[2] =  coor[1]*Omega;
-- 
2.43.0


From 85932646145b6318ade4dfc0dbca52d071b243a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:55 +0000
Subject: [PATCH 07/52] fix: RezzollaZhidenko::circularVelocity ignored dir

---
 lib/RezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 5de4427..d269c86 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -309,7 +309,7 @@ void RezzollaZhidenko::circularVelocity(double const coor[4], double vel[4],
 
   vel[1] = vel[2] = 0.;
   double Np = Nprime(rr), NN=sqrt(N2(rr));
-  vel[3] = sqrt(Np*NN/rr); // this is Omega=dphi/dt
+  vel[3] = dir*sqrt(Np*NN/rr); // this is Omega=dphi/dt
 
   vel[0] = SysPrimeToTdot(coord, vel+1); // dt/dtau
   vel[3] *= vel[0]; // dphi/dtau
-- 
2.43.0


From 946f0b82d87d387296b8feaf56df6dc4cb415e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:55 +0000
Subject: [PATCH 08/52] fix: ChernSimons::circularVelocity ignored dir

---
 lib/ChernSimons.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ChernSimons.C b/lib/ChernSimons.C
index 7176b55..1faf716 100644
--- a/lib/ChernSimons.C
+++ b/lib/ChernSimons.C
@@ -319,7 +319,7 @@ void ChernSimons::circularVelocity(double const coor[4], double vel[4],
   // This is Omega_CS:
   vel[3] =
     (
-     aa*fact+56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
+     aa*fact+dir*56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
      )
     /
     (
-- 
2.43.0


From bda78e1aa56362732c31e6b2b39e04c54675172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:55 +0000
Subject: [PATCH 09/52] fix: KonoplyaRezzollaZhidenko::circularVelocity ignored
 dir

---
 include/GyotoKonoplyaRezzollaZhidenko.h | 2 +-
 lib/KonoplyaRezzollaZhidenko.C          | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/GyotoKonoplyaRezzollaZhidenko.h b/include/GyotoKonoplyaRezzollaZhidenko.h
index e5513db..319d8b4 100644
--- a/include/GyotoKonoplyaRezzollaZhidenko.h
+++ b/include/GyotoKonoplyaRezzollaZhidenko.h
@@ -92,7 +92,7 @@ class Gyoto::Metric::KonoplyaRezzollaZhidenko
   double dthW(const double rr, const double th) const;
   double drK2(const double rr, const double th) const;
   double dthK2(const double rr, const double th) const;
-  double KeplerianSpecificAngularMomentum(const double rr, const double th) const;
+  double KeplerianSpecificAngularMomentum(const double rr, const double th, const double dir=1.) const;
   double KeplerianAngularVelocity(const double rr, const double th, const double ell) const;
   double KeplerianEnergy(const double rr, const double th, const double Omega) const;
   double KeplerianAngularMomentum(const double rr, const double th, const double Omega) const;
diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index a4b77a2..f204001 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -669,7 +669,7 @@ int KonoplyaRezzollaZhidenko::isStopCondition(double const * const coord) const
   return coord[1] < rsink ;
 }
 
-double KonoplyaRezzollaZhidenko::KeplerianSpecificAngularMomentum(const double rr, const double th) const {
+double KonoplyaRezzollaZhidenko::KeplerianSpecificAngularMomentum(const double rr, const double th, const double dir) const {
   double rr2 = rr*rr, rr3 = rr2*rr, 
          sinth = sin(th), sinth2 = sinth*sinth;
   double NN2 = N2(rr, th), NN22 = NN2*NN2, drNN2 = drN2(rr,th),
@@ -683,10 +683,10 @@ double KonoplyaRezzollaZhidenko::KeplerianSpecificAngularMomentum(const double r
   double gtt = -(NN2-WW2*sinth2)/KK2,
          gtp = -WW*rr*sinth2,
          gpp = KK2*rr2*sinth2;
-  // Positive Omega for for a prograde motion
+  // Positive Omega for a prograde motion, negative for retrograde (dir<0)
   double Omega1 = -(gtp+ell1*gtt)/(gpp+ell1*gtp);//,
     //Omega2 = -(gtp+ell2*gtt)/(gpp+ell2*gtp);
-  double ell = (Omega1 > 0) ? ell1 : ell2;       
+  double ell = (dir*Omega1 > 0) ? ell1 : ell2;       
   return ell;
 } 
 
@@ -756,7 +756,7 @@ void KonoplyaRezzollaZhidenko::circularVelocity(double const coor[4], double vel
 # endif
   double th = coor[2], sinth = sin(th), rr = coor[1]*sinth;// rr projected on equat plane // Irene: why?? 
   double coord[4] = {coor[0],rr,M_PI*0.5,coor[3]};
-  double ell = KeplerianSpecificAngularMomentum(rr,th),
+  double ell = KeplerianSpecificAngularMomentum(rr,th,dir),
          Omega = KeplerianAngularVelocity(rr,th,ell);
 
   vel[1] = vel[2] = 0.;
-- 
2.43.0


From 20473a99d0dd54ab332d9b8b2c34c11a7373f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:55 +0000
Subject: [PATCH 10/52] fix: circularVelocity ignored Keplerian in
 RezzollaZhidenko, ReissnerNordstrom, SchwarzschildHarmonic and Hayward

---
 lib/Hayward.C               | 8 ++++++++
 lib/ReissnerNordstrom.C     | 8 ++++++++
 lib/RezzollaZhidenko.C      | 7 +++++++
 lib/SchwarzschildHarmonic.C | 8 ++++++++
 4 files changed, 31 insertions(+)

diff --git a/lib/Hayward.C b/lib/Hayward.C
index 13308ca..2710380 100644
--- a/lib/Hayward.C
+++ b/lib/Hayward.C
@@ -99,6 +99,14 @@ double Hayward::getPotential(double const pos[4], double l_cst) const {
 
 void Hayward::circularVelocity(double const coor[4], double vel[4],
 			       double dir) const {
+
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Keplerian velocity instead of the true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG<<"coor=["<<coor[0]<<", "<<coor[1]<<", "<<coor[2]<<", "<<coor[3]
 	     <<"], dir="<<dir<<endl;
diff --git a/lib/ReissnerNordstrom.C b/lib/ReissnerNordstrom.C
index ebd093e..d952cf3 100644
--- a/lib/ReissnerNordstrom.C
+++ b/lib/ReissnerNordstrom.C
@@ -139,6 +139,14 @@ int ReissnerNordstrom::isStopCondition(double const * const coord) const {
 
 void ReissnerNordstrom::circularVelocity(double const * coor, double* vel,
 					     double dir) const {
+
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Keplerian velocity instead of the true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
   double sinth = sin(coor[2]);
   double coord[4] = {coor[0], coor[1]*sinth, M_PI*0.5, coor[3]};
   if (charge_*charge_ > coord[1])
diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index d269c86..9f5f690 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -300,6 +300,13 @@ int RezzollaZhidenko::isStopCondition(double const * const coord) const {
 void RezzollaZhidenko::circularVelocity(double const coor[4], double vel[4],
 					double dir) const {
 
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Keplerian velocity instead of the true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG<<"coor=["<<coor[0]<<", "<<coor[1]<<", "<<coor[2]<<", "<<coor[3]
 	     <<"], dir="<<dir<<endl;
diff --git a/lib/SchwarzschildHarmonic.C b/lib/SchwarzschildHarmonic.C
index d8c0a72..29f595f 100644
--- a/lib/SchwarzschildHarmonic.C
+++ b/lib/SchwarzschildHarmonic.C
@@ -105,6 +105,14 @@ int SchwarzschildHarmonic::isStopCondition(double const * const coord) const {
 
 void SchwarzschildHarmonic::circularVelocity(double const * coor, double* vel,
 					     double dir) const {
+
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Keplerian velocity instead of the true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
   double sinth = sin(coor[2]);
   double rBL = coor[1]+1.;
   double coord[4] = {coor[0], rBL*sinth, M_PI*0.5, coor[3]};
-- 
2.43.0


From ce7f131c08df4ff7e3704208531c78b45da5e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:09 +0000
Subject: [PATCH 11/52] fix: Boost::doStep applied checkPhiTheta to the 3+1
 state, flipping the wrong velocity component

---
 lib/WorldlineIntegState.C | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index b89290a..8c5ed64 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -393,9 +393,6 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
 
   // We call the Boost stepper
   do_step_(xx, step);
-  if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-    line_->checkPhiTheta(&xx[0]);
-  }
   
   // Transform back to original vector coord
   if (integ_31_==false) coordout = xx;
@@ -417,6 +414,11 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
     
     coordout = {tnew,rr,th,ph,tdotnew,rdot,thdot,phdot};
   }
+
+  // Only now is the state in the layout checkPhiTheta expects
+  if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
+    line_->checkPhiTheta(&coordout[0]);
+  }
 }
 
 std::string Worldline::IntegState::Boost::kind() {
-- 
2.43.0


From 5cb1d25ee3265687122121b09da078a9795915af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:48 +0000
Subject: [PATCH 12/52] fix: polarization basis was not transformed when a
 parallel-transporting photon crossed the polar axis

---
 include/GyotoWorldline.h  | 8 ++++++++
 lib/Worldline.C           | 9 +++++++++
 lib/WorldlineIntegState.C | 4 ++--
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/GyotoWorldline.h b/include/GyotoWorldline.h
index 1c3713e..6169a5a 100644
--- a/include/GyotoWorldline.h
+++ b/include/GyotoWorldline.h
@@ -856,6 +856,14 @@ class Gyoto::Worldline
    */
   void checkPhiTheta(double coord[8]) const;
 
+  /**
+   * \brief Same as checkPhiTheta(double coord[8]) for a full state
+   *
+   * Every vector in coord (the 4-velocity and, when there, the
+   * parallel transported base vectors) is transformed along.
+   */
+  void checkPhiTheta(Gyoto::state_t &coord) const;
+
   /**
    * \brief Get computed positions in sky coordinates
    */
diff --git a/lib/Worldline.C b/lib/Worldline.C
index aa5fd53..33a04ed 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1288,6 +1288,15 @@ void Worldline::checkPhiTheta(double coord[8]) const{
   }
 }
 
+void Worldline::checkPhiTheta(state_t &coord) const{
+  double pos[8]={0.,0.,coord[2],coord[3],0.,0.,1.,0.};
+  checkPhiTheta(pos);
+  coord[2]=pos[2];
+  coord[3]=pos[3];
+  // theta-component of all the vectors
+  for (size_t i=6; i<coord.size(); i+=4) coord[i]*=pos[6];
+}
+
 void Worldline::get_dot(double *x0dest, double *x1dest, double *x2dest, double *x3dest) const {
   //  if (sysco!=sys_)
   //  GYOTO_ERROR("At this point, coordinate conversion is not implemented");
diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 8c5ed64..cec745a 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -358,7 +358,7 @@ int Worldline::IntegState::Boost::nextStep(state_t &coord, double& tau, double h
   tau += dtau;
   checkNorm(&coord[0]);
   if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-     line_->checkPhiTheta(&coord[0]);
+     line_->checkPhiTheta(coord);
   }
 
   return line_->stopcond;
@@ -417,7 +417,7 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
 
   // Only now is the state in the layout checkPhiTheta expects
   if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-    line_->checkPhiTheta(&coordout[0]);
+    line_->checkPhiTheta(coordout);
   }
 }
 
-- 
2.43.0


From cddf8713696f14267de626e5dce32764580c8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:59 +0000
Subject: [PATCH 13/52] fix: reorthonormalizeBasis exchanged the two
 polarization vectors

---
 lib/WorldlineIntegState.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index cec745a..76d4d15 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -482,8 +482,8 @@ void Worldline::IntegState::Boost::reorthonormalizeBasis(state_t &coord) const {
 
   // Write output in coord
   for (int ii=0; ii<4; ii++) {
-    coord[ii+8]  = Etheta[ii];
-    coord[ii+12] = Ephi[ii];
+    coord[ii+8]  = Ephi[ii];
+    coord[ii+12] = Etheta[ii];
   }
 }
 
-- 
2.43.0


From 94bb51fe8801c6c249412e51a29c9246c8f1e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:00 +0000
Subject: [PATCH 14/52] fix: norm-drift error checker read past the end of the
 3+1 state

---
 include/GyotoWorldline.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/GyotoWorldline.h b/include/GyotoWorldline.h
index 6169a5a..1e01d46 100644
--- a/include/GyotoWorldline.h
+++ b/include/GyotoWorldline.h
@@ -1135,6 +1135,10 @@ class Gyoto::Worldline::IntegState::Boost : public Generic {
       // Standard Boost numerical error
       Value err_default = checker.error(algebra, x_old, dxdt_old, x_err, dt);
       
+      // The 3+1 state (7 components) does not contain the 4-velocity,
+      // its norm can't be evaluated here
+      if (x_old.size()<8) return err_default;
+
       // Compute new vector (4-position, 4-velocity, polar basis if parallel_transport)
       state_t x_new=x_old;
       do_step_(x_new, dt);
-- 
2.43.0


From 28c0dc0025302b6afb0ae588825ac75c996e4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:55 +0000
Subject: [PATCH 15/52] fix: cloning a worldline keeps the Integ31 choice

---
 lib/WorldlineIntegState.C | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 76d4d15..3ac079c 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -119,7 +119,11 @@ Worldline::IntegState::Legacy::Legacy(Worldline *parent) : Generic(parent)
 
 Worldline::IntegState::Legacy *
 Worldline::IntegState::Legacy::clone(Worldline *newparent) const
-{ return new Legacy(newparent); }
+{
+  Legacy * res = new Legacy(newparent);
+  res->integ31(integ_31_);
+  return res;
+}
 
 void
 Worldline::IntegState::Legacy::init(Worldline * line,
@@ -234,7 +238,11 @@ void Worldline::IntegState::Boost::init()
 
 Worldline::IntegState::Boost *
 Worldline::IntegState::Boost::clone(Worldline*newparent) const
-{ return new Boost(newparent, kind_); }
+{
+  Boost * res = new Boost(newparent, kind_);
+  res->integ31(integ_31_);
+  return res;
+}
 
 
 
-- 
2.43.0


From 5523df182325d4503f6ab36f21e23cb6a6e3c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:55 +0000
Subject: [PATCH 16/52] fix: Worldline::integrator() keeps the Integ31 choice

---
 lib/Worldline.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 33a04ed..910e795 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -372,12 +372,14 @@ void Worldline::tell(Gyoto::Hook::Teller* msg) {
 }
 
 void Worldline::integrator(std::string const &type) {
+  bool integ_31 = state_() ? state_->integ31() : false;
   if (type=="Legacy") state_ = new IntegState::Legacy(this);
 #ifdef GYOTO_HAVE_BOOST_INTEGRATORS
   else state_ = new IntegState::Boost(this, type);
 #else
   else GYOTO_ERROR("unrecognized integrator (recompile with boost?)");
 #endif
+  state_->integ31(integ_31);
 }
 
 std::string Worldline::integrator() const {
-- 
2.43.0


From 8f0208863d68412ea4dc2542fd963b74870b0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:55 +0000
Subject: [PATCH 17/52] fix: DirectionalDisk::lampcutoffsinev() returns eV, the
 unit it is set in

---
 lib/DirectionalDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DirectionalDisk.C b/lib/DirectionalDisk.C
index 4a4015a..d3686c6 100644
--- a/lib/DirectionalDisk.C
+++ b/lib/DirectionalDisk.C
@@ -252,7 +252,7 @@ void DirectionalDisk::lampcutoffsinev(std::vector<double> const &v) {
 
 std::vector<double> DirectionalDisk::lampcutoffsinev() const {
   std::vector<double> v (2, 0.);
-  v[0]=minfreq_lampframe_; v[1]=maxfreq_lampframe_;
+  v[0]=minfreq_lampframe_/GYOTO_eV2Hz; v[1]=maxfreq_lampframe_/GYOTO_eV2Hz;
   return v;
 }
 
-- 
2.43.0


From e564ae8f348d72a246f9c76834e3ab640bece423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:55 +0000
Subject: [PATCH 18/52] fix: DynamicalDisk3D::file() works before a directory
 is set

---
 lib/DynamicalDisk3D.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DynamicalDisk3D.C b/lib/DynamicalDisk3D.C
index b71d24c..458b3e3 100644
--- a/lib/DynamicalDisk3D.C
+++ b/lib/DynamicalDisk3D.C
@@ -600,7 +600,7 @@ void DynamicalDisk3D::file(std::string const &content) {
     GYOTO_ERROR("This Gyoto has no FITS i/o"); 
 #endif     
 }
-std::string DynamicalDisk3D::file() const {return dirname_;}
+std::string DynamicalDisk3D::file() const {return dirname_?dirname_:"";}
 
 void DynamicalDisk3D::tinit(double t) {tinit_=t;}
 double DynamicalDisk3D::tinit()const{return tinit_;}
-- 
2.43.0


From 16d3a8b93003421d978a6cb6e996b79782af8061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:09 +0000
Subject: [PATCH 19/52] fix: cloning a Shift metric clones the sub-metric and
 listens to it

---
 include/GyotoShift.h |  1 +
 lib/Shift.C          | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/GyotoShift.h b/include/GyotoShift.h
index 184d6c2..52c8779 100644
--- a/include/GyotoShift.h
+++ b/include/GyotoShift.h
@@ -55,6 +55,7 @@ class Gyoto::Metric::Shift
   // This is the bare minimum of what a Metric class must implement:
   GYOTO_OBJECT;
   Shift();
+  Shift(const Shift &);
   virtual ~Shift();
   virtual Shift* clone() const ;
 
diff --git a/lib/Shift.C b/lib/Shift.C
index 7d7c006..3e559c3 100644
--- a/lib/Shift.C
+++ b/lib/Shift.C
@@ -54,6 +54,16 @@ Shift::Shift() :
 Generic(GYOTO_COORDKIND_CARTESIAN, "Shift"),
   submet_(NULL)
 {for (int i=0; i<4; ++i) offset_[i]=0.;}
+Shift::Shift(const Shift &o) :
+  Generic(o), Hook::Listener(),
+  submet_(NULL)
+{
+  for (int i=0; i<4; ++i) offset_[i]=o.offset_[i];
+  if (o.submet_()) {
+    submet_=o.submet_->clone();
+    submet_->hook(this);
+  }
+}
 Shift* Shift::clone() const { return new Shift(*this); }
 Shift::~Shift(){
   if (submet_) submet_->unhook(this);
-- 
2.43.0


From 4a5770ed79117eec9a01b81225a5979a640723a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:09 +0000
Subject: [PATCH 20/52] fix: copying a Photon copies the transmission matrix of
 every channel

---
 lib/Photon.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Photon.C b/lib/Photon.C
index 1021a89..f8ae9b2 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -88,7 +88,8 @@ Photon::Photon(const Photon& o) :
       // Eigen::Matrix4d has a non trivial constructor,
       // let's construct it normally with new, then copy
       _allocateTransmissionMatrix();
-      *transmissionMatrix_ = *(o.transmissionMatrix_);
+      for (size_t i=0; i<nsamples; ++i)
+	transmissionMatrix_[i] = o.transmissionMatrix_[i];
     }
   }
 }
-- 
2.43.0


From 470419af4bacdb8c537dc4ab9c5d82d809eb31cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:09 +0000
Subject: [PATCH 21/52] fix: Spectrometer::Complex::operator[] rejects the
 index past the end

---
 lib/ComplexSpectrometer.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ComplexSpectrometer.C b/lib/ComplexSpectrometer.C
index bbe0207..e2d95d0 100644
--- a/lib/ComplexSpectrometer.C
+++ b/lib/ComplexSpectrometer.C
@@ -83,14 +83,14 @@ void Complex::append(SmartPointer<Generic> e)
 
 SmartPointer<Generic> & Complex::operator[](size_t i)
 {
-  if (i > cardinal_)
+  if (i >= cardinal_)
     GYOTO_ERROR("Complex::operator[](size_t i): no such element");
   return elements_[i];
 }
 
 SmartPointer<Generic> const & Complex::operator[](size_t i) const
 {
-  if (i > cardinal_)
+  if (i >= cardinal_)
     GYOTO_ERROR("Complex::operator[](size_t i): no such element");
   return elements_[i];
 }
-- 
2.43.0


From 29d83feee983171f26570ec2e18266933cfaf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:09 +0000
Subject: [PATCH 22/52] fix: Spectrometer::Complex clones listen to their
 elements and unhook from them when destroyed

---
 lib/ComplexSpectrometer.C | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/ComplexSpectrometer.C b/lib/ComplexSpectrometer.C
index e2d95d0..5937232 100644
--- a/lib/ComplexSpectrometer.C
+++ b/lib/ComplexSpectrometer.C
@@ -47,6 +47,7 @@ Complex::Complex(const Complex& o) :
     elements_ = new SmartPointer<Generic> [cardinal_];
     for (size_t i=0; i< cardinal_; ++i) {
       elements_[i] = o[i]->clone();
+      elements_[i] -> hook(this);
     }
   }
 }
@@ -60,7 +61,10 @@ bool Complex::isThreadSafe() const {
 
 Complex::~Complex()
 {
-  if (cardinal_) for (size_t i=0; i< cardinal_; ++i) elements_[i] = NULL;
+  if (cardinal_) for (size_t i=0; i< cardinal_; ++i) {
+      elements_[i] -> unhook(this);
+      elements_[i] = NULL;
+    }
 }
 
 void Complex::append(SmartPointer<Generic> e)
-- 
2.43.0


From c3deea05223ee6c760d7ec6295b2f822d325d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:24 +0000
Subject: [PATCH 23/52] fix: Spectrometer::Uniform constructor sets the number
 of boundaries

---
 lib/UniformSpectrometer.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index 2c711b0..7a7d8a1 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -90,6 +90,7 @@ Uniform::Uniform(size_t nsamples, double band_min, double band_max, kind_t kin)
 : Generic(kin)
 {
   nsamples_=nsamples;
+  nboundaries_=nsamples_+1;
   band_[0]=band_min; band_[1]=band_max;
   if (nsamples && kin) reset_();
 }
-- 
2.43.0


From e74fd091c4cb14121d69a32a7189b8f11dfb5f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:24 +0000
Subject: [PATCH 24/52] fix: copying a Photon keeps the transmission at the
 observed frequency

---
 lib/Photon.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Photon.C b/lib/Photon.C
index f8ae9b2..353e2ce 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -91,6 +91,9 @@ Photon::Photon(const Photon& o) :
       for (size_t i=0; i<nsamples; ++i)
 	transmissionMatrix_[i] = o.transmissionMatrix_[i];
     }
+    // allocating has reset these
+    transmission_freqobs_ = o.transmission_freqobs_;
+    transmissionMatrix_freqobs_ = o.transmissionMatrix_freqobs_;
   }
 }
 
-- 
2.43.0


From 3cda0d58f800cc7d5fbb6add3d1e78b0279e5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 25/52] fix: Units::FromMeters to a time unit divides by c

---
 lib/Converters.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Converters.C b/lib/Converters.C
index e2933e1..ca0ed9e 100644
--- a/lib/Converters.C
+++ b/lib/Converters.C
@@ -220,7 +220,7 @@ double Gyoto::Units::FromMeters(double val, const string &unit,
 # ifdef HAVE_UDUNITS
   Unit to (unit);
   if (areConvertible(to, *Meter)) return Meter->From(val, to);
-  if (areConvertible(to, *Second)) return Second->From(val*GYOTO_C, to);
+  if (areConvertible(to, *Second)) return Second->From(val/GYOTO_C, to);
   return FromHerz(GYOTO_C/val, unit);
 # else
   if (unit=="cm")          return val * 1e2;
-- 
2.43.0


From 925fccfb84e1a05d6139cde1cc782cfaffbca67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:01 +0000
Subject: [PATCH 26/52] fix: SmartPointer assignment from an object owned by
 the old target used freed memory

---
 include/GyotoSmartPointer.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/GyotoSmartPointer.h b/include/GyotoSmartPointer.h
index 5115af8..421d226 100644
--- a/include/GyotoSmartPointer.h
+++ b/include/GyotoSmartPointer.h
@@ -285,12 +285,15 @@ class Gyoto::SmartPointer
       if (this == &right)
 	return *this;
       
-      if (right.obj)
-	right.obj->incRefCount ();
+      // decRef() may destroy right, if *obj owns it
+      T* newobj = right.obj;
+
+      if (newobj)
+	newobj->incRefCount ();
       
       decRef ();
       
-      obj = right.obj;
+      obj = newobj;
       
       return *this;
     }
@@ -304,11 +307,12 @@ class Gyoto::SmartPointer
       if (obj == right)
 	return *this;
       
+      // increment first: *right may be owned by *obj
+      if (right) right->incRefCount();
+
       decRef ();
       
       obj = right;
-
-      if (obj) obj->incRefCount();
       
       return *this;
     }
-- 
2.43.0


From a55d6942d037bee1493201ef4b5909af8579e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:01 +0000
Subject: [PATCH 27/52] fix: SmartPointee assignment reset the reference
 counter of a referenced object

---
 lib/SmartPointer.C | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/SmartPointer.C b/lib/SmartPointer.C
index 6cef8e9..1bd4bb1 100644
--- a/lib/SmartPointer.C
+++ b/lib/SmartPointer.C
@@ -49,15 +49,8 @@ Gyoto::SmartPointee& Gyoto::SmartPointee::operator=(const SmartPointee& right){
     return *this;
   }
 
-  // initialize the refcound to 0: the two objects do not use the same
-  // reference counter
-  refCount = 0;
-
-  // Reinitialize the mutex if needed
-#ifdef HAVE_PTHREAD
-  pthread_mutex_destroy(&mutex_); // Destroy the old mutex
-  pthread_mutex_init(&mutex_, NULL); // Initialize a new mutex
-#endif
+  // Keep reference counter and mutex: the two objects do not share
+  // them, and SmartPointers already pointing to this object remain.
 
   // Return a reference to the current object
   return *this;
-- 
2.43.0


From 00e2a29a132d493299891bb4b18afd0a14174e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:30 +0000
Subject: [PATCH 28/52] fix: Spectrometer::Uniform::band(unit) inverted log10
 and its inverse for logarithmic kinds

---
 lib/UniformSpectrometer.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index 7a7d8a1..d956821 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -237,7 +237,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_== FreqLogKind) {
     if (unit != "" && unit != "Hz")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromHerz(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromHerz(pow(10., vnu[i]), unit));
   } else if (kindid_== WaveKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
@@ -245,7 +245,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_ == WaveLogKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromMeters(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromMeters(pow(10., vnu[i]), unit));
   } else {
     GYOTO_ERROR("Uniform::band(string const &unit) at loss: "
 	       "please specify Spectrometer kind");
-- 
2.43.0


From 43a668654cbcddfd37d46e255260fb74ff195528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:26 +0000
Subject: [PATCH 29/52] fix: requesting only Stokes parameters without parallel
 transport dereferenced a null spectrum

---
 lib/Astrobj.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index c5452a4..447f895 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -408,7 +408,7 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 				  	if (data -> spectrum_converter_)
 				    	inc = (*data -> spectrum_converter_)(inc);
 					#endif
-				  data->spectrum[ii*data->offset] += inc;
+				  if (data->spectrum) data->spectrum[ii*data->offset] += inc;
 				  ph -> transmit(ii,Taunu[ii]);
 
 					#if GYOTO_DEBUG_ENABLED
@@ -423,7 +423,7 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 				    << ", Inu * GM/c2="
 				    << Inu[ii]
 				    << ", spectrum[" << ii*data->offset << "]="
-				    << data->spectrum[ii*data->offset]
+				    << (data->spectrum ? data->spectrum[ii*data->offset] : 0.)
 				    << ", transmission=" << t
 				    << ", optical depth=" << o
 				    << ", redshift=" << ggred << ")\n" << endl;
-- 
2.43.0


From 51a8bf2a0df7309d5c470b046359f613dac92009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:26 +0000
Subject: [PATCH 30/52] fix: default polarized radiativeQ returned an
 absorption coefficient as transmission matrix

---
 lib/Astrobj.C | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 447f895..1849bb3 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -644,7 +644,6 @@ void Generic::radiativeQ(double *Inu, double *Qnu, double *Unu, double *Vnu,
 
   // Compute the output from the non-polarized radiativeQ().
   double * Taunu = new double[nbnu];
-  double * alphaInu = new double[nbnu];
   Matrix4d identity;
   identity << 1, 0, 0, 0,
               0, 1, 0, 0,
@@ -657,16 +656,9 @@ void Generic::radiativeQ(double *Inu, double *Qnu, double *Unu, double *Vnu,
     Unu[i] = 0.;
     Vnu[i] = 0.;
     GYOTO_DEBUG_EXPR(Taunu[i]);
-    if (Taunu[i]<1e-6){
-    	//alphaInu[i] = std::numeric_limits<double>::infinity(); // Cause floatting point exception
-    	alphaInu[i] = 1.e300; // something very big 
-    }
-    else alphaInu[i] = -log(Taunu[i])/(dsem*gg_->unitLength());
-    GYOTO_DEBUG_EXPR(alphaInu[i]);
-    Onu[i]=identity*alphaInu[i]; //Default transmission matrix with all polarisation set to 0, MUST be reimplemented
+    Onu[i]=identity*Taunu[i]; //Transmission matrix of an unpolarized medium
   }
   delete [] Taunu;
-  delete [] alphaInu;
 }
 
 double Generic::get_theta_mag(double const fourvect[4], state_t const &coord_ph, double const vel[4]) const{
-- 
2.43.0


From bd26f17809e2041627f900914003259f0667cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:12 +0000
Subject: [PATCH 31/52] fix: Omatrix ignored the absorption of a medium without
 polarized absorption or Faraday rotation

---
 lib/Astrobj.C | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 1849bb3..d56232f 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -801,8 +801,16 @@ Matrix4d Generic::Omatrix(double alphaInu, double alphaQnu, double alphaUnu, dou
   M4(3,3)=pow(aV,2)+pow(rV,2)-(alpha2+r2)/2.;
 	//cout << "M4 :\n" << M4 << endl;
 
-  if (Theta==0.)
-    return Matrix4d::Identity();
+  if (Theta==0.) {
+    // Both eigenvalues vanish: the series of the exponential terminates
+    Matrix4d N;
+    N <<  0., aQ,  aU,  aV,
+          aQ,  0., rV, -rU,
+          aU, -rV,  0., rQ,
+          aV,  rU, -rQ,  0.;
+    double ds = dsem*gg_->unitLength();
+    return exp(-aI*ds)*(M1 - ds*N + 0.5*ds*ds*M4);
+  }
   
   // Filling O matrix, output
   Onu=exp(-aI*dsem*gg_->unitLength())*\
-- 
2.43.0


From 470418dc78dc592b7340a77db57fe27d6dbf0b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:12 +0000
Subject: [PATCH 32/52] fix: getChi refused an electric vector pointing South

---
 lib/Astrobj.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index d56232f..0f9687e 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -1211,6 +1211,7 @@ double Generic::getChi(double const fourvect[4], state_t const &cph, double cons
   // EVPA defined modulo pi and should lie in [-pi/2, pi/2], but the angle
   // above is defined in [-pi/2,3pi/2]
   if (EVPA>M_PI/2.) EVPA -= M_PI;
+  if (EVPA<-M_PI/2.) EVPA += M_PI; // electric vector pointing South
 
   // For checking only: Define the polarization vector in tetrad formalism:
   double polar_vec[3]={Kth_tetrad*Bp_tetrad - Kp_tetrad*Bth_tetrad,
-- 
2.43.0


From 0847b5385c1897e2b234c1920316efd194c331ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:57 +0000
Subject: [PATCH 33/52] fix: N-dimensional grid interpolation read past the
 grid or ignored boundary conditions

---
 lib/Astrobj.C | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 0f9687e..307b28a 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -1646,7 +1646,7 @@ double Generic::interpNd(int const N, double* const Xq, double** const X, double
       if (t<0. or t>1.){
       	if (cond_limit[N-n]=="None"){
       		GYOTO_ERROR("In interpNd : Query position of dimension out of interpolation boundaries.");
-      	}else if (cond_limit[n-1]=="Constant"){
+      	}else if (cond_limit[N-n]=="Constant"){
       		if (t<0.)
       			t=0.;
       		else
@@ -1685,11 +1685,10 @@ int Generic::getIndice(double &xq, std::string const cond_limit, double const X_
 		if (cond_limit == "None")
 			GYOTO_ERROR("In getIndice : query value out of boundaries (with None boundary condition).");
 		else if (cond_limit == "Periodic"){
-			if (xq > x_max)
-				xq = std::fmod(xq, x_max) + x_min; // equivalent of (xq % x_max) + x_min for double
-			else
-				xq = std::fmod(xq, x_max) + x_min + x_max;
-			ind = int(floor((xq-x_min)/dx));
+			// bring xq back into [x_min, x_max]
+			xq = x_min + std::fmod(xq-x_min, x_max-x_min);
+			if (xq < x_min)
+				xq += x_max-x_min;
 		}
 		else if (cond_limit == "Constant" or cond_limit=="Linear"){
 			if (xq<x_min){
@@ -1703,18 +1702,18 @@ int Generic::getIndice(double &xq, std::string const cond_limit, double const X_
 			return -1;
 		else
 			GYOTO_ERROR("In getIndice : unknown boundary condition");
-	}else{
-		if (X!=NULL){
-			// Array is furnished by the user
-			int i_x=0;
-	    while (xq>X[i_x] && xq>X[i_x+1] && i_x<n_x-1) { // search of i_x
-	      i_x+=1;
-	    }
-	    ind=i_x;
-		}else{
-			// Array not furnished, assumed to be linearly spaced
-			ind = int(floor((xq-x_min)/dx));
+	}
+	if (X!=NULL){
+		// Array is furnished by the user
+		int i_x=0;
+		while (i_x<n_x-2 && xq>X[i_x+1]) { // search of i_x
+			i_x+=1;
 		}
+		ind=i_x;
+	}else{
+		// Array not furnished, assumed to be linearly spaced
+		ind = int(floor((xq-x_min)/dx));
+		if (ind>n_x-2) ind=n_x-2; // xq==x_max belongs to the last cell
 	}
 	return ind;
 }
@@ -1803,7 +1802,7 @@ double Generic::interpolate(int const N, double* const array, double* const Xq,
       	int nx = X_params[n][2];
       	double xmin = X_params[n][0],
       				 xmax = X_params[n][1],
-    					 dx = (xmax - xmin)/(nx-1);
+    					 dx = nx>1 ? (xmax - xmin)/(nx-1) : 0.;
       	X_array[ii][n]= xmin+(indices[n]+tab_indX[n])*dx;
       }else{
       	return 0.; // "Null" bondary condition
-- 
2.43.0


From 356da6bb5deb7eb9e866ad231d336ebed0ae0d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:57 +0000
Subject: [PATCH 34/52] fix: GridData2D::interpolate took the time of the upper
 grid point from rmin_ and read past the grid on its upper edges

---
 lib/GridData2D.C | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/GridData2D.C b/lib/GridData2D.C
index deb4a2c..183b53a 100644
--- a/lib/GridData2D.C
+++ b/lib/GridData2D.C
@@ -343,6 +343,7 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
   if (rmin_>0. && rmax_<DBL_MAX && nr_>0. && dr_>0.) { // >1 radii must be properly defined
     i[2] = size_t(floor((rr-rmin_)/dr_)); // index of closest grid point smaller than rr
                                           // (and same for phi,t)
+    if (nr_>1 && i[2]==nr_-1) i[2]=nr_-2; // rr==rmax_ belongs to the last cell
   } else {
     GYOTO_ERROR("In GridData2D::getIndices: radius undefined!");
   }
@@ -355,8 +356,10 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
 	      i[1]=nphi_-1; // then phimin_+dphi_*(nphi_-1) < phi < phimin_ (modulo 2pi)
       else if (phi>phimax_)
 	      i[1]=nphi_-1; // idem
-      else
+      else {
 	      i[1] = size_t(floor((phi-phimin_)/dphi_)); // then phimin_+dphi_*i[1] < phi < phimin_ +dphi_*(i[1]+1)
+	      if (nphi_>1 && i[1]==nphi_-1) i[1]=nphi_-2; // phi==phimax_ belongs to the last cell
+      }
     }
     else          // then 1 phi value only, axisym
       i[1] = 0;
@@ -469,7 +472,7 @@ double GridData2D::interpolate(double tt, double phi, double rcyl,
       tu = time_array[itu];
     }else{
       tl = tmin_+dt_*itl;
-      tu = rmin_+dt_*itu;
+      tu = tmin_+dt_*itu;
     }
 
     double ratiot = (tt-tl)/(tu-tl),
-- 
2.43.0


From c5a2dec18ddefccf9873fe56e6466306dba85776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:29 +0000
Subject: [PATCH 35/52] fix: GridData2D::getIndices divided by a null time step
 for stationary data

---
 lib/GridData2D.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/GridData2D.C b/lib/GridData2D.C
index 183b53a..9f084ad 100644
--- a/lib/GridData2D.C
+++ b/lib/GridData2D.C
@@ -369,7 +369,8 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
 
   //cout << "in getInd T: " << tmin_ << " " << tmax_ << " " << nt_ << " " << dt_ << endl;
   if (nt_>0.) {                                // necessary condition
-    if (tmin_ > -DBL_MAX && tmax_<DBL_MAX) // >1 time values provided
+    if (nt_==1) i[0]=0;                    // only 1 time value, stationnary disk
+    else if (tmin_ > -DBL_MAX && tmax_<DBL_MAX) // >1 time values provided
       if (tt<tmin_) i[0]=0;        // assuming stationnarity before tmin_
       else if (tt>tmax_) i[0]=nt_-1;//                       and after tmax_
       else {
-- 
2.43.0


From 2758c6f90c502adbd520c4bc46e957d13a7eb8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:36 +0000
Subject: [PATCH 36/52] fix: GridData2D::getIndices selected the wrong snapshot
 at the last listed time

---
 lib/GridData2D.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/GridData2D.C b/lib/GridData2D.C
index 9f084ad..7c1b66e 100644
--- a/lib/GridData2D.C
+++ b/lib/GridData2D.C
@@ -372,7 +372,7 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
     if (nt_==1) i[0]=0;                    // only 1 time value, stationnary disk
     else if (tmin_ > -DBL_MAX && tmax_<DBL_MAX) // >1 time values provided
       if (tt<tmin_) i[0]=0;        // assuming stationnarity before tmin_
-      else if (tt>tmax_) i[0]=nt_-1;//                       and after tmax_
+      else if (tt>=tmax_) i[0]=nt_-1;//                       and after tmax_
       else {
         if (!time_array){
           i[0] = size_t(floor((tt-tmin_)/dt_));
-- 
2.43.0


From d32f237e2774d0dd7874624e21e92fc048adb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:58 +0000
Subject: [PATCH 37/52] fix: Photon::hit ran past the ends of the trajectory
 arrays

---
 lib/Photon.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/Photon.C b/lib/Photon.C
index 353e2ce..d9f0f17 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -327,7 +327,7 @@ int Photon::hit(Astrobj::Properties *data) {
   for (ind=i0_+dir;
        ((dir==1)?
 	(ind<=imax_ && x0_[ind]<=tmin_): // conditions if dir== 1
-	(ind>=imin_ && x0_[ind]>=tmin_)) // conditions if dir==-1
+	(ind>=imin_ && ind<=imax_ && x0_[ind]>=tmin_)) // conditions if dir==-1 (ind may wrap)
 	 && !hitt;                    // condition in all cases
        ind+=dir) {
     switch (coordkind) {
@@ -351,8 +351,8 @@ int Photon::hit(Astrobj::Properties *data) {
 #   endif
     return hitt;
   } else if (((dir==1)?
-	(ind==imax_ && x0_[ind]>=tmin_): // conditions if dir== 1
-	(ind>=imin_ && x0_[ind]<=tmin_)) // conditions if dir==-1
+	(ind<=imax_ && x0_[ind]>=tmin_): // conditions if dir== 1
+	(ind>=imin_ && ind<=imax_ && x0_[ind]<=tmin_)) // conditions if dir==-1
 	     && !hitt)
     return hitt;
   if (ind!=i0_) ind-=dir;
@@ -367,7 +367,7 @@ int Photon::hit(Astrobj::Properties *data) {
   */
 
   // Check whether the arrays need to be expanded first
-  if (dir==1 && ind==x_size_) ind=xExpand(1);
+  if (dir==1 && ind==x_size_-1) ind=xExpand(1);
   else if (dir==-1 && ind==0) ind=xExpand(-1);
 
   // Set up integration
@@ -736,7 +736,7 @@ int Photon::hit(Astrobj::Properties *data) {
 #       endif
 	stopcond=1;
       }
-      if ((!stopcond) && (ind==x_size_)) {
+      if ((!stopcond) && (ind==x_size_-1)) {
 	imax_=x_size_-1;
 	ind=xExpand(1);
       }
-- 
2.43.0


From 19d4c08f423dd9cbe3ffefcf91cf0171c5c7d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:58 +0000
Subject: [PATCH 38/52] fix: Worldline::getCoord(index) wrote past a
 four-element destination

---
 lib/Worldline.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 910e795..5603d73 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1577,7 +1577,7 @@ void Worldline::getCoord(size_t index, state_t &coord) const {
   coord[1] = x1_[index];
   coord[2] = x2_[index];
   coord[3] = x3_[index];
-  if (sz>=4) {
+  if (sz>4) {
     coord[4] = x0dot_[index];
     coord[5] = x1dot_[index];
     coord[6] = x2dot_[index];
-- 
2.43.0


From fed7f24c822af493e91baecd09328da0c5087695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:14 +0000
Subject: [PATCH 39/52] fix: Screen scaled the azimuth of spherical angles with
 the distance

---
 lib/Screen.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index 9fd6825..769ba5f 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -570,7 +570,8 @@ void Screen::getRayTriad(double angle1, double angle2,
       throwError("Unimplemented coordkind");
     }
     angle1 *= scale;
-    angle2 *= scale;
+    // for spherical_angles, angle2 is the azimuth around the optical axis
+    if (anglekind_ != spherical_angles) angle2 *= scale;
   }
 
   coord[4]=coord[5]=coord[6]=coord[7]=0.;//initializing 4-velocity
-- 
2.43.0


From 5e2546350628d61e590e1921f72017957300b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:56 +0000
Subject: [PATCH 40/52] fix: BlackBody color correction altered the temperature
 and depended on the order of setting

---
 include/GyotoBlackBodySpectrum.h | 2 +-
 lib/BlackBodySpectrum.C          | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/GyotoBlackBodySpectrum.h b/include/GyotoBlackBodySpectrum.h
index d1b3151..6df540f 100644
--- a/include/GyotoBlackBodySpectrum.h
+++ b/include/GyotoBlackBodySpectrum.h
@@ -57,7 +57,7 @@ class Gyoto::Spectrum::BlackBody : public Gyoto::Spectrum::Generic {
  protected:
   double T_; ///< Temperature (K)
   double cst_; ///< Scaling constant
-  double Tm1_; ///< 1./T_;
+  double Tm1_; ///< 1/(T_*colorcor_)
   double colorcor_; ///< Color-correction factor, see def in Suleimanov et al., A&A 527 A139 (2011), Eq. 23
   double colorcorm4_; ///< colorcor_ to power -4.
 
diff --git a/lib/BlackBodySpectrum.C b/lib/BlackBodySpectrum.C
index bbd2f35..6308ede 100644
--- a/lib/BlackBodySpectrum.C
+++ b/lib/BlackBodySpectrum.C
@@ -49,12 +49,13 @@ Spectrum::BlackBody * Spectrum::BlackBody::clone() const
 { return new Spectrum::BlackBody(*this); }
 
 double Spectrum::BlackBody::temperature() const { return T_; }
-void Spectrum::BlackBody::temperature(double c) { T_ = c; Tm1_=1./T_; }
+void Spectrum::BlackBody::temperature(double c) {
+  T_ = c; Tm1_=1./(T_*colorcor_); }
 double Spectrum::BlackBody::scaling() const { return cst_; }
 void Spectrum::BlackBody::scaling(double c) { cst_ = c; }
 double Spectrum::BlackBody::colorCorrection() const { return colorcor_; }
 void Spectrum::BlackBody::colorCorrection(double c) {
-  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); T_*=c; Tm1_/=c;}
+  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); Tm1_=1./(T_*c);}
 
 double Spectrum::BlackBody::operator()(double nu) const {
   return  colorcorm4_*cst_*nu*nu*nu
-- 
2.43.0


From 26e559ae532dbeb4983e9e1a95e88cb13e2b1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:56 +0000
Subject: [PATCH 41/52] fix: Star::rMax ignored Cartesian positions with
 negative coordinates

---
 lib/Star.C | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/Star.C b/lib/Star.C
index 38fd573..0b3fb65 100644
--- a/lib/Star.C
+++ b/lib/Star.C
@@ -189,14 +189,12 @@ void Star::getCartesian(double const * const t,
 double Star::rMax() {
   if (rmax_==DBL_MAX && i0_>=imin_ && i0_<=imax_) {
     size_t i;
-    rmax_=x1_[i0_];
+    rmax_=0.;
     int ck=gg_->coordKind();
     for (i=imin_;i<=imax_;++i) {
-      if (x1_[i]>rmax_) rmax_=x1_[i];
-      if (ck==GYOTO_COORDKIND_CARTESIAN) {
-	if (x2_[i]>rmax_) rmax_=x2_[i];
-	if (x3_[i]>rmax_) rmax_=x3_[i];
-      }
+      double r=(ck==GYOTO_COORDKIND_CARTESIAN)?
+	sqrt(x1_[i]*x1_[i]+x2_[i]*x2_[i]+x3_[i]*x3_[i]):x1_[i];
+      if (r>rmax_) rmax_=r;
     }
     rmax_ *= 3.;
   }
-- 
2.43.0


From 39d4f3f9dad705962678a74d5d2ea0be762808d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:56 +0000
Subject: [PATCH 42/52] fix: UniformSphere in SchwarzschildHarmonic was centred
 at the wrong place for x<0

---
 lib/UniformSphere.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/UniformSphere.C b/lib/UniformSphere.C
index ae66837..ceb4823 100644
--- a/lib/UniformSphere.C
+++ b/lib/UniformSphere.C
@@ -151,7 +151,7 @@ double UniformSphere::operator()(double const coord[4]) {
   // in order to ease comparison between coordinate systems.
   if (gg_->kind()=="SchwarzschildHarmonic"){
     double r_st = sqrt(coord_st[1]*coord_st[1]+coord_st[2]*coord_st[2]+coord_st[3]*coord_st[3]);
-    double theta = acos(coord_st[3]/r_st), phi = atan(coord_st[2]/coord_st[1]);
+    double theta = acos(coord_st[3]/r_st), phi = atan2(coord_st[2], coord_st[1]);
     coord_st[1]+= sin(theta)*cos(phi);
     coord_st[2]+= sin(theta)*sin(phi);
     coord_st[3]+= cos(theta);
-- 
2.43.0


From 56e88919b69f23b46ed91d8a57ade9e9fdd14a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:56 +0000
Subject: [PATCH 43/52] fix: UniformSphere::integrateEmission ignored Isotropic

---
 lib/UniformSphere.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/UniformSphere.C b/lib/UniformSphere.C
index ceb4823..91ac83b 100644
--- a/lib/UniformSphere.C
+++ b/lib/UniformSphere.C
@@ -246,6 +246,7 @@ double UniformSphere::integrateEmission(double nu1, double nu2, double dsem,
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG << endl;
 # endif
+  if (isotropic_) return fabs(nu2-nu1)*(flag_radtransf_?dsem:1.);
   if (flag_radtransf_)
     return spectrum_->integrate(nu1, nu2, opacity_(), dsem);
   return spectrum_->integrate(nu1, nu2);
-- 
2.43.0


From 3af8c1fa8daee7bb130f5c0298ebbd1c06141128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 44/52] fix: ChernSimons::diff had the wrong sign of the
 second-order terms of tdot and phidot

---
 lib/ChernSimons.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ChernSimons.C b/lib/ChernSimons.C
index 1faf716..dd9df79 100644
--- a/lib/ChernSimons.C
+++ b/lib/ChernSimons.C
@@ -202,7 +202,7 @@ int ChernSimons::diff(const double* coordGen, const double* cst,
 	  )
       )
     -
-    1./(2.*ff*r4)*a2/r2*(costheta2-1./ff)
+    1./(2.*ff*r4)*a2/r2*(costheta2+1./ff)
     *(2.*(
 	  E*r4 // to order zero in a2
 	  )
@@ -217,7 +217,7 @@ int ChernSimons::diff(const double* coordGen, const double* cst,
 	   r*(2.*spin_*E+L*(-2.+r))+L*(a2+r*(-2.+r))*cotantheta2
 	   )
       )
-    +1./(2.*ff*r4)*a2/r2*(costheta2-1./ff)
+    +1./(2.*ff*r4)*a2/r2*(costheta2+1./ff)
     *(-2.*(r*(2.*spin_*E+L*(-2.+r))+L*(r*(-2.+r))
 	   *cotantheta2)
       )
-- 
2.43.0


From 4224b27ed9333c95536b148ab96b56b1b1f215ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 45/52] fix: DeformedTorus::getVelocity returned a vector of
 norm different from -1

---
 lib/DeformedTorus.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/DeformedTorus.C b/lib/DeformedTorus.C
index e54cf4d..5682374 100644
--- a/lib/DeformedTorus.C
+++ b/lib/DeformedTorus.C
@@ -260,8 +260,11 @@ void DeformedTorus::getVelocity(double const pos[4], double vel[4])
 	       "Unrecognized perturbation kind");
   }
 
+  // u^t = (gtt-lc*gtp)*u_t, u^r = drdt*u^t, u^th = dthdt*u^t and u.u = -1
+  double utout = gtt-lc*gtp;
   double u_t2 = -1./
-    (gtt+lc*lc*gpp-2.*lc*gtp+drdt*drdt*grr+dthdt*dthdt*gthth);
+    (gtt+lc*lc*gpp-2.*lc*gtp
+     +utout*utout*(drdt*drdt/grr+dthdt*dthdt/gthth));
 
   if (u_t2 < 0.) {
     stringstream ss;
-- 
2.43.0


From 3a198ea5ca4436e430b1984181fea8a3eeb0ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 46/52] fix: Plasmoid::getVelocity was not the velocity at
 which a helical plasmoid moves

---
 lib/Plasmoid.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Plasmoid.C b/lib/Plasmoid.C
index 3c977c2..c47485c 100644
--- a/lib/Plasmoid.C
+++ b/lib/Plasmoid.C
@@ -611,7 +611,7 @@ void Plasmoid::getVelocity(double const pos[4], double vel[4]){
   	vel[0] = 1.;
   	vel[1] = fourveldt_[1];
   	vel[2] = 0.;
-  	vel[3] = fourveldt_[3];
+  	vel[3] = fourveldt_[3]*posIni_[1]*posIni_[1]/(pos[1]*pos[1]); // conservation of Newtonian ang mom, as in getCartesian
   	gg_->normalizeFourVel(pos, vel);
   }
   else if (flag_=="Helical-Ejection"){ // El Mellah+23
-- 
2.43.0


From 3b37b6f5ede23440a04fc4008a81067e1eecdc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 47/52] fix: poloidal and parabolic magnetic fields were not
 orthogonal to the emitter's velocity

---
 lib/Astrobj.C | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 307b28a..05d92c3 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -1396,10 +1396,11 @@ void Generic::computeB4vect(double B4vect[4], std::string const magneticConfig,
   }else if(magneticConfig=="Poloidal" or magneticConfig=="Poloidal-n"){
     if (gg_->coordKind()==GYOTO_COORDKIND_SPHERICAL) {
       // Spherical coordinates case 
-      double Afact = 1./(gtt*vel[0]*vel[0]+gthth*vel[2]*vel[2]);
-      B4vect[0]=sqrt(gthth*vel[2]*vel[2]*Afact/gtt);
+      double Afact = vel[2]*sqrt(gthth)/(vel[0]*gtt+vel[3]*gtp),
+        alphafact = sqrt(1./(1.+gtt*Afact*Afact));
+      B4vect[0]=-alphafact*Afact;
       B4vect[1]=0.;
-      B4vect[2]=sqrt(Afact*gtt*vel[0]*vel[0]/gthth);
+      B4vect[2]=alphafact/sqrt(gthth); // along +etheta
       B4vect[3]=0.;
     } else {
       // Cartesian coordinates case
@@ -1436,9 +1437,9 @@ void Generic::computeB4vect(double B4vect[4], std::string const magneticConfig,
       
       double fourvect[4]={0.,0.,0.,0.};
       double sgn = theta==M_PI/2.?1.:cos(theta)/abs(cos(theta));
-      double u_t = gtt*vel[0], u_r=grr*vel[1], u_theta=gthth*vel[2];
+      double u_t = gtt*vel[0]+gtp*vel[3], u_r=grr*vel[1], u_theta=gthth*vel[2];
 
-      fourvect[0]=0.5*u_r*sgn*pow(rr, par-2) - u_theta*par*pow(rr, par-3)*(1.-abs(cos(theta)))/sin(theta);
+      fourvect[0]=0.5*u_r*sgn*pow(rr, par-2) - 0.5*u_theta*par*pow(rr, par-3)*(1.-abs(cos(theta)))/sin(theta);
       fourvect[1]=-0.5*u_t*sgn*pow(rr, par-2);
       fourvect[2]=theta==0.?0.:0.5*u_t*(1.-abs(cos(theta)))/sin(theta)*pow(rr, par-3)*par; // if theta=0 => B^theta=0
       
-- 
2.43.0


From 06344a67d16b9acf6a4c2121a4cc85e9cf8aab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 48/52] fix: PatternDisk read its grid at another azimuth than
 it looked up, and out of bounds

getIndices() takes the rotation of the pattern (Omega_*(t-t0_)) and the
2*pi period into account, emission() and getVelocity() did not and then
threw 'bad interpolation' or extrapolated. The opacity was read at
azimuthal index nphi_ beyond phimax_, and the radial index was nr_ at the
outer radius.
---
 lib/PatternDisk.C | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 367bc5a..884c934 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -611,6 +611,7 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
   phi -= Omega_*(t-t0_);
 
   while (phi<0) phi += 2.*M_PI;
+  while (phi>2.*M_PI) phi -= 2.*M_PI;
 
   if (repeat_phi_>1) phi=fmod((phi-phimin_),(phimax_-phimin_)/double(repeat_phi_))+phimin_;
   // wrap phi if the disk is periodic with period repeat_phi_
@@ -642,7 +643,7 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
   if (radius_) {
     GYOTO_DEBUG <<"radius_ != NULL" << endl;
     // if the radius_ vector is set, find closest value
-    if (r >= radius_[nr_-1]) i[2] = nr_;
+    if (r >= radius_[nr_-1]) i[2] = nr_-1;
     else {
       for(i[2]=0; r > radius_[i[2]]; ++i[2]){}
       //cerr << "in indice --RAD: " << radius_[i[2]-1] << " " << r << " " << radius_[i[2]] << endl;
@@ -678,6 +679,11 @@ void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
     double rr = projectedRadius(pos);
     double phi = sphericalPhi(pos);
 
+    // same azimuth, in the frame of the pattern, as in getIndices()
+    phi -= Omega_*(pos[0]-t0_);
+    while (phi<0) phi += 2.*M_PI;
+    while (phi>2.*M_PI) phi -= 2.*M_PI;
+
     if (repeat_phi_>1) phi=fmod(phi-phimin_,(phimax_-phimin_)/double(repeat_phi_))+phimin_;
 
     if (rr < rin_ || rr > rout_){
@@ -812,6 +818,11 @@ double PatternDisk::emission(double nu, double dsem,
   double rr = projectedRadius(co);
   double phi = sphericalPhi(co);
 
+  // same azimuth, in the frame of the pattern, as in getIndices()
+  phi -= Omega_*(co[0]-t0_);
+  while (phi<0) phi += 2.*M_PI;
+  while (phi>2.*M_PI) phi -= 2.*M_PI;
+
   if (repeat_phi_>1) phi=fmod(phi-phimin_,(phimax_-phimin_)/double(repeat_phi_))+phimin_;
 
   //cout << "in emission r, phi= " << rr << " " << phi << endl;
@@ -905,7 +916,7 @@ double PatternDisk::emission(double nu, double dsem,
   if (!flag_radtransf_) return Iem;
   double thickness;
   // NB: thickness is not interpolated so far
-  if (opacity_ && (thickness=opacity_[i[1]*nr_+i[2]]*dsem))
+  if (opacity_ && (thickness=opacity_[(i[1]%nphi_)*nr_+i[2]]*dsem))
     return Iem * (1. - exp (-thickness)) ;
   return 0.;
 }
@@ -917,7 +928,7 @@ double PatternDisk::transmission(double nu, double dsem, state_t const &, double
   size_t i[3]; // {i_nu, i_phi, i_r}
   getIndices(i, co, nu);
   // NB: opacity is not interpolated so far
-  double opac = opacity_[i[1]*nr_+i[2]];
+  double opac = opacity_[(i[1]%nphi_)*nr_+i[2]];
   GYOTO_DEBUG << "nu="<<nu <<", dsem="<<dsem << ", opacity="<<opac <<endl;
   if (!opac) return 1.;
   return exp(-opac*dsem);
-- 
2.43.0


From 501dacff61f4ba207f38b04745a40aecc02e31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:48 +0000
Subject: [PATCH 49/52] fix: ThinDiskIronLine took a line frequency given with
 a unit for a value in keV

LineFreq(v) is in keV, LineFreq(v, unit) converted to Hz and then from
keV to Hz again.
---
 lib/ThinDiskIronLine.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ThinDiskIronLine.C b/lib/ThinDiskIronLine.C
index 86f1f88..10c6ca4 100644
--- a/lib/ThinDiskIronLine.C
+++ b/lib/ThinDiskIronLine.C
@@ -53,10 +53,10 @@ double ThinDiskIronLine::CutRadius(std::string const &u)const{
 void ThinDiskIronLine::LineFreq(double v) {linefreq_=v*___local_f;}
 double ThinDiskIronLine::LineFreq()const{return linefreq_/___local_f;}
 void ThinDiskIronLine::LineFreq(double v, std::string const &u) {
-  LineFreq(Units::ToHerz(v, u));
+  linefreq_=Units::ToHerz(v, u);
 }
 double ThinDiskIronLine::LineFreq(std::string const &u)const{
-  return Units::FromHerz(LineFreq(), u);
+  return Units::FromHerz(linefreq_, u);
 }
 #undef ___local_f
 ///
-- 
2.43.0


From 09e58c0dcd30b8da860bae71c1b7005b4c5d5e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:48 +0000
Subject: [PATCH 50/52] fix: PageThorneDisk failed whenever a spectrum was
 asked for without polarization

The unpolarized branch was followed by the polarized one, which throws
without parallel transport; it also ignored the requested unit.
---
 lib/PageThorneDisk.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 71d5782..0eb2819 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -293,12 +293,17 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
       	inc = (emission(nuem, dsem, coord_ph_hit, coord_obj_hit))
       	  * (ph -> getTransmission(size_t(-1)))
       	  * ggred*ggred*ggred; // Inu/nu^3 invariant
+#       ifdef HAVE_UDUNITS
+      	if (data -> spectrum_converter_)
+      	  inc = (*data -> spectrum_converter_)(inc);
+#       endif
       	data->spectrum[ii*data->offset] += inc;
       	//cout << "in spec stored= " << ggred << " " << inc << endl;
         //cout << "transmission : " << ph -> getTransmission(size_t(-1)) << endl;
       }
     }
-    if (data->spectrum||data->stokesQ||data->stokesU||data->stokesV) {
+    if ((data->spectrum && ph -> parallelTransport())
+	||data->stokesQ||data->stokesU||data->stokesV) {
       //ggred=1.;
       if (!ph -> parallelTransport())
         GYOTO_ERROR("parallelTransport not true, impossible to compute polarisation");
-- 
2.43.0


From a193e921e862339b2d8521e72ba97dd2df41ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 51/52] fix: ThinDiskProfile read impact coordinates through a
 null pointer

The branch belonged to the quantities requested (data not null); a hit
without any requested quantity crashed and impact coordinates were refused.
---
 lib/ThinDiskProfile.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/ThinDiskProfile.C b/lib/ThinDiskProfile.C
index 2eb917a..66b45d4 100644
--- a/lib/ThinDiskProfile.C
+++ b/lib/ThinDiskProfile.C
@@ -473,13 +473,13 @@ void ThinDiskProfile::processHitQuantities(Photon* ph,
        #if GYOTO_DEBUG_ENABLED
          GYOTO_DEBUG_EXPR(*data->redshift);
        #endif
-    }
-       else GYOTO_ERROR("unimplemented data");
-   } else if (data->impactcoords ) { // && data->impactcoords[0]==DBL_MAX to get only the n=0 coordinates
+    } else if (data->impactcoords) { // && data->impactcoords[0]==DBL_MAX to get only the n=0 coordinates
       if (coord_ph_hit.size() > 8) GYOTO_ERROR("ImpactCoords is incompatible with parallel transport");
       memcpy(data->impactcoords, coord_obj_hit, 8 * sizeof(double));
       memcpy(data->impactcoords+8, &coord_ph_hit[0], 8 * sizeof(double));
       //cout << setprecision(18);
       //cout << endl << "t,r,theta,phi: " << coord_obj_hit[0] << " " << coord_obj_hit[1] << " " << coord_obj_hit[2] << " " << coord_obj_hit[3] << endl; 
     }
+       else GYOTO_ERROR("unimplemented data");
+   }
  }
-- 
2.43.0


From 7203951f3b1b67d365f564343044b1b5f5ad9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:08 +0000
Subject: [PATCH 52/52] fix: XillverReflection kept listening to its metric
 after its destruction

The metric then notified a deleted object; clones did not listen to
their metric at all.
---
 lib/XillverReflection.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/XillverReflection.C b/lib/XillverReflection.C
index a40e8ae..2c63e83 100644
--- a/lib/XillverReflection.C
+++ b/lib/XillverReflection.C
@@ -132,7 +132,7 @@ XillverReflection::XillverReflection(const XillverReflection& o) :
     phi_ = new double[ncells = nphi_];
     memcpy(phi_, o.phi_, ncells * sizeof(double));
   }
-
+  if (gg_) gg_->hook(this);
 }
 
 XillverReflection * XillverReflection::clone() const {
@@ -140,6 +140,7 @@ XillverReflection * XillverReflection::clone() const {
 
 XillverReflection::~XillverReflection() {
   GYOTO_DEBUG << endl;
+  if (gg_) gg_->unhook(this);
   if (illumination_) delete [] illumination_;
   if (reflection_) delete [] reflection_;
   if (freq_) delete [] freq_;
-- 
2.43.0

