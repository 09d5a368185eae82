From a8b72d38a3ddbb39991126da77641b899c5da517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 01/68] fix: sign of the multiplicative Jacobian of R^T v

For a rotation (1+S(e))R of the frame, d(R^T v) = R^T S(v) e, which is also
the convention of the measurement Jacobian of the multiplicative IMU system.
---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 15b2688..467aaba 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -548,7 +548,7 @@ inline void derivateRotationMultiplicative(const Vector3 & deltaR, Matrix3 & dRd
 /// local frame
 inline Matrix3 derivateRtvMultiplicative(const Matrix3 & R, const Vector3 & v)
 {
-  return -R.transpose() * skewSymmetric(v);
+  return R.transpose() * skewSymmetric(v);
 }
 
 /// derivates a quaternion using finite difference to get a angular velocity vector
-- 
2.43.0


From 8149036d33f62271104613cb1a701f5f9d01e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 02/68] fix: Kinematics::update doubles instead of halving a
 dt^2/2 terms

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 467aaba..36f9281 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1370,7 +1370,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisPos() += thisAcc() * dt * dt / 0.5;
+            thisPos() += thisAcc() * dt * dt / 2;
           }
         }
       }
@@ -1568,7 +1568,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisOri.integrate(thisAcc() * dt * dt / 0.5);
+            thisOri.integrate(thisAcc() * dt * dt / 2);
           }
         }
       }
-- 
2.43.0


From b26c59950468cd18ef887f89658b1ac2344ca6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 03/68] fix: sign of the angular acceleration deduced from
 orientations in Kinematics::update

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 36f9281..59f84b9 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1529,7 +1529,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
     {
       if(accMethod == useOrientation) // then velocity cannot use accelerations
       {
-        thisAcc = 2 * newOri.differentiate(thisOri) / (dt * dt);
+        thisAcc = 2 * thisOri.differentiate(newOri) / (dt * dt);
       }
     }
 
-- 
2.43.0


From 77694fa5d138ccbe1eed85593362fdbd23089236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 04/68] fix: Kinematics::update never computed the angular
 acceleration from orientation and velocity

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 59f84b9..a4457c7 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1535,7 +1535,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
 
     if(velMethod == useOrientation) // then position cannot use velocity
     {
-      if(accMethod == useVelAndAcc)
+      if(accMethod == useOriAndVel)
       {
         thisAcc = -thisVel();
         thisVel = thisOri.differentiate(newOri) / dt;
-- 
2.43.0


From cf36c5b5d98355340b185f41d6d5ef7509c9006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:19 +0000
Subject: [PATCH 05/68] fix: setLastIndex gives the last element the requested
 index

---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 6933f0e..37a1d89 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -355,7 +355,7 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 template <typename MatrixType, typename Allocator>
 inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
 {
-  return k_=index-(v_.size()+1);
+  return k_=index-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-- 
2.43.0


From 220a5a3b58971ecae920e2cda5d839f8ca3896d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:19 +0000
Subject: [PATCH 06/68] fix: truncateBefore removes exactly the elements older
 than the given index

It shifted the indexes when the time preceded the first element, and emptied
the array when the time was the last index.
---
 include/state-observation/tools/definitions.hxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 37a1d89..02ff5b6 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -476,14 +476,12 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore(TimeIndex time)
 {
   if (v_.size()>0)
   {
-    if (time < getLastIndex())
+    if (time <= getLastIndex())
     {
       for (TimeIndex i=getFirstIndex(); i<time ; ++i)
       {
-        v_.pop_front();
+        popFront();
       }
-
-      setFirstIndex(time);
     }
     else
     {
-- 
2.43.0


From 71aa6ae27198269c3fe3f74bff83eb43aa6eb1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:33 +0000
Subject: [PATCH 07/68] fix: the time of the last input does not depend on the
 measurements

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 3c595aa..b3b7275 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -187,7 +187,7 @@ TimeSize ZeroDelayObserver::getInputsNumber() const
 TimeIndex ZeroDelayObserver::getInputTime() const
 {
 
-  BOOST_ASSERT(y_.size() > 0 && "ERROR: There is no measurements registered (past measurements are erased)");
+  BOOST_ASSERT(u_.size() > 0 && "ERROR: There is no inputs registered (past inputs are erased)");
   return u_.getLastIndex();
 }
 
-- 
2.43.0


From 3942a1e02ee95a5fdb31f49893148eab2b14d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:49 +0000
Subject: [PATCH 08/68] fix: setting a past state clears the measurements and
 inputs, as documented

The new time was compared with itself, so the stale data were kept.
---
 src/zero-delay-observer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index b3b7275..79ceddf 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -7,9 +7,11 @@ void ZeroDelayObserver::setState(const ObserverBase::StateVector & x_k, TimeInde
 {
   BOOST_ASSERT(checkStateVector(x_k) && "The size of the state vector is incorrect");
 
+  bool backInTime = x_.isSet() && k < getCurrentTime();
+
   x_.set(x_k, k);
 
-  if(k < getCurrentTime())
+  if(backInTime)
   {
     y_.clear();
     u_.clear();
-- 
2.43.0


From 7e3ce43aff6c0695bafe9eca0beecd794fd96333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:43 +0000
Subject: [PATCH 09/68] fix: EKF predictions were reused after a change of
 state, input or functor at the same time

---
 .../observer/extended-kalman-filter.hpp       | 17 ++++++
 src/extended-kalman-filter.cpp                | 58 ++++++++++++++++++-
 2 files changed, 73 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 73a9019..836b476 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -116,6 +116,16 @@ public:
   /// Reset the extended kalman filter (call also the reset function of the dynamics functor)
   virtual void reset();
 
+  /// The following methods behave as in the base class, but they change what the prediction depends on. So they also
+  /// discard the prediction that may have been already computed for the next time index.
+  virtual void setState(const ObserverBase::StateVector & x_k, TimeIndex k);
+  virtual void setCurrentState(const ObserverBase::StateVector & x_k);
+  virtual void clearStates();
+  virtual void setInput(const ObserverBase::InputVector & u_k, TimeIndex k);
+  virtual void pushInput(const ObserverBase::InputVector & u_k);
+  virtual void clearInputs();
+  virtual void clearInputsAndMeasurements();
+
 protected:
   /// simulate the dynamics of the state using the functor
   virtual StateVector prediction_(TimeIndex k);
@@ -135,6 +145,13 @@ protected:
   /// pointer on the dynamics functor
   DynamicalSystemFunctorBase * f_;
 
+  /// tells that the last predictions have been obtained with the current state, inputs and functor
+  bool statePredictionUpToDate_ = false;
+  bool measurementPredictionUpToDate_ = false;
+
+  /// forces the recomputation of the predictions
+  void discardPredictions_();
+
   // optimization
   struct Optimization
   {
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 79e7cde..d91db9b 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -54,6 +54,7 @@ ExtendedKalmanFilter::ExtendedKalmanFilter(Index n,
 void ExtendedKalmanFilter::setFunctor(DynamicalSystemFunctorBase * f)
 {
   f_ = f;
+  discardPredictions_();
   // f_->reset();
 }
 
@@ -72,6 +73,7 @@ void ExtendedKalmanFilter::setDirectInputOutputFeedthrough(bool b)
   if(p_ > 0)
   {
     directInputOutputFeedthrough_ = b;
+    discardPredictions_();
   }
 }
 
@@ -80,12 +82,13 @@ void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)
   if(p_ > 0)
   {
     directInputStateProcessFeedthrough_ = b;
+    discardPredictions_();
   }
 }
 
 ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 {
-  if(!xbar_.isSet() || xbar_.getTime() != k)
+  if(!statePredictionUpToDate_ || !xbar_.isSet() || xbar_.getTime() != k)
   {
     if((p_ > 0) && (directInputStateProcessFeedthrough_))
     {
@@ -99,6 +102,8 @@ ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
     }
     BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
     xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
+    statePredictionUpToDate_ = true;
+    measurementPredictionUpToDate_ = false;
   }
 
   return xbar_();
@@ -107,9 +112,10 @@ ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 ObserverBase::MeasureVector ExtendedKalmanFilter::predictSensor_(TimeIndex k)
 {
 
-  if(!this->ybar_.isSet() || this->ybar_.getTime() != k)
+  if(!measurementPredictionUpToDate_ || !this->ybar_.isSet() || this->ybar_.getTime() != k)
   {
     ybar_.set(simulateSensor_(xbar_(), k), k);
+    measurementPredictionUpToDate_ = true;
   }
 
   return ybar_();
@@ -216,6 +222,54 @@ void ExtendedKalmanFilter::reset()
   if(f_ != 0x0) f_->reset();
 }
 
+void ExtendedKalmanFilter::setState(const ObserverBase::StateVector & x_k, TimeIndex k)
+{
+  KalmanFilterBase::setState(x_k, k);
+  discardPredictions_();
+}
+
+void ExtendedKalmanFilter::setCurrentState(const ObserverBase::StateVector & x_k)
+{
+  KalmanFilterBase::setCurrentState(x_k);
+  discardPredictions_();
+}
+
+void ExtendedKalmanFilter::clearStates()
+{
+  KalmanFilterBase::clearStates();
+  discardPredictions_();
+}
+
+void ExtendedKalmanFilter::setInput(const ObserverBase::InputVector & u_k, TimeIndex k)
+{
+  KalmanFilterBase::setInput(u_k, k);
+  discardPredictions_();
+}
+
+void ExtendedKalmanFilter::pushInput(const ObserverBase::InputVector & u_k)
+{
+  KalmanFilterBase::pushInput(u_k);
+  discardPredictions_();
+}
+
+void ExtendedKalmanFilter::clearInputs()
+{
+  KalmanFilterBase::clearInputs();
+  discardPredictions_();
+}
+
+void ExtendedKalmanFilter::clearInputsAndMeasurements()
+{
+  KalmanFilterBase::clearInputsAndMeasurements();
+  discardPredictions_();
+}
+
+void ExtendedKalmanFilter::discardPredictions_()
+{
+  statePredictionUpToDate_ = false;
+  measurementPredictionUpToDate_ = false;
+}
+
 DynamicalSystemFunctorBase * ExtendedKalmanFilter::functor() const
 {
   return f_;
-- 
2.43.0


From afe898e30e2b26d614aad7fe303b16d74b216ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:26 +0000
Subject: [PATCH 10/68] fix: finite-difference C matrix of the EKF in the
 tangent space of the measurements

---
 .../state-observation/observer/extended-kalman-filter.hpp | 1 +
 src/extended-kalman-filter.cpp                            | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 836b476..7390bdb 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -163,6 +163,7 @@ protected:
     ObserverBase::StateVector dx_;
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
+    KalmanFilterBase::MeasureVectorTan dy_;
 
   } opt;
 
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index d91db9b..d95058d 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -190,7 +190,7 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 {
   TimeIndex k = this->x_.getTime();
 
-  opt.c_.resize(m_, nt_);
+  opt.c_.resize(mt_, nt_);
 
   updateStateAndMeasurementPrediction();
 
@@ -207,10 +207,10 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    opt.yp_ -= ybar_();
-    opt.yp_ /= dx[i];
+    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    opt.dy_ /= dx[i];
 
-    opt.c_.col(i) = opt.yp_;
+    opt.c_.col(i) = opt.dy_;
   }
 
   return opt.c_;
-- 
2.43.0


From 4efe112ec4606f0fc85eb180f3d744a4dabd162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:37 +0000
Subject: [PATCH 11/68] fix: the unlimited axis of the bias was uninitialised
 when only one axis is limited

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index a624a09..d074535 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -179,7 +179,7 @@ void LipmDcmEstimator::update()
   if(biasLimit_.x() > 0 || biasLimit_.y() > 0)
   {
     Vector2 localBias = getLocalBias();
-    Vector2 clampedLocalBias;
+    Vector2 clampedLocalBias = localBias;
     if(biasLimit_.x() > 0)
     {
       clampedLocalBias.x() = tools::clampScalar(localBias.x(), biasLimit_.x());
-- 
2.43.0


From e33226d51247706ed4c79d62cb9cc4d872ac359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:12 +0000
Subject: [PATCH 12/68] fix: the clamped part of the bias was given to the DCM
 in the wrong frame

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index d074535..f034fbd 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -190,7 +190,7 @@ void LipmDcmEstimator::update()
     }
 
     setBias(previousOrientation_ * clampedLocalBias);
-    setUnbiasedDCM(getUnbiasedDCM() + localBias - clampedLocalBias);
+    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));
   }
 }
 
-- 
2.43.0


From 623a1ae671a70053648b8250d583043169813f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:49 +0000
Subject: [PATCH 13/68] fix: setDcmMeasureErrorStd had no effect

---
 src/lipm-dcm-estimator.cpp        | 4 ++--
 src/unidim-lipm-dcm-estimator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index f034fbd..05719c0 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -169,8 +169,8 @@ void LipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void LipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix2 R;
-  R = dblToSqDiag(std);
+  R_ = dblToSqDiag(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void LipmDcmEstimator::update()
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index ee7c751..466bca7 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -162,8 +162,8 @@ void UnidimLipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void UnidimLipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix1 R;
-  R(0, 0) = square(std);
+  R_(0, 0) = square(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void UnidimLipmDcmEstimator::setInputs(double dcm, double zmp)
-- 
2.43.0


From a1c5a81f1bfdb34393f189e7fd27c9a828af96a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:29 +0000
Subject: [PATCH 14/68] fix: setBiasDriftPerSecond ignored the sampling time
 and was lost at the next setting

---
 src/lipm-dcm-estimator.cpp        | 5 ++---
 src/unidim-lipm-dcm-estimator.cpp | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 05719c0..100b4f5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -132,9 +132,8 @@ void LipmDcmEstimator::setBias(const Vector2 & bias, const Vector2 & uncertainty
 
 void LipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  /// update the corresponding part in the process noise matrix
-  Q_.bottomRightCorner<2, 2>() = dblToSqDiag(driftPerSecond);
-  filter_.setProcessCovariance(Q_);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void LipmDcmEstimator::setBiasLimit(const Vector2 & biasLimit)
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index 466bca7..c9b2738 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -130,10 +130,8 @@ void UnidimLipmDcmEstimator::setBias(double bias, double uncertainty)
 
 void UnidimLipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  Matrix2 Q = filter_.getProcessCovariance();
-  /// update the corresponding part in the process noise matrix
-  Q(1, 1) = square(driftPerSecond);
-  filter_.setProcessCovariance(Q);
+  biasDriftStd_ = driftPerSecond;
+  updateMatricesABQ_();
 }
 
 void UnidimLipmDcmEstimator::setUnbiasedDCM(double dcm)
-- 
2.43.0


From 4f83d58a6dd6738976c9f2516fd73f156833d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:25 +0000
Subject: [PATCH 15/68] fix: the first measurement not yet consumed was
 propagated with the rotation of the next one

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 100b4f5..337d6a5 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -197,7 +197,7 @@ void LipmDcmEstimator::setInputs(const Vector2 & dcm, const Vector2 & zmp, const
 {
   if(filter_.stateIsSet())
   {
-    if(filter_.getMeasurementsNumber() > 1)
+    if(filter_.getMeasurementsNumber() > 0 && filter_.getMeasurementTime() > filter_.getCurrentTime())
     {
       update(); /// update the estimation of the state to synchronize with the measurements
     }
-- 
2.43.0


From da907ea89d81e00cc41324b543fdb9fa6595aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 16/68] fix: assertion failed on noisy measurements with
 concatenated inputs

---
 src/algebraic-sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index 09affd5..61ee98d 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -67,7 +67,7 @@ Vector AlgebraicSensor::computeNoisyMeasurement_()
 {
   if(!storedNoiselessMeasurement_)
   {
-    BOOST_ASSERT(checkStateVector(state_) && "The state is not set or incorrectly set");
+    BOOST_ASSERT(state_.rows() == getStateSize_() && "The state is not set or incorrectly set");
 
     if(concat_ > 0)
       noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;
-- 
2.43.0


From e5f7f24c81b496b3d82f4c50164aa34541cf4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:21 +0000
Subject: [PATCH 17/68] fix: mergeRoll1Pitch1WithYaw2 was declared with another
 signature than its definition and could not be called

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index a4457c7..af3a888 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -407,7 +407,7 @@ inline Matrix3 mergeTiltWithYaw(const Vector3 & Rtez, const Matrix3 & R2, const
   }
 }
 
-inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 v)
+inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 & v)
 {
   return mergeTiltWithYaw(R1.transpose() * Vector3::UnitZ(), R2, v);
 }
-- 
2.43.0


From 7f42f5e1e081cb9c1772c2befff02e6ee3b23525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:57 +0000
Subject: [PATCH 18/68] fix: setWithGyroBias changed the estimation of the
 accelerations instead of the one of the biases

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 08bfdf0..7c9d0ab 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -497,7 +497,7 @@ void KineticsObserver::setWithAccelerationEstimation(bool b)
 
 void KineticsObserver::setWithGyroBias(bool b)
 {
-  withAccelerationEstimation_ = b;
+  withGyroBias_ = b;
 }
 
 int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer, const Kinematics & localKine, int num)
-- 
2.43.0


From fb0af84d6f8c616f465043b9a8c4a30b86c84b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:20 +0000
Subject: [PATCH 19/68] fix: the components of the state which are not
 estimated were left uninitialized in the difference of states

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 7c9d0ab..91a5f1e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1440,7 +1440,7 @@ void KineticsObserver::stateDifference(const Vector & stateVector1, const Vector
 {
   Orientation & o1 = opt_.ori1;
   Orientation & o2 = opt_.ori2;
-  difference.resize(stateTangentSize_);
+  difference.setZero(stateTangentSize_); /// the components which are not estimated do not differ
   difference.segment<sizePos>(posIndexTangent()).noalias() =
       stateVector1.segment<sizePos>(posIndex()) - stateVector2.segment<sizePos>(posIndex());
   o1.fromVector4(stateVector1.segment<sizeOri>(oriIndex()));
-- 
2.43.0


From e7c088acb98eac96a3d906a540c585453b634ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:14 +0000
Subject: [PATCH 20/68] fix: removing an existing contact failed an assertion

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 91a5f1e..13cbbc5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -964,7 +964,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
 void KineticsObserver::removeContact(int contactNbr)
 {
-  BOOST_ASSERT(!contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
+  BOOST_ASSERT(contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
   contacts_[contactNbr].isSet = false;
   if(contacts_[contactNbr].withRealSensor)
   {
-- 
2.43.0


From ab559831b589c5d21d23b6e027a82505f45a890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:14 +0000
Subject: [PATCH 21/68] fix: no contact could be added after clearContacts,
 which destroyed their storage

---
 src/kinetics-observer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 13cbbc5..57934d0 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -975,7 +975,11 @@ void KineticsObserver::removeContact(int contactNbr)
 
 void KineticsObserver::clearContacts()
 {
-  contacts_.clear();
+  for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    i->isSet = false;
+    i->withRealSensor = false;
+  }
   numberOfContactRealSensors_ = 0;
 }
 
-- 
2.43.0


From a297f1422a60a7c7d60c6ee8d8e6e8d23e3fcc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:14 +0000
Subject: [PATCH 22/68] fix: getNumberOfContacts returned the maximum number of
 contacts

---
 src/kinetics-observer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 57934d0..8df477e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -985,7 +985,15 @@ void KineticsObserver::clearContacts()
 
 Index KineticsObserver::getNumberOfContacts() const
 {
-  return contacts_.size();
+  Index number = 0;
+  for(VectorContactConstIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    if(i->isSet)
+    {
+      ++number;
+    }
+  }
+  return number;
 }
 
 std::vector<int> KineticsObserver::getListOfContacts() const
-- 
2.43.0


From fc40e96cc6f11ef12a1d34669c1ccf9ddd4d589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:14 +0000
Subject: [PATCH 23/68] fix: an IMU set without its number was never given a
 free one

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 8df477e..6f5e0f5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -508,7 +508,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
@@ -566,7 +566,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
-- 
2.43.0


From b3952a018df6d3821dfd1931c1248c299deee9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:14 +0000
Subject: [PATCH 24/68] fix: the velocities of an IMU were computed over a null
 duration

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 6f5e0f5..04a2f48 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -544,7 +544,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
@@ -603,7 +603,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
-- 
2.43.0


From c6293c59d914c430c4896b79f2459fee9e8b26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:44 +0000
Subject: [PATCH 25/68] fix: the pose of an added contact was not given to the
 filter

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 04a2f48..cb9799a 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -936,6 +936,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   /// update the state vector
   stateVector_.segment<sizeContact>(contact.stateIndex) << pose.toVector(flagsContactKine), Vector6::Zero();
+  ekf_.setState(stateVector_, k_est_);
 
   /// sets the initial covariance matrix
   Matrix stateCovMat = ekf_.getStateCovariance();
-- 
2.43.0


From dc13bfaae1f9b7df1c24fdb4fa93890ef404f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 26/68] fix: the default process variances of the contact
 wrenches were their initial variances

---
 src/kinetics-observer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index cb9799a..d0667c1 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -124,8 +124,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   unmodeledWrenchProcessCovMat_(Matrix6::Identity() * unmodeledWrenchProcessVarianceDefault),
   contactPositionProcessCovMat_(Matrix3::Identity() * contactPositionProcessVarianceDefault),
   contactOrientationProcessCovMat_(Matrix3::Identity() * contactOrientationProcessVarianceDefault),
-  contactForceProcessCovMat_(Matrix3::Identity() * contactForceInitVarianceDefault),
-  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueInitVarianceDefault)
+  contactForceProcessCovMat_(Matrix3::Identity() * contactForceProcessVarianceDefault),
+  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueProcessVarianceDefault)
 {
   ekf_.setFunctor(this);
   ekf_.setStateArithmetics(this);
@@ -160,6 +160,9 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   contactProcessCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = contactTorqueProcessCovMat_;
 
   contactInitCovMatDefault_ = contactProcessCovMatDefault_;
+  contactInitCovMatDefault_.block<sizeForce, sizeForce>(6, 6) = Matrix3::Identity() * contactForceInitVarianceDefault;
+  contactInitCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) =
+      Matrix3::Identity() * contactTorqueInitVarianceDefault;
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
-- 
2.43.0


From 25f75cf0fc6ad0d3f0dafa537a6fa173eb4979c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:45 +0000
Subject: [PATCH 27/68] fix: the predicted accelerometer signals used
 uninitialized accelerations

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d0667c1..24ce873 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1601,8 +1601,8 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
   stateKine.linAcc.set(true);
   stateKine.angAcc.set(true);
 
-  Vector3 & linacc = (Vector3 &)(stateKine.linAcc);
-  Vector3 & angacc = (Vector3 &)(stateKine.angAcc);
+  Vector3 & linacc = stateKine.linAcc(); /// reference (Vector3&)
+  Vector3 & angacc = stateKine.angAcc(); /// reference
 
   computeAccelerations_(stateKine, forceLocal, torqueLocal, linacc, angacc);
 
-- 
2.43.0


From 0fcb02a8f3b6d9cb97f6cede96094822ec7a0e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:31 +0000
Subject: [PATCH 28/68] fix: the wrench sensors of the previous iteration were
 not counted any more but still written in the measurements

---
 src/kinetics-observer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 24ce873..537b495 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1305,6 +1305,10 @@ void KineticsObserver::startNewIteration_()
   if(k_est_ == k_data_)
   {
     ++k_data_;
+    for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+    {
+      i->withRealSensor = false;
+    }
     numberOfContactRealSensors_ = 0;
     currentIMUSensorNumber_ = 0;
   }
-- 
2.43.0


From c47a6fc35aee2354d0597c41db92fc64c7d2dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 29/68] fix: resetInputs kept counting the wrench sensors and
 marked as used the sensors which were never set

---
 src/kinetics-observer.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 537b495..221e740 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1270,17 +1270,33 @@ void KineticsObserver::resetSensorsDefaultCovMat()
 
 void KineticsObserver::resetInputs()
 {
+  if(k_est_ == k_data_)
+  {
+    return; /// no input has been given since the last estimation
+  }
+
   for(VectorIMUIterator i = imuSensors_.begin(); i != imuSensors_.end(); ++i)
   {
-    i->time = k_est_;
+    if(i->time == k_data_)
+    {
+      i->time = k_est_;
+    }
   }
 
   for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
   {
-    i->time = k_est_;
+    if(i->time == k_data_)
+    {
+      i->time = k_est_;
+    }
+  }
+
+  if(absPoseSensor_.time == k_data_)
+  {
+    absPoseSensor_.time = k_est_;
   }
 
-  absPoseSensor_.time = k_est_;
+  k_data_ = k_est_; /// the next input starts the iteration again
 }
 
 void KineticsObserver::setFiniteDifferenceStep(const Vector & v)
-- 
2.43.0


From ce63bf1db77a32376a3c1eda59394289fc5c31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:55 +0000
Subject: [PATCH 30/68] fix: the centrifugal acceleration of the center of mass
 was counted twice

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 221e740..e496b8c 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1401,7 +1401,7 @@ void KineticsObserver::computeAccelerations_(Kinematics & stateKine,
 {
   Matrix3 Rt = stateKine.orientation.toMatrix3().transpose();
   Vector3 Rtw = Rt * stateKine.angVel();
-  Vector3 corioCentri = 2 * Rtw.cross(comd_() + Rtw.cross(com_()));
+  Vector3 corioCentri = Rtw.cross(2 * comd_() + Rtw.cross(com_()));
 
   angAcc = stateKine.orientation
            * ((I_() + mass_ * kine::skewSymmetric2(com_())).inverse()
-- 
2.43.0


From 456c2cb1869bdcdb99b10c30b446b5abe4cdf70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:06 +0000
Subject: [PATCH 31/68] fix: the process and measurement noises of the kinetics
 observer had no effect

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index e496b8c..6a9c3d7 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1600,7 +1600,7 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
 
   if(processNoise_ != 0x0)
   {
-    processNoise_->getNoisy(x);
+    x = processNoise_->getNoisy(x);
   }
 
   return x;
@@ -1660,7 +1660,7 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
 
   if(measurementNoise_ != 0x0)
   {
-    measurementNoise_->getNoisy(y);
+    y = measurementNoise_->getNoisy(y);
   }
 
   return y;
-- 
2.43.0


From ddd3ab6cd77c2b1f7a05165f375ff72ba6458564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:34 +0000
Subject: [PATCH 32/68] fix: the predicted contact wrenches ignored the rest
 pose of the contact

---
 .../dynamics-estimators/kinetics-observer.hpp |  2 +-
 src/kinetics-observer.cpp                     | 30 +++++--------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e776636..73ece68 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -928,7 +928,7 @@ protected:
                              Kinematics & stateKine,
                              Kinematics & contactPose,
                              Vector3 & Force,
-                             Vector3 torque);
+                             Vector3 & torque);
 
   /// Sets a noise which disturbs the state dynamics
   virtual void setProcessNoise(NoiseBase *);
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 6a9c3d7..d8ac17c 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1416,7 +1416,7 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
                                              Kinematics & stateKine,
                                              Kinematics & contactPose,
                                              Vector3 & force,
-                                             Vector3 torque)
+                                             Vector3 & torque)
 {
   Contact & contact = *i;
 
@@ -1571,30 +1571,14 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
   {
     if(i->isSet)
     {
-      Kinematics & localKine = i->localKine;
+      /// the estimated rest pose of the contact
+      Kinematics restPose(x.segment<sizeContactKine>(contactKineIndex(i)), flagsContactKine);
 
-      Matrix3 & Kpt = i->linearStiffness;
-      Matrix3 & Kdt = i->linearDamping;
-      Matrix3 & Kpr = i->angularStiffness;
-      Matrix3 & Kdr = i->angularDamping;
+      Vector3 force, torque;
+      computeContactForces_(i, stateKine, restPose, force, torque);
 
-      /// the posiiton of the contact in the global frame
-      Kinematics globalKine;
-
-      globalKine.setToProductNoAlias(stateKine, localKine);
-
-      /// The error between the current kinematics and the rest kinematics
-      /// of the flexibility
-      Kinematics errorKine;
-      errorKine.setToProductNoAlias(globalKine, localKine.getInverse());
-
-      /// Inverse of the orientation of the foot in the global frame
-      Orientation Rcit(globalKine.orientation.inverse());
-
-      x.segment<sizeForce>(contactForceIndex(i)) = -(Rcit * (Kpt * errorKine.position() + Kdt * errorKine.linVel()));
-
-      x.segment<sizeTorque>(contactTorqueIndex(i)) = -(
-          Rcit * (Kpr * kine::vectorComponent(errorKine.orientation.toQuaternion()) * 0.5 + Kdr * errorKine.angVel()));
+      x.segment<sizeForce>(contactForceIndex(i)) = force;
+      x.segment<sizeTorque>(contactTorqueIndex(i)) = torque;
     }
   }
 
-- 
2.43.0


From b464d7522257c6f1982d81a77d0caeed549f0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:59 +0000
Subject: [PATCH 33/68] fix: the linear stiffness of a contact was replaced by
 the default one when its damping was not given, and kept null otherwise

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index d8ac17c..4188465 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -901,7 +901,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   contact.absPose = pose;
 
-  if(linearDamping != Matrix3::Zero())
+  if(linearStiffness != Matrix3::Zero())
   {
     contact.linearStiffness = linearStiffness;
   }
-- 
2.43.0


From bd2175a688cdc13ed58f9f989ebe1c7d8e32a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:26 +0000
Subject: [PATCH 34/68] fix: the predicted gyrometer signals ignored the
 estimated biases, which were not observable

---
 src/kinetics-observer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 4188465..28bfd7e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1626,6 +1626,11 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
       /// gyrometer
       y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal).noalias() =
           globalOri.transpose() * globalKine.angVel();
+      if(withGyroBias_)
+      {
+        y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal) +=
+            x.segment<sizeGyroBias>(gyroBiasIndex(static_cast<unsigned>(i - imuSensors_.begin())));
+      }
     }
   }
 
-- 
2.43.0


From 65c9315870df01a830c9b922c340d7cd5db464f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:22 +0000
Subject: [PATCH 35/68] fix: setKinematicsProcessCovariance was declared but
 not defined

---
 src/kinetics-observer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 28bfd7e..239c699 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1031,6 +1031,13 @@ void KineticsObserver::setKinematicsInitCovarianceDefault(const Matrix & P_kine)
   stateKinematicsInitCovMat_ = P_kine;
 }
 
+void KineticsObserver::setKinematicsProcessCovariance(const Matrix & Q_kine)
+{
+  Matrix Q = ekf_.getProcessCovariance();
+  setBlockStateCovariance<sizeStateKineTangent>(Q, Q_kine, kineIndexTangent());
+  ekf_.setProcessCovariance(Q);
+}
+
 void KineticsObserver::setGyroBiasStateCovariance(const Matrix3 & covMat, unsigned imuNumber)
 {
   Matrix P = ekf_.getStateCovariance();
-- 
2.43.0


From 264051a9c5edaefa13de12da669a5d80e0681465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:08 +0000
Subject: [PATCH 36/68] fix: setting components of the state reset the
 covariances of others

---
 src/kinetics-observer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 239c699..861270c 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -425,7 +425,7 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndex());
+    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndexTangent());
 
     if(resetForces)
     {
@@ -433,7 +433,8 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
       {
         if(i->isSet)
         {
-          setBlockStateCovariance<sizeContact>(stateCovariance, contactInitCovMatDefault_, contactIndex(i));
+          setBlockStateCovariance<sizeContactTangent>(stateCovariance, contactInitCovMatDefault_,
+                                                      contactIndexTangent(i));
         }
       }
     }
@@ -449,7 +450,7 @@ void KineticsObserver::setGyroBias(const Vector3 & bias, unsigned numberOfIMU, b
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndex(numberOfIMU));
+    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndexTangent(numberOfIMU));
 
     ekf_.setStateCovariance(stateCovariance);
   }
@@ -463,7 +464,7 @@ void KineticsObserver::setStateUnmodeledWrench(const Vector6 & wrench, bool rese
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndex());
+    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndexTangent());
 
     ekf_.setStateCovariance(stateCovariance);
   }
-- 
2.43.0


From 155bb81c0c67ee41dd55459ac9e4e8642f746bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:33 +0000
Subject: [PATCH 37/68] fix: the first center of mass given without its
 velocity failed an assertion

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 861270c..54a7e57 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -166,6 +166,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
+  com_.set(Vector3::Zero(), k_data_);
   comd_.set(Vector3::Zero(), k_data_);
   comdd_.set(Vector3::Zero(), k_data_);
   sigma_.set(Vector3::Zero(), k_data_);
-- 
2.43.0


From c425ec63d9a223de64c50b18510a33ca1aa72b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:33 +0000
Subject: [PATCH 38/68] fix: the velocities of a new contact were required, or
 computed from the kinematics of a previous one

---
 .../dynamics-estimators/kinetics-observer.hpp |  4 ++
 src/kinetics-observer.cpp                     | 48 +++++++++----------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index 73ece68..0b40241 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -1060,6 +1060,10 @@ protected:
   /// calls the reset of the iteration
   void startNewIteration_();
 
+  /// sets the local kinematics of the contact, if it is not new the missing components are computed from the previous
+  /// iteration, and they are null otherwise
+  void setContactLocalKinematics_(Contact & contact, const Kinematics & localKine);
+
   virtual Matrix computeAMatrix_();
   virtual Matrix computeCMatrix_();
 
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 54a7e57..7f8f63b 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -636,14 +636,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  setContactLocalKinematics_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
 
@@ -672,14 +665,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  setContactLocalKinematics_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
   contacts_[contactNumber].sensorCovMatrix = wrenchCovMatrix;
@@ -691,6 +677,26 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   }
 }
 
+void KineticsObserver::setContactLocalKinematics_(Contact & contact, const Kinematics & localKine)
+{
+  if(contact.time > 0 && contact.time == k_data_ - 1) /// the contact is not newly set
+  {
+    contact.localKine.update(localKine, dt_, Contact::localKineFlags);
+  }
+  else /// the contact is newlyset
+  {
+    contact.localKine = localKine;
+    if(!contact.localKine.linVel.isSet())
+    {
+      contact.localKine.linVel.set().setZero();
+    }
+    if(!contact.localKine.angVel.isSet())
+    {
+      contact.localKine.angVel.set().setZero();
+    }
+  }
+}
+
 void KineticsObserver::setContactWrenchSensorDefaultCovarianceMatrix(const Matrix6 & wrenchSensorCovMat)
 {
   contactWrenchSensorCovMatDefault_ = wrenchSensorCovMat;
@@ -706,14 +712,7 @@ void KineticsObserver::updateContactWithNoSensor(const Kinematics & localKine, u
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  setContactLocalKinematics_(contacts_[contactNumber], localKine);
 
   contacts_[contactNumber].time = k_data_;
 
@@ -898,6 +897,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
   Contact & contact = contacts_[contactNumber]; /// reference
 
   contact.isSet = true; /// set the contacts
+  contact.time = 0; /// its kinematics were not given yet
   contact.stateIndex = contactsIndex() + contactNumber * sizeContact;
   contact.stateIndexTangent = contactsIndexTangent() + contactNumber * sizeContactTangent;
 
-- 
2.43.0


From 7e768eac2467baafa72620afc33b5b032673d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 39/68] fix: the simulator ignored a new value of an input
 already set

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 22058ad..56a1657 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -28,7 +28,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
 
 void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 {
-  u_.insert(std::pair<TimeIndex, Vector>(k, u));
+  u_[k] = u;
 }
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
-- 
2.43.0


From d5f0edc256a905be5de254f23ae4522f77b939c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 40/68] fix: the simulator could not give its first and next
 measurements

---
 src/dynamical-system-simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 56a1657..03f7e73 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -33,8 +33,8 @@ void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 {
-  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() < k) && "ERROR: Only future measurements can be obtained");
-  if(y_.getNextIndex() < k) simulateDynamicsTo(k);
+  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
+  if(y_.size() == 0 || y_.getNextIndex() <= k) simulateDynamicsTo(k + 1);
 
   return y_[k];
 }
-- 
2.43.0


From 53b6e3577e7f31aa352bf7b8c39f5cdeeb272822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 41/68] fix: the simulator stopped one step before the
 requested state

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 03f7e73..3a6c2b6 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -42,7 +42,7 @@ Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 Vector DynamicalSystemSimulator::getState(TimeIndex k)
 {
   BOOST_ASSERT((x_.size() == 0 || x_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
-  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k - 1);
+  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k);
 
   return x_[k];
 }
-- 
2.43.0


From 38fa5ed0656922b2d44b296702860ed5eca1899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 42/68] fix: the simulator gave the measurements of the
 replaced states

---
 src/dynamical-system-simulator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 3a6c2b6..f7d5d50 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -23,6 +23,10 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
                && "ERROR: Only consecutive states can be set. If you want to restart a new dynamics please call "
                   "resetDynamics before");
   x_.truncateAfter(k - 1);
+  if(y_.size() > 0)
+  {
+    y_.truncateAfter(k - 1); /// these measurements were those of the previous states
+  }
   x_.setValue(x, k);
 }
 
-- 
2.43.0


From 3e855f81ef590385732aff8fc0a934005c5a6908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 43/68] fix: a simulation could not continue from a consecutive
 state set by the user

---
 src/dynamical-system-simulator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index f7d5d50..b4e3ec3 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -79,6 +79,14 @@ void DynamicalSystemSimulator::simulateDynamics()
 
   TimeIndex k(x_.getLastIndex());
   Vector u = getInput(k);
+  if(y_.size() > 0)
+  {
+    /// measurements of the states which were set without simulation
+    for(TimeIndex i = y_.getNextIndex(); i < k; ++i)
+    {
+      y_.setValue(f_->measureDynamics(x_[i], getInput(i), i), i);
+    }
+  }
   y_.setValue(f_->measureDynamics(x_[k], u, k), k);
   x_.setValue(f_->stateDynamics(x_[k], u, k), k + 1);
 }
-- 
2.43.0


From 66ab30ac2b5e2e35ccdb08e1bd85db6fe7e9319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:27 +0000
Subject: [PATCH 44/68] fix: the first component of the vectorial finite-time
 control was not computed

---
 include/state-observation/tools/miscellaneous-algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 809bbd7..438c2c1 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -162,7 +162,7 @@ inline Vector STATE_OBSERVATION_DLLAPI finiteTimeAccControl(const Vector & x,
                                                             double kv = -1)
 {
   Vector xdd(x.size());
-  for(Index i = 1; i < x.size(); ++i)
+  for(Index i = 0; i < x.size(); ++i)
   {
     xdd(i) = finiteTimeAccControl(x(i), xd(i), kp, kv);
   }
-- 
2.43.0


From 58f1c785c5ce12063875bba490e362066a71198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:27 +0000
Subject: [PATCH 45/68] fix: the finite-time control diverged, its acceleration
 had the opposite sign

---
 include/state-observation/tools/miscellaneous-algorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 438c2c1..241af30 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -151,8 +151,8 @@ inline double STATE_OBSERVATION_DLLAPI finiteTimeAccControl(double x, double xd,
   double sax = sqrt(fabs(x));
   double xdr = kp * signum(x) * sax;
   double y = xd - xdr;
-  double ydr = -kv * signum(y) * sqrt(fabs(y));
-  return ydr - kp * xd / (2 * sax);
+  double ydr = kv * signum(y) * sqrt(fabs(y));
+  return ydr + kp * xd / (2 * sax);
 }
 
 /// sqme as the scalar version but for every member of the vector
-- 
2.43.0


From a19fbb6120f5b8f1fbe66667365e6fb0533b6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:27 +0000
Subject: [PATCH 46/68] fix: the elasticity of the inverted pendulum was not
 initialized

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index 032695e..1daccb3 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -5,7 +5,7 @@ namespace stateObservation
 
 using stateObservation::cst::gravityConstant;
 
-BidimElasticInvPendulum::BidimElasticInvPendulum() : m_(1), h_(1), processNoise_(0x0), dt_(1)
+BidimElasticInvPendulum::BidimElasticInvPendulum() : k_(0), m_(1), h_(1), processNoise_(0x0), dt_(1)
 {
 #ifdef STATEOBSERVATION_VERBOUS_CONSTRUCTORS
   std::cout << std::endl << "IMUFixedContactDynamicalSystem Constructor" << std::endl;
-- 
2.43.0


From 5cdf54ae08d9b8c77675b02e4cc4b8727da20a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 47/68] fix: the fixed contact flexibility estimator passes its
 sampling period to its model

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 4cb4a79..841d818 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -219,6 +219,7 @@ const Vector & FixedContactEKFFlexEstimatorIMU::getFlexibilityVector()
 void FixedContactEKFFlexEstimatorIMU::setSamplingPeriod(double dt)
 {
   dt_ = dt;
+  functor_.setSamplingPeriod(dt);
 }
 
 } // namespace flexibilityEstimation
-- 
2.43.0


From 8df0d747263d6caec717c0d716e43c9e57e5a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 48/68] fix: a homogeneous matrix is accepted as a flexibility
 guess by the fixed contact estimator

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 841d818..298fcac 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -106,7 +106,7 @@ double FixedContactEKFFlexEstimatorIMU::getVirtualMeasurementsCovariance() const
 
 void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -115,15 +115,17 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 18x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0 = x;
-
   if(bstate)
   {
-    ekf_.setState(x0, k_);
+    ekf_.setState(x, k_);
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
+    Vector6 x0;
+    if(bhomogeneous)
+      x0 = kine::homogeneousMatrixToVector6(x);
+    else
+      x0 = x;
 
     Vector x_s = ekf_.stateVectorZero();
 
-- 
2.43.0


From a3f04d4d7e9f0b9d8f42171daca5f863d6e94ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 49/68] fix: a homogeneous matrix is accepted as a flexibility
 guess by the model base estimator

---
 src/model-base-ekf-flex-estimator-imu.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 82eb8e2..69a0e25 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -156,7 +156,7 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurement(const Vector & y)
 
 void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -165,15 +165,17 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 23x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0(x);
-
   if(bstate)
   {
-    ekf_.setState(x0, k_);
+    ekf_.setState(x, k_);
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
+    Vector6 x0;
+    if(bhomogeneous)
+      x0 = kine::homogeneousMatrixToVector6(x);
+    else
+      x0 = x;
 
     Vector x_s = ekf_.stateVectorZero();
 
-- 
2.43.0


From 7aa7a0bbb115f2747fc90d00b8cd3491320ffaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 50/68] fix: the momenta derivatives of the elastic model use
 the mass of the robot

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 3523fd4..12aa22b 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -173,9 +173,9 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromForces(const Vector
   computeContactWrench(op_.rFlex, op_.positionFlex, op_.contactPosV, op_.contactOriV, fc_, tc_, op_.fm, op_.tm,
                        op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = op_.f - hrp2::m * cst::gravity;
+  op_.momentaDot.segment<3>(0) = op_.f - robotMass_ * cst::gravity;
   op_.momentaDot.segment<3>(3) =
-      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * hrp2::m * cst::gravity;
+      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * robotMass_ * cst::gravity;
 
   return op_.momentaDot;
 }
@@ -237,7 +237,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
                        op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
                        op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = hrp2::m
+  op_.momentaDot.segment<3>(0) = robotMass_
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
                                     + kine::skewSymmetric2(op_.angularVelocityFlex) * op_.rFlex * op_.positionCom
                                     + 2 * kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.velocityCom
@@ -248,7 +248,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
       + op_.rFlex * op_.inertia * op_.rFlexT * op_.angularAcceleration
       + kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.AngMomentum + op_.rFlex * op_.dotAngMomentum
       + kine::skewSymmetric(op_.positionFlex) * op_.momentaDot.segment<3>(0)
-      + hrp2::m * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
+      + robotMass_ * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
 
   return op_.momentaDot;
 }
-- 
2.43.0


From d752ce85535b28eedd7bbe5d344e033a306f608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 51/68] fix: the momenta derivatives from the kinematics use
 the angular velocity of the flexibility

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 12aa22b..af9e3ef 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -234,8 +234,8 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
 
   computeAccelerations(op_.positionCom, op_.velocityCom, op_.accelerationCom, op_.AngMomentum, op_.dotAngMomentum,
                        op_.inertia, op_.dotInertia, op_.contactPosV, op_.contactOriV, op_.positionFlex,
-                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
-                       op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
+                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex,
+                       op_.angularVelocityFlex, op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
   op_.momentaDot.segment<3>(0) = robotMass_
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
-- 
2.43.0


From 81415327f940176382c7fa2f8ba780c9b40a66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 52/68] fix: the noisy state of the elastic model is the
 predicted state

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index af9e3ef..bc90ff0 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -907,7 +907,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::stateDynamics(const Vector & x, cons
   }
 
   if(processNoise_ != 0x0)
-    return processNoise_->getNoisy(op_.xk1);
+    return processNoise_->getNoisy(xk1_);
   else
     return xk1_;
 }
-- 
2.43.0


From 94f54c535d8a863cb6724564947210f697cc142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 53/68] fix: measureDynamics of a new elastic model stores the
 contact wrenches

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index bc90ff0..86d582b 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -939,7 +939,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::measureDynamics(const Vector & x, co
   op_.orientationFlexV = x.segment(state::ori, 3);
   op_.angularVelocityFlex = x.segment(state::angVel, 3);
 
-  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts[i] = x.segment(state::fc + 6 * i, 6);
+  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts.setValue(x.segment(state::fc + 6 * i, 6), i);
 
   op_.fm = x.segment(state::unmodeledForces, 3);
   op_.tm = x.segment(state::unmodeledForces + 3, 3);
-- 
2.43.0


From 7abb4cca5e2cba708f9676a54a0937176ca20fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 54/68] fix: the flexibility guess is the estimate of the fixed
 contact estimator until the first measurement

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 298fcac..217cd13 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -117,6 +117,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
   if(bstate)
   {
+    lastX_ = x;
     ekf_.setState(x, k_);
   }
   else
@@ -133,6 +134,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     x_s.segment(indexes::ori, 3) = x0.tail(3);
 
+    lastX_ = x_s;
     ekf_.setState(x_s, k_);
 
     ekf_.setQ(Q_);
-- 
2.43.0


From 1350a47265d3b1cf32c22b1d43728f5db3a2418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 55/68] fix: the flexibility guess is the estimate of the model
 base estimator until the first measurement

---
 src/model-base-ekf-flex-estimator-imu.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 69a0e25..d682afc 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -167,6 +167,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
   if(bstate)
   {
+    lastX_ = x;
     ekf_.setState(x, k_);
   }
   else
@@ -183,6 +184,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 
     x_s.segment(state::ori, 3) = x0.tail<3>();
 
+    lastX_ = x_s;
     ekf_.setState(x_s, k_);
 
     ekf_.setQ(Q_);
-- 
2.43.0


From 72e99a9663ccb676e722d4cdf3bf455cacb07d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 56/68] fix: the default covariance of the IMU was partly
 uninitialized

---
 src/model-base-ekf-flex-estimator-imu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index d682afc..8e65b2d 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -80,7 +80,7 @@ Matrix ModelBaseEKFFlexEstimatorIMU::getDefaultQ()
 
 Matrix6 ModelBaseEKFFlexEstimatorIMU::getDefaultRIMU()
 {
-  Matrix6 R;
+  Matrix6 R(Matrix6::Zero());
 
   R.block<3, 3>(0, 0) = Matrix3::Identity() * 1.e-6; // accelerometer
   R.block<3, 3>(3, 3) = Matrix3::Identity() * 1.e-6; // gyrometer
-- 
2.43.0


From 30108f8923a0c4d8e5bb8c83781a0c5b574ac5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 57/68] fix: the measurement covariances of new sensors were
 uninitialized or those of other sensors

---
 .../model-base-ekf-flex-estimator-imu.hpp     |  4 ++
 src/model-base-ekf-flex-estimator-imu.cpp     | 55 ++++++++++---------
 2 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index adc7df6..30f6f0a 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -260,6 +260,10 @@ protected:
   Matrix forceVariance_; // force sensor variance
   double absPosVariance_;
 
+  /// sizes of the parts of the force sensors and of the absolute position in R_
+  Index forceSizeR_;
+  Index absPosSizeR_;
+
   bool useFTSensors_;
 
   bool withAbsolutePos_;
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 8e65b2d..2e09b8f 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -16,7 +16,7 @@ ModelBaseEKFFlexEstimatorIMU::ModelBaseEKFFlexEstimatorIMU(double dt)
                               inputSizeBase_,
                               Matrix::Constant(stateSize, 1, dxFactor)),
   functor_(dt), stateSize_(stateSize), unmodeledForceVariance_(1e-6), forceVariance_(Matrix::Identity(6, 6) * 1e-4),
-  absPosVariance_(1e-4), useFTSensors_(false), withAbsolutePos_(false), withComBias_(false),
+  absPosVariance_(1e-4), forceSizeR_(0), absPosSizeR_(0), useFTSensors_(false), withAbsolutePos_(false), withComBias_(false),
   withUnmodeledForces_(false), limitOn_(true)
 {
   ekf_.setMeasureSize(functor_.getMeasurementSize());
@@ -206,6 +206,13 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurementNoiseCovariance(const Matrix &
   /// and have a size multiple of 6
 
   R_ = R;
+  forceSizeR_ = R.rows() - 6;
+  absPosSizeR_ = 0;
+  if(withAbsolutePos_ && R.rows() == getMeasurementSize())
+  {
+    forceSizeR_ -= 6;
+    absPosSizeR_ = 6;
+  }
   updateMeasurementCovarianceMatrix_();
 }
 
@@ -267,40 +274,34 @@ Vector ModelBaseEKFFlexEstimatorIMU::getForcesAndMoments()
 void ModelBaseEKFFlexEstimatorIMU::updateMeasurementCovarianceMatrix_()
 {
 
-  if(R_.rows() != getMeasurementSize())
+  const Index forceSize = useFTSensors_ ? Index(6 * functor_.getContactsNumber()) : 0;
+  const Index absPosSize = withAbsolutePos_ ? 6 : 0;
+
+  if(forceSize != forceSizeR_ || absPosSize != absPosSizeR_)
   {
+    /// the covariances of the sensors which were already there are kept
+    /// the other ones are initialized
+    Matrix R(Matrix::Zero(6 + forceSize + absPosSize, 6 + forceSize + absPosSize));
 
-    Index realIndex = R_.rows();
-    R_.conservativeResize(getMeasurementSize(), getMeasurementSize());
+    const Index kept = 6 + std::min(forceSize, forceSizeR_);
+    R.topLeftCorner(kept, kept) = R_.topLeftCorner(kept, kept);
 
-    Index currIndex = 6;
-    if(useFTSensors_)
+    for(Index i = kept; i < 6 + forceSize; i += 6)
     {
-      /// if the force part of the matrix is not filled
-      if(realIndex < currIndex + functor_.getContactsNumber() * 6)
-      {
-        R_.block(currIndex, 0, functor_.getContactsNumber() * 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, functor_.getContactsNumber() * 6).setZero();
-        for(Index i = 0; i < functor_.getContactsNumber(); ++i)
-        {
-          R_.block(currIndex, currIndex, 6, 6) = forceVariance_;
-          currIndex += 6;
-        }
-      }
+      R.block<6, 6>(i, i) = forceVariance_;
     }
 
-    if(withAbsolutePos_)
+    if(absPosSize > 0)
     {
-      if(realIndex < currIndex + 6)
-      {
-
-        R_.block(currIndex, 0, 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, 6).setZero();
-        R_.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
-
-        currIndex += 6;
-      }
+      if(absPosSizeR_ > 0)
+        R.bottomRightCorner<6, 6>() = R_.bottomRightCorner<6, 6>();
+      else
+        R.bottomRightCorner<6, 6>() = Matrix6::Identity() * absPosVariance_;
     }
+
+    R_ = R;
+    forceSizeR_ = forceSize;
+    absPosSizeR_ = absPosSize;
   }
   ekf_.setR(R_);
 }
-- 
2.43.0


From 90eace1b74f04beac5fc424c5f9b869c33b1d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 58/68] fix: the variance of the force sensors given as a 3x3
 matrix is applied to forces and moments

---
 src/model-base-ekf-flex-estimator-imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 2e09b8f..3fb6717 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -601,7 +601,9 @@ void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
 {
-  forceVariance_ = v;
+  forceVariance_ = Matrix::Zero(6, 6);
+  forceVariance_.block<3, 3>(0, 0) = v;
+  forceVariance_.block<3, 3>(3, 3) = v;
   updateMeasurementCovarianceMatrix_();
 }
 
-- 
2.43.0


From 375022917c95b117efaa8df5ad5e64f6c1329c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 59/68] fix: the variances of the force sensors and of the
 absolute position are applied to the active sensors

---
 src/model-base-ekf-flex-estimator-imu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 3fb6717..8684817 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -596,6 +596,7 @@ void ModelBaseEKFFlexEstimatorIMU::setUnmodeledForceProcessVariance(double d)
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 {
   forceVariance_ = Matrix::Identity(6, 6) * d;
+  forceSizeR_ = 0;
   updateMeasurementCovarianceMatrix_();
 }
 
@@ -604,12 +605,14 @@ void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
   forceVariance_ = Matrix::Zero(6, 6);
   forceVariance_.block<3, 3>(0, 0) = v;
   forceVariance_.block<3, 3>(3, 3) = v;
+  forceSizeR_ = 0;
   updateMeasurementCovarianceMatrix_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setAbsolutePosVariance(double d)
 {
   absPosVariance_ = d;
+  absPosSizeR_ = 0;
   updateMeasurementCovarianceMatrix_();
 }
 
-- 
2.43.0


From 52940a2afaf9e3b24341ab4dbcb93701b6e7c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 60/68] fix: resetting the covariances replaced the variances
 of the force sensors and of the absolute position

---
 src/model-base-ekf-flex-estimator-imu.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 8684817..e42a134 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -93,8 +93,9 @@ void ModelBaseEKFFlexEstimatorIMU::resetCovarianceMatrices()
 
   /////// std::cout << "\n\n\n ============> RESET COVARIANCE MATRIX <=============== \n\n\n" << std::endl;
 
-  R_ = Matrix::Identity(getMeasurementSize(), getMeasurementSize());
-  R_.block<6, 6>(0, 0) = getDefaultRIMU();
+  R_ = getDefaultRIMU();
+  forceSizeR_ = 0;
+  absPosSizeR_ = 0;
 
   updateMeasurementCovarianceMatrix_();
   stateObservation::Matrix m;
-- 
2.43.0


From 1153bf24a97eef83aacdd32eb1943e381077f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 61/68] fix: the limits of the contact torques were applied to
 the forces of the second contact

---
 src/model-base-ekf-flex-estimator-imu.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index e42a134..950c4e5 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -393,10 +393,13 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
           for(int i = 0; i < 3; i++)
           {
             // Saturation for bounded forces and torques
-            lastX_[Index(state::fc + 6 + i)] = std::min(lastX_[Index(state::fc + 6 + i)], limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::min(lastX_[Index(state::fc + i)], limitForces_[i]);
-            lastX_[Index(state::fc + 6 + i)] = std::max(lastX_[Index(state::fc + 6 + i)], -limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::max(lastX_[Index(state::fc + i)], -limitForces_[i]);
+            for(int c = 0; c < int(hrp2::contact::nbModeledMax); ++c)
+            {
+              double & force = lastX_[Index(state::fc + 6 * c + i)];
+              double & torque = lastX_[Index(state::fc + 6 * c + 3 + i)];
+              force = std::max(std::min(force, limitForces_[i]), -limitForces_[i]);
+              torque = std::max(std::min(torque, limitTorques_[i]), -limitTorques_[i]);
+            }
           }
         }
         ekf_.setState(lastX_, ekf_.getCurrentTime());
-- 
2.43.0


From 1b2d0b3c6e9ab2f2c16e9086dabd36b326f41cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 62/68] fix: pushing one recorded variable in the logger looked
 for its value instead of its address and always threw

---
 include/state-observation/tools/logger.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index f465474..012845b 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -36,20 +36,22 @@ namespace stateObservation
     template <typename T>
     void Logger::push(const T * address)
     {
-      Tmap::iterator i= logs_.find( * address );
+      Tmap::iterator i= logs_.find(address);
 
       if (i!=logs_.end())
         update_(i);
       else
+      {
         BOOST_ASSERT(false && "The logger cannot find the data to push, please use record function");
         throw std::invalid_argument
                 ("The logger cannot find the data, please use record function");
+      }
     }
 
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push(*reference);
+      push<T>(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From c74ccf91c0c3d119aebc025601c5a1f7471004b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 63/68] fix: the logger took the address of a variable which is
 not constant for a recorded variable of pointer type

---
 include/state-observation/tools/logger.hpp |  4 ++++
 include/state-observation/tools/logger.hxx | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hpp b/include/state-observation/tools/logger.hpp
index 808b400..6d35714 100644
--- a/include/state-observation/tools/logger.hpp
+++ b/include/state-observation/tools/logger.hpp
@@ -25,6 +25,8 @@ public:
   template<typename T>
   void record(const T * address, const std::string & filename = std::string(""));
   template<typename T>
+  void record(T * address, const std::string & filename = std::string(""));
+  template<typename T>
   void record(const T & reference, const std::string & filename = std::string(""));
 
   /// updates the address of a recorded variable with a new address
@@ -40,6 +42,8 @@ public:
 
   template<typename T>
   void push(const T * address);
+  template<typename T>
+  void push(T * address);
 
   /// updates all the logs for all recorded variables
   void push();
diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index 012845b..c3ef565 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -27,10 +27,16 @@ namespace stateObservation
       logs_.insert(Tpair(address,log));
     }
 
+    template <typename T>
+    void Logger::record(T * address, const std::string& filename)
+    {
+      record(static_cast<const T *>(address),filename);
+    }
+
     template <typename T>
     void Logger::record(const T & reference, const std::string& filename)
     {
-      record<T>(&reference,filename);
+      record(&reference,filename);
     }
 
     template <typename T>
@@ -48,10 +54,16 @@ namespace stateObservation
       }
     }
 
+    template <typename T>
+    void Logger::push(T * address)
+    {
+      push(static_cast<const T *>(address));
+    }
+
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push<T>(&reference);
+      push(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From c7a097c013c9bfc9b07a1509e652db583e3ed149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 64/68] fix: updating the address of a logged variable lost its
 records

---
 include/state-observation/tools/logger.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index c3ef565..6c36d7b 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -78,10 +78,10 @@ namespace stateObservation
       }
       else
       {
-        log_s log(i->second.filename);
+        log_s log(i->second);
         log.setType<T>();
-        logs_.insert(Tpair(newAddress,log));
         logs_.erase(i);
+        logs_.insert(Tpair(newAddress,log));
       }
     }
 
-- 
2.43.0


From 0c5fe8187f8d875065fbed9d5a11fb646468059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 65/68] fix: the Coriolis term of the inverted pendulum used
 its height instead of its position

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index 1daccb3..89ee3c1 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -33,7 +33,7 @@ Vector BidimElasticInvPendulum::stateDynamics(const Vector & x, const Vector & u
   double thetadot = x[3];
   double thetadotdot = (1 / (m_ * (p * p + h_ * h_)))
                        * (-k_ * theta - m_ * gravityConstant * (cos(theta) * p - sin(theta) * h_)
-                          + m_ * (h_ * pdotdot - 2 * thetadot * (h_ * pdot)));
+                          + m_ * (h_ * pdotdot - 2 * thetadot * (p * pdot)));
 
   xk1[0] = p + dt_ * pdot;
   xk1[1] = theta + dt_ * thetadot;
-- 
2.43.0


From 415818ecc2f2c5c7184de22227429c42133f2d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 66/68] fix: reading an array from a file without time stamps
 added a matrix at the end of the file

---
 include/state-observation/tools/definitions.hxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 02ff5b6..c85c728 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -535,8 +535,15 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
           }
         }
 
-        setValue(m,k);
-        ++k;
+        if (f.fail()) /// there were no more complete matrices in the file
+        {
+          continuation=false;
+        }
+        else
+        {
+          setValue(m,k);
+          ++k;
+        }
       }
     }
   }
-- 
2.43.0


From 7992a1494d0194137e6e2da4bee3a89f455ac075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:12 +0000
Subject: [PATCH 67/68] fix: a reflection whose third column is the y axis was
 accepted as a rotation matrix

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index af3a888..fa35138 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -499,7 +499,8 @@ inline bool isRotationMatrix(const Matrix3 & M, double precision)
   /// The test checks that it is unitary then checks that the cross product of the two first vectors gets you the last
   return (M.isUnitary()
           && (isApproxAbs(M.topLeftCorner<2, 2>().determinant(), M(2, 2), precision)
-              && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)));
+              && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)
+              && isApproxAbs(M(2, 0) * M(0, 1) - M(0, 0) * M(2, 1), M(1, 2), precision)));
 }
 
 /// transforms a rotation into translation given a constraint of a fixed point
-- 
2.43.0


From 81f39c81f44b245f26dec8cb9d951ee5b1d6afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:09 +0000
Subject: [PATCH 68/68] fix: the covariance of the Kalman filters was not made
 symmetric, the sum with its transpose was aliased

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index c108803..291ee26 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -165,7 +165,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   pr_ *= oc_.pbar;
 
   // simmetrize the pr_ matrix
-  pr_ = (pr_ + pr_.transpose()) * 0.5;
+  pr_ = ((pr_ + pr_.transpose()) * 0.5).eval();
 
   return oc_.xhat;
 }
-- 
2.43.0

