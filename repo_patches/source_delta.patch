From 4b54253c2d65604a6a96e16ca3cbd7fc7482308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 01/16] fix: read the point position from the given state in
 the planar velocity Hessian

---
 src/private/PlanarVelocityControlConstraints.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/PlanarVelocityControlConstraints.cpp b/src/private/PlanarVelocityControlConstraints.cpp
index a8b3685..5c4c060 100644
--- a/src/private/PlanarVelocityControlConstraints.cpp
+++ b/src/private/PlanarVelocityControlConstraints.cpp
@@ -173,6 +173,8 @@ bool PlanarVelocityControlConstraints::constraintSecondPartialDerivativeWRTState
 {
     m_pimpl->stateVariables = state;
 
+    m_pimpl->pointPosition = m_pimpl->stateVariables(m_pimpl->positionPointRange);
+
     unsigned int positionIndex = static_cast<unsigned int>(m_pimpl->positionPointRange.offset + 2);
     double deltaDoubleDerivative = m_pimpl->planarVelocityActivation.evalDoubleDerivative(m_pimpl->pointPosition(2));
 
-- 
2.43.0


From c1ab167b94246e36116c15f24488d528b04d0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 02/16] fix: pair the planar velocity multipliers with the
 limit of their own axis

---
 src/private/PlanarVelocityControlConstraints.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/PlanarVelocityControlConstraints.cpp b/src/private/PlanarVelocityControlConstraints.cpp
index 5c4c060..db4fc1a 100644
--- a/src/private/PlanarVelocityControlConstraints.cpp
+++ b/src/private/PlanarVelocityControlConstraints.cpp
@@ -178,8 +178,8 @@ bool PlanarVelocityControlConstraints::constraintSecondPartialDerivativeWRTState
     unsigned int positionIndex = static_cast<unsigned int>(m_pimpl->positionPointRange.offset + 2);
     double deltaDoubleDerivative = m_pimpl->planarVelocityActivation.evalDoubleDerivative(m_pimpl->pointPosition(2));
 
-    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(1)) * m_pimpl->maximumDerivatives(0)) +
-                                             ((lambda(2) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
+    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(2)) * m_pimpl->maximumDerivatives(0)) +
+                                             ((lambda(1) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
 
     return true;
 }
-- 
2.43.0


From f53a4cca93123d68a07b246c89f6f689b5d7abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 03/16] fix: phantom forces cost Hessian missed a factor of the
 normal force

---
 src/private/PhantomForcesCost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/PhantomForcesCost.cpp b/src/private/PhantomForcesCost.cpp
index 23dede1..ce94380 100644
--- a/src/private/PhantomForcesCost.cpp
+++ b/src/private/PhantomForcesCost.cpp
@@ -134,7 +134,7 @@ bool PhantomForcesCost::costSecondPartialDerivativeWRTState(double /*time*/, con
 
     double phantomForce = (1- delta) * fz;
 
-    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * deltaDoubleDerivative;
+    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * fz * deltaDoubleDerivative;
     partialDerivative(fzCol, fzCol) = (1- delta) * (1- delta);
     partialDerivative(fzCol, pzCol) = -2.0 * phantomForce * deltaDerivative;
     partialDerivative(pzCol, fzCol) = partialDerivative(fzCol, pzCol);
-- 
2.43.0


From 9cb805acfcac3d58d2a0afbb3acd1574273f9aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 04/16] fix: foot yaw cost subtracted the initial orientation
 of the foot edge instead of adding it

---
 src/private/FootYawCost.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/FootYawCost.cpp b/src/private/FootYawCost.cpp
index 2e85abf..171a227 100644
--- a/src/private/FootYawCost.cpp
+++ b/src/private/FootYawCost.cpp
@@ -136,7 +136,7 @@ bool FootYawCost::costEvaluation(double time, const iDynTree::VectorDynSize &sta
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
@@ -160,7 +160,7 @@ bool FootYawCost::costFirstPartialDerivativeWRTState(double time, const iDynTree
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     iDynTree::Vector3 currentTopBottomDistance, currentLeftRightDistance;
@@ -196,7 +196,7 @@ bool FootYawCost::costSecondPartialDerivativeWRTState(double time, const iDynTre
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
-- 
2.43.0


From 195df32d99412e1ba0d2a3be9f7579b1a0ed23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 05/16] fix: initialize the reference returned when no interval
 is active

---
 src/PositionReferenceGenerator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 2f2673e..93549a5 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -99,6 +99,7 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
 
 PositionReference::PositionReference(std::shared_ptr<PositionReferenceGeneratorData> data) {
     m_data = data;
+    m_zeroPosition.zero();
 }
 
 const iDynTree::Position &PositionReference::get(double time, bool &isValid) {
-- 
2.43.0


From 8f7b380fb8e1f2f06a3138d6d55d1249ddb9594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 06/16] fix: avoid dividing by the length of an instantaneous
 interval in the time varying weight

---
 src/PositionReferenceGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 93549a5..6146af1 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -88,7 +88,10 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
         return m_outputWeight;
     }
 
-    double increaseAmount = (time - activeElement->activeRange.initTime())/(activeElement->activeRange.endTime() - activeElement->activeRange.initTime());
+    double increaseAmount = 0.0; //No increase if the range has no extension (it would be a division by zero)
+    if (!activeElement->activeRange.isInstant() && (activeElement->activeRange.length() > 0.0)) {
+        increaseAmount = (time - activeElement->activeRange.initTime())/activeElement->activeRange.length();
+    }
 
     for (unsigned int i = 0; i < 3; ++i) {
         m_outputWeight(i) = (m_increaseFactors(i) * increaseAmount + 1.0) * (m_increaseFactors(i) * increaseAmount + 1.0);
-- 
2.43.0


From d4409deb66d6b0b0920a2ab6efba0799091cb5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 07/16] fix: declare the dependency of the normal force rate on
 the normal force in the dynamics state Jacobian sparsity

---
 src/private/DynamicalConstraints.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index c497ef1..534e56d 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -264,6 +264,7 @@ public:
             stateJacobianSparsity.addDenseBlock(static_cast<size_t>(foot.positionPoints[i].offset),
                                                 static_cast<size_t>(foot.positionPoints[i].offset) + 2, 2, 1);
             stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.positionPoints[i].offset + 2));
+            stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.forcePoints[i].offset + 2));
 
             stateHessianSparsity.addDenseBlock(comPositionRange, foot.forcePoints[i]);
             stateHessianSparsity.addDenseBlock(foot.forcePoints[i], comPositionRange);
-- 
2.43.0


From d80de41b239a4361d54a92b83f2a570da351d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 08/16] fix: the quotient of a matrix by a scalar expression
 has the columns of the matrix

---
 extern/levi/include/levi/OperatorsEvaluables.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/OperatorsEvaluables.h b/extern/levi/include/levi/OperatorsEvaluables.h
index 02dcf95..809d6f1 100644
--- a/extern/levi/include/levi/OperatorsEvaluables.h
+++ b/extern/levi/include/levi/OperatorsEvaluables.h
@@ -823,7 +823,7 @@ private:
 public:
 
     DivisionEvaluable(const levi::ExpressionComponent<LeftEvaluable>& lhs, const levi::ExpressionComponent<RightEvaluable>& rhs)
-        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), rhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
+        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), lhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
     {
         assert(rhs.rows() == 1 && rhs.cols() == 1);
         this->m_info->type = levi::EvaluableType::Division;
-- 
2.43.0


From ec32c090cc2c76ae4e2ef03b63d7b1e163290f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 09/16] fix: the shared kinematics is recomputed after a model
 change and after a failed update

---
 src/private/SharedKinDynComputations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/SharedKinDynComputations.cpp b/src/private/SharedKinDynComputations.cpp
index a206685..5c20edb 100644
--- a/src/private/SharedKinDynComputations.cpp
+++ b/src/private/SharedKinDynComputations.cpp
@@ -77,6 +77,7 @@ bool SharedKinDynComputations::updateRobotStatePrivate(const RobotState &current
         bool ok = m_data->kinDyn.setRobotState(m_data->baseTransform, currentState.s, iDynTree::Twist(baseLinVelocity, baseAngVelocity),
                                                currentState.s_dot, m_data->gravity);
         if (!ok) {
+            m_data->updateNecessary = true; //the base transform may have been overwritten already
             return false;
         }
         m_data->updateNecessary = false;
@@ -232,6 +233,7 @@ SharedKinDynComputations::~SharedKinDynComputations()
 bool SharedKinDynComputations::loadRobotModel(const iDynTree::Model &model)
 {
     std::lock_guard<std::mutex> guard(m_data->mutex);
+    m_data->updateNecessary = true;
     bool ok = m_data->kinDyn.loadRobotModel(model);
 
     if (ok) {
-- 
2.43.0


From 16a39cfa90438694c5a57580e9d883c45ebbf0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 10/16] fix: setting a shorter time grid drops the instants of
 the previous one

---
 src/private/TimelySharedKinDynComputations.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/private/TimelySharedKinDynComputations.cpp b/src/private/TimelySharedKinDynComputations.cpp
index 7961d85..39004d6 100644
--- a/src/private/TimelySharedKinDynComputations.cpp
+++ b/src/private/TimelySharedKinDynComputations.cpp
@@ -150,6 +150,9 @@ bool TimelySharedKinDynComputations::setTimings(const std::vector<double> &timin
         }
     }
 
+    m_pointerContainer.resize(timings.size()); //drop the instants which are not part of the new grid
+    m_previousIndex = 0;
+
     m_timingsSet = true;
     return true;
 }
-- 
2.43.0


From 5fcd42dc01d3eda59058721a1d21f70b2f8f4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 11/16] fix: the joint velocity limits are read within their
 own size

---
 src/Settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 01be9c6..fe30c12 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -82,7 +82,8 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     for (size_t j = 0; j < inputSettings.jointsLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsLimits[j].first > inputSettings.jointsLimits[j].second,
                              "The lower limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
-
+    }
+    for (size_t j = 0; j < inputSettings.jointsVelocityLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsVelocityLimits[j].first > inputSettings.jointsVelocityLimits[j].second,
                              "The lower velocity limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
     }
-- 
2.43.0


From 6db81b79dca11c885aa4b6e63c575a0cc12d9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 12/16] fix: the force derivative cost requires its own
 reference

---
 src/Settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index fe30c12..4a1fb7d 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -127,7 +127,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     }
 
     if (inputSettings.forceDerivativeCostActive) {
-        errors += checkError(!(inputSettings.desiredRotationTrajectory), " The desiredRotationTrajectory is empty.");
+        errors += checkError(!(inputSettings.desiredForceDerivativeTrajectory), "The desiredForceDerivativeTrajectory is empty.");
         errors += checkError(inputSettings.forceDerivativeWeights.size() != 3, "The forceDerivativeWeights is expected to be three dimensional.");
     }
 
-- 
2.43.0


From 864a5af08cb63e5b50c3c81186a76cbd1c8e674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 13/16] fix: the requirements of every active cost are checked

---
 src/Settings.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 4a1fb7d..0f0bcca 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -121,6 +121,20 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
                              "The jointRegularizationWeights size does not match the robot DoFs.");
     }
 
+    if (inputSettings.jointsVelocityCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsVelocityTrajectory), "The desiredJointsVelocityTrajectory is empty.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
+    if (inputSettings.jointsVelocityForPosturalCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsTrajectory), "The desiredJointsTrajectory is empty.");
+        errors += checkError(inputSettings.jointsRegularizationWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointRegularizationWeights size does not match the robot DoFs.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
     if (inputSettings.staticTorquesCostActive) {
         errors += checkError(inputSettings.staticTorquesCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
                              "The staticTorquesCostWeights size does not match the robot DoFs.");
@@ -146,6 +160,20 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
         errors += checkError(!inputSettings.meanPointPositionCostTimeVaryingWeight, "The meanPointPositionCostTimeVaryingWeight pointer is empty.");
     }
 
+    if (inputSettings.leftFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredLeftFootYaw, "The desiredLeftFootYaw pointer is empty.");
+    }
+
+    if (inputSettings.rightFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredRightFootYaw, "The desiredRightFootYaw pointer is empty.");
+    }
+
+    if (inputSettings.frameAngularVelocityCostActive) {
+        errors += checkError(!(inputSettings.robotModel.isFrameNameUsed(inputSettings.frameForOrientationCost)),
+                             "The frameForOrientationCost does not appear in the model.");
+        errors += checkError(!inputSettings.desiredRotationTrajectory, "The desiredRotationTrajectory is empty.");
+    }
+
     if (inputSettings.basePositionCostActive) {
         errors += checkError(inputSettings.basePositionCostWeights.size() != 3,
                              "The basePositionCostWeights vector is expected to be three dimensional.");
-- 
2.43.0


From c041fe48bbb5ad3c581802b1e0a3abb8a6da9e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 14/16] fix: use the gravity of the kinematics in the system's
 dynamics

The centroidal dynamics always used -9.81 along z, whatever gravity the
TimelySharedKinDynComputations object was configured with.
---
 src/private/DynamicalConstraints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index 534e56d..ef37767 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -350,7 +350,7 @@ DynamicalConstraints::DynamicalConstraints(const VariablesLabeller &stateVariabl
 
 
     m_pimpl->gravityVector.zero();
-    m_pimpl->gravityVector(2) = -9.81;
+    iDynTree::toEigen(m_pimpl->gravityVector).topRows<3>() = iDynTree::toEigen(timelySharedKinDyn->gravity());
 
 //    m_pimpl->stateJacobianBuffer.resize(static_cast<unsigned int>(stateVariables.size()), static_cast<unsigned int>(stateVariables.size()));
 //    m_pimpl->stateJacobianBuffer.zero();
-- 
2.43.0


From 758b9f47f644b1beb2937cd0a6a2a1905043447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 15/16] fix: weigh the force ratio costs with their own overall
 weight

They were added with forceMeanCostOverallWeight.
---
 src/Solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 1356e7a..85b3f4f 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -464,7 +464,7 @@ public:
             for (size_t i = 0; i < st.leftPointsPosition.size(); ++i) {
                 costs.leftForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Left", i);
                 costs.leftForceRatios[i]->setDesiredRatio(st.desiredLeftRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.leftForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.leftForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
@@ -473,7 +473,7 @@ public:
             for (size_t i = 0; i < st.rightPointsPosition.size(); ++i) {
                 costs.rightForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Right", i);
                 costs.rightForceRatios[i]->setDesiredRatio(st.desiredRightRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.rightForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.rightForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
-- 
2.43.0


From dc4c59eef09fa9664d7001a00b2e324a2ef759fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 16/16] fix: configure the shared kinematics with the settings'
 gravity, tolerance and base

gravity, updateTolerance and floatingBaseName were read by nobody: the
base of the model's default link and -9.81 were used in any case.
---
 src/Solver.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 85b3f4f..427cf18 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1440,6 +1440,22 @@ bool Solver::specifySettings(const Settings &settings)
         return false;
     }
 
+    m_pimpl->timelySharedKinDyn->setGravity(st.gravity);
+
+    ok = m_pimpl->timelySharedKinDyn->setToleranceForUpdate(st.updateTolerance);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::specifySettings] Failed to set the update tolerance." << std::endl;
+        return false;
+    }
+
+    ok = m_pimpl->timelySharedKinDyn->setFloatingBase(st.floatingBaseName);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::specifySettings] Failed to set the floating base." << std::endl;
+        return false;
+    }
+
     m_pimpl->expressionsServer = std::make_shared<ExpressionsServer>(m_pimpl->timelySharedKinDyn);
 
     HyperbolicTangent velocityActivationXY;
-- 
2.43.0

