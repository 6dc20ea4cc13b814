// Settings structures that satisfy every requirement.
#pragma once
#include "robot.h"
#include <DynamicalPlanner/Settings.h>
using namespace DynamicalPlanner; using iDynTree::optimalcontrol::TimeRange;
typedef SettingsStruct S; typedef std::pair<double, double> P2; static const char* TAG = "";
inline double any(const char* n) { return vp_real(n); }
static double unit(const char* n) { double x = vp_real(n, 0, 1); vp_assume_((x >= 0) & (x <= 1)); return x; }
static iDynTree::VectorDynSize vec(unsigned n) { iDynTree::VectorDynSize v(n); for (unsigned i = 0; i < n; ++i) v(i) = vp_real("weight"); return v; }
static std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingVector> tvec(unsigned n) { return std::make_shared<iDynTree::optimalcontrol::TimeInvariantVector>(vec(n)); }
static std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingDouble> tdbl() { return std::make_shared<iDynTree::optimalcontrol::TimeInvariantDouble>(vp_real("reference")); }
static TimeRange range() { double a = vp_nonneg("range"); return TimeRange(a, a + vp_nonneg("range")); }
static void robot(iDynTree::Model& m, int dofs) { Robot r; r.build(dofs, false); m = r.m; }
// a structure that satisfies every requirement, with every task on
static void valid(S& s, int dofs, int points, bool everyComplementarity = true) { unsigned n = (unsigned)dofs; robot(s.robotModel, dofs);
    s.minimumDt = vp_nonneg("minimumDt"); s.maximumDt = 2 * s.minimumDt + vp_pos("maximumDt"); s.controlPeriod = vp_nonneg("controlPeriod"); s.horizon = vp_nonneg("horizon"); s.activeControlPercentage = unit("active");
    for (unsigned i = 0; i < 3; ++i) { s.gravity(i) = vp_real("gravity"); s.forceMaximumDerivative(i) = vp_nonneg("force derivative"); s.velocityMaximumDerivative(i) = vp_nonneg("velocity"); s.swingCostWeights(i) = vp_real("weight"); }
    s.updateTolerance = vp_nonneg("tolerance"); s.floatingBaseName = "base"; s.leftFrameName = "l_foot"; s.rightFrameName = "r_foot"; s.leftPointsPosition.resize((size_t)points); s.rightPointsPosition.resize((size_t)points);
    for (int p = 0; p < points; ++p) for (unsigned i = 0; i < 3; ++i) { s.leftPointsPosition[(size_t)p](i) = vp_real("point"); s.rightPointsPosition[(size_t)p](i) = vp_real("point"); }
    s.complementarity = (ComplementarityType)vp_choose_("complementarity", 0, everyComplementarity ? 3 : 0); s.planarComplementarity = (PlanarComplementarityType)((int)s.complementarity % 3);
    s.normalForceDissipationRatio = vp_nonneg("ratio"); s.normalForceHyperbolicSecantScaling = vp_nonneg("scaling"); s.complementarityDissipation = vp_nonneg("dissipation"); s.dynamicComplementarityUpperBound = vp_nonneg("bound"); s.classicalComplementarityTolerance = vp_nonneg("tolerance"); s.frictionCoefficient = vp_nonneg("friction");
    s.planarVelocityHyperbolicTangentScaling = vp_nonneg("scaling"); s.normalVelocityHyperbolicSecantScaling = vp_nonneg("scaling"); s.classicalPlanarComplementarityTolerance = vp_nonneg("tolerance");
    s.indexOfLateralDirection = (unsigned)vp_choose_("lateral", 1, 1); s.minimumFeetDistance = vp_nonneg("distance"); s.referenceFrameNameForFeetDistance = "r_foot"; s.otherFrameNameForFeetDistance = "l_foot"; s.feetMaximumRelativeHeight = vp_nonneg("height");
    s.comPositionConstraintTolerance = vp_nonneg("tolerance"); s.centroidalMomentumConstraintTolerance = vp_nonneg("tolerance"); s.quaternionModulusConstraintTolerance = vp_nonneg("tolerance"); s.pointPositionConstraintTolerance = vp_nonneg("tolerance"); s.minimumCoMHeight = vp_nonneg("height"); s.maximumAngularMomentum = vp_nonneg("momentum");
    s.jointsLimits.clear(); s.jointsVelocityLimits.clear(); for (int j = 0; j < dofs; ++j) { double a = vp_real("limit"), b = vp_real("limit"); s.jointsLimits.push_back(P2(a, a + vp_nonneg("span"))); s.jointsVelocityLimits.push_back(P2(b, b + vp_nonneg("span"))); }
    s.constrainTargetCoMPosition = true; s.targetCoMPositionTolerance = tdbl(); s.constrainTargetCoMPositionRange = range();
    s.comCostActive = true; s.comCostActiveRange = range(); s.comWeights = vec(3); s.desiredCoMTrajectory = tvec(3); s.comVelocityCostActive = true; s.comVelocityWeights = vec(3); s.comVelocityCostActiveRange = range(); s.desiredCoMVelocityTrajectory = tvec(3);
    s.frameCostActive = true; s.frameForOrientationCost = "base"; s.desiredRotationTrajectory = std::make_shared<iDynTree::optimalcontrol::TimeInvariantRotation>(iDynTree::Rotation::Identity()); s.frameCostTimeVaryingWeight = tdbl();
    s.forceMeanCostActive = true; s.forceRatioCostActive = true; s.desiredLeftRatios.clear(); s.desiredRightRatios.clear(); for (int p = 0; p < points; ++p) { s.desiredLeftRatios.push_back(unit("ratio")); s.desiredRightRatios.push_back(unit("ratio")); }
    s.jointsRegularizationCostActive = true; s.desiredJointsTrajectory = tvec(n); s.jointsRegularizationWeights = vec(n); s.jointsVelocityCostActive = true; s.desiredJointsVelocityTrajectory = tvec(n); s.jointsVelocityCostWeights = vec(n);
    s.staticTorquesCostActive = true; s.staticTorquesCostWeights = vec(n); s.forceDerivativeCostActive = true; s.desiredForceDerivativeTrajectory = tvec(3); s.forceDerivativeWeights = vec(3); s.pointAccelerationCostActive = true; s.desiredPointAccelerationTrajectory = tvec(3); s.pointAccelerationWeights = vec(3);
    s.swingCostActive = true; s.desiredSwingHeight = vp_nonneg("height"); s.phantomForcesCostActive = true; s.meanPointPositionCostActive = true; s.meanPointPositionCostTimeVaryingWeight = tvec(3); s.meanPointPositionCostActiveRange = range(); s.desiredMeanPointPosition = std::make_shared<iDynTree::optimalcontrol::TimeInvariantPosition>(iDynTree::Position::Zero());
    s.leftFootYawCostActive = s.rightFootYawCostActive = s.feetDistanceCostActive = s.jointsVelocityForPosturalCostActive = s.complementarityCostActive = true; s.desiredLeftFootYaw = tdbl(); s.desiredRightFootYaw = tdbl();
    s.basePositionCostActive = true; s.basePositionCostActiveRange = range(); s.basePositionCostWeights = vec(3); s.desiredBasePositionTrajectory = tvec(3); s.baseQuaternionCostActive = true; s.desiredBaseQuaternionTrajectory = tvec(4); s.frameAngularVelocityCostActive = true; s.rotationalPIDgain = vp_nonneg("gain");
    s.baseLinearVelocityCostActive = true; s.baseLinearVelocityCostWeights = vec(3); s.desiredBaseLinearVelocityTrajectory = tvec(3); s.baseQuaternionVelocityCostActive = true; s.desiredBaseQuaternionVelocityTrajectory = tvec(4); s.angularMomentumCostActive = true;
    s.useConstraintsHessianRegularization = s.useCostsHessianRegularization = true;
    for (double* w : {&s.comCostOverallWeight, &s.comVelocityCostOverallWeight, &s.frameCostOverallWeight, &s.forceMeanCostOverallWeight, &s.forceRatioCostOverallWeight, &s.jointsRegularizationCostOverallWeight, &s.jointsVelocityCostOverallWeight, &s.staticTorquesCostOverallWeight, &s.forceDerivativesCostOverallWeight, &s.pointAccelerationCostOverallWeight, &s.swingCostOverallWeight, &s.phantomForcesCostOverallWeight, &s.meanPointPositionCostOverallWeight, &s.leftFootYawCostOverallWeight, &s.rightFootYawCostOverallWeight, &s.feetDistanceCostOverallWeight, &s.jointsVelocityForPosturalCostOverallWeight, &s.complementarityCostOverallWeight, &s.basePositionCostOverallWeight, &s.baseQuaternionCostOverallWeight, &s.frameAngularVelocityCostOverallWeight, &s.baseLinearVelocityCostOverallWeight, &s.baseQuaternionVelocityCostOverallWeight, &s.angularMomentumCostOverallWeight, &s.constraintsHessianRegularization, &s.costsHessianRegularization}) *w = vp_nonneg("overall weight"); }
