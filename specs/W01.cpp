// Settings (W01): a settings structure is accepted exactly when every requirement holds; a refused
// one leaves the settings in use untouched, and is examined without reading outside what it holds.
//@ modules src/Settings.cpp
//@ stubs idyn_core idyn_spatial idyn_model libstdcxx
#include "settings.h"
// every requirement, stated on its own
static bool ordered(const std::vector<P2>& l) { bool ok = true; for (auto& p : l) ok = ok & (p.first <= p.second); return ok; }
static bool ratios(const std::vector<double>& r) { bool ok = true; for (double x : r) ok = ok & (x >= 0) & (x <= 1); return ok; }
static bool link(const S& s, const std::string& n) { return s.robotModel.isLinkNameUsed(n); }
static bool frame(const S& s, const std::string& n) { return s.robotModel.isFrameNameUsed(n); }
static bool required(const S& s) { size_t n = s.robotModel.getNrOfDOFs(); bool ok = true; auto need = [&](bool x) { ok = ok & x; }; auto task = [&](bool on, bool x) { if (on) ok = ok & x; };
    need(s.minimumDt >= 0); need(s.maximumDt >= 0); need(s.maximumDt > 2 * s.minimumDt); need(s.controlPeriod >= 0); need(s.horizon >= 0); need((s.activeControlPercentage >= 0) & (s.activeControlPercentage <= 1)); need(s.leftPointsPosition.size() == s.rightPointsPosition.size());
    need(link(s, s.floatingBaseName)); for (auto f : {&s.leftFrameName, &s.rightFrameName, &s.referenceFrameNameForFeetDistance, &s.otherFrameNameForFeetDistance}) need(frame(s, *f)); need(s.indexOfLateralDirection <= 2);
    for (double x : {s.complementarityDissipation, s.frictionCoefficient, s.minimumFeetDistance, s.feetMaximumRelativeHeight, s.comPositionConstraintTolerance, s.centroidalMomentumConstraintTolerance, s.quaternionModulusConstraintTolerance, s.pointPositionConstraintTolerance, s.minimumCoMHeight, s.maximumAngularMomentum, s.velocityMaximumDerivative(0), s.velocityMaximumDerivative(1), s.velocityMaximumDerivative(2)}) need(x >= 0);
    need(s.jointsLimits.size() == n); need(s.jointsVelocityLimits.size() == n); need(ordered(s.jointsLimits)); need(ordered(s.jointsVelocityLimits)); task(s.constrainTargetCoMPosition, !!s.targetCoMPositionTolerance);
    task(s.complementarity == ComplementarityType::Dynamical, s.dynamicComplementarityUpperBound >= 0); task(s.complementarity == ComplementarityType::Classical, s.classicalComplementarityTolerance >= 0); task(s.planarComplementarity == PlanarComplementarityType::Classical, s.classicalPlanarComplementarityTolerance >= 0); task(s.planarComplementarity != PlanarComplementarityType::Classical, s.planarVelocityHyperbolicTangentScaling >= 0);
    task(s.comCostActive, (s.comWeights.size() == 3) & !!s.desiredCoMTrajectory); task(s.comVelocityCostActive, (s.comVelocityWeights.size() == 3) & !!s.desiredCoMVelocityTrajectory); task(s.frameCostActive, frame(s, s.frameForOrientationCost) & !!s.desiredRotationTrajectory & !!s.frameCostTimeVaryingWeight);
    task(s.jointsRegularizationCostActive, !!s.desiredJointsTrajectory & (s.jointsRegularizationWeights.size() == n)); task(s.jointsVelocityCostActive, !!s.desiredJointsVelocityTrajectory & (s.jointsVelocityCostWeights.size() == n)); task(s.staticTorquesCostActive, s.staticTorquesCostWeights.size() == n);
    task(s.jointsVelocityForPosturalCostActive, !!s.desiredJointsTrajectory & (s.jointsRegularizationWeights.size() == n) & (s.jointsVelocityCostWeights.size() == n)); task(s.forceDerivativeCostActive, !!s.desiredForceDerivativeTrajectory & (s.forceDerivativeWeights.size() == 3)); task(s.pointAccelerationCostActive, !!s.desiredPointAccelerationTrajectory & (s.pointAccelerationWeights.size() == 3));
    task(s.swingCostActive, s.desiredSwingHeight >= 0); task(s.meanPointPositionCostActive, !!s.desiredMeanPointPosition & !!s.meanPointPositionCostTimeVaryingWeight); task(s.basePositionCostActive, (s.basePositionCostWeights.size() == 3) & !!s.desiredBasePositionTrajectory); task(s.baseQuaternionCostActive, !!s.desiredBaseQuaternionTrajectory);
    task(s.baseLinearVelocityCostActive, !!s.desiredBaseLinearVelocityTrajectory & (s.baseLinearVelocityCostWeights.size() == 3)); task(s.baseQuaternionVelocityCostActive, !!s.desiredBaseQuaternionVelocityTrajectory); task(s.leftFootYawCostActive, !!s.desiredLeftFootYaw); task(s.rightFootYawCostActive, !!s.desiredRightFootYaw);
    task(s.frameAngularVelocityCostActive, frame(s, s.frameForOrientationCost) & !!s.desiredRotationTrajectory);
    task(s.forceRatioCostActive, (s.desiredLeftRatios.size() == s.leftPointsPosition.size()) & (s.desiredRightRatios.size() == s.rightPointsPosition.size()) & ratios(s.desiredLeftRatios) & ratios(s.desiredRightRatios)); return ok; }
// ---- one arbitrary change of one part of the structure
static const int NUMBERS = 26, PARTS = NUMBERS + 34; static bool half(const char* n) { return vp_choose_(n, 0, 1) == 1; }
static void change(S& s, int k) { double* num[NUMBERS] = {&s.minimumDt, &s.maximumDt, &s.controlPeriod, &s.horizon, &s.activeControlPercentage, &s.complementarityDissipation, &s.frictionCoefficient, &s.minimumFeetDistance, &s.feetMaximumRelativeHeight, &s.comPositionConstraintTolerance, &s.centroidalMomentumConstraintTolerance, &s.quaternionModulusConstraintTolerance, &s.pointPositionConstraintTolerance, &s.minimumCoMHeight, &s.maximumAngularMomentum, &s.velocityMaximumDerivative(0), &s.velocityMaximumDerivative(1), &s.velocityMaximumDerivative(2), &s.dynamicComplementarityUpperBound, &s.classicalComplementarityTolerance, &s.classicalPlanarComplementarityTolerance, &s.planarVelocityHyperbolicTangentScaling, &s.desiredSwingHeight, nullptr, nullptr, nullptr};
    if (k < 23) { *num[k] = any("any value"); if (k == 22) s.swingCostActive = half("on"); return; } unsigned n = (unsigned)s.robotModel.getNrOfDOFs(); auto wrong = [](unsigned r) { unsigned z[3] = {r + 1, r ? r - 1 : 0, 0}; return z[vp_choose_("size", 0, 2)]; };
    switch (k) {
    case 23: for (auto& p : s.jointsLimits) { p.first = any("any value"); p.second = any("any value"); } break; case 24: for (auto& p : s.jointsVelocityLimits) { p.first = any("any value"); p.second = any("any value"); } break;
    case 25: s.forceRatioCostActive = half("on"); for (auto& r : s.desiredLeftRatios) r = any("any value"); break; case 26: s.forceRatioCostActive = half("on"); for (auto& r : s.desiredRightRatios) r = any("any value"); break;
    case 27: s.jointsLimits.resize(wrong(n), P2(-1, 1)); break; case 28: s.jointsVelocityLimits.resize(wrong(n), P2(-1, 1)); break;
    case 29: s.leftPointsPosition.resize(wrong((unsigned)s.leftPointsPosition.size()), iDynTree::Position::Zero()); s.forceRatioCostActive = half("on"); break; case 30: s.rightPointsPosition.resize(wrong((unsigned)s.rightPointsPosition.size()), iDynTree::Position::Zero()); s.forceRatioCostActive = half("on"); break;
    case 31: s.floatingBaseName = half("frame") ? "l_foot" : ""; break; case 32: s.leftFrameName = half("link") ? "base" : "sole"; break; case 33: s.rightFrameName = half("link") ? "base" : "sole"; break; case 34: s.referenceFrameNameForFeetDistance = half("link") ? "base" : "sole"; break; case 35: s.otherFrameNameForFeetDistance = half("link") ? "base" : "sole"; break;
    case 36: s.frameForOrientationCost = half("frame") ? "r_foot" : "sole"; s.frameCostActive = half("on"); s.frameAngularVelocityCostActive = half("on too"); break; case 37: s.indexOfLateralDirection = (unsigned)vp_choose_("direction", 0, 3); break;
    case 38: s.targetCoMPositionTolerance = nullptr; s.constrainTargetCoMPosition = half("on"); break; case 39: s.desiredCoMTrajectory = nullptr; s.comCostActive = half("on"); s.constrainTargetCoMPosition = false; break; case 40: s.comWeights = vec(wrong(3)); s.comCostActive = half("on"); break;
    case 41: s.desiredCoMVelocityTrajectory = nullptr; s.comVelocityCostActive = half("on"); break; case 42: s.comVelocityWeights = vec(wrong(3)); s.comVelocityCostActive = half("on"); break; case 43: s.desiredRotationTrajectory = nullptr; s.frameCostActive = half("on"); s.frameAngularVelocityCostActive = half("on too"); break; case 44: s.frameCostTimeVaryingWeight = nullptr; s.frameCostActive = half("on"); break;
    case 45: s.desiredJointsTrajectory = nullptr; s.jointsRegularizationCostActive = half("on"); s.jointsVelocityForPosturalCostActive = half("on too"); break; case 46: s.jointsRegularizationWeights = vec(wrong(n)); s.jointsRegularizationCostActive = half("on"); s.jointsVelocityForPosturalCostActive = half("on too"); break;
    case 47: s.desiredJointsVelocityTrajectory = nullptr; s.jointsVelocityCostActive = half("on"); break; case 48: s.jointsVelocityCostWeights = vec(wrong(n)); s.jointsVelocityCostActive = half("on"); s.jointsVelocityForPosturalCostActive = half("on too"); break; case 49: s.staticTorquesCostWeights = vec(wrong(n)); s.staticTorquesCostActive = half("on"); break;
    case 50: s.desiredForceDerivativeTrajectory = nullptr; s.forceDerivativeCostActive = half("on"); break; case 51: s.forceDerivativeWeights = vec(wrong(3)); s.forceDerivativeCostActive = half("on"); break; case 52: s.desiredPointAccelerationTrajectory = nullptr; s.pointAccelerationCostActive = half("on"); break; case 53: s.pointAccelerationWeights = vec(wrong(3)); s.pointAccelerationCostActive = half("on"); break;
    case 54: if (half("weight")) s.meanPointPositionCostTimeVaryingWeight = nullptr; else s.desiredMeanPointPosition = nullptr; s.meanPointPositionCostActive = half("on"); break; case 55: if (half("weight")) s.basePositionCostWeights = vec(wrong(3)); else s.desiredBasePositionTrajectory = nullptr; s.basePositionCostActive = half("on"); break; case 56: s.desiredBaseQuaternionTrajectory = nullptr; s.baseQuaternionCostActive = half("on"); break;
    case 57: if (half("weight")) s.baseLinearVelocityCostWeights = vec(wrong(3)); else s.desiredBaseLinearVelocityTrajectory = nullptr; s.baseLinearVelocityCostActive = half("on"); break; case 58: s.desiredBaseQuaternionVelocityTrajectory = nullptr; s.baseQuaternionVelocityCostActive = half("on"); break; default: if (half("left")) { s.desiredLeftFootYaw = nullptr; s.leftFootYawCostActive = half("on"); } else { s.desiredRightFootYaw = nullptr; s.rightFootYawCostActive = half("on"); } break; } }
// ---- the settings in use
static void eqv(const iDynTree::VectorDynSize& a, const iDynTree::VectorDynSize& b, const char* l) { vp_assert_(a.size() == b.size(), l); if (a.size() == b.size()) for (unsigned i = 0; i < a.size(); ++i) vp_eq_(a(i), b(i), l); }
static void eqd(const std::vector<double>& a, const std::vector<double>& b, const char* l) { vp_assert_(a.size() == b.size(), l); if (a.size() == b.size()) for (size_t i = 0; i < a.size(); ++i) vp_eq_(a[i], b[i], l); }
static void eqp(const std::vector<P2>& a, const std::vector<P2>& b, const char* l) { vp_assert_(a.size() == b.size(), l); if (a.size() == b.size()) for (size_t i = 0; i < a.size(); ++i) { vp_eq_(a[i].first, b[i].first, l); vp_eq_(a[i].second, b[i].second, l); } }
static void eqpt(const std::vector<iDynTree::Position>& a, const std::vector<iDynTree::Position>& b, const char* l) { vp_assert_(a.size() == b.size(), l); if (a.size() == b.size()) for (size_t i = 0; i < a.size(); ++i) for (unsigned k = 0; k < 3; ++k) vp_eq_(a[i](k), b[i](k), l); }
static void eqr(const TimeRange& a, const TimeRange& b, const char* l) { vp_eq_(a.initTime(), b.initTime(), l); vp_eq_(a.endTime(), b.endTime(), l); }
static void same(const S& a, const S& b, const char* l) { bool e = true; auto is = [&](bool x) { e = e & x; };
#define N(f) vp_eq_(a.f, b.f, l);
#define B(f) is(a.f == b.f);
#define V(f) eqv(a.f, b.f, l);
    N(minimumDt) N(maximumDt) N(controlPeriod) N(horizon) N(activeControlPercentage) N(updateTolerance) N(normalForceDissipationRatio) N(normalForceHyperbolicSecantScaling) N(complementarityDissipation) N(dynamicComplementarityUpperBound) N(classicalComplementarityTolerance) N(frictionCoefficient) N(planarVelocityHyperbolicTangentScaling) N(normalVelocityHyperbolicSecantScaling) N(classicalPlanarComplementarityTolerance) N(minimumFeetDistance) N(feetMaximumRelativeHeight) N(comPositionConstraintTolerance) N(centroidalMomentumConstraintTolerance) N(quaternionModulusConstraintTolerance) N(pointPositionConstraintTolerance) N(minimumCoMHeight) N(maximumAngularMomentum) N(desiredSwingHeight) N(rotationalPIDgain) N(constraintsHessianRegularization) N(costsHessianRegularization)
    N(comCostOverallWeight) N(comVelocityCostOverallWeight) N(frameCostOverallWeight) N(forceMeanCostOverallWeight) N(forceRatioCostOverallWeight) N(jointsRegularizationCostOverallWeight) N(jointsVelocityCostOverallWeight) N(staticTorquesCostOverallWeight) N(forceDerivativesCostOverallWeight) N(pointAccelerationCostOverallWeight) N(swingCostOverallWeight) N(phantomForcesCostOverallWeight) N(meanPointPositionCostOverallWeight) N(leftFootYawCostOverallWeight) N(rightFootYawCostOverallWeight) N(feetDistanceCostOverallWeight) N(jointsVelocityForPosturalCostOverallWeight) N(complementarityCostOverallWeight) N(basePositionCostOverallWeight) N(baseQuaternionCostOverallWeight) N(frameAngularVelocityCostOverallWeight) N(baseLinearVelocityCostOverallWeight) N(baseQuaternionVelocityCostOverallWeight) N(angularMomentumCostOverallWeight)
    for (unsigned i = 0; i < 3; ++i) { N(gravity(i)) N(forceMaximumDerivative(i)) N(velocityMaximumDerivative(i)) N(swingCostWeights(i)) }
    B(floatingBaseName) B(leftFrameName) B(rightFrameName) B(referenceFrameNameForFeetDistance) B(otherFrameNameForFeetDistance) B(frameForOrientationCost) B(complementarity) B(planarComplementarity) B(indexOfLateralDirection) B(constrainTargetCoMPosition) B(comCostActive) B(comVelocityCostActive) B(frameCostActive) B(forceMeanCostActive) B(forceRatioCostActive) B(jointsRegularizationCostActive) B(jointsVelocityCostActive) B(staticTorquesCostActive) B(forceDerivativeCostActive) B(pointAccelerationCostActive) B(swingCostActive) B(phantomForcesCostActive) B(meanPointPositionCostActive) B(leftFootYawCostActive) B(rightFootYawCostActive) B(feetDistanceCostActive) B(jointsVelocityForPosturalCostActive) B(complementarityCostActive) B(basePositionCostActive) B(baseQuaternionCostActive) B(frameAngularVelocityCostActive) B(baseLinearVelocityCostActive) B(baseQuaternionVelocityCostActive) B(angularMomentumCostActive) B(useConstraintsHessianRegularization) B(useCostsHessianRegularization)
    B(targetCoMPositionTolerance) B(desiredCoMTrajectory) B(desiredCoMVelocityTrajectory) B(desiredRotationTrajectory) B(frameCostTimeVaryingWeight) B(desiredJointsTrajectory) B(desiredJointsVelocityTrajectory) B(desiredForceDerivativeTrajectory) B(desiredPointAccelerationTrajectory) B(meanPointPositionCostTimeVaryingWeight) B(desiredMeanPointPosition) B(desiredLeftFootYaw) B(desiredRightFootYaw) B(desiredBasePositionTrajectory) B(desiredBaseQuaternionTrajectory) B(desiredBaseLinearVelocityTrajectory) B(desiredBaseQuaternionVelocityTrajectory)
    B(robotModel.getNrOfDOFs()) B(robotModel.getNrOfLinks()) B(robotModel.getNrOfFrames()) vp_assert_(e, l);
    V(comWeights) V(comVelocityWeights) V(jointsRegularizationWeights) V(jointsVelocityCostWeights) V(staticTorquesCostWeights) V(forceDerivativeWeights) V(pointAccelerationWeights) V(basePositionCostWeights) V(baseLinearVelocityCostWeights)
    eqd(a.desiredLeftRatios, b.desiredLeftRatios, l); eqd(a.desiredRightRatios, b.desiredRightRatios, l); eqp(a.jointsLimits, b.jointsLimits, l); eqp(a.jointsVelocityLimits, b.jointsVelocityLimits, l); eqpt(a.leftPointsPosition, b.leftPointsPosition, l); eqpt(a.rightPointsPosition, b.rightPointsPosition, l);
    eqr(a.constrainTargetCoMPositionRange, b.constrainTargetCoMPositionRange, l); eqr(a.comCostActiveRange, b.comCostActiveRange, l); eqr(a.comVelocityCostActiveRange, b.comVelocityCostActiveRange, l); eqr(a.meanPointPositionCostActiveRange, b.meanPointPositionCostActiveRange, l); eqr(a.basePositionCostActiveRange, b.basePositionCostActiveRange, l); }
#undef N
#undef B
#undef V
static void offer(Settings& t, const S& s, bool wasValid, const S* before) { bool want = required(s), got = t.setFromStruct(s); vp_assert_(got == want, "settings are accepted exactly when every requirement holds");
    if (got) { vp_assert_(t.isValid(), "accepted settings are valid"); same(t.getSettings(), s, "accepted settings are the settings in use"); } else { vp_assert_(t.isValid() == wasValid, "refusing settings leaves the validity unchanged"); if (before) same(t.getSettings(), *before, "refusing settings leaves the settings in use unchanged"); } }
//@ spec W01 spec_W01_accepted
extern "C" void spec_W01_accepted() { S s; valid(s, (int)vp_choose_("joints", 0, 2), (int)vp_choose_("points", 0, 2)); Settings t; vp_assert_(!t.isValid(), "no settings in use at first"); offer(t, s, false, nullptr); vp_assert_(t.isValid(), "valid settings accepted"); Settings u(s); vp_assert_(u.isValid(), "valid settings accepted by the constructor"); same(u.getSettings(), s, "settings given to the constructor are the settings in use"); }
static bool oneOf(int k) { return (k >= 18) & (k <= 21); }
//@ spec W01 spec_W01_first paths=20000
extern "C" void spec_W01_first() { S s; int k = (int)vp_choose_("part", 0, PARTS - 1); valid(s, 2, 2, oneOf(k)); change(s, k); Settings t; offer(t, s, false, nullptr); Settings u(s); vp_assert_(u.isValid() == t.isValid(), "the constructor accepts what the setter accepts"); }
//@ spec W01 spec_W01_two paths=20000
extern "C" void spec_W01_two() { S s; int k = (int)vp_choose_("part", 0, PARTS - 1), o = (k + 7) % PARTS; valid(s, 2, 1, false); change(s, k); change(s, o); Settings t; offer(t, s, false, nullptr); }
//@ spec W01 spec_W01_second paths=20000
extern "C" void spec_W01_second() { S a, b; int k = (int)vp_choose_("part", 0, PARTS - 1); valid(a, 1, 1, false); valid(b, 2, 2, oneOf(k)); Settings t; offer(t, a, false, nullptr); change(b, k); offer(t, b, true, &a); }
// ---- the defaults for a robot with the expected frames
//@ spec W01 spec_W01_defaults
extern "C" void spec_W01_defaults() { int dofs = (int)vp_choose_("joints", 0, 3); Robot r; r.link("root_link", false, 1, false); bool limited = half("limited joints"); std::vector<P2> lim;
    for (int i = 0; i < dofs; ++i) { std::string l = "link" + std::to_string(i); r.link(l, false, 2, false); iDynTree::RevoluteJoint j(iDynTree::Transform::Identity(), iDynTree::Axis(iDynTree::Direction(0, 0, 1), iDynTree::Position::Zero())); j.setAttachedLinks(i, i + 1); if (limited) { double a = vp_real("limit"), b = a + vp_nonneg("span"); j.setPosLimits(0, a, b); j.enablePosLimits(true); lim.push_back(P2(a, b)); } r.m.addJoint("j" + std::to_string(i), &j); }
    for (const char* f : {"l_sole", "r_sole", "neck_2"}) r.m.addAdditionalFrameToLink("root_link", f, iDynTree::Transform::Identity());
    S s = Settings::Defaults(r.m); vp_assert_(required(s), "the defaults satisfy every requirement"); Settings t; bool ok = t.setFromStruct(s); vp_assert_(ok & t.isValid(), "the defaults are accepted"); if (limited) eqp(s.jointsLimits, lim, "default joint limits are those of the robot"); bool v = false; const iDynTree::VectorDynSize& d = s.desiredCoMVelocityTrajectory->get(vp_nonneg("time"), v); vp_assert_(v & (d.size() == 3), "default references are available"); for (unsigned i = 0; i < 3; ++i) vp_eq_(d(i), 0, "default references ask for no velocity"); }
