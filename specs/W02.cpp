// Solver assembly (W02): every weight, tolerance, limit, reference and flag of the settings reaches
// the cost, constraint or bound it names, and nothing else.
//@ modules src/Solver.cpp src/Settings.cpp src/State.cpp src/Control.cpp src/private/VariablesLabeller.cpp src/private/DynamicalConstraints.cpp src/private/QuaternionUtils.cpp src/private/CoMPositionConstraint.cpp src/private/QuaternionNormConstraint.cpp src/private/ContactPositionConsistencyConstraint.cpp src/private/SharedKinDynComputations.cpp src/private/FeetLateralDistanceConstraint.cpp src/private/ContactFrictionConstraint.cpp src/private/CentroidalMomentumConstraint.cpp src/private/HyperbolicSecant.cpp src/private/ContactForceControlConstraints.cpp src/private/NormalVelocityControlConstraints.cpp src/private/PlanarVelocityControlConstraints.cpp src/private/FrameOrientationCost.cpp src/private/ForceMeanCost.cpp src/private/StaticTorquesCost.cpp src/private/SmoothingFunction.cpp src/private/HyperbolicTangent.cpp src/private/DynamicalComplementarityConstraint.cpp src/private/TimelySharedKinDynComputations.cpp src/private/SwingCost.cpp src/private/PhantomForcesCost.cpp src/private/MeanPointPositionCost.cpp src/private/CoMVelocityCost.cpp src/private/QuaternionExpressions.cpp src/private/AdjointTransformExpression.cpp src/private/RelativeJacobianExpression.cpp src/private/RelativeQuaternionExpression.cpp src/private/RelativePositionExpression.cpp src/private/TransformExpression.cpp src/private/CoMInBaseExpression.cpp src/private/RelativeVelocityExpression.cpp src/private/ExpressionsServer.cpp src/private/QuaternionErrorExpression.cpp src/private/AbsoluteVelocityExpression.cpp src/private/MomentumInBaseExpression.cpp src/private/FootYawCost.cpp src/private/FeetDistanceCost.cpp src/private/JointsVelocityForPosturalCost.cpp src/private/ComplementarityCost.cpp src/private/FrameAngularVelocityCost.cpp src/private/ClassicalComplementarityConstraint.cpp src/private/FeetRelativeHeightConstraint.cpp src/private/ForceRatioCost.cpp src/private/ClassicalPlanarComplementarityConstraint.cpp
//@ stubs idyn_core idyn_spatial idyn_model libstdcxx idyn_ocp idyn_ocp_lib contract_derivatives
//@ native_stubs idyn_ocp
#include "settings.h"
#include "ocp.h"
#include <DynamicalPlanner/Solver.h>
#include <DynamicalPlannerPrivate/Costs.h>
#include <DynamicalPlannerPrivate/Constraints.h>
#include <DynamicalPlannerPrivate/Constraints/DynamicalConstraints.h>
#include <iDynTree/Optimizers/IpoptInterface.h>
#include <iDynTree/Integrators/ImplicitTrapezoidal.h>
using namespace DynamicalPlanner::Private; namespace oc = iDynTree::optimalcontrol; using iDynTree::IndexRange; using iDynTree::VectorDynSize;
typedef VariablesLabeller L; static std::string num(size_t i) { return std::to_string(i); }
// ---- the variables and what the settings prescribe on them
struct Plan { const S& s; size_t n, p; L x, u; Timed k; std::shared_ptr<ExpressionsServer> e; std::vector<vpocp::Term> terms; std::vector<std::shared_ptr<oc::Constraint>> cons; std::shared_ptr<DynamicalConstraints> dyn;
    Plan(const S& st) : s(st), n(st.robotModel.getNrOfDOFs()), p(st.leftPointsPosition.size()) {
        for (std::string f : {"Left", "Right"}) for (size_t i = 0; i < p; ++i) { x.addLabel(f + "ForcePoint" + num(i), 3); x.addLabel(f + "PositionPoint" + num(i), 3); u.addLabel(f + "VelocityControlPoint" + num(i), 3); u.addLabel(f + "ForceControlPoint" + num(i), 3); }
        x.addLabel("Momentum", 6); x.addLabel("CoMPosition", 3); x.addLabel("BasePosition", 3); x.addLabel("BaseQuaternion", 4); x.addLabel("JointsPosition", n); u.addLabel("BaseLinearVelocity", 3); u.addLabel("BaseQuaternionDerivative", 4); u.addLabel("JointsVelocity", n);
        k = timed(s.robotModel); k->setGravity(s.gravity); k->setToleranceForUpdate(s.updateTolerance); bool ok = k->setFloatingBase(s.floatingBaseName); vp_assert_(ok, "floating base known"); e.reset(new ExpressionsServer(k)); }
    template <typename C> std::shared_ptr<C> cost(double w, C* c, const TimeRange* r = nullptr) { std::shared_ptr<C> q(c); vpocp::Term t; t.weight = w; t.whole = !r; if (r) t.range = *r; t.cost = q; terms.push_back(t); return q; }
    void l2(double w, const char* name, const std::string& label, int off, int size, bool state, const VectorDynSize* W, vpocp::TV ref, const TimeRange* r = nullptr) {
        IndexRange g = state ? x.getIndexRange(label) : u.getIndexRange(label), none = IndexRange::InvalidRange(); g.offset += off; g.size = size; auto c = cost(w, new oc::L2NormCost(name, state ? g : none, (unsigned)x.size(), state ? none : g, (unsigned)u.size()), r); bool ok = true;
        if (W) ok = ok & (state ? c->setStateWeight(*W) : c->setControlWeight(*W)); if (ref) ok = ok & (state ? c->setStateDesiredTrajectory(ref) : c->setControlDesiredTrajectory(ref)); vp_assert_(ok, "task prescribed"); }
    void costs() { unsigned N = (unsigned)n; auto fr = [&](const std::string& f) { return s.robotModel.getFrameIndex(f); };
        if (s.comCostActive) l2(s.comCostOverallWeight, "CoMCost", "CoMPosition", 0, 3, true, &s.comWeights, s.desiredCoMTrajectory, &s.comCostActiveRange);
        if (s.comVelocityCostActive) { auto c = cost(s.comVelocityCostOverallWeight, new CoMVelocityCost(x, u, (unsigned)x.getIndexRange("Momentum").offset, k), &s.comVelocityCostActiveRange); c->setStateWeight(s.comVelocityWeights); c->setLinearVelocityReference(s.desiredCoMVelocityTrajectory); }
        if (s.frameCostActive) { auto c = cost(s.frameCostOverallWeight, new FrameOrientationCost(x, u, k, e, fr(s.frameForOrientationCost))); c->setDesiredRotationTrajectory(s.desiredRotationTrajectory); c->setTimeVaryingWeight(s.frameCostTimeVaryingWeight); }
        for (std::string f : {"Left", "Right"}) { bool left = f == "Left"; for (size_t i = 0; i < p; ++i) {
            if (s.forceMeanCostActive) cost(s.forceMeanCostOverallWeight, new ForceMeanCost(x, u, f, i));
            if (s.forceRatioCostActive) cost(s.forceRatioCostOverallWeight, new ForceRatioCost(x, u, f, i))->setDesiredRatio((left ? s.desiredLeftRatios : s.desiredRightRatios)[i]);
            if (s.forceDerivativeCostActive) l2(s.forceDerivativesCostOverallWeight, ("ForceDerivative" + f + num(i)).c_str(), f + "ForceControlPoint" + num(i), 0, 3, false, &s.forceDerivativeWeights, s.desiredForceDerivativeTrajectory);
            if (s.pointAccelerationCostActive) l2(s.pointAccelerationCostOverallWeight, ("Acceleration" + f + num(i)).c_str(), f + "VelocityControlPoint" + num(i), 0, 3, false, &s.pointAccelerationWeights, s.desiredPointAccelerationTrajectory);
            if (s.swingCostActive) cost(s.swingCostOverallWeight, new SwingCost(x, u, f, i, s.desiredSwingHeight, s.swingCostWeights));
            if (s.phantomForcesCostActive) { HyperbolicSecant a; a.setScaling(s.normalForceHyperbolicSecantScaling); cost(s.phantomForcesCostOverallWeight, new PhantomForcesCost(x, u, f, i, a)); }
            if (s.complementarityCostActive) cost(s.complementarityCostOverallWeight, new ComplementarityCost(x, u, f, i)); }
            if (left ? s.leftFootYawCostActive : s.rightFootYawCostActive) cost(left ? s.leftFootYawCostOverallWeight : s.rightFootYawCostOverallWeight, new FootYawCost(x, f, left ? s.leftPointsPosition : s.rightPointsPosition))->setDesiredYawTrajectory(left ? s.desiredLeftFootYaw : s.desiredRightFootYaw); }
        if (s.jointsRegularizationCostActive) l2(s.jointsRegularizationCostOverallWeight, "JointsRegularizations", "JointsPosition", 0, (int)N, true, &s.jointsRegularizationWeights, s.desiredJointsTrajectory);
        if (s.jointsVelocityCostActive) l2(s.jointsVelocityCostOverallWeight, "JointsVelocity", "JointsVelocity", 0, (int)N, false, &s.jointsVelocityCostWeights, s.desiredJointsVelocityTrajectory);
        if (s.staticTorquesCostActive) cost(s.staticTorquesCostOverallWeight, new StaticTorquesCost(x, u, k, fr(s.leftFrameName), fr(s.rightFrameName), s.leftPointsPosition, s.rightPointsPosition))->setWeights(s.staticTorquesCostWeights);
        if (s.meanPointPositionCostActive) { auto c = cost(s.meanPointPositionCostOverallWeight, new MeanPointPositionCost(x, u), &s.meanPointPositionCostActiveRange); c->setDesiredPositionTrajectory(s.desiredMeanPointPosition); c->setTimeVaryingWeight(s.meanPointPositionCostTimeVaryingWeight); }
        if (s.feetDistanceCostActive) cost(s.feetDistanceCostOverallWeight, new FeetDistanceCost(x, u));
        if (s.jointsVelocityForPosturalCostActive) cost(s.jointsVelocityForPosturalCostOverallWeight, new JointsVelocityForPosturalCost(x, u, s.jointsVelocityCostWeights, s.jointsRegularizationWeights, s.desiredJointsTrajectory));
        if (s.basePositionCostActive) l2(s.basePositionCostOverallWeight, "RootCost", "BasePosition", 0, 3, true, &s.basePositionCostWeights, s.desiredBasePositionTrajectory, &s.basePositionCostActiveRange);
        if (s.baseQuaternionCostActive) l2(s.baseQuaternionCostOverallWeight, "BaseOrientationCost", "BaseQuaternion", 0, 4, true, nullptr, s.desiredBaseQuaternionTrajectory);
        if (s.frameAngularVelocityCostActive) cost(s.frameAngularVelocityCostOverallWeight, new FrameAngularVelocityCost(x, u, k, e, fr(s.frameForOrientationCost), s.rotationalPIDgain))->setDesiredRotationTrajectory(s.desiredRotationTrajectory);
        if (s.baseLinearVelocityCostActive) l2(s.baseLinearVelocityCostOverallWeight, "BaseLinearVelocityCost", "BaseLinearVelocity", 0, 3, false, &s.baseLinearVelocityCostWeights, s.desiredBaseLinearVelocityTrajectory);
        if (s.baseQuaternionVelocityCostActive) l2(s.baseQuaternionVelocityCostOverallWeight, "BaseQuaternionVelocityCost", "BaseQuaternionDerivative", 0, 4, false, nullptr, s.desiredBaseQuaternionVelocityTrajectory);
        if (s.angularMomentumCostActive) l2(s.angularMomentumCostOverallWeight, "AngularMomentumCost", "Momentum", 3, 3, true, nullptr, nullptr); }
    template <typename C> C* con(C* c) { cons.push_back(std::shared_ptr<oc::Constraint>(c)); return c; }
    void constraints() { auto fr = [&](const std::string& f) { return s.robotModel.getFrameIndex(f); }; HyperbolicSecant fa; HyperbolicTangent va; fa.setScaling(s.normalForceHyperbolicSecantScaling); va.setScaling(s.planarVelocityHyperbolicTangentScaling);
        con(new CentroidalMomentumConstraint(x, u, k, e))->setEqualityTolerance(s.centroidalMomentumConstraintTolerance); con(new CoMPositionConstraint(x, u, k, e))->setEqualityTolerance(s.comPositionConstraintTolerance);
        con(new FeetLateralDistanceConstraint(x, u, k, e, s.indexOfLateralDirection, fr(s.referenceFrameNameForFeetDistance), fr(s.otherFrameNameForFeetDistance)))->setMinimumDistance(s.minimumFeetDistance);
        con(new QuaternionNormConstraint(x, u))->setEqualityTolerance(s.quaternionModulusConstraintTolerance); con(new FeetRelativeHeightConstraint(x, u, s.feetMaximumRelativeHeight));
        for (std::string f : {"Left", "Right"}) for (size_t i = 0; i < p; ++i) { bool left = f == "Left";
            if (s.planarComplementarity == PlanarComplementarityType::HyperbolicTangentInequality) con(new PlanarVelocityControlConstraints(x, u, f, i, va, s.velocityMaximumDerivative(0), s.velocityMaximumDerivative(1)));
            if (s.planarComplementarity == PlanarComplementarityType::Classical) con(new ClassicalPlanarComplementarityConstraint(x, u, f, i, s.classicalPlanarComplementarityTolerance));
            if (s.complementarity == ComplementarityType::Dynamical) con(new DynamicalComplementarityConstraint(x, u, f, i, s.complementarityDissipation, s.dynamicComplementarityUpperBound));
            if (s.complementarity == ComplementarityType::HyperbolicSecantInequality) con(new ContactForceControlConstraints(x, u, f, i, fa, s.forceMaximumDerivative(2), s.normalForceDissipationRatio));
            if (s.complementarity == ComplementarityType::Classical) con(new ClassicalComplementarityConstraint(x, u, f, i, s.classicalComplementarityTolerance));
            con(new ContactFrictionConstraint(x, u, f, i))->setFrictionCoefficient(s.frictionCoefficient);
            con(new ContactPositionConsistencyConstraint(x, u, k, e, fr(left ? s.leftFrameName : s.rightFrameName), f, (left ? s.leftPointsPosition : s.rightPointsPosition)[i], i))->setEqualityTolerance(s.pointPositionConstraintTolerance); } }
    void dynamics() { HyperbolicSecant fa; HyperbolicTangent va; fa.setScaling(s.normalForceHyperbolicSecantScaling); va.setScaling(s.planarVelocityHyperbolicTangentScaling); if (s.planarComplementarity != PlanarComplementarityType::HyperbolicTangentInDynamics) va.disable(); if (s.complementarity != ComplementarityType::HyperbolicSecantInDynamics) fa.disable();
        dyn.reset(new DynamicalConstraints(x, u, k, e, va, fa, s.normalForceDissipationRatio)); }
};
// a time at or after the last instant of the grid (which instant serves a time is the shared kinematics's affair: E01)
static double later(const char* n) { return vpocp::world().xt.back() + vp_nonneg(n); }
static VectorDynSize anyVector(const char* n, size_t k) { VectorDynSize v((unsigned)k); for (unsigned i = 0; i < k; ++i) v(i) = vp_real(n); return v; }
static void sameVector(const VectorDynSize& a, const VectorDynSize& b, const std::string& l) { vp_assert_(a.size() == b.size(), l.c_str()); if (a.size() == b.size()) for (unsigned i = 0; i < a.size(); ++i) vp_eq_(a(i), b(i), l.c_str()); }
static VectorDynSize state(Plan& q) { VectorDynSize x = anyVector("x", q.x.size()); unsigned o = (unsigned)q.x.getIndexRange("BaseQuaternion").offset; double n = 0; for (unsigned i = 0; i < 4; ++i) n += x(o + i) * x(o + i); vp_assume_(n > 0); return x; }
// every task asked for is there once with its weight, interval and value, and no other
static void sameCosts(Plan& q, const vpocp::Problem& P) { double t = later("time"); VectorDynSize x = state(q), u = anyVector("u", q.u.size());
    vp_assert_(q.terms.size() == P.terms.size(), "a task is present exactly when its flag is on");
    for (auto& w : q.terms) { const vpocp::Term* g = nullptr; std::string l = w.cost->name() + ": "; for (auto& o : P.terms) if (o.cost->name() == w.cost->name()) g = &o; vp_assert_(g != nullptr, (l + "task present").c_str()); if (!g) continue;
        vp_eq_(g->weight, w.weight, (l + "overall weight").c_str()); vp_assert_(g->whole == w.whole, (l + "active interval").c_str()); if (!w.whole) { vp_eq_(g->range.initTime(), w.range.initTime(), (l + "active interval").c_str()); vp_eq_(g->range.endTime(), w.range.endTime(), (l + "active interval").c_str()); }
        double a = 0, b = 0; bool oa = g->cost->costEvaluation(t, x, u, a), ob = w.cost->costEvaluation(t, x, u, b); vp_assert_(oa & ob, (l + "evaluated").c_str()); vp_eq_(a, b, (l + "weights, references and parameters of the task").c_str()); } }
static void sameDynamics(Plan& q, const vpocp::Problem& P, double t, const VectorDynSize& x, const VectorDynSize& u) { VectorDynSize da((unsigned)q.x.size()), db((unsigned)q.x.size()); da.zero(); db.zero(); bool ok = P.dynamics && P.dynamics->setControlInput(u) && q.dyn->setControlInput(u) && P.dynamics->dynamics(x, t, da) && q.dyn->dynamics(x, t, db); vp_assert_(ok, "dynamics present"); sameVector(da, db, "parameters of the dynamics"); }
static void sameConstraints(Plan& q, const vpocp::Problem& P) { double t = later("time"); VectorDynSize x = state(q), u = anyVector("u", q.u.size());
    vp_assert_(q.cons.size() == P.constraints.size(), "exactly the constraints of the chosen model");
    for (auto& w : q.cons) { oc::Constraint* g = nullptr; std::string l = w->name() + ": "; for (auto& o : P.constraints) if (o->name() == w->name()) g = o.get(); vp_assert_(g != nullptr, (l + "constraint present").c_str()); if (!g) continue;
        bool z = g->constraintSize() == w->constraintSize(); vp_assert_(z, (l + "size").c_str()); if (!z) continue; VectorDynSize a((unsigned)w->constraintSize()), b((unsigned)w->constraintSize()); a.zero(); b.zero(); bool oa = g->evaluateConstraint(t, x, u, a), ob = w->evaluateConstraint(t, x, u, b); vp_assert_(oa & ob, (l + "evaluated").c_str()); sameVector(a, b, l + "parameters of the constraint");
        VectorDynSize la, lb, ua, ub; bool hl = g->getLowerBound(la), wl = w->getLowerBound(lb), hu = g->getUpperBound(ua), wu = w->getUpperBound(ub); vp_assert_((hl == wl) & (hu == wu), (l + "bounded as prescribed").c_str()); if (hl & wl) sameVector(la, lb, l + "lower bound"); if (hu & wu) sameVector(ua, ub, l + "upper bound"); } 
    sameDynamics(q, P, t, x, u); }
// the bounds the settings prescribe at a time
static void sameBounds(Plan& q, const vpocp::Problem& P, double inf) { const S& s = q.s; double t = vp_nonneg("time"); unsigned nx = (unsigned)q.x.size(), nu = (unsigned)q.u.size(); VectorDynSize xl(nx), xu(nx), ul(nu), uu(nu); for (unsigned i = 0; i < nx; ++i) { xl(i) = -inf; xu(i) = inf; } for (unsigned i = 0; i < nu; ++i) { ul(i) = -inf; uu(i) = inf; }
    bool moving = t < s.horizon * s.activeControlPercentage; auto X = [&](const std::string& l) { return (unsigned)q.x.getIndexRange(l).offset; }; auto U = [&](const std::string& l) { return (unsigned)q.u.getIndexRange(l).offset; };
    for (std::string f : {"Left", "Right"}) for (size_t i = 0; i < q.p; ++i) { xl(X(f + "PositionPoint" + num(i)) + 2) = 0; xl(X(f + "ForcePoint" + num(i)) + 2) = 0; for (unsigned d = 0; d < 3; ++d) { double F = moving ? s.forceMaximumDerivative(d) : 0, V = moving ? s.velocityMaximumDerivative(d) : 0; unsigned a = U(f + "ForceControlPoint" + num(i)) + d, b = U(f + "VelocityControlPoint" + num(i)) + d; ul(a) = -F; uu(a) = F; ul(b) = -V; uu(b) = V; } }
    xl(X("CoMPosition") + 2) = s.minimumCoMHeight; for (unsigned d = 3; d < 6; ++d) { xl(X("Momentum") + d) = -s.maximumAngularMomentum; xu(X("Momentum") + d) = s.maximumAngularMomentum; }
    for (size_t j = 0; j < q.n; ++j) { unsigned a = X("JointsPosition") + (unsigned)j, b = U("JointsVelocity") + (unsigned)j; xl(a) = s.jointsLimits[j].first; xu(a) = s.jointsLimits[j].second; ul(b) = s.jointsVelocityLimits[j].first; uu(b) = s.jointsVelocityLimits[j].second; }
    if (s.constrainTargetCoMPosition && s.desiredCoMTrajectory && s.constrainTargetCoMPositionRange.isInRange(t)) { bool v; const VectorDynSize& r = s.desiredCoMTrajectory->get(t, v); bool w; double tol = s.targetCoMPositionTolerance->get(t, w); for (unsigned d = 0; d < 3; ++d) { xl(X("CoMPosition") + d) = r(d) - tol; xu(X("CoMPosition") + d) = r(d) + tol; } }
    bool a = false, b = false, c = false, d = false; VectorDynSize gxl = P.xl->get(t, a), gxu = P.xu->get(t, b), gul = P.ul->get(t, c), guu = P.uu->get(t, d); vp_assert_(a & b & c & d, "bounds available at every time"); sameVector(gxl, xl, "state lower bounds"); sameVector(gxu, xu, "state upper bounds"); sameVector(gul, ul, "control lower bounds"); sameVector(guu, uu, "control upper bounds"); }
static bool* flagOf(S& s, int k) { bool* f[] = {&s.comCostActive, &s.comVelocityCostActive, &s.frameCostActive, &s.forceMeanCostActive, &s.forceRatioCostActive, &s.jointsRegularizationCostActive, &s.jointsVelocityCostActive, &s.staticTorquesCostActive, &s.forceDerivativeCostActive, &s.pointAccelerationCostActive, &s.swingCostActive, &s.phantomForcesCostActive, &s.meanPointPositionCostActive, &s.leftFootYawCostActive, &s.rightFootYawCostActive, &s.feetDistanceCostActive, &s.jointsVelocityForPosturalCostActive, &s.complementarityCostActive, &s.basePositionCostActive, &s.baseQuaternionCostActive, &s.frameAngularVelocityCostActive, &s.baseLinearVelocityCostActive, &s.baseQuaternionVelocityCostActive, &s.angularMomentumCostActive}; return f[k]; }
static const int TASKS = 24;
// accepted settings that the library does not refuse further on (step, period, friction and tolerance positive; the largest velocities in increasing order, which only the acceptance of the settings, W01, looks at); anyGravity: gravity arbitrary, else with a component along x
static void prescribe(S& s, int joints, int points, bool anyGravity = false) { valid(s, joints, points, false); s.minimumDt = vp_pos("minimumDt"); s.maximumDt = 2 * s.minimumDt + vp_pos("maximumDt"); s.controlPeriod = vp_pos("controlPeriod"); s.frictionCoefficient = vp_pos("friction"); s.updateTolerance = vp_pos("tolerance"); s.velocityMaximumDerivative(1) = s.velocityMaximumDerivative(0) + vp_nonneg("velocity"); s.velocityMaximumDerivative(2) = s.velocityMaximumDerivative(1) + vp_nonneg("velocity"); if (!anyGravity) s.gravity(0) = 1 + vp_pos("gravity"); s.frameForOrientationCost = "l_foot"; }
static void grid(const S& s) { auto& w = vpocp::world(); w.problem = nullptr; w.shooting = nullptr; w.fail = -1; w.calls = 0; double a = vp_pos("instant"), b = vp_pos("instant"); w.xt = {a, a + b}; w.ut = {0, a}; }
// the objects are not destroyed: what is verified is what was assembled, not its destruction
struct Assembled { S& s; Settings& set; Solver& solver; Plan& q; };
static Assembled assembled(S& s, Solver* old = nullptr) { Settings& set = *new Settings(s); vp_assert_(set.isValid(), "settings accepted"); grid(s); Solver& solver = old ? *old : *new Solver(); bool ok = solver.specifySettings(set); vp_assert_(ok, "problem assembled"); vp_assume_(ok); Plan& q = *new Plan(s); q.k->setTimings(vpocp::world().xt); return Assembled{s, set, solver, q}; }
static void noTask(S& s) { for (int k = 0; k < TASKS; ++k) *flagOf(s, k) = false; }
// a foot with three vertices (the yaw of a foot is read off three of them: K03)
static void feet(S& s) { const double v[3][2] = {{-0.06, -0.04}, {0.13, -0.05}, {0.12, 0.03}}; for (unsigned i = 0; i < 3; ++i) { s.leftPointsPosition[i](0) = v[i][0]; s.leftPointsPosition[i](1) = v[i][1]; s.rightPointsPosition[i](0) = v[i][0] + 0.01; s.rightPointsPosition[i](1) = v[i][1] - 0.005; } }
static void constraintsOf(int first, int second) { S& s = *new S(); prescribe(s, 1, 1); noTask(s); s.complementarity = (ComplementarityType)first; s.planarComplementarity = (PlanarComplementarityType)second; if (first == 1) s.floatingBaseName = "link0"; Assembled a = assembled(s); a.q.constraints(); a.q.dynamics(); sameConstraints(a.q, *vpocp::world().problem); vp_assert_(vpocp::world().problem->terms.empty(), "no task is present when every flag is off"); }
//@ spec W02 spec_W02_constraints timeout=400
extern "C" void spec_W02_constraints() { int k = vp_choose_("complementarity", 0, 3), p = vp_choose_("planar", 0, 2); constraintsOf(k, p); }
//@ spec W02 spec_W02_tasks timeout=400
extern "C" void spec_W02_tasks() { S& s = *new S(); prescribe(s, 1, 3); feet(s); Assembled a = assembled(s); a.q.costs(); sameCosts(a.q, *vpocp::world().problem); }
// one task alone: its flag switches it, and only it
//@ spec W02 spec_W02_task timeout=400
extern "C" void spec_W02_task() { S& s = *new S(); int k = vp_choose_("task", 0, TASKS - 1); bool yaw = k == 13 || k == 14; prescribe(s, 1, yaw ? 3 : 1); if (yaw) feet(s); noTask(s); *flagOf(s, k) = true; Assembled a = assembled(s); a.q.costs(); const vpocp::Problem& P = *vpocp::world().problem; vp_assert_(P.terms.size() == a.q.terms.size(), "a task is present exactly when its flag is on"); for (auto& w : a.q.terms) { bool there = false; for (auto& o : P.terms) there = there | (o.cost->name() == w.cost->name()); vp_assert_(there, "the task whose flag is on is present"); } }
//@ spec W02 spec_W02_bounds timeout=400
extern "C" void spec_W02_bounds() { S& s = *new S(); prescribe(s, 2, 2); noTask(s); s.constrainTargetCoMPosition = vp_choose_("target", 0, 1) == 1; if (s.constrainTargetCoMPosition && vp_choose_("no reference", 0, 1)) s.desiredCoMTrajectory = nullptr; Assembled a = assembled(s); sameBounds(a.q, *vpocp::world().problem, 1E19); }
// an optimiser with infinities of its own, and an integrator
struct Opt : iDynTree::optimization::Optimizer { bool isAvailable() const override { return true; } double plusInfinity() override { return 1E12; } double minusInfinity() override { return -1E12; } bool solve() override { return false; } };
//@ spec W02 spec_W02_shooting timeout=400
extern "C" void spec_W02_shooting() { S& s = *new S(); prescribe(s, 1, 1); noTask(s); s.constrainTargetCoMPosition = false; s.useCostsHessianRegularization = vp_choose_("costs regularised", 0, 1) == 1; s.useConstraintsHessianRegularization = vp_choose_("constraints regularised", 0, 1) == 1; bool own = vp_choose_("own optimiser and integrator", 0, 1) == 1;
    Solver& solver = *new Solver(); std::shared_ptr<Opt> o = std::make_shared<Opt>(); auto i = std::make_shared<iDynTree::optimalcontrol::integrators::ImplicitTrapezoidal>(); if (own) { vp_assert_(solver.setOptimizer(o), "optimiser accepted"); vp_assert_(solver.setIntegrator(i), "integrator accepted"); }
    Assembled a = assembled(s, &solver); const vpocp::Problem& P = *vpocp::world().problem; vpocp::Shooting& m = *vpocp::world().shooting; sameBounds(a.q, P, own ? 1E12 : 1E19);
    vp_assert_(m.stepSet & m.periodSet, "step and period given"); vp_eq_(m.minDt, s.minimumDt, "minimum step"); vp_eq_(m.maxDt, s.maximumDt, "maximum step"); vp_eq_(m.period, s.controlPeriod, "control period"); vp_assert_(P.horizons > 0, "horizon given"); vp_eq_(P.tf - P.t0, s.horizon, "horizon");
    vp_assert_((m.costReg == 1) == s.useCostsHessianRegularization, "regularisation of the costs' Hessian is on exactly when asked for"); if (m.costReg == 1) vp_eq_(m.costRegValue, s.costsHessianRegularization, "regularisation of the costs' Hessian");
    vp_assert_((m.conReg == 1) == s.useConstraintsHessianRegularization, "regularisation of the constraints' Hessian is on exactly when asked for"); if (m.conReg == 1) vp_eq_(m.conRegValue, s.constraintsHessianRegularization, "regularisation of the constraints' Hessian");
    vp_assert_(m.optimizer != nullptr && m.integrator != nullptr, "optimiser and integrator given"); if (own) vp_assert_(m.optimizer == o && m.integrator == i, "the optimiser and the integrator are those given"); }
// what the shared kinematics is configured with is visible in what is computed from it
//@ spec W02 spec_W02_kinematics timeout=400
extern "C" void spec_W02_kinematics() { S& s = *new S(); prescribe(s, 1, 1, true); noTask(s); s.floatingBaseName = "link0"; s.updateTolerance = 2 + vp_pos("tolerance"); Assembled a = assembled(s); a.q.constraints(); a.q.dynamics(); const vpocp::Problem& P = *vpocp::world().problem; VectorDynSize u = anyVector("u", a.q.u.size()), x = state(a.q), y = x; unsigned j = (unsigned)a.q.x.getIndexRange("JointsPosition").offset; y(j) = y(j) + 1; double t = later("time");
    for (auto& w : a.q.cons) if (w->name() == "CoMPositionConstraint" || w->name().find("CentroidalMomentum") != std::string::npos) for (auto& g : P.constraints) if (g->name() == w->name()) for (auto* z : {&x, &y}) { VectorDynSize r((unsigned)w->constraintSize()), e((unsigned)w->constraintSize()); r.zero(); e.zero(); bool o = g->evaluateConstraint(t, *z, u, r), p = w->evaluateConstraint(t, *z, u, e); vp_assert_(o & p, "evaluated"); sameVector(r, e, w->name() + ": base link and update tolerance of the kinematics"); }
    sameDynamics(a.q, P, t, x, u); }
// settings given to a solver that already holds a problem
//@ spec W02 spec_W02_again timeout=600
extern "C" void spec_W02_again() { S& f = *new S(); prescribe(f, 1, 3); feet(f); noTask(f); int k = vp_choose_("task before", 0, 1); for (int i = 0; i < TASKS; ++i) *flagOf(f, i) = i % 2 == k; Settings& first = *new Settings(f); grid(f); Solver& solver = *new Solver(); bool ok = solver.specifySettings(first); vp_assert_(ok, "problem assembled"); vp_assume_(ok);
    S& s = *new S(); prescribe(s, 2, k == 0 ? 1 : 3); if (k) feet(s); s.complementarity = (ComplementarityType)(k + 1); s.planarComplementarity = (PlanarComplementarityType)(k + 1); noTask(s); for (int i = 0; i < TASKS; ++i) *flagOf(s, i) = i % 2 != k && (k || (i != 13 && i != 14)); Assembled a = assembled(s, &solver); a.q.costs(); a.q.constraints(); a.q.dynamics(); sameCosts(a.q, *vpocp::world().problem); sameConstraints(a.q, *vpocp::world().problem); sameBounds(a.q, *vpocp::world().problem, 1E19); }
