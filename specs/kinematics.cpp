// Constraints tying the state to the robot's kinematics (C04, C05, D03, R01).
//@ modules src/private/CoMPositionConstraint.cpp src/private/ContactPositionConsistencyConstraint.cpp src/private/FeetLateralDistanceConstraint.cpp src/private/CentroidalMomentumConstraint.cpp
//@ modules src/private/SharedKinDynComputations.cpp src/private/TimelySharedKinDynComputations.cpp src/private/ExpressionsServer.cpp src/private/QuaternionUtils.cpp
//@ modules src/private/AbsoluteVelocityExpression.cpp src/private/AdjointTransformExpression.cpp src/private/CoMInBaseExpression.cpp src/private/MomentumInBaseExpression.cpp src/private/QuaternionErrorExpression.cpp src/private/QuaternionExpressions.cpp
//@ modules src/private/RelativeJacobianExpression.cpp src/private/RelativePositionExpression.cpp src/private/RelativeQuaternionExpression.cpp src/private/RelativeVelocityExpression.cpp src/private/TransformExpression.cpp
//@ modules src/private/VariablesLabeller.cpp
//@ stubs idyn_core idyn_spatial idyn_model libstdcxx contract_rotated
#include "robot.h"
#include <DynamicalPlannerPrivate/Constraints/CoMPositionConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/ContactPositionConsistencyConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/FeetLateralDistanceConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/CentroidalMomentumConstraint.h>
using namespace DynamicalPlanner::Private;
struct Kin { Lay L; Robot r; size_t nl, nr; int dofs; Timed t; std::shared_ptr<ExpressionsServer> e; double tol;
    Kin(int k, double tl = -1, bool sym = true, bool full = false) : tol(tl) { nl = k == 1 ? 2 : 1; nr = k == 0 ? 2 : 1; dofs = k == 0 ? 1 : 2; makeLay(L, k, nl, nr, dofs); r.build(dofs, sym, k != 2, full); reset(); }
    void reset() { t = timed(r.m, tol); e.reset(new ExpressionsServer(t)); }
    void nonzeroQuat(At& a) { unsigned q = off(L.s, "BaseQuaternion"); double n = 0; for (unsigned i = 0; i < 4; ++i) n += a.x.v(q + i) * a.x.v(q + i); vp_assume_(n > 0); }
    // the kinematics library's answers for the state
    iDynTree::Transform base(At& a) { unsigned Q = off(L.s, "BaseQuaternion"), B = off(L.s, "BasePosition"); VectorDynSize& x = a.x.v; double w = x(Q), p = x(Q + 1), q = x(Q + 2), t = x(Q + 3), n = w * w + p * p + q * q + t * t;
        return iDynTree::Transform(iDynTree::Rotation((w * w + p * p - q * q - t * t) / n, 2 * (p * q - w * t) / n, 2 * (p * t + w * q) / n, 2 * (p * q + w * t) / n, (w * w - p * p + q * q - t * t) / n, 2 * (q * t - w * p) / n, 2 * (p * t - w * q) / n, 2 * (q * t + w * p) / n, (w * w - p * p - q * q + t * t) / n), iDynTree::Position(x(B), x(B + 1), x(B + 2))); }
    VectorDynSize joints(At& a) { VectorDynSize s((unsigned)dofs); for (int i = 0; i < dofs; ++i) s((unsigned)i) = a.x.v(off(L.s, "JointsPosition") + (unsigned)i); return s; }
    void oracle(iDynTree::KinDynComputations& kd, At& a) { kd.loadRobotModel(r.m); VectorDynSize ds((unsigned)dofs); ds.zero(); iDynTree::Twist v; v.zero(); iDynTree::Vector3 g; g.zero(); g(2) = -9.81; bool ok = kd.setRobotState(base(a), joints(a), v, ds, g); vp_assert_(ok, "state accepted by the library"); } };
struct KCom : Kin { using Kin::Kin; std::unique_ptr<CoMPositionConstraint> mk() { return std::unique_ptr<CoMPositionConstraint>(new CoMPositionConstraint(L.s, L.c, t, e)); }
    void expected(At& a, double* v) { iDynTree::KinDynComputations kd; oracle(kd, a); iDynTree::Position p = kd.getCenterOfMassPosition(); for (unsigned i = 0; i < 3; ++i) v[i] = p(i) - a.x.v(off(L.s, "CoMPosition") + i); } };
struct KPoint : Kin { iDynTree::Position p; bool left; unsigned idx; 
    KPoint(int k, double tl = -1) : Kin(k, tl), p(vp_real("point"), vp_real("point"), vp_real("point")) { left = k != 0; idx = k == 2 ? 0 : 1; }
    std::unique_ptr<ContactPositionConsistencyConstraint> mk() { return std::unique_ptr<ContactPositionConsistencyConstraint>(new ContactPositionConsistencyConstraint(L.s, L.c, t, e, r.m.getFrameIndex(left ? "l_foot" : "r_foot"), left ? "Left" : "Right", p, idx)); }
    void expected(At& a, double* v) { iDynTree::KinDynComputations kd; oracle(kd, a); iDynTree::Position w = kd.getWorldTransform(left ? "l_foot" : "r_foot") * p; for (unsigned i = 0; i < 3; ++i) v[i] = w(i) - a.x.v(off(L.s, std::string(left ? "Left" : "Right") + "PositionPoint" + std::to_string(idx)) + i); } };
struct KLat : Kin { unsigned lat; KLat(int k, double tl = -1) : Kin(k, tl) { lat = (unsigned)k; }
    std::unique_ptr<FeetLateralDistanceConstraint> mk() { return std::unique_ptr<FeetLateralDistanceConstraint>(new FeetLateralDistanceConstraint(L.s, L.c, t, e, lat, r.m.getFrameIndex("r_foot"), r.m.getFrameIndex("l_foot"))); }
    void expected(At& a, double* v) { iDynTree::KinDynComputations kd; oracle(kd, a); v[0] = kd.getRelativeTransform("r_foot", "l_foot").getPosition()(lat); } };
struct KMom : Kin { KMom(int k, double tl = -1, bool sym = true, bool full = false) : Kin(k, tl, sym, full) {} std::unique_ptr<CentroidalMomentumConstraint> mk() { return std::unique_ptr<CentroidalMomentumConstraint>(new CentroidalMomentumConstraint(L.s, L.c, t, e)); }
    // the base twist (body coordinates): linear velocity as commanded, angular velocity 2 G(q/|q|) dq
    void expected(At& a, double* v) { iDynTree::KinDynComputations kd; kd.loadRobotModel(r.m); kd.setFrameVelocityRepresentation(iDynTree::BODY_FIXED_REPRESENTATION); unsigned Q = off(L.s, "BaseQuaternion"), BV = off(L.c, "BaseLinearVelocity"), BQ = off(L.c, "BaseQuaternionDerivative"), JV = off(L.c, "JointsVelocity");
        VectorDynSize &x = a.x.v, &u = a.u.v; double w = x(Q), p = x(Q + 1), q = x(Q + 2), t = x(Q + 3), n = std::sqrt(w * w + p * p + q * q + t * t), d[4]; for (unsigned i = 0; i < 4; ++i) d[i] = u(BQ + i);
        double om[3] = {2 * (-p * d[0] + w * d[1] + t * d[2] - q * d[3]) / n, 2 * (-q * d[0] - t * d[1] + w * d[2] + p * d[3]) / n, 2 * (-t * d[0] + q * d[1] - p * d[2] + w * d[3]) / n};
        iDynTree::Twist tw(iDynTree::LinVelocity(u(BV), u(BV + 1), u(BV + 2)), iDynTree::AngVelocity(om[0], om[1], om[2])); VectorDynSize ds((unsigned)dofs); for (unsigned i = 0; i < (unsigned)dofs; ++i) ds(i) = u(JV + i); iDynTree::Vector3 g; g.zero(); g(2) = -9.81;
        bool ok = kd.setRobotState(base(a), joints(a), tw, ds, g); vp_assert_(ok, "state accepted by the library"); kd.setFrameVelocityRepresentation(iDynTree::MIXED_REPRESENTATION); iDynTree::SpatialMomentum h = kd.getCentroidalTotalMomentum(); for (unsigned i = 0; i < 3; ++i) v[i] = h(3 + i) - x(off(L.s, "Momentum") + 3 + i); } };
struct KMomN : KMom { KMomN(int k, double tl = -1) : KMom(k, tl, false) {} }; // a robot with given numbers
struct KMomF : KMom { KMomF(int k, double tl = -1) : KMom(k, tl, true, true) {} }; // every entry of the inertias quantified
template <class P> void exactBounds(P& S, std::true_type) { auto c = S.mk(); double z[6] = {0, 0, 0, 0, 0, 0}; bounds(*c, true, z, true, z); double tol = vp_nonneg("tolerance"), lo[6], up[6]; for (int i = 0; i < 6; ++i) { lo[i] = -tol / 2; up[i] = tol / 2; } c->setEqualityTolerance(tol); bounds(*c, true, lo, true, up); }
template <class P> void exactBounds(P& S, std::false_type) { auto c = S.mk(); double d = vp_real("distance"); bool ok = c->setMinimumDistance(d); vp_assert_(ok == (d >= 0), "negative distances are refused"); double lo[1] = {0}; bounds(*c, true, d >= 0 ? &d : lo, false, lo); }
template <class P> void value(int k, bool eq) { P S(k); auto c = S.mk(); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); S.nonzeroQuat(a); Out o(rows(*c), S.L.ns, S.L.nc); call(*c, F_VAL, a, o); vp_assert_(o.ok[F_VAL], "evaluations succeed"); vp_assert_(c->expectedStateSpaceSize() == S.L.ns && c->expectedControlSpaceSize() == S.L.nc, "sizes of the spaces");
    double v[6]; S.expected(a, v); for (unsigned i = 0; i < rows(*c); ++i) vp_eq_(o.val(i), v[i], "the value is the difference from what the robot's kinematics give"); }
#define KIN(NAME, P, EQ, K) \
extern "C" void spec_C05_##NAME##K() { value<P>(K, EQ); if (K == 1) { P S(K); exactBounds(S, std::integral_constant<bool, EQ>()); } } \
extern "C" void spec_C04_##NAME##First##K() { P S(K); auto c = S.mk(); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); S.nonzeroQuat(a); firstDerivatives<Constraint>(*c, S.L.ns, S.L.nc, a); } \
extern "C" void spec_C04_##NAME##Second##K() { P S(K); auto c = S.mk(); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); S.nonzeroQuat(a); secondDerivatives<Constraint>(*c, S.L.ns, S.L.nc, a); } \
extern "C" void spec_D03_##NAME##K() { P S(K); auto c = S.mk(); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); S.nonzeroQuat(a); sparsityCovers<Constraint>(*c, S.L.ns, S.L.nc, a); } \
extern "C" void spec_R01_##NAME##K() { P S(K, 0.0); bool first = true; size_t n = EQ ? 3 : 1; At A, B; fillAt(A, n, S.L.ns, S.L.nc); fillAt(B, n, S.L.ns, S.L.nc); S.nonzeroQuat(A); S.nonzeroQuat(B); \
    historyIndependent([&]() { if (!first) S.reset(); first = false; return std::unique_ptr<Constraint>(S.mk().release()); }, S.L.ns, S.L.nc, A, B); }
KIN(com, KCom, true, 0) KIN(com, KCom, true, 1) KIN(com, KCom, true, 2)
KIN(point, KPoint, true, 0) KIN(point, KPoint, true, 1) KIN(point, KPoint, true, 2)
KIN(lateral, KLat, false, 0) KIN(lateral, KLat, false, 1) KIN(lateral, KLat, false, 2)
KIN(momentum, KMom, true, 0) KIN(momentum, KMom, true, 1) KIN(momentum, KMom, true, 2) KIN(momnum, KMomN, true, 1) KIN(momfull, KMomF, true, 0) KIN(momfull, KMomF, true, 2)
//@ spec C05 spec_C05_com0
//@ spec C04 spec_C04_comFirst0
//@ spec C04 spec_C04_comSecond0
//@ spec D03 spec_D03_com0
//@ spec R01 spec_R01_com0 thorough
//@ spec C05 spec_C05_com1
//@ spec C04 spec_C04_comFirst1
//@ spec C04 spec_C04_comSecond1
//@ spec D03 spec_D03_com1
//@ spec R01 spec_R01_com1
//@ spec C05 spec_C05_com2
//@ spec C04 spec_C04_comFirst2
//@ spec C04 spec_C04_comSecond2
//@ spec D03 spec_D03_com2
//@ spec R01 spec_R01_com2 thorough
//@ spec C05 spec_C05_point0
//@ spec C04 spec_C04_pointFirst0
//@ spec C04 spec_C04_pointSecond0
//@ spec D03 spec_D03_point0
//@ spec R01 spec_R01_point0 thorough
//@ spec C05 spec_C05_point1
//@ spec C04 spec_C04_pointFirst1
//@ spec C04 spec_C04_pointSecond1
//@ spec D03 spec_D03_point1
//@ spec R01 spec_R01_point1
//@ spec C05 spec_C05_point2
//@ spec C04 spec_C04_pointFirst2
//@ spec C04 spec_C04_pointSecond2
//@ spec D03 spec_D03_point2
//@ spec R01 spec_R01_point2 thorough
//@ spec C05 spec_C05_lateral0
//@ spec C04 spec_C04_lateralFirst0
//@ spec C04 spec_C04_lateralSecond0
//@ spec D03 spec_D03_lateral0
//@ spec R01 spec_R01_lateral0
//@ spec C05 spec_C05_lateral1
//@ spec C04 spec_C04_lateralFirst1
//@ spec C04 spec_C04_lateralSecond1
//@ spec D03 spec_D03_lateral1
//@ spec R01 spec_R01_lateral1
//@ spec C05 spec_C05_lateral2
//@ spec C04 spec_C04_lateralFirst2
//@ spec C04 spec_C04_lateralSecond2
//@ spec D03 spec_D03_lateral2
//@ spec R01 spec_R01_lateral2
//@ spec C05 spec_C05_momentum0
//@ spec C04 spec_C04_momentumFirst0
//@ spec C04 spec_C04_momentumSecond0
//@ spec D03 spec_D03_momentum0
//@ spec R01 spec_R01_momentum0 thorough
//@ spec C05 spec_C05_momentum1
//@ spec C04 spec_C04_momentumFirst1
//@ spec C04 spec_C04_momentumSecond1 thorough timeout=900
//@ spec C04 spec_C04_momnumSecond1
//@ spec C05 spec_C05_momfull0
//@ spec C05 spec_C05_momfull2 thorough
//@ spec C04 spec_C04_momfullFirst0 thorough timeout=900
//@ spec C04 spec_C04_momfullSecond0 thorough timeout=900
//@ spec C04 spec_C04_momfullFirst2 thorough timeout=900
//@ spec C04 spec_C04_momfullSecond2 thorough timeout=900
//@ spec D03 spec_D03_momentum1
//@ spec R01 spec_R01_momentum1
//@ spec C05 spec_C05_momentum2
//@ spec C04 spec_C04_momentumFirst2
//@ spec C04 spec_C04_momentumSecond2
//@ spec D03 spec_D03_momentum2
//@ spec R01 spec_R01_momentum2 thorough
