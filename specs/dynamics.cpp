// The system's dynamics (D01, D02, D03, R01): DynamicalConstraints with the kinematics and
// expression servers it is built on.
//@ modules src/private/DynamicalConstraints.cpp src/private/SharedKinDynComputations.cpp src/private/TimelySharedKinDynComputations.cpp src/private/ExpressionsServer.cpp src/private/QuaternionUtils.cpp
//@ modules src/private/AbsoluteVelocityExpression.cpp src/private/AdjointTransformExpression.cpp src/private/CoMInBaseExpression.cpp src/private/MomentumInBaseExpression.cpp src/private/QuaternionErrorExpression.cpp src/private/QuaternionExpressions.cpp
//@ modules src/private/RelativeJacobianExpression.cpp src/private/RelativePositionExpression.cpp src/private/RelativeQuaternionExpression.cpp src/private/RelativeVelocityExpression.cpp src/private/TransformExpression.cpp
//@ modules src/private/VariablesLabeller.cpp src/private/HyperbolicSecant.cpp src/private/HyperbolicTangent.cpp src/private/SmoothingFunction.cpp
//@ stubs idyn_core idyn_spatial idyn_model libstdcxx
#include "robot.h"
#include <DynamicalPlannerPrivate/Constraints/DynamicalConstraints.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicSecant.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicTangent.h>
using namespace DynamicalPlanner::Private;
struct Dyn { Lay L; Robot r; HyperbolicTangent pl; HyperbolicSecant no; double diss, g[3] = {0, 0, -9.81}; size_t nl, nr; int dofs; Timed t; std::shared_ptr<ExpressionsServer> e;
    Dyn(int k, double tol = -1) { nl = k == 1 ? 2 : 1; nr = k == 0 ? 2 : 1; dofs = k == 2 ? 2 : 1; makeLay(L, k, nl, nr, dofs); r.build(dofs, true);
        pl.setScaling(vp_real("K", 0.2, 3)); no.setScaling(vp_real("Kn", 0.2, 3)); diss = vp_nonneg("dissipation"); t = timed(r.m, tol); e.reset(new ExpressionsServer(t)); }
    std::unique_ptr<DynamicalConstraints> mk() { return std::unique_ptr<DynamicalConstraints>(new DynamicalConstraints(L.s, L.c, t, e, pl, no, diss)); }
    std::unique_ptr<DynamicalConstraints> mkFresh(double tol) { Timed t2 = timed(r.m, tol); return std::unique_ptr<DynamicalConstraints>(new DynamicalConstraints(L.s, L.c, t2, std::make_shared<ExpressionsServer>(t2), pl, no, diss)); } 
    void nonzeroQuat(At& a) { unsigned q = off(L.s, "BaseQuaternion"); double n = 0; for (unsigned i = 0; i < 4; ++i) n += a.x.v(q + i) * a.x.v(q + i); vp_assume_(n > 0); } };
static void run_D01_dynamics(int K, bool anyGravity = false) { Dyn S(K); if (anyGravity) { iDynTree::Vector3 g; for (unsigned i = 0; i < 3; ++i) g(i) = S.g[i] = i ? vp_real("gravity") : vp_pos("gravity"); vp_assume_(S.g[0] > 1); S.t->setGravity(g); } auto c = S.mk(); At a; fillAt(a, S.L.ns, S.L.ns, S.L.nc); S.nonzeroQuat(a); auto& s = S.L.s; auto& u = S.L.c; VectorDynSize& x = a.x.v; VectorDynSize& v = a.u.v;
    vp_assert_(c->stateSpaceSize() == S.L.ns && c->controlSpaceSize() == S.L.nc, "sizes of the system");
    Out o(S.L.ns, S.L.ns, S.L.nc); call(*c, F_VAL, a, o); vp_assert_(o.ok[F_VAL] && o.val.size() == S.L.ns, "dynamics evaluated");
    unsigned M = off(s, "Momentum"), C = off(s, "CoMPosition"), B = off(s, "BasePosition"), Q = off(s, "BaseQuaternion"), J = off(s, "JointsPosition");
    double lin[3] = {S.g[0] * S.r.mass, S.g[1] * S.r.mass, S.g[2] * S.r.mass}, ang[3] = {0, 0, 0};
    for (int f = 0; f < 2; ++f) for (size_t i = 0; i < (f ? S.nr : S.nl); ++i) { std::string foot = f ? "Right" : "Left", k = std::to_string(i); unsigned F = off(s, foot + "ForcePoint" + k), P = off(s, foot + "PositionPoint" + k), UF = off(u, foot + "ForceControlPoint" + k), UV = off(u, foot + "VelocityControlPoint" + k);
        double d[3], g[3]; for (int j = 0; j < 3; ++j) { g[j] = x(F + j); d[j] = x(P + j) - x(C + j); lin[j] += g[j]; }
        ang[0] += d[1] * g[2] - d[2] * g[1]; ang[1] += d[2] * g[0] - d[0] * g[2]; ang[2] += d[0] * g[1] - d[1] * g[0];
        double z = x(P + 2), dz = S.no.eval(z), dxy = S.pl.eval(z);
        vp_eq_(o.val(F), v(UF), "planar force rates are the controls"); vp_eq_(o.val(F + 1), v(UF + 1), "planar force rates are the controls");
        vp_eq_(o.val(F + 2), dz * v(UF + 2) + S.diss * (dz - 1) * g[2], "normal force rate is the activated control minus the dissipation off the ground");
        vp_eq_(o.val(P), dxy * v(UV), "planar velocity is scaled by the activation of the height"); vp_eq_(o.val(P + 1), dxy * v(UV + 1), "planar velocity is scaled by the activation of the height"); vp_eq_(o.val(P + 2), v(UV + 2), "normal velocity is the control"); }
    for (int j = 0; j < 3; ++j) { vp_eq_(o.val(M + j), lin[j], "linear momentum changes by the weight and the contact forces"); vp_eq_(o.val(M + 3 + j), ang[j], "angular momentum changes by the moments of the contact forces about the centre of mass");
        vp_eq_(o.val(C + j) * S.r.mass, x(M + j), "the centre of mass moves with the linear momentum divided by the mass"); }
    double w = x(Q), p = x(Q + 1), q = x(Q + 2), t = x(Q + 3), n = w * w + p * p + q * q + t * t, R[3][3] = {{w * w + p * p - q * q - t * t, 2 * (p * q - w * t), 2 * (p * t + w * q)}, {2 * (p * q + w * t), w * w - p * p + q * q - t * t, 2 * (q * t - w * p)}, {2 * (p * t - w * q), 2 * (q * t + w * p), w * w - p * p - q * q + t * t}};
    unsigned BV = off(u, "BaseLinearVelocity"), BQ = off(u, "BaseQuaternionDerivative"), JV = off(u, "JointsVelocity");
    for (int i = 0; i < 3; ++i) vp_eq_(o.val(B + i) * n, R[i][0] * v(BV) + R[i][1] * v(BV + 1) + R[i][2] * v(BV + 2), "the base moves with the rotated body velocity");
    for (int i = 0; i < 4; ++i) vp_eq_(o.val(Q + i), v(BQ + i), "the quaternion rate is the control"); for (int i = 0; i < S.dofs; ++i) vp_eq_(o.val(J + i), v(JV + i), "the joints rates are the controls");
    for (auto& l : s.listOfLabels()) if (l.find("Unrelated") == 0) { auto r = s.getIndexRange(l); for (long i = 0; i < r.size; ++i) vp_eq_(o.val(r.offset + i), 0.0, "variables without dynamics are constant"); } }
//@ spec D01 spec_D01_dynamics0
extern "C" void spec_D01_dynamics0() { run_D01_dynamics(0); }
//@ spec D01 spec_D01_gravity
extern "C" void spec_D01_gravity() { run_D01_dynamics(0, true); }
//@ spec D01 spec_D01_dynamics1
extern "C" void spec_D01_dynamics1() { run_D01_dynamics(1); }
//@ spec D01 spec_D01_dynamics2
extern "C" void spec_D01_dynamics2() { run_D01_dynamics(2); }
static void run_D02_dynamicsFirst(int K) { Dyn S(K); auto c = S.mk(); At a; fillAt(a, S.L.ns, S.L.ns, S.L.nc); S.nonzeroQuat(a); firstDerivatives<DynamicalSystem>(*c, S.L.ns, S.L.nc, a); }
//@ spec D02 spec_D02_dynamicsFirst0
extern "C" void spec_D02_dynamicsFirst0() { run_D02_dynamicsFirst(0); }
//@ spec D02 spec_D02_dynamicsFirst1
extern "C" void spec_D02_dynamicsFirst1() { run_D02_dynamicsFirst(1); }
//@ spec D02 spec_D02_dynamicsFirst2
extern "C" void spec_D02_dynamicsFirst2() { run_D02_dynamicsFirst(2); }
static void run_D02_dynamicsSecond(int K) { Dyn S(K); auto c = S.mk(); At a; fillAt(a, S.L.ns, S.L.ns, S.L.nc); S.nonzeroQuat(a); secondDerivatives<DynamicalSystem>(*c, S.L.ns, S.L.nc, a); }
//@ spec D02 spec_D02_dynamicsSecond0
extern "C" void spec_D02_dynamicsSecond0() { run_D02_dynamicsSecond(0); }
//@ spec D02 spec_D02_dynamicsSecond1
extern "C" void spec_D02_dynamicsSecond1() { run_D02_dynamicsSecond(1); }
//@ spec D02 spec_D02_dynamicsSecond2
extern "C" void spec_D02_dynamicsSecond2() { run_D02_dynamicsSecond(2); }
static void run_D03_dynamics(int K) { Dyn S(K); auto c = S.mk(); At a; fillAt(a, S.L.ns, S.L.ns, S.L.nc); S.nonzeroQuat(a); sparsityCovers<DynamicalSystem>(*c, S.L.ns, S.L.nc, a); }
//@ spec D03 spec_D03_dynamics0
extern "C" void spec_D03_dynamics0() { run_D03_dynamics(0); }
//@ spec D03 spec_D03_dynamics1
extern "C" void spec_D03_dynamics1() { run_D03_dynamics(1); }
//@ spec D03 spec_D03_dynamics2
extern "C" void spec_D03_dynamics2() { run_D03_dynamics(2); }
static void run_R01_dynamics(int K) { Dyn S(K, 0.0); At A, B; fillAt(A, S.L.ns, S.L.ns, S.L.nc); fillAt(B, S.L.ns, S.L.ns, S.L.nc); S.nonzeroQuat(A); S.nonzeroQuat(B); bool first = true;
    historyIndependent([&]() { if (first) { first = false; return std::unique_ptr<DynamicalSystem>(S.mk()); } return std::unique_ptr<DynamicalSystem>(S.mkFresh(0.0)); }, S.L.ns, S.L.nc, A, B); }
//@ spec R01 spec_R01_dynamics0 timeout=420
extern "C" void spec_R01_dynamics0() { run_R01_dynamics(0); }
//@ spec R01 spec_R01_dynamics1 timeout=420
extern "C" void spec_R01_dynamics1() { run_R01_dynamics(1); }
//@ spec R01 spec_R01_dynamics2 timeout=420
extern "C" void spec_R01_dynamics2() { run_R01_dynamics(2); }
