// Cached kinematics (E01): whatever was asked, set or loaded before, every query answers for
// the state asked about, exactly as a fresh kinematics library object would.
//@ modules src/private/SharedKinDynComputations.cpp src/private/TimelySharedKinDynComputations.cpp src/private/QuaternionUtils.cpp src/private/VariablesLabeller.cpp
//@ stubs idyn_core idyn_spatial idyn_model libstdcxx
#include "robot.h"
#include <iDynTree/Model/ForwardKinematics.h>
#include <iDynTree/Model/Dynamics.h>
using namespace DynamicalPlanner::Private; using iDynTree::FrameVelocityRepresentation; using iDynTree::Transform; using iDynTree::Twist; using iDynTree::Position; using iDynTree::Model;
typedef SharedKinDynComputations SKD; typedef iDynTree::KinDynComputations KD;
struct Ask { RobotState r; std::vector<long> sid; double n2; };
static void ask(Ask& a, int dofs) { a.n2 = 0; for (unsigned i = 0; i < 3; ++i) { a.r.base_position(i) = vp_real("base position"); a.r.base_linearVelocity(i) = vp_real("base velocity"); }
    for (unsigned i = 0; i < 4; ++i) { double q = vp_real("base quaternion"); a.r.base_quaternion(i) = q; a.n2 += q * q; a.r.base_quaternionVelocity(i) = vp_real("quaternion rate"); } vp_assume_(a.n2 > 0);
    a.r.s.resize((unsigned)dofs); a.r.s_dot.resize((unsigned)dofs); a.sid.clear(); for (int i = 0; i < dofs; ++i) { In s = vp_in("joint"); a.r.s((unsigned)i) = s.v; a.sid.push_back(s.id); a.r.s_dot((unsigned)i) = vp_real("joint rate"); } }
static iDynTree::Vector3 grav(double z = -9.81) { iDynTree::Vector3 g; g.zero(); g(2) = z; return g; }
// the kinematics library configured from scratch for a state
static void library(KD& kd, const Model& m, const std::string& base, const iDynTree::Vector3& g, const RobotState& r) { bool ok = kd.loadRobotModel(m); if (base.size()) ok = kd.setFloatingBase(base) && ok;
    double w = r.base_quaternion(0), p = r.base_quaternion(1), q = r.base_quaternion(2), t = r.base_quaternion(3), n = w * w + p * p + q * q + t * t, d[4]; for (unsigned i = 0; i < 4; ++i) d[i] = r.base_quaternionVelocity(i); double s = std::sqrt(n);
    Transform T(iDynTree::Rotation((w * w + p * p - q * q - t * t) / n, 2 * (p * q - w * t) / n, 2 * (p * t + w * q) / n, 2 * (p * q + w * t) / n, (w * w - p * p + q * q - t * t) / n, 2 * (q * t - w * p) / n, 2 * (p * t - w * q) / n, 2 * (q * t + w * p) / n, (w * w - p * p - q * q + t * t) / n), Position(r.base_position(0), r.base_position(1), r.base_position(2)));
    // body angular velocity: twice the vector part of conj(q)/|q| times the quaternion rate
    iDynTree::GeomVector3 om(2 * (w * d[1] - p * d[0] - q * d[3] + t * d[2]) / s, 2 * (w * d[2] + p * d[3] - q * d[0] - t * d[1]) / s, 2 * (w * d[3] - p * d[2] + q * d[1] - t * d[0]) / s), lv(r.base_linearVelocity(0), r.base_linearVelocity(1), r.base_linearVelocity(2));
    kd.setFrameVelocityRepresentation(iDynTree::BODY_FIXED_REPRESENTATION); ok = kd.setRobotState(T, r.s, Twist(lv, om), r.s_dot, g) && ok; vp_assert_(ok, "library accepts the state"); }
template<class A, class B> static void vecEq(const A& a, const B& b, unsigned n, const char* l) { for (unsigned i = 0; i < n; ++i) vp_eq_(a(i), b(i), l); }
static void matEq(const MatrixDynSize& a, const MatrixDynSize& b, const char* l) { vp_assert_((a.rows() == b.rows()) & (a.cols() == b.cols()), "shape of a Jacobian"); for (unsigned i = 0; i < b.rows(); ++i) for (unsigned j = 0; j < b.cols(); ++j) vp_eq_(a(i, j), b(i, j), l); }
static void trEq(const Transform& a, const Transform& b, const char* l) { for (unsigned i = 0; i < 3; ++i) { vp_eq_(a.getPosition()(i), b.getPosition()(i), l); for (unsigned j = 0; j < 3; ++j) vp_eq_(a.getRotation()(i, j), b.getRotation()(i, j), l); } }
static const FrameVelocityRepresentation REP[3] = {iDynTree::INERTIAL_FIXED_REPRESENTATION, iDynTree::BODY_FIXED_REPRESENTATION, iDynTree::MIXED_REPRESENTATION};
static void poses(SKD& k, KD& kd, const RobotState& r) { const Model& m = kd.model(); vecEq(k.getCenterOfMassPosition(r), kd.getCenterOfMassPosition(), 3, "centre of mass"); trEq(k.getBaseTransform(r), kd.getWorldTransform(kd.getFloatingBase()), "base pose");
    for (const char* f : {"l_foot", "r_foot", "base"}) { trEq(k.getWorldTransform(r, f), kd.getWorldTransform(f), "frame pose"); trEq(k.getWorldTransform(r, m.getFrameIndex(f)), kd.getWorldTransform(f), "frame pose"); }
    trEq(k.getRelativeTransform(r, "l_foot", "r_foot"), kd.getRelativeTransform("l_foot", "r_foot"), "relative pose"); trEq(k.getRelativeTransform(r, m.getFrameIndex("r_foot"), m.getFrameIndex("l_foot")), kd.getRelativeTransform("r_foot", "l_foot"), "relative pose"); }
static void velocities(SKD& k, KD& kd, const RobotState& r) { const Model& m = kd.model(); unsigned n = (unsigned)m.getNrOfDOFs(); MatrixDynSize a, b; auto sized = [&](unsigned x, unsigned y) { a.resize(x, y); b.resize(x, y); a.zero(); b.zero(); }; const FrameVelocityRepresentation* R = REP;
    for (int c = 0; c < 3; ++c) { bool ok; 
        vecEq(k.getFrameVel(r, "l_foot", R[c]), (kd.setFrameVelocityRepresentation(R[c]), kd.getFrameVel("l_foot")), 6, "frame velocity"); vecEq(k.getFrameVel(r, m.getFrameIndex("r_foot"), R[c]), kd.getFrameVel("r_foot"), 6, "frame velocity"); vecEq(k.getLinearAngularMomentum(r, R[c]), kd.getLinearAngularMomentum(), 6, "momentum");
        sized(3, 6 + n); ok = k.getCenterOfMassJacobian(r, a, R[c]); vp_assert_(ok, "query succeeds"); kd.getCenterOfMassJacobian(b); matEq(a, b, "centre of mass Jacobian"); sized(6, 6 + n); ok = k.getFrameFreeFloatingJacobian(r, "l_foot", a, R[c]); vp_assert_(ok, "query succeeds"); kd.getFrameFreeFloatingJacobian("l_foot", b); matEq(a, b, "frame Jacobian");
        ok = k.getFrameFreeFloatingJacobian(r, m.getFrameIndex("r_foot"), a, R[c]); vp_assert_(ok, "query succeeds"); kd.getFrameFreeFloatingJacobian("r_foot", b); matEq(a, b, "frame Jacobian"); sized(6, n); ok = k.getRelativeJacobian(r, m.getFrameIndex("r_foot"), m.getFrameIndex("l_foot"), a, R[c]); vp_assert_(ok, "query succeeds"); kd.getRelativeJacobian(m.getFrameIndex("r_foot"), m.getFrameIndex("l_foot"), b); matEq(a, b, "relative Jacobian");
        sized(6, 6 + n); ok = k.getLinearAngularMomentumJacobian(r, a, R[c]); vp_assert_(ok, "query succeeds"); kd.getLinearAngularMomentumJacobian(b); matEq(a, b, "momentum Jacobian"); } }
// generalised static forces: gravity and the contact wrenches, at rest
static void statics(SKD& k, const Model& m, const std::string& base, const iDynTree::Vector3& g, const RobotState& r, iDynTree::FreeFloatingGeneralizedTorques& o, const iDynTree::LinkNetExternalWrenches& w) { KD kd; library(kd, m, base, g, r); iDynTree::Traversal t; m.computeFullTreeTraversal(t, m.getLinkIndex(kd.getFloatingBase()));
    iDynTree::FreeFloatingPos p; p.resize(m); p.worldBasePos() = kd.getWorldTransform(kd.getFloatingBase()); for (unsigned i = 0; i < r.s.size(); ++i) p.jointPos()(i) = r.s(i); iDynTree::FreeFloatingVel v; v.resize(m); v.baseVel().zero(); v.jointVel().zero(); iDynTree::LinkVelArray lv(m); for (size_t i = 0; i < m.getNrOfLinks(); ++i) lv((int)i).zero();
    iDynTree::FreeFloatingAcc a; a.resize(m); a.baseAcc().zero(); a.jointAcc().zero(); iDynTree::Rotation R = p.worldBasePos().getRotation(); for (unsigned i = 0; i < 3; ++i) { double s = 0; for (unsigned j = 0; j < 3; ++j) s -= R(j, i) * g(j); a.baseAcc()(i) = s; }
    iDynTree::LinkProperAccArray la(m); iDynTree::LinkInternalWrenches f(m); o.resize(m); iDynTree::ForwardAccKinematics(m, t, p, v, a, lv, la); iDynTree::RNEADynamicPhase(m, t, p.jointPos(), lv, la, w, f, o); }
static void wrenches(const Model& m, iDynTree::LinkNetExternalWrenches& w) { w.resize(m); for (size_t l = 0; l < m.getNrOfLinks(); ++l) w((int)l) = iDynTree::Wrench(iDynTree::Force(vp_real("wrench"), vp_real("wrench"), vp_real("wrench")), iDynTree::Torque(vp_real("wrench"), vp_real("wrench"), vp_real("wrench"))); }
static void staticsEq(SKD& k, const Model& m, const std::string& base, const iDynTree::Vector3& g, const RobotState& r) { iDynTree::LinkNetExternalWrenches w; wrenches(m, w); iDynTree::FreeFloatingGeneralizedTorques a(m), b(m); bool ok = k.getStaticForces(r, w, a); vp_assert_(ok, "query succeeds"); statics(k, m, base, g, r, b, w); vecEq(a.baseWrench(), b.baseWrench(), 6, "static base wrench"); vecEq(a.jointTorques(), b.jointTorques(), r.s.size(), "static joint torques"); }
static void all(SKD& k, const Model& m, const std::string& base, const iDynTree::Vector3& g, const RobotState& r) { KD kd; library(kd, m, base, g, r); poses(k, kd, r); velocities(k, kd, r); staticsEq(k, m, base, g, r); poses(k, kd, r); }
struct Rig { Robot r; SKD k; int dofs; Rig(int d, bool chain = true, double tol = 0, bool sym = true) : dofs(d) { r.build(d, sym, chain); bool ok = k.loadRobotModel(r.m); vp_assert_(ok, "robot loaded"); if (tol >= 0) { ok = k.setToleranceForUpdate(tol); vp_assert_(ok, "tolerance accepted"); } } };
//@ spec E01 spec_E01_fresh
extern "C" void spec_E01_fresh() { long c = vp_choose_("robot", 0, 3); Rig g(c == 3 ? 2 : (int)c, c != 3); Ask a; ask(a, g.dofs); all(g.k, g.r.m, "", grav(), a.r); }
//@ spec E01 spec_E01_history
extern "C" void spec_E01_history() { Rig g((int)vp_choose_("joints", 1, 2), true, 0); Ask a, b; ask(a, g.dofs); ask(b, g.dofs); KD ka, kb; library(ka, g.r.m, "", grav(), a.r); library(kb, g.r.m, "", grav(), b.r);
    poses(g.k, ka, a.r); velocities(g.k, kb, b.r); poses(g.k, ka, a.r); velocities(g.k, ka, a.r); poses(g.k, kb, b.r); staticsEq(g.k, g.r.m, "", grav(), a.r); poses(g.k, kb, b.r); }
// with a tolerance the answer is exact for a state within the tolerance of the one asked
static void near(SKD& k, const Model& m, const RobotState& r, double tol, bool exact) { Transform b = k.getBaseTransform(r); unsigned n = 6 + (unsigned)m.getNrOfDOFs(); MatrixDynSize J(6, n), K(6, n); bool ok = k.getFrameFreeFloatingJacobian(r, "l_foot", J); vp_assert_(ok, "query succeeds"); const RobotState& c = k.currentState(); bool in = (c.s.size() == r.s.size()) & (c.s_dot.size() == r.s_dot.size()); vp_assert_(in, "state sizes");
    auto close = [&](double x, double y) { if (exact) vp_eq_(x, y, "state answered for"); else vp_assert_((x - y < tol + 1e-9) & (y - x < tol + 1e-9), "state answered for within the tolerance"); };
    for (unsigned i = 0; i < 3; ++i) { close(c.base_position(i), r.base_position(i)); close(c.base_linearVelocity(i), r.base_linearVelocity(i)); } for (unsigned i = 0; i < 4; ++i) { close(c.base_quaternion(i), r.base_quaternion(i)); close(c.base_quaternionVelocity(i), r.base_quaternionVelocity(i)); } for (unsigned i = 0; i < r.s.size(); ++i) { close(c.s(i), r.s(i)); close(c.s_dot(i), r.s_dot(i)); }
    KD kd; library(kd, m, "", grav(), c); trEq(b, kd.getWorldTransform(kd.getFloatingBase()), "base pose"); kd.setFrameVelocityRepresentation(iDynTree::MIXED_REPRESENTATION); kd.getFrameFreeFloatingJacobian("l_foot", K); matEq(J, K, "frame Jacobian"); vecEq(k.getFrameVel(r, "l_foot"), kd.getFrameVel("l_foot"), 6, "frame velocity"); vp_assert_(k.sameState(r) || exact, "state is known to be the current one"); }
//@ spec E01 spec_E01_tolerance
extern "C" void spec_E01_tolerance() { double t1 = vp_pos("tolerance"), t2 = vp_pos("tolerance"); Rig g(1, true, t1); Ask a, b; ask(a, 1); ask(b, 1); near(g.k, g.r.m, a.r, t1, false); g.k.setToleranceForUpdate(t2); vp_eq_(g.k.getUpdateTolerance(), t2, "tolerance kept"); near(g.k, g.r.m, b.r, t2, false); bool ok = g.k.setToleranceForUpdate(-t1); vp_assert_(!ok, "negative tolerance refused"); vp_eq_(g.k.getUpdateTolerance(), t2, "tolerance kept when refused"); }
//@ spec E01 spec_E01_sameState
extern "C" void spec_E01_sameState() { double t = vp_pos("tolerance"); Rig g(1, true, t, false); Ask a, b; ask(a, 1); ask(b, 1); vp_assert_(!g.k.sameState(a.r), "no state is current before the first update"); g.k.updateRobotState(a.r); bool s = g.k.sameState(b.r); bool in = true; auto c = [&](double x, double y) { in = in & (std::abs(x - y) < t); };
    for (unsigned i = 0; i < 3; ++i) { c(b.r.base_position(i), a.r.base_position(i)); c(b.r.base_linearVelocity(i), a.r.base_linearVelocity(i)); } for (unsigned i = 0; i < 4; ++i) { c(b.r.base_quaternion(i), a.r.base_quaternion(i)); c(b.r.base_quaternionVelocity(i), a.r.base_quaternionVelocity(i)); } c(b.r.s(0), a.r.s(0)); c(b.r.s_dot(0), a.r.s_dot(0)); vp_assert_(s == in, "two states are the same exactly when every component is within the tolerance"); }
//@ spec E01 spec_E01_model
extern "C" void spec_E01_model() { int d1 = (int)vp_choose_("joints before", 1, 2), d2 = (int)vp_choose_("joints after", 0, 2); double tol = vp_choose_("default tolerance", 0, 1) ? -1 : 0.5; Rig g(d1, true, tol); Ask a, b; ask(a, d1); g.k.updateRobotState(a.r); Robot n; n.build(d2, true, false); bool ok = g.k.loadRobotModel(n.m); vp_assert_(ok, "robot loaded");
    vp_assert_(g.k.model().getNrOfDOFs() == (size_t)d2, "model of the new robot"); b = a; b.r.s.resize((unsigned)d2); b.r.s_dot.resize((unsigned)d2); for (int i = 0; i < d2; ++i) { b.r.s((unsigned)i) = 0; b.r.s_dot((unsigned)i) = 0; } KD kd; library(kd, n.m, "", grav(), b.r); poses(g.k, kd, b.r); staticsEq(g.k, n.m, "", grav(), b.r); }
//@ spec E01 spec_E01_gravity
extern "C" void spec_E01_gravity() { Rig g(2, true, 0); Ask a, b; ask(a, 2); ask(b, 2); staticsEq(g.k, g.r.m, "", grav(), a.r); iDynTree::Vector3 h; for (unsigned i = 0; i < 3; ++i) h(i) = vp_real("gravity", -10, 10); g.k.setGravity(h); vecEq(g.k.gravity(), h, 3, "gravity kept"); staticsEq(g.k, g.r.m, "", h, a.r); staticsEq(g.k, g.r.m, "", h, b.r); }
//@ spec E01 spec_E01_floatingBase
extern "C" void spec_E01_floatingBase() { Rig g(2, vp_choose_("chain", 0, 1) == 1, -1); Ask a; ask(a, 2); KD kd; library(kd, g.r.m, "", grav(), a.r); poses(g.k, kd, a.r); bool ok = g.k.setFloatingBase("link1"); vp_assert_(ok, "floating base accepted"); vp_assert_(g.k.getFloatingBase() == "link1", "floating base kept"); KD kb; library(kb, g.r.m, "link1", grav(), a.r); poses(g.k, kb, a.r); velocities(g.k, kb, a.r); staticsEq(g.k, g.r.m, "link1", grav(), a.r); ok = g.k.setFloatingBase("nowhere"); vp_assert_(!ok, "unknown floating base refused"); vp_assert_(g.k.getFloatingBase() == "link1", "floating base kept when refused"); poses(g.k, kb, a.r); }
//@ spec E01 spec_E01_refused
extern "C" void spec_E01_refused() { Rig g(2, true, vp_choose_("default tolerance", 0, 1) ? -1 : 0.5); Ask a, b; ask(a, 2); ask(b, 1); KD kd; library(kd, g.r.m, "", grav(), a.r); g.k.updateRobotState(a.r); MatrixDynSize J; bool ok = g.k.updateRobotState(b.r); vp_assert_(!ok, "state of another robot refused"); ok = g.k.getCenterOfMassJacobian(b.r, J); vp_assert_(!ok, "query for a state of another robot refused"); poses(g.k, kd, a.r); velocities(g.k, kd, a.r); }
//@ spec E01 spec_E01_copy
extern "C" void spec_E01_copy() { Rig g(2, true, 0); Ask a, b; ask(a, 2); ask(b, 2); double t = vp_pos("tolerance"); iDynTree::Vector3 h; for (unsigned i = 0; i < 3; ++i) h(i) = vp_real("gravity", -10, 10); g.k.setFloatingBase("link0"); g.k.setGravity(h); g.k.setToleranceForUpdate(t); g.k.updateRobotState(a.r); SKD c(g.k); vp_assert_(c.isValid(), "copy is usable"); vp_eq_(c.getUpdateTolerance(), t, "copy keeps the tolerance"); vecEq(c.gravity(), h, 3, "copy keeps the gravity"); vp_assert_(c.getFloatingBase() == "link0", "copy keeps the floating base"); vp_assert_(!c.sameState(a.r), "copy does not claim a state it has not been given"); KD kd; library(kd, g.r.m, "link0", h, b.r); poses(c, kd, b.r); staticsEq(c, g.r.m, "link0", h, b.r); velocities(g.k, (library(kd, g.r.m, "link0", h, a.r), kd), a.r); }
// derivatives with respect to the joints
static void derivatives(int d, bool chain, const char* base) { Rig g(d, chain, 0); if (*base) g.k.setFloatingBase(base); Ask a, b; ask(b, d); ask(a, d); if (d) { MatrixDynSize J; g.k.getFrameVelJointsDerivative(b.r, g.r.m.getFrameIndex("l_foot"), J); }
    KD kd; library(kd, g.r.m, base, grav(), a.r); MatrixDynSize D; bool ok; for (const char* f : {"l_foot", "r_foot", "base"}) { Twist v = kd.getFrameVel(f); ok = g.k.getFrameVelJointsDerivative(a.r, g.r.m.getFrameIndex(f), D); vp_assert_(ok, "query succeeds"); vp_assert_((D.rows() == 6) & ((int)D.cols() == d), "shape of a derivative"); for (unsigned i = 0; i < 6; ++i) for (int j = 0; j < d; ++j) vp_eq_(D(i, j), vp_diff_(v(i), a.sid[(size_t)j]), "derivative of the frame velocity with respect to the joints"); }
    iDynTree::SpatialMomentum h = kd.getLinearAngularMomentum(); ok = g.k.getLinearAngularMomentumJointsDerivative(a.r, D); vp_assert_(ok, "query succeeds"); vp_assert_((D.rows() == 6) & ((int)D.cols() == d), "shape of a derivative"); for (unsigned i = 0; i < 6; ++i) for (int j = 0; j < d; ++j) vp_eq_(D(i, j), vp_diff_(h(i), a.sid[(size_t)j]), "derivative of the momentum with respect to the joints"); }
static void staticDerivatives(int d, bool chain, const char* base) { Rig g(d, chain, 0); if (*base) g.k.setFloatingBase(base); Ask a, b; ask(b, d); ask(a, d); iDynTree::LinkNetExternalWrenches w; wrenches(g.r.m, w); MatrixDynSize D; g.k.getStaticForcesJointsDerivative(b.r, w, D);
    iDynTree::FreeFloatingGeneralizedTorques t(g.r.m); statics(g.k, g.r.m, base, grav(), a.r, t, w); bool ok = g.k.getStaticForcesJointsDerivative(a.r, w, D); vp_assert_(ok, "query succeeds"); vp_assert_(((int)D.rows() == d) & ((int)D.cols() == d), "shape of a derivative"); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) vp_eq_(D(i, j), vp_diff_(t.jointTorques()(i), a.sid[(size_t)j]), "derivative of the static torques with respect to the joints"); }
//@ spec E01 spec_E01_derivatives
extern "C" void spec_E01_derivatives() { long c = vp_choose_("robot", 0, 5); if (c < 4) derivatives(c == 3 ? 2 : (int)c, c != 3, ""); else derivatives(2, c == 4, "link0"); }
//@ spec E01 spec_E01_derivatives3 
extern "C" void spec_E01_derivatives3() { derivatives(3, vp_choose_("chain", 0, 1) == 1, ""); }
//@ spec E01 spec_E01_staticDerivatives
extern "C" void spec_E01_staticDerivatives() { long c = vp_choose_("robot", 1, 5); if (c < 4) staticDerivatives(c == 3 ? 2 : (int)c, c != 3, ""); else staticDerivatives(2, c == 4, "link0"); }
//@ spec E01 spec_E01_staticDerivatives3
extern "C" void spec_E01_staticDerivatives3() { staticDerivatives(3, vp_choose_("chain", 0, 1) == 1, ""); }
// ---- one object per instant of the grid
typedef TimelySharedKinDynComputations TSK;
static void instants(std::vector<double>& t, int n) { t.clear(); double x = vp_real("first instant", 0, 1); for (int i = 0; i < n; ++i) { t.push_back(x); double dt = vp_pos("step", 1); vp_assume_(dt > 1e-8); x = x + dt; } }
static void grid(TSK& k, const std::vector<double>& t) { std::vector<SharedKinDynComputationsPointer> p; for (double x : t) p.push_back(k.get(x)); for (size_t i = 0; i < p.size(); ++i) { vp_assert_(p[i] && p[i]->isValid(), "each instant has a computation object"); for (size_t j = 0; j < i; ++j) vp_assert_(p[i] != p[j], "different instants have different objects"); }
    long m = vp_choose_("asked again", 0, (long)t.size() - 1); vp_assert_(k.get(t[(size_t)m]) == p[(size_t)m], "the same instant has the same object");
    double x = vp_real("any time", -1, 6); SharedKinDynComputationsPointer o = k.get(x); bool found = false; for (size_t i = 0; i < t.size(); ++i) if (o == p[i]) { found = true; for (size_t j = 0; j < t.size(); ++j) vp_assert_(std::abs(x - t[i]) <= std::abs(x - t[j]) + 1e-9, "a time between instants gets the object of the closest one"); } vp_assert_(found, "every time gets the object of an instant of the grid"); vp_assert_(k.get(t[(size_t)m]) == p[(size_t)m], "the same instant has the same object"); }
static void tsk(TSK& k, Robot& r) { r.build(1, false); bool ok = k.loadRobotModel(r.m); vp_assert_(ok, "robot loaded"); }
//@ spec E01 spec_E01_grid
extern "C" void spec_E01_grid() { TSK k; Robot r; tsk(k, r); std::vector<double> t; instants(t, (int)vp_choose_("instants", 1, 5)); bool ok = k.setTimings(t); vp_assert_(ok, "timings accepted"); grid(k, t); }
//@ spec E01 spec_E01_regrid
extern "C" void spec_E01_regrid() { TSK k; Robot r; tsk(k, r); std::vector<double> t, u; instants(t, (int)vp_choose_("instants before", 1, 4)); instants(u, (int)vp_choose_("instants after", 1, 3)); bool ok = k.setTimings(t); vp_assert_(ok, "timings accepted"); k.get(t.back()); k.get(t[t.size() / 2]); ok = k.setTimings(u); vp_assert_(ok, "timings accepted"); grid(k, u); }
//@ spec E01 spec_E01_timed
extern "C" void spec_E01_timed() { TSK k; std::vector<double> t; instants(t, 2); bool ok = k.setTimings(t); vp_assert_(!ok, "timings refused before a robot is loaded"); Robot r; tsk(k, r); vp_assert_(k.isValid(), "usable once a robot is loaded"); double tol = vp_pos("tolerance"); ok = k.setToleranceForUpdate(tol); vp_assert_(ok, "tolerance accepted"); vp_eq_(k.getUpdateTolerance(), tol, "tolerance kept"); ok = k.setToleranceForUpdate(-tol); vp_assert_(!ok, "negative tolerance refused"); iDynTree::Vector3 h; for (unsigned i = 0; i < 3; ++i) h(i) = vp_real("gravity", -10, 10); k.setGravity(h); vecEq(k.gravity(), h, 3, "gravity kept"); ok = k.setFloatingBase("link0"); vp_assert_(ok & (k.getFloatingBase() == "link0"), "floating base kept");
    SharedKinDynComputationsPointer f = k.get(t[0]); vp_assert_(f && f == k.get(t[1]) && f->isValid(), "one shared object until the timings are set"); ok = k.setTimings(t); vp_assert_(ok, "timings accepted"); Ask a; ask(a, 1); for (double x : t) { SharedKinDynComputationsPointer p = k.get(x); vp_eq_(p->getUpdateTolerance(), tol, "tolerance of the instants"); vecEq(p->gravity(), h, 3, "gravity of the instants"); vp_assert_(p->getFloatingBase() == "link0", "floating base of the instants"); p->setToleranceForUpdate(0); KD kd; library(kd, r.m, "link0", h, a.r); poses(*p, kd, a.r); staticsEq(*p, r.m, "link0", h, a.r); } }
