// State and control containers (S01).
//@ modules src/State.cpp src/Control.cpp
//@ stubs idyn_core idyn_spatial libstdcxx
#include "common.h"
#include <iDynTree/Core/EigenHelpers.h>
#include <DynamicalPlanner/State.h>
#include <DynamicalPlanner/Control.h>
using DynamicalPlanner::State; using DynamicalPlanner::Control;
static double r(const char* n) { return vp_real(n); }
static void dirty(State& s) { for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& p : *f) for (unsigned k = 0; k < 3; ++k) { p.pointForce(k) = r("force"); p.pointPosition(k) = r("position"); }
    for (unsigned k = 0; k < 6; ++k) s.momentumInCoM(k) = r("momentum"); for (unsigned k = 0; k < 3; ++k) s.comPosition(k) = r("com"); iDynTree::Position p(r("base"), r("base"), r("base")); iDynTree::Rotation R(r("R"), r("R"), r("R"), r("R"), r("R"), r("R"), r("R"), r("R"), r("R")); s.worldToBaseTransform = iDynTree::Transform(R, p);
    for (unsigned k = 0; k < s.jointsConfiguration.size(); ++k) s.jointsConfiguration(k) = r("joint"); s.time = r("time"); }
static void dirty(Control& s) { for (auto* f : {&s.leftContactPointsControl, &s.rightContactPointsControl}) for (auto& p : *f) for (unsigned k = 0; k < 3; ++k) { p.pointForceControl(k) = r("force"); p.pointVelocityControl(k) = r("velocity"); }
    for (unsigned k = 0; k < 3; ++k) s.baseLinearVelocity(k) = r("base"); for (unsigned k = 0; k < 4; ++k) s.baseQuaternionDerivative(k) = r("quaternion"); for (unsigned k = 0; k < s.jointsVelocity.size(); ++k) s.jointsVelocity(k) = r("joint"); s.time = r("time"); }
static void isZero(const State& s) { const char* l = "a zeroed state is zero everywhere"; for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& p : *f) for (unsigned k = 0; k < 3; ++k) { vp_eq_(p.pointForce(k), 0, l); vp_eq_(p.pointPosition(k), 0, l); }
    for (unsigned k = 0; k < 6; ++k) vp_eq_(s.momentumInCoM(k), 0, l); for (unsigned k = 0; k < 3; ++k) { vp_eq_(s.comPosition(k), 0, l); vp_eq_(s.worldToBaseTransform.getPosition()(k), 0, l); for (unsigned j = 0; j < 3; ++j) vp_eq_(s.worldToBaseTransform.getRotation()(k, j), k == j, l); }
    for (unsigned k = 0; k < s.jointsConfiguration.size(); ++k) vp_eq_(s.jointsConfiguration(k), 0, l); vp_eq_(s.time, 0, l); }
static void isZero(const Control& s) { const char* l = "a zeroed control is zero everywhere"; for (auto* f : {&s.leftContactPointsControl, &s.rightContactPointsControl}) for (auto& p : *f) for (unsigned k = 0; k < 3; ++k) { vp_eq_(p.pointForceControl(k), 0, l); vp_eq_(p.pointVelocityControl(k), 0, l); }
    for (unsigned k = 0; k < 3; ++k) vp_eq_(s.baseLinearVelocity(k), 0, l); for (unsigned k = 0; k < 4; ++k) vp_eq_(s.baseQuaternionDerivative(k), 0, l); for (unsigned k = 0; k < s.jointsVelocity.size(); ++k) vp_eq_(s.jointsVelocity(k), 0, l); vp_eq_(s.time, 0, l); }
static void shape(const State& s, size_t d, size_t n) { vp_assert_(s.leftContactPointsState.size() == n && s.rightContactPointsState.size() == n && s.jointsConfiguration.size() == d, "exactly the requested joints and points"); }
static void shape(const Control& s, size_t d, size_t n) { vp_assert_(s.leftContactPointsControl.size() == n && s.rightContactPointsControl.size() == n && s.jointsVelocity.size() == d, "exactly the requested joints and points"); }
static size_t pts(State& s, int f) { return f ? s.rightContactPointsState.size() : s.leftContactPointsState.size(); }
static void setPts(State& s, int f, size_t n) { (f ? s.rightContactPointsState : s.leftContactPointsState).resize(n); }
static void setPts(Control& s, int f, size_t n) { (f ? s.rightContactPointsControl : s.leftContactPointsControl).resize(n); }
template <class T> void lifecycle() {
    size_t d = (size_t)vp_choose_("dofs", 0, 2), n = (size_t)vp_choose_("points", 0, 3), d2 = (size_t)vp_choose_("dofs2", 0, 2), n2 = (size_t)vp_choose_("points2", 0, 3);
    T s(d, n); shape(s, d, n); isZero(s); vp_assert_(s.checkSize(d, n), "shape check accepts the shape it was built with");
    dirty(s); T before(s); s.resize(d2, n2); shape(s, d2, n2); vp_assert_(s.checkSize(d2, n2), "shape check accepts the new shape"); vp_assert_(s.sameSize(before) == (d == d2 && n == n2) && before.sameSize(s) == (d == d2 && n == n2), "same size exactly when all sizes agree");
    dirty(s); s.zero(); shape(s, d2, n2); isZero(s);
    T e; e.resize(d, n); dirty(e); shape(e, d, n); e.zero(); isZero(e); }
//@ spec S01 spec_S01_state
extern "C" void spec_S01_state() { lifecycle<State>(); }
//@ spec S01 spec_S01_control
extern "C" void spec_S01_control() { lifecycle<Control>(); }
template <class T> void shapes() { size_t q[6]; const char* nm[6] = {"left", "right", "joints", "left2", "right2", "joints2"}; for (int i = 0; i < 6; ++i) q[i] = (size_t)vp_choose_(nm[i], 1, 2); T a(q[2], 1), b(q[5], 1); for (int f = 0; f < 2; ++f) { setPts(a, f, q[f]); setPts(b, f, q[3 + f]); }
    vp_assert_(a.sameSize(b) == (q[0] == q[3] && q[1] == q[4] && q[2] == q[5]), "same size exactly when left points, right points and joints agree");
    vp_assert_(a.checkSize(q[5], q[3]) == (q[2] == q[5] && q[0] == q[3] && q[1] == q[3]), "shape check accepts exactly the matching shape"); }
//@ spec S01 spec_S01_stateshapes
extern "C" void spec_S01_stateshapes() { shapes<State>(); }
//@ spec S01 spec_S01_controlshapes
extern "C" void spec_S01_controlshapes() { shapes<Control>(); }
//@ spec S01 spec_S01_centroid
extern "C" void spec_S01_centroid() { size_t nl = (size_t)vp_choose_("left", 0, 3), nr = (size_t)vp_choose_("right", 0, 3); State s(1, 1); setPts(s, 0, nl); setPts(s, 1, nr); dirty(s); const State c(s); iDynTree::Position m = c.computeFeetCentroid();
    for (unsigned k = 0; k < 3; ++k) { double e = 0; for (int f = 0; f < 2; ++f) for (auto& p : (f ? s.rightContactPointsState : s.leftContactPointsState)) e += p.pointPosition(k); vp_eq_(m(k), nl + nr ? e / (nl + nr) : 0.0, "the feet centroid is the mean of all contact points"); } }
//@ spec S01 spec_S01_forward
extern "C" void spec_S01_forward() { size_t nl = (size_t)vp_choose_("left", 1, 3), nr = (size_t)vp_choose_("right", 1, 3); State s(1, 1); setPts(s, 0, nl); setPts(s, 1, nr); dirty(s); iDynTree::Vector3 d; for (unsigned k = 0; k < 3; ++k) d(k) = r("direction");
    double a[2] = {0, 0}; for (int f = 0; f < 2; ++f) for (auto& p : (f ? s.rightContactPointsState : s.leftContactPointsState)) for (unsigned k = 0; k < 3; ++k) a[f] += p.pointPosition(k) * d(k) / pts(s, f);
    bool left = s.leftIsForward(d); vp_assert_(left == (a[0] > a[1]), "the left foot is forward exactly when its mean is further along the direction");
    double v = s.minimumPointForceOnForwardFoot(d); bool hit = false; auto& F = left ? s.leftContactPointsState : s.rightContactPointsState;
    for (auto& p : F) { double n = iDynTree::toEigen(p.pointForce).norm(); vp_assert_(v <= n, "not above the force of any point of the forward foot"); if (v == n) hit = true; }
    vp_assert_(hit, "equal to the force of a point of the forward foot"); }
