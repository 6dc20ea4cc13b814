// Walking state machine (G02), closed-form references (G01).
//@ modules src/Utilities.cpp src/PositionReferenceGenerator.cpp src/State.cpp
//@ stubs idyn_core idyn_spatial libstdcxx
#include "common.h"
#include <DynamicalPlanner/Utilities.h>
using namespace DynamicalPlanner; using DynamicalPlanner::Utilities::SimpleWalkingStateMachine;
using iDynTree::toEigen;
struct Par { double start[3], inc[3], D, H, dt, w[3], F, e; iDynTree::Position S() { return iDynTree::Position(start[0], start[1], start[2]); } iDynTree::Position I() { return iDynTree::Position(inc[0], inc[1], inc[2]); } };
static void make(Par& p) { for (auto& x : p.start) x = vp_real("start"); for (auto& x : p.inc) x = vp_real("increment"); for (auto& x : p.w) x = vp_real("weightIncrease"); p.dt = vp_pos("minimumDt", 1); p.D = p.dt + vp_nonneg("stepDurationExtra"); p.H = p.dt + vp_nonneg("horizonExtra"); p.F = vp_nonneg("forceThreshold"); p.e = vp_real("positionThreshold"); }
static bool init(SimpleWalkingStateMachine& m, Par& p) { return m.initialize(p.S(), p.I(), p.D, p.H, p.dt, p.w[0], p.w[1], p.w[2], p.F, p.e); }
static void started(SimpleWalkingStateMachine& m, Par& p) { auto r = m.references(); vp_assert_((bool)r, "references available after a valid initialisation");
    vp_eq_(r->at(0).activeRange.initTime(), 0, "the first step is active from the start for one step duration"); vp_eq_(r->at(0).activeRange.endTime(), p.D, "the first step is active from the start for one step duration");
    vp_assert_(r->at(1).activeRange.initTime() > p.H && r->at(1).activeRange.endTime() >= r->at(1).activeRange.initTime(), "no second step inside the horizon at the start");
    for (int k = 0; k < 3; ++k) { vp_eq_(r->at(0).desiredPosition(k), p.start[k], "the first step is the starting reference"); vp_eq_(r->at(1).desiredPosition(k), p.start[k], "the first step is the starting reference"); } }
//@ spec G02 spec_G02_initialize
extern "C" void spec_G02_initialize() { SimpleWalkingStateMachine m; State a(0, 1), b(0, 1); bool ok = m.advance(a, b); vp_assert_(!ok, "not advanced before a valid initialisation"); Par p; make(p);
    auto bad = [&](SimpleWalkingStateMachine& s) { Par q = p; long k = vp_choose_("invalid", 0, 2); double x = vp_pos("by"); if (k == 0) q.F = -x; if (k == 1) q.H = q.dt - x; if (k == 2) q.D = q.dt - x; bool r = init(s, q); vp_assert_(!r, "invalid parameters refused"); };
    if (vp_choose_("badFirst", 0, 1)) { bad(m); vp_assert_(!m.references(), "refused parameters do not start the machine"); ok = m.advance(a, b); vp_assert_(!ok, "refused parameters do not start the machine"); }
    if (vp_choose_("again", 0, 1)) { ok = m.initialize(p.I(), p.S(), 3, 2, 1, 1, 1, 1); vp_assert_(ok, "valid parameters accepted"); }
    ok = init(m, p); vp_assert_(ok, "valid parameters accepted"); started(m, p); auto before = m.references(); bad(m); vp_assert_(m.references() == before, "refused parameters leave the schedule as it was"); started(m, p);
    double t = p.D / 2; vp_assume_((p.D > 1e-9) & (t < p.H)); bool v = false; VectorDynSize w = m.references()->timeVaryingWeight()->get(t, v); for (int k = 0; k < 3; ++k) { double s = p.w[k] * (t / p.D) + 1; vp_eq_(w((unsigned)k), s * s, "the weight increases are the configured ones"); } }
static void body(State& s, const char* nm, size_t n) { for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (size_t i = 0; i < n; ++i) for (unsigned k = 0; k < 3; ++k) { (*f)[i].pointPosition(k) = vp_real(nm); (*f)[i].pointForce(k) = k == 2 ? vp_real("force") : vp_real("force"); } }
//@ spec G02 spec_G02_advance paths=20000
extern "C" void spec_G02_advance() { Par p; make(p); SimpleWalkingStateMachine m; bool ok = init(m, p); vp_assert_(ok, "valid parameters accepted"); if (vp_choose_("verbose", 0, 1)) m.setVerbose();
    auto r = m.references(); double a0 = -vp_nonneg("firstStart"), b0 = a0 + vp_nonneg("firstLength"), a1 = a0 + p.H + vp_nonneg("secondStart"), b1 = a1 + vp_nonneg("secondLength"), p0[3], p1[3];
    r->at(0).activeRange.setTimeInterval(a0, b0); r->at(1).activeRange.setTimeInterval(a1, b1); for (int k = 0; k < 3; ++k) { r->at(0).desiredPosition(k) = p0[k] = vp_real("first"); r->at(1).desiredPosition(k) = p1[k] = vp_real("second"); }
    State cur(0, 1), fut(0, 1); body(cur, "current", 1); body(fut, "future", 1); double t = cur.time = vp_nonneg("elapsed"); fut.time = t + vp_nonneg("later");
    double err = (toEigen(fut.computeFeetCentroid()) - toEigen(r->at(0).desiredPosition)).norm(), force = cur.minimumPointForceOnForwardFoot(p.I());
    ok = m.advance(cur, fut); vp_assert_(ok, "an initialised machine advances"); vp_assert_(m.references() == r, "the same schedule object is kept"); double A0 = r->at(0).activeRange.initTime(), B0 = r->at(0).activeRange.endTime(), A1 = r->at(1).activeRange.initTime(), B1 = r->at(1).activeRange.endTime();
    // the invariant is inductive
    vp_assert_(A0 <= B0, "the first interval stays well formed"); vp_assert_(A1 <= B1, "the second interval stays well formed"); vp_assert_(A0 <= 1e-9, "the first step has started"); vp_assert_(A1 >= A0 + p.H - 1e-9, "the second step starts at least one horizon after the first");
    // planning
    bool planned = a1 <= p.H, due = b0 <= 0.6 * p.H; const char* pl = "the next step is planned one increment ahead, only when the current one is due and reached or overdue";
    if (!planned && due && (err < p.e || b0 - a0 > 2.0 * p.D)) { planned = true; a1 = p.H; b1 = p.H + p.D; for (int k = 0; k < 3; ++k) p1[k] = p0[k] + p.inc[k]; }
    const char* pr = "the planned step is promoted only when its time has come and the forward foot is loaded"; double s = a0 - t;
    if (!planned) { double e = s + p.D, f = 0.6 * p.H; a0 = s; b0 = e < f ? f : e; }
    else if (s < 0.3 * p.H && force < p.F) a0 = s;
    else if (s + p.D < p.dt) { for (int k = 0; k < 3; ++k) p0[k] = p1[k]; a0 = 0; b0 = p.D; vp_assert_(A1 > p.H, "no step stays planned after a promotion"); a1 = A1; b1 = B1; }
    else { a0 = s; b0 = s + p.D; a1 -= t; b1 = a1 + p.D; }
    for (int k = 0; k < 3; ++k) { vp_eq_(r->at(0).desiredPosition(k), p0[k], pr); vp_eq_(r->at(1).desiredPosition(k), p1[k], pl); }
    vp_eq_(A0, a0, "the current step's interval follows the elapsed time"); vp_eq_(B0, b0, "the current step's interval follows the elapsed time"); vp_eq_(A1, a1, pl); vp_eq_(B1, b1, pl); }
//@ spec G01 spec_G01_exponential
extern "C" void spec_G01_exponential() { double a = vp_real("premultiplier"), b = vp_real("timeMultiplier"), c = vp_real("offset"), d = vp_real("timeOffset"); Utilities::ExponentialWeight w(a, b, c, d); for (int i = 0; i < 2; ++i) { double t = vp_real("time"); bool v = false; double r = w.get(t, v); vp_assert_(v, "weight available"); vp_eq_(r, a * std::exp(b * (t - d)) + c, "exponential weight follows its closed form"); } }
//@ spec G01 spec_G01_translatedguess
extern "C" void spec_G01_translatedguess() { size_t d = (size_t)vp_choose_("dofs", 0, 2), n = (size_t)vp_choose_("points", 0, 3); State s(d, n); body(s, "position", n); for (unsigned k = 0; k < 6; ++k) s.momentumInCoM(k) = vp_real("momentum"); for (unsigned k = 0; k < 3; ++k) s.comPosition(k) = vp_real("com"); for (unsigned k = 0; k < d; ++k) s.jointsConfiguration(k) = vp_real("joint");
    double R[9], b[3]; for (auto& x : R) x = vp_real("R"); for (auto& x : b) x = vp_real("base"); s.worldToBaseTransform = iDynTree::Transform(iDynTree::Rotation(R[0], R[1], R[2], R[3], R[4], R[5], R[6], R[7], R[8]), iDynTree::Position(b[0], b[1], b[2]));
    LinVec* ref = new LinVec(3, "comReference"); std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingVector> P(ref); Utilities::TranslatingCoMStateGuess g(P, s); const char* l = "the guess is the initial state translated onto the centre of mass reference";
    for (int i = 0; i < 2; ++i) { double t = vp_real("time"); bool v = false; State& o = g.get(t, v); vp_assert_(v, "guess available"); double c[3]; for (int k = 0; k < 3; ++k) c[k] = ref->at(t, (unsigned)k); vp_assert_(o.checkSize(d, n), "same shape as the initial state"); vp_eq_(o.time, t, l);
        for (unsigned k = 0; k < 3; ++k) { double dl = c[k] - s.comPosition(k); vp_eq_(o.comPosition(k), c[k], l); vp_eq_(o.worldToBaseTransform.getPosition()(k), b[k] + dl, l); for (unsigned j = 0; j < 3; ++j) vp_eq_(o.worldToBaseTransform.getRotation()(k, j), R[3 * k + j], l);
            for (size_t q = 0; q < n; ++q) { vp_eq_(o.leftContactPointsState[q].pointPosition(k), s.leftContactPointsState[q].pointPosition(k) + dl, l); vp_eq_(o.rightContactPointsState[q].pointPosition(k), s.rightContactPointsState[q].pointPosition(k) + dl, l); vp_eq_(o.leftContactPointsState[q].pointForce(k), s.leftContactPointsState[q].pointForce(k), l); vp_eq_(o.rightContactPointsState[q].pointForce(k), s.rightContactPointsState[q].pointForce(k), l); } }
        for (unsigned k = 0; k < 6; ++k) vp_eq_(o.momentumInCoM(k), 0, l); for (unsigned k = 0; k < d; ++k) vp_eq_(o.jointsConfiguration(k), s.jointsConfiguration(k), l); } }
