// Rectangular foot (F01).
//@ modules src/RectangularFoot.cpp
//@ stubs idyn_core idyn_spatial libstdcxx
#include "common.h"
#include <DynamicalPlanner/RectangularFoot.h>
#include <iDynTree/Core/Wrench.h>
#include <iDynTree/Core/Transform.h>
using DynamicalPlanner::RectangularFoot; using iDynTree::Position; using iDynTree::Force;
struct Foot { double l, d, p[3]; Foot() { l = vp_pos("length"); d = vp_pos("width"); for (auto& x : p) x = vp_real("corner"); } Position pos() { return Position(p[0], p[1], p[2]); }
    double x(int i) { return i < 2 ? p[0] : p[0] - l; } double y(int i) { return i % 2 ? p[1] - d : p[1]; } };
static void points(RectangularFoot& f, Foot& F) { std::vector<Position> q; iDynTree::Transform I = iDynTree::Transform::Identity(); bool ok = f.getPoints(I, q); vp_assert_(ok && q.size() == 4, "four corners");
    for (int i = 0; i < 4; ++i) { vp_eq_(q[i](0), F.x(i), "corners form the configured rectangle"); vp_eq_(q[i](1), F.y(i), "corners form the configured rectangle"); vp_eq_(q[i](2), F.p[2], "corners form the configured rectangle"); } }
//@ spec F01 spec_F01_corners
extern "C" void spec_F01_corners() { Foot F; RectangularFoot f; std::vector<Position> q; std::vector<Force> w; iDynTree::Wrench W; W.zero();
    if (vp_choose_("unset", 0, 1)) { bool a = f.getPoints(iDynTree::Transform::Identity(), q), b = f.getForces(W, w); vp_assert_(!a && !b, "an unset foot gives neither corners nor forces"); }
    bool first = vp_choose_("invalidFirst", 0, 1); double bl = vp_nonneg("l"), bd = vp_nonneg("d");
    auto bad = [&]() { bool r = f.setFoot(-bl, 1.0, F.pos()); vp_assert_(!r, "non-positive length refused"); r = f.setFoot(1.0, -bd, F.pos()); vp_assert_(!r, "non-positive width refused"); r = f.setFoot(-bl, -bd, Position(7, 7, 7)); vp_assert_(!r, "non-positive dimensions refused"); };
    if (first) { bad(); bool a = f.getPoints(iDynTree::Transform::Identity(), q); vp_assert_(!a, "a refused foot stays unset"); }
    if (vp_choose_("again", 0, 1)) { bool ok = f.setFoot(3.0, 2.0, Position(1, -1, 4)); vp_assert_(ok, "valid foot accepted"); }
    bool ok = f.setFoot(F.l, F.d, F.pos()); vp_assert_(ok, "valid foot accepted"); points(f, F); bad(); points(f, F);
    // rigid motion of the foot
    double R[9], t[3]; for (auto& x : R) x = vp_real("R"); for (auto& x : t) x = vp_real("t"); iDynTree::Transform T(iDynTree::Rotation(R[0], R[1], R[2], R[3], R[4], R[5], R[6], R[7], R[8]), Position(t[0], t[1], t[2]));
    ok = f.getPoints(T, q); vp_assert_(ok && q.size() == 4, "four corners"); for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) vp_eq_(q[i](k), t[k] + R[3 * k] * F.x(i) + R[3 * k + 1] * F.y(i) + R[3 * k + 2] * F.p[2], "corners move with the frame"); }
static double ab(double x) { return x < 0 ? -x : x; }
//@ spec F01 spec_F01_forces paths=20000
extern "C" void spec_F01_forces() { Foot F; double w[6]; for (auto& x : w) x = vp_real("wrench", -3, 3); RectangularFoot f; std::vector<Force> q; bool ok;
    long prev = vp_choose_("previous", 0, 3); // earlier distributions on the same object, with other dimensions
    if (prev) { ok = f.setFoot(2.0, 1.0, Position(1, 0.5, 0)); iDynTree::Wrench P(Force(0.3, 0.2, 10), Force(prev == 1 ? 5 : 0, prev == 3 ? 0 : -10, 0.7)); ok = f.getForces(P, q); vp_assert_(ok, "distribution returned"); }
    ok = f.setFoot(F.l, F.d, F.pos()); iDynTree::Wrench W(Force(w[0], w[1], w[2]), Force(w[3], w[4], w[5])); ok = f.getForces(W, q); vp_assert_(ok && q.size() == 4, "one force per corner");
    if (w[2] < 1e-7) { for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) vp_eq_(q[i](k), 0.0, "without pressing force the corner forces are zero"); return; }
    double tx = w[3] - ((F.p[1] - F.d / 2) * w[2] - F.p[2] * w[1]), ty = w[4] - (F.p[2] * w[0] - (F.p[0] - F.l / 2) * w[2]);
    bool inside = (2 * ty <= F.l * w[2]) & (-2 * ty <= F.l * w[2]) & (2 * tx <= F.d * w[2]) & (-2 * tx <= F.d * w[2]);
    for (int i = 0; i < 4; ++i) vp_assert_((!inside) | (q[i](2) >= -1e-9), "with the centre of pressure inside the foot no corner pulls");
    // corners whose share of the normal force is at most 1e-7 may be dropped when fewer than three corners press
    double s[3] = {0, 0, 0}, m[3] = {0, 0, 0}; int pressing = 0;
    for (int i = 0; i < 4; ++i) { if (q[i](2) != 0) ++pressing; double p[3] = {F.x(i), F.y(i), F.p[2]}; for (int k = 0; k < 3; ++k) { s[k] += q[i](k); int a = (k + 1) % 3, b = (k + 2) % 3; m[k] += p[a] * q[i](b) - p[b] * q[i](a); } }
    vp_eq_(s[0], w[0], "corner forces sum to the tangential force of the wrench"); vp_eq_(s[1], w[1], "corner forces sum to the tangential force of the wrench");
    if (pressing >= 2) vp_eq_(m[2], w[5], "corner moments give the yaw moment of the wrench");
    if (pressing >= 3) { vp_eq_(s[2], w[2], "corner forces sum to the normal force of the wrench"); vp_eq_(m[0], w[3], "corner moments give the moment of the wrench"); vp_eq_(m[1], w[4], "corner moments give the moment of the wrench"); return; }
    double tol = 4e-7 * w[2], bx = tol * (ab(F.p[1]) + F.d), by = tol * (ab(F.p[0]) + F.l), e = s[2] - w[2];
    vp_assert_(e <= tol && -e <= tol, "corner forces sum to the normal force up to the dropped shares"); e = m[0] - w[3]; vp_assert_(e <= bx && -e <= bx, "corner moments give the moment up to the dropped shares"); e = m[1] - w[4]; vp_assert_(e <= by && -e <= by, "corner moments give the moment up to the dropped shares"); }
//@ spec F01 spec_F01_ratios
extern "C" void spec_F01_ratios() { Foot F; RectangularFoot f; bool ok = f.setFoot(F.l, F.d, F.pos()); vp_assert_(ok, "valid foot accepted"); double x = vp_real("copX", -2, 2), y = vp_real("copY", -2, 2); std::vector<double> a;
    if (vp_choose_("stale", 0, 1)) a.assign(7, 5.0); f.getNormalRatiosFromCoP(x, y, a); vp_assert_(a.size() == 4, "one ratio per corner"); double s = 0, mx = 0, my = 0;
    for (int i = 0; i < 4; ++i) { s += a[i]; mx += a[i] * (F.x(i) - (F.p[0] - F.l / 2)); my += a[i] * (F.y(i) - (F.p[1] - F.d / 2)); }
    vp_eq_(s, 1.0, "the ratios sum to one"); vp_eq_(mx, x, "the ratios reproduce the centre of pressure"); vp_eq_(my, y, "the ratios reproduce the centre of pressure"); }
