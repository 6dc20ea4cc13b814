// Costs of the planner (K01, K02, K03, D03, R01): one contract per cost class.
//@ modules src/private/ComplementarityCost.cpp src/private/FeetDistanceCost.cpp src/private/FootYawCost.cpp src/private/ForceMeanCost.cpp src/private/ForceRatioCost.cpp src/private/JointsVelocityForPosturalCost.cpp
//@ modules src/private/MeanPointPositionCost.cpp src/private/PhantomForcesCost.cpp src/private/SwingCost.cpp src/private/VariablesLabeller.cpp src/private/HyperbolicSecant.cpp src/private/SmoothingFunction.cpp
//@ stubs idyn_core libstdcxx
#include "common.h"
#include <DynamicalPlannerPrivate/Costs/ComplementarityCost.h>
#include <DynamicalPlannerPrivate/Costs/FeetDistanceCost.h>
#include <DynamicalPlannerPrivate/Costs/FootYawCost.h>
#include <DynamicalPlannerPrivate/Costs/ForceMeanCost.h>
#include <DynamicalPlannerPrivate/Costs/ForceRatioCost.h>
#include <DynamicalPlannerPrivate/Costs/JointsVelocityForPosturalCost.h>
#include <DynamicalPlannerPrivate/Costs/MeanPointPositionCost.h>
#include <DynamicalPlannerPrivate/Costs/PhantomForcesCost.h>
#include <DynamicalPlannerPrivate/Costs/SwingCost.h>
using namespace DynamicalPlanner::Private;
template <class T> using P = std::unique_ptr<T>;
struct Compl : Setup { Compl() { setup(*this); } P<ComplementarityCost> mk() { return P<ComplementarityCost>(new ComplementarityCost(L.s, L.c, foot, idx)); } };
struct FeetDist : Setup { FeetDist() { setup(*this); } P<FeetDistanceCost> mk() { return P<FeetDistanceCost>(new FeetDistanceCost(L.s, L.c)); } };
struct FMean : Setup { FMean() { setup(*this); } P<ForceMeanCost> mk() { return P<ForceMeanCost>(new ForceMeanCost(L.s, L.c, foot, idx)); } };
struct FRatio : Setup { bool set; double ratio; FRatio() { setup(*this); set = vp_choose_("set", 0, 1); ratio = vp_real("ratio"); } P<ForceRatioCost> mk() { P<ForceRatioCost> c(new ForceRatioCost(L.s, L.c, foot, idx)); if (set) c->setDesiredRatio(ratio); return c; } double r() { return set ? ratio : 1.0 / (foot == "Left" ? nl : nr); } };
struct Phantom : Setup { HyperbolicSecant act; Phantom() { setup(*this); act.setScaling(vp_real("K", 0.2, 3)); if (vp_choose_("disabled", 0, 1)) act.disable(vp_real("const", -1, 1)); } P<PhantomForcesCost> mk() { return P<PhantomForcesCost>(new PhantomForcesCost(L.s, L.c, foot, idx, act)); } };
struct Swing : Setup { double h; iDynTree::Vector3 w; Swing() { setup(*this); h = vp_real("height"); for (unsigned i = 0; i < 3; ++i) w(i) = vp_nonneg("weight"); } P<SwingCost> mk() { return P<SwingCost>(new SwingCost(L.s, L.c, foot, idx, h, w)); } };
struct Mean : Setup { std::shared_ptr<LinPos> ref; std::shared_ptr<LinVec> w; bool setRef, setW; Mean() { setup(*this); setRef = vp_choose_("reference", 0, 1); setW = vp_choose_("weight", 0, 1); ref.reset(new LinPos("ref")); w.reset(new LinVec(3, "w")); }
    P<MeanPointPositionCost> mk() { P<MeanPointPositionCost> c(new MeanPointPositionCost(L.s, L.c)); if (setRef) { bool ok = c->setDesiredPositionTrajectory(ref); vp_assert_(ok, "reference accepted"); } if (setW) c->setTimeVaryingWeight(w); return c; } };
struct Postural : Setup { Vec w, g; std::shared_ptr<LinVec> ref; size_t n; Postural() { int k = (int)vp_choose_("layout", 0, 2); nl = nr = 1; n = (size_t)vp_choose_("dofs", 1, 3); makeLay(L, k, 1, 1, n); fill(w, n, "w"); fill(g, n, "g"); ref.reset(new LinVec(n, "qd")); }
    P<JointsVelocityForPosturalCost> mk() { return P<JointsVelocityForPosturalCost>(new JointsVelocityForPosturalCost(L.s, L.c, w.v, g.v, ref)); } };
// corners in any order around their centroid (a fifth point may lie closer to it than the rear right corner)
struct Yaw : Setup { std::vector<iDynTree::Position> p; std::shared_ptr<LinDouble> ref; bool setRef; size_t br, tr, tl; double d0x, d0y;
    Yaw(bool full = false) { int k = (int)vp_choose_("layout", 0, 2); bool five = k == 1; nl = nr = five ? 5 : 4; makeLay(L, k, nl, nr, 1); foot = vp_choose_("left", 0, 1) ? "Left" : "Right"; setRef = vp_choose_("reference", 0, 1); ref.reset(new LinDouble("yaw"));
        double c[3], x[4], y[4]; for (int i = 0; i < 3; ++i) c[i] = vp_real("centroid");
        // rear right, front right, front left, rear left
        double sx[3] = {-1, 1, 1}, sy[3] = {-1, -1, 1}; double ex = 0, ey = 0; if (five) { ex = -vp_pos("inner"); ey = -vp_pos("inner"); }
        x[3] = -ex; y[3] = -ey; for (int i = 0; i < 3; ++i) { x[i] = sx[i] * vp_pos("corner"); y[i] = sy[i] * vp_pos("corner"); x[3] -= x[i]; y[3] -= y[i]; }
        vp_assume_(x[3] < 0); vp_assume_(y[3] > 0); if (five) vp_assume_(ex * ey < x[0] * y[0]);
        long rot = full ? vp_choose_("rotation", 0, 3) : k; bool mirror = full ? vp_choose_("mirror", 0, 1) : k == 2; size_t at[4];
        for (int i = 0; i < 4; ++i) { int j = (int)((i + rot) % 4); if (mirror) j = 3 - j; at[j] = p.size(); p.push_back(iDynTree::Position(c[0] + x[j], c[1] + y[j], c[2])); if (five && i == 1) p.push_back(iDynTree::Position(c[0] + ex, c[1] + ey, c[2])); }
        br = at[0]; tr = at[1]; tl = at[2]; d0x = x[1] - x[0]; d0y = y[1] - y[0]; }
    P<FootYawCost> mk() { P<FootYawCost> c(new FootYawCost(L.s, foot, p)); if (setRef) c->setDesiredYawTrajectory(ref); return c; } };
//@ spec K01 spec_K01_complementarity
//@ spec K02 spec_K02_complementarity
//@ spec D03 spec_D03_complementarity
//@ spec R01 spec_R01_complementarity
DERIVATIVE_SPECS(Cost, K01, K02, complementarity, Compl)
//@ spec K01 spec_K01_feetdistance
//@ spec K02 spec_K02_feetdistance
//@ spec D03 spec_D03_feetdistance
//@ spec R01 spec_R01_feetdistance
DERIVATIVE_SPECS(Cost, K01, K02, feetdistance, FeetDist)
//@ spec K01 spec_K01_forcemean
//@ spec K02 spec_K02_forcemean
//@ spec D03 spec_D03_forcemean
//@ spec R01 spec_R01_forcemean
DERIVATIVE_SPECS(Cost, K01, K02, forcemean, FMean)
//@ spec K01 spec_K01_forceratio
//@ spec K02 spec_K02_forceratio
//@ spec D03 spec_D03_forceratio
//@ spec R01 spec_R01_forceratio
DERIVATIVE_SPECS(Cost, K01, K02, forceratio, FRatio)
//@ spec K01 spec_K01_phantom
//@ spec K02 spec_K02_phantom
//@ spec D03 spec_D03_phantom
//@ spec R01 spec_R01_phantom
DERIVATIVE_SPECS(Cost, K01, K02, phantom, Phantom)
//@ spec K01 spec_K01_swing
//@ spec K02 spec_K02_swing
//@ spec D03 spec_D03_swing
//@ spec R01 spec_R01_swing
DERIVATIVE_SPECS(Cost, K01, K02, swing, Swing)
//@ spec K01 spec_K01_meanpoint
//@ spec K02 spec_K02_meanpoint
//@ spec D03 spec_D03_meanpoint
//@ spec R01 spec_R01_meanpoint
DERIVATIVE_SPECS(Cost, K01, K02, meanpoint, Mean)
//@ spec K01 spec_K01_postural
//@ spec K02 spec_K02_postural
//@ spec D03 spec_D03_postural
//@ spec R01 spec_R01_postural
DERIVATIVE_SPECS(Cost, K01, K02, postural, Postural)
//@ spec K01 spec_K01_footyaw
//@ spec K02 spec_K02_footyaw
//@ spec D03 spec_D03_footyaw
//@ spec R01 spec_R01_footyaw
DERIVATIVE_SPECS(Cost, K01, K02, footyaw, Yaw)

// ---- meaning of the costs (K03)
static double value(Cost& c, At& a, Lay& L, bool expectOk = true) { Out o(1, L.ns, L.nc); call(c, F_VAL, a, o); vp_assert_(o.ok[F_VAL] == expectOk, expectOk ? "evaluation succeeds" : "evaluation without a valid reference is refused"); return o.val(0); }
static double X(At& a, Lay& L, const std::string& n, unsigned i) { return a.x.v(off(L.s, n) + i); }
static double U(At& a, Lay& L, const std::string& n, unsigned i) { return a.u.v(off(L.c, n) + i); }
static std::string S_(size_t i) { return std::to_string(i); }
//@ spec K03 spec_K03_complementarity
extern "C" void spec_K03_complementarity() { Compl S; auto c = S.mk(); At a; fillAt(a, 1, S.L.ns, S.L.nc); double v = U(a, S.L, S.foot + "VelocityControlPoint" + S_(S.idx), 2), f = X(a, S.L, S.foot + "ForcePoint" + S_(S.idx), 2); vp_eq_(value(*c, a, S.L), 0.5 * (v * f) * (v * f), "half squared product of normal velocity and normal force of the point"); }
//@ spec K03 spec_K03_feetdistance
extern "C" void spec_K03_feetdistance() { FeetDist S; auto c = S.mk(); At a; fillAt(a, 1, S.L.ns, S.L.nc); double e = 0; for (unsigned k = 0; k < 3; ++k) { double l = 0, r = 0; for (size_t i = 0; i < S.nl; ++i) l += X(a, S.L, "LeftPositionPoint" + S_(i), k); for (size_t i = 0; i < S.nr; ++i) r += X(a, S.L, "RightPositionPoint" + S_(i), k); double d = l / S.nl - r / S.nr; e += d * d; }
    vp_eq_(value(*c, a, S.L), 0.5 * e, "half squared distance of the two feet"); }
//@ spec K03 spec_K03_forcemean
extern "C" void spec_K03_forcemean() { FMean S; auto c = S.mk(); At a; fillAt(a, 1, S.L.ns, S.L.nc); size_t n = S.foot == "Left" ? S.nl : S.nr; double e = 0; for (unsigned k = 0; k < 2; ++k) { double m = 0; for (size_t i = 0; i < n; ++i) m += X(a, S.L, S.foot + "ForcePoint" + S_(i), k); double d = X(a, S.L, S.foot + "ForcePoint" + S_(S.idx), k) - m / n; e += d * d; }
    vp_eq_(value(*c, a, S.L), 0.5 * e, "half squared difference of the tangential force from the mean of its foot"); }
//@ spec K03 spec_K03_forceratio
extern "C" void spec_K03_forceratio() { FRatio S; auto c = S.mk(); At a; fillAt(a, 1, S.L.ns, S.L.nc); size_t n = S.foot == "Left" ? S.nl : S.nr; double m = 0; for (size_t i = 0; i < n; ++i) m += X(a, S.L, S.foot + "ForcePoint" + S_(i), 2); double d = X(a, S.L, S.foot + "ForcePoint" + S_(S.idx), 2) - S.r() * m;
    vp_eq_(value(*c, a, S.L), 0.5 * d * d, "half squared difference of the normal force from its share of the foot's total"); }
//@ spec K03 spec_K03_phantom
extern "C" void spec_K03_phantom() { Phantom S; auto c = S.mk(); At a; fillAt(a, 1, S.L.ns, S.L.nc); double f = X(a, S.L, S.foot + "ForcePoint" + S_(S.idx), 2), pz = X(a, S.L, S.foot + "PositionPoint" + S_(S.idx), 2), d = (1 - S.act.eval(pz)) * f; vp_eq_(value(*c, a, S.L), 0.5 * d * d, "half squared normal force that the contact activation does not justify"); }
//@ spec K03 spec_K03_swing
extern "C" void spec_K03_swing() { Swing S; auto c = S.mk(); At a; fillAt(a, 1, S.L.ns, S.L.nc); double z = X(a, S.L, S.foot + "PositionPoint" + S_(S.idx), 2) - S.h, e = 0; for (unsigned k = 0; k < 3; ++k) { double d = U(a, S.L, S.foot + "VelocityControlPoint" + S_(S.idx), k) * z; e += S.w(k) * d * d; } vp_eq_(value(*c, a, S.L), 0.5 * e, "half weighted squared velocity away from the swing height"); }
//@ spec K03 spec_K03_meanpoint
extern "C" void spec_K03_meanpoint() { Mean S; bool bad = vp_choose_("invalid", 0, 1); auto c = S.mk(); bool null = c->setDesiredPositionTrajectory(nullptr); vp_assert_(!null, "missing reference refused"); At a; fillAt(a, 1, S.L.ns, S.L.nc); double e = 0;
    if (bad) { bool which = vp_choose_("which", 0, 1); if (which ? S.setW : S.setRef) { if (which) S.w->ok = false; else S.ref->ok = false; value(*c, a, S.L, false); return; } }
    for (unsigned k = 0; k < 3; ++k) { double m = 0; for (size_t i = 0; i < S.nl; ++i) m += X(a, S.L, "LeftPositionPoint" + S_(i), k); for (size_t i = 0; i < S.nr; ++i) m += X(a, S.L, "RightPositionPoint" + S_(i), k); double d = m / (S.nl + S.nr) - (S.setRef ? S.ref->at(a.t, k) : 0.0); e += (S.setW ? S.w->at(a.t, k) : 1.0) * d * d; }
    vp_eq_(value(*c, a, S.L), 0.5 * e, "half weighted squared distance of the mean contact point from its reference at that time"); }
//@ spec K03 spec_K03_postural
extern "C" void spec_K03_postural() { Postural S; auto c = S.mk(); At a; fillAt(a, 1, S.L.ns, S.L.nc); double e = 0; for (unsigned i = 0; i < S.n; ++i) { double d = S.w.v(i) * (U(a, S.L, "JointsVelocity", i) + S.g.v(i) * (X(a, S.L, "JointsPosition", i) - S.ref->at(a.t, i))); e += d * d; }
    vp_eq_(value(*c, a, S.L), 0.5 * e, "half squared weighted distance of the joint velocities from the postural ones"); }
//@ spec K03 spec_K03_footyaw
extern "C" void spec_K03_footyaw() { Yaw S(true); auto c = S.mk(); At a; fillAt(a, 1, S.L.ns, S.L.nc);
    std::string q = S.foot + "PositionPoint"; double psi = (S.setRef ? S.ref->at(a.t) : 0.0) + std::atan2(S.d0y, S.d0x), sy = std::sin(psi), cy = std::cos(psi); // direction that the right edge has once the foot is rotated by the reference
    double ax = X(a, S.L, q + S_(S.tr), 0) - X(a, S.L, q + S_(S.br), 0), ay = X(a, S.L, q + S_(S.tr), 1) - X(a, S.L, q + S_(S.br), 1), bx = X(a, S.L, q + S_(S.tl), 0) - X(a, S.L, q + S_(S.tr), 0), by = X(a, S.L, q + S_(S.tl), 1) - X(a, S.L, q + S_(S.tr), 1);
    double e1 = cy * ay - sy * ax, e2 = cy * bx + sy * by; vp_eq_(value(*c, a, S.L), 0.5 * e1 * e1 + 0.5 * e2 * e2, "half squared misalignment of the foot's edges with the reference yaw"); }
