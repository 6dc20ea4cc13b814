// Contact constraints (C01, C02, C03, D03, R01): one contract per constraint class.
//@ modules src/private/ContactFrictionConstraint.cpp src/private/ContactForceControlConstraints.cpp src/private/NormalVelocityControlConstraints.cpp src/private/PlanarVelocityControlConstraints.cpp
//@ modules src/private/ClassicalComplementarityConstraint.cpp src/private/ClassicalPlanarComplementarityConstraint.cpp src/private/DynamicalComplementarityConstraint.cpp src/private/FeetRelativeHeightConstraint.cpp src/private/QuaternionNormConstraint.cpp
//@ modules src/private/VariablesLabeller.cpp src/private/HyperbolicSecant.cpp src/private/HyperbolicTangent.cpp src/private/SmoothingFunction.cpp src/private/QuaternionUtils.cpp
//@ stubs idyn_core libstdcxx
#include "common.h"
#include <DynamicalPlannerPrivate/Constraints.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicSecant.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicTangent.h>
using namespace DynamicalPlanner::Private;
struct Friction { double mu; bool set; void draw() { set = vp_choose_("set", 0, 1); mu = vp_pos("mu"); }
    std::unique_ptr<ContactFrictionConstraint> mk(Setup& S) { std::unique_ptr<ContactFrictionConstraint> c(new ContactFrictionConstraint(S.L.s, S.L.c, S.foot, S.idx)); if (set) { bool ok = c->setFrictionCoefficient(mu); vp_assert_(ok, "positive friction coefficient accepted"); } return c; } };
template <class H> static void drawAct(H& h, bool allowDisable = true) { h.setScaling(vp_real("K", 0.2, 3)); if (allowDisable && vp_choose_("disabled", 0, 1)) h.disable(vp_real("const", -1, 1)); }
struct ForceControl { HyperbolicSecant act; double maxd, diss; void draw() { drawAct(act); maxd = vp_real("maxDerivative"); diss = vp_real("dissipation"); }
    std::unique_ptr<ContactForceControlConstraints> mk(Setup& S) { return std::unique_ptr<ContactForceControlConstraints>(new ContactForceControlConstraints(S.L.s, S.L.c, S.foot, S.idx, act, maxd, diss)); } };
struct NormalVel { HyperbolicTangent act; double maxd; void draw() { drawAct(act); maxd = vp_real("maxDerivative"); }
    std::unique_ptr<NormalVelocityControlConstraints> mk(Setup& S) { return std::unique_ptr<NormalVelocityControlConstraints>(new NormalVelocityControlConstraints(S.L.s, S.L.c, S.foot, S.idx, act, maxd)); } };
struct PlanarVel { HyperbolicTangent act; double mx, my; void draw() { drawAct(act); mx = vp_real("maxX"); my = vp_real("maxY"); }
    std::unique_ptr<PlanarVelocityControlConstraints> mk(Setup& S) { return std::unique_ptr<PlanarVelocityControlConstraints>(new PlanarVelocityControlConstraints(S.L.s, S.L.c, S.foot, S.idx, act, mx, my)); } };
struct Classical { double tol; void draw() { tol = vp_real("tolerance"); }
    std::unique_ptr<ClassicalComplementarityConstraint> mk(Setup& S) { return std::unique_ptr<ClassicalComplementarityConstraint>(new ClassicalComplementarityConstraint(S.L.s, S.L.c, S.foot, S.idx, tol)); } };
struct ClassicalPlanar { double tol; void draw() { tol = vp_real("tolerance"); }
    std::unique_ptr<ClassicalPlanarComplementarityConstraint> mk(Setup& S) { return std::unique_ptr<ClassicalPlanarComplementarityConstraint>(new ClassicalPlanarComplementarityConstraint(S.L.s, S.L.c, S.foot, S.idx, tol)); } };
struct Dynamical { double gain, ub; void draw() { gain = vp_real("gain"); ub = vp_real("upper"); }
    std::unique_ptr<DynamicalComplementarityConstraint> mk(Setup& S) { return std::unique_ptr<DynamicalComplementarityConstraint>(new DynamicalComplementarityConstraint(S.L.s, S.L.c, S.foot, S.idx, gain, ub)); } };
struct RelHeight { double h; void draw() { h = vp_real("maxHeight"); }
    std::unique_ptr<FeetRelativeHeightConstraint> mk(Setup& S) { return std::unique_ptr<FeetRelativeHeightConstraint>(new FeetRelativeHeightConstraint(S.L.s, S.L.c, h)); } };
struct QuatNorm { double tol; bool set; void draw() { set = vp_choose_("set", 0, 1); tol = vp_nonneg("tolerance"); }
    std::unique_ptr<QuaternionNormConstraint> mk(Setup& S) { std::unique_ptr<QuaternionNormConstraint> c(new QuaternionNormConstraint(S.L.s, S.L.c)); if (set) c->setEqualityTolerance(tol); return c; } };

#define SPECS(NAME, P) \
extern "C" void spec_C01_##NAME() { Setup S; setup(S); P p; p.draw(); auto c = p.mk(S); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); firstDerivatives<Constraint>(*c, S.L.ns, S.L.nc, a); } \
extern "C" void spec_C02_##NAME() { Setup S; setup(S); P p; p.draw(); auto c = p.mk(S); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); secondDerivatives<Constraint>(*c, S.L.ns, S.L.nc, a); } \
extern "C" void spec_D03_##NAME() { Setup S; setup(S); P p; p.draw(); auto c = p.mk(S); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); sparsityCovers<Constraint>(*c, S.L.ns, S.L.nc, a); } \
extern "C" void spec_R01_##NAME() { Setup S; setup(S); P p; p.draw(); size_t n; { auto c = p.mk(S); n = rows(*c); vp_assert_(c->expectedStateSpaceSize() == S.L.ns && c->expectedControlSpaceSize() == S.L.nc, "expected sizes are those of the layout"); } At a, b; fillAt(a, n, S.L.ns, S.L.nc); fillAt(b, n, S.L.ns, S.L.nc); \
    historyIndependent([&]() { return std::unique_ptr<Constraint>(p.mk(S)); }, S.L.ns, S.L.nc, a, b); }
//@ spec C01 spec_C01_friction
//@ spec C02 spec_C02_friction
//@ spec D03 spec_D03_friction
//@ spec R01 spec_R01_friction
SPECS(friction, Friction)
//@ spec C01 spec_C01_forcecontrol
//@ spec C02 spec_C02_forcecontrol
//@ spec D03 spec_D03_forcecontrol
//@ spec R01 spec_R01_forcecontrol
SPECS(forcecontrol, ForceControl)
//@ spec C01 spec_C01_normalvel
//@ spec C02 spec_C02_normalvel
//@ spec D03 spec_D03_normalvel
//@ spec R01 spec_R01_normalvel
SPECS(normalvel, NormalVel)
//@ spec C01 spec_C01_planarvel
//@ spec C02 spec_C02_planarvel
//@ spec D03 spec_D03_planarvel
//@ spec R01 spec_R01_planarvel
SPECS(planarvel, PlanarVel)
//@ spec C01 spec_C01_classical
//@ spec C02 spec_C02_classical
//@ spec D03 spec_D03_classical
//@ spec R01 spec_R01_classical
SPECS(classical, Classical)
//@ spec C01 spec_C01_classicalplanar
//@ spec C02 spec_C02_classicalplanar
//@ spec D03 spec_D03_classicalplanar
//@ spec R01 spec_R01_classicalplanar
SPECS(classicalplanar, ClassicalPlanar)
//@ spec C01 spec_C01_dynamical
//@ spec C02 spec_C02_dynamical
//@ spec D03 spec_D03_dynamical
//@ spec R01 spec_R01_dynamical
SPECS(dynamical, Dynamical)
//@ spec C01 spec_C01_relheight
//@ spec C02 spec_C02_relheight
//@ spec D03 spec_D03_relheight
//@ spec R01 spec_R01_relheight
SPECS(relheight, RelHeight)
//@ spec C01 spec_C01_quatnorm
//@ spec C02 spec_C02_quatnorm
//@ spec D03 spec_D03_quatnorm
//@ spec R01 spec_R01_quatnorm
SPECS(quatnorm, QuatNorm)

// ---- meaning of the constraints (C03): value and bounds equal the physical condition
struct Phys { At a; double fx, fy, fz, px, py, pz, vx, vy, vz, gx, gy, gz; };
static void phys(Phys& p, Setup& S, size_t n) { fillAt(p.a, n, S.L.ns, S.L.nc); std::string k = std::to_string(S.idx); auto& x = p.a.x.v; auto& u = p.a.u.v;
    unsigned f = off(S.L.s, S.foot + "ForcePoint" + k), q = off(S.L.s, S.foot + "PositionPoint" + k), v = off(S.L.c, S.foot + "VelocityControlPoint" + k), g = off(S.L.c, S.foot + "ForceControlPoint" + k);
    p.fx = x(f); p.fy = x(f + 1); p.fz = x(f + 2); p.px = x(q); p.py = x(q + 1); p.pz = x(q + 2); p.vx = u(v); p.vy = u(v + 1); p.vz = u(v + 2); p.gx = u(g); p.gy = u(g + 1); p.gz = u(g + 2); }
#define VALUE(c) Out o(rows(*c), S.L.ns, S.L.nc); call((Constraint&)*c, F_VAL, p.a, o); vp_assert_(o.ok[F_VAL] && o.val.size() == rows(*c), "evaluation succeeds")
//@ spec C03 spec_C03_friction
extern "C" void spec_C03_friction() { Setup S; setup(S); Friction F; F.draw(); auto c = F.mk(S); Phys p; phys(p, S, 1); VALUE(c); double mu = F.set ? F.mu : 0.3, up = 0;
    vp_eq_(o.val(0), p.fx * p.fx + p.fy * p.fy - mu * mu * p.fz * p.fz, "value is the friction cone violation"); bounds(*c, false, 0, true, &up);
    bool r = c->setFrictionCoefficient(-F.mu); vp_assert_(!r, "negative friction coefficient refused"); r = c->setFrictionCoefficient(0.0); vp_assert_(!r, "zero friction coefficient refused");
    call((Constraint&)*c, F_VAL, p.a, o); vp_eq_(o.val(0), p.fx * p.fx + p.fy * p.fy - mu * mu * p.fz * p.fz, "refused coefficient changes nothing"); }
//@ spec C03 spec_C03_forcecontrol
extern "C" void spec_C03_forcecontrol() { Setup S; setup(S); ForceControl F; F.draw(); auto c = F.mk(S); Phys p; phys(p, S, 1); VALUE(c); double d = F.act.eval(p.pz), up = 0;
    vp_eq_(o.val(0), p.gz - (d * F.maxd - (1 - d) * F.diss * p.fz), "value is the normal force derivative beyond its limit"); bounds(*c, false, 0, true, &up); }
//@ spec C03 spec_C03_normalvel
extern "C" void spec_C03_normalvel() { Setup S; setup(S); NormalVel F; F.draw(); auto c = F.mk(S); Phys p; phys(p, S, 2); VALUE(c); double d = F.act.eval(p.pz), lo[] = {0, 0};
    vp_eq_(o.val(0), F.maxd - p.vz, "first row: margin to the maximum normal velocity"); vp_eq_(o.val(1), p.vz + d * F.maxd, "second row: margin to the height-modulated minimum normal velocity"); bounds(*c, true, lo, false, 0); }
//@ spec C03 spec_C03_planarvel
extern "C" void spec_C03_planarvel() { Setup S; setup(S); PlanarVel F; F.draw(); auto c = F.mk(S); Phys p; phys(p, S, 4); VALUE(c); double d = F.act.eval(p.pz), lo[] = {0, 0, 0, 0};
    vp_eq_(o.val(0), d * F.mx - p.vx, "x velocity below its height-modulated maximum"); vp_eq_(o.val(1), d * F.my - p.vy, "y velocity below its height-modulated maximum"); vp_eq_(o.val(2), d * F.mx + p.vx, "x velocity above its height-modulated minimum"); vp_eq_(o.val(3), d * F.my + p.vy, "y velocity above its height-modulated minimum"); bounds(*c, true, lo, false, 0); }
//@ spec C03 spec_C03_classical
extern "C" void spec_C03_classical() { Setup S; setup(S); Classical F; F.draw(); auto c = F.mk(S); Phys p; phys(p, S, 1); VALUE(c); vp_eq_(o.val(0), p.pz * p.fz, "value is height times normal force"); bounds(*c, false, 0, true, &F.tol); }
//@ spec C03 spec_C03_classicalplanar
extern "C" void spec_C03_classicalplanar() { Setup S; setup(S); ClassicalPlanar F; F.draw(); auto c = F.mk(S); Phys p; phys(p, S, 2); VALUE(c); vp_eq_(o.val(0), p.vx * p.fz, "value is x velocity times normal force"); vp_eq_(o.val(1), p.vy * p.fz, "value is y velocity times normal force"); double lo[] = {-F.tol, -F.tol}, up[] = {F.tol, F.tol}; bounds(*c, true, lo, true, up); }
//@ spec C03 spec_C03_dynamical
extern "C" void spec_C03_dynamical() { Setup S; setup(S); Dynamical F; F.draw(); auto c = F.mk(S); Phys p; phys(p, S, 1); VALUE(c); vp_eq_(o.val(0), p.gz * p.pz + p.fz * p.vz + F.gain * p.pz * p.fz, "value is the dissipated complementarity"); bounds(*c, false, 0, true, &F.ub); }
//@ spec C03 spec_C03_relheight
extern "C" void spec_C03_relheight() { Setup S; setup(S); RelHeight F; F.draw(); auto c = F.mk(S); Phys p; phys(p, S, 1); VALUE(c); double l = 0, r = 0; for (size_t i = 0; i < S.nl; ++i) l += p.a.x.v(off(S.L.s, "LeftPositionPoint" + std::to_string(i)) + 2); for (size_t i = 0; i < S.nr; ++i) r += p.a.x.v(off(S.L.s, "RightPositionPoint" + std::to_string(i)) + 2);
    vp_eq_(o.val(0), l / S.nl - r / S.nr, "value is the height of the left foot above the right one"); double lo = -F.h, up = F.h; bounds(*c, true, &lo, true, &up); }
//@ spec C03 spec_C03_quatnorm
extern "C" void spec_C03_quatnorm() { Setup S; setup(S); QuatNorm F; F.draw(); auto c = F.mk(S); Phys p; phys(p, S, 1); VALUE(c); unsigned q = off(S.L.s, "BaseQuaternion"); double n = 0; for (unsigned i = 0; i < 4; ++i) n += p.a.x.v(q + i) * p.a.x.v(q + i);
    vp_eq_(o.val(0), n - 1, "value is the squared norm minus one"); double h = F.set ? F.tol / 2 : 0, lo = -h; bounds(*c, true, &lo, true, &h); }
