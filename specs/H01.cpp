// Activation functions: contract of HyperbolicSecant / HyperbolicTangent / SmoothingFunction.
//@ modules src/private/HyperbolicSecant.cpp src/private/HyperbolicTangent.cpp src/private/SmoothingFunction.cpp
//@ stubs libstdcxx
//@ spec H01 spec_H01_secant
//@ spec H01 spec_H01_tangent
//@ spec H01 spec_H01_disabled
#include "vp.h"
#include <DynamicalPlannerPrivate/Utilities/HyperbolicSecant.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicTangent.h>
#include <cmath>
using namespace DynamicalPlanner::Private;
extern "C" void spec_H01_secant() {
    HyperbolicSecant f;
    In x = vp_in("x", -3, 3); In k = vp_in("k", -3, 3);
    bool scaled = vp_choose_("scaled", 0, 1);
    double K = 1.0; if (scaled) { f.setScaling(k); K = k; }
    SmoothingFunction& g = f;
    double v = g.eval(x);
    vp_eq_(v * std::cosh(K * x.v), 1.0, "value is sech(Kx)");
    vp_assert_(v >= 0.0 && v <= 1.0, "value within [0,1]");
    vp_eq_(g.evalDerivative(x), vp_diff_(v, x.id), "first derivative is exact");
    vp_eq_(g.evalDoubleDerivative(x), vp_diff2_(v, x.id, x.id), "second derivative is exact");
}
extern "C" void spec_H01_tangent() {
    HyperbolicTangent f;
    In x = vp_in("x", -3, 3); In k = vp_in("k", -3, 3);
    bool scaled = vp_choose_("scaled", 0, 1);
    double K = 1.0; if (scaled) { f.setScaling(k); K = k; }
    SmoothingFunction& g = f;
    double v = g.eval(x);
    vp_eq_(v * std::cosh(K * x.v), std::sinh(K * x.v), "value is tanh(Kx)");
    vp_assert_(v >= -1.0 && v <= 1.0, "value within [-1,1]");
    vp_eq_(g.evalDerivative(x), vp_diff_(v, x.id), "first derivative is exact");
    vp_eq_(g.evalDoubleDerivative(x), vp_diff2_(v, x.id, x.id), "second derivative is exact");
}
template <class F> static void disabled(const char* tag) {
    F f; SmoothingFunction& g = f;
    double x = vp_real("x"), y = vp_real("y"), k = vp_real("k"), k2 = vp_real("k2"), c = vp_real("c"), c0 = vp_real("c0");
    long h = vp_choose_("history", 0, 4);
    // histories of calls around disable(): scaling before / after, evaluation before / after, disabled twice
    if (h == 1 || h == 3) g.setScaling(k);
    double before = g.eval(y); (void)before;
    bool dflt = vp_choose_("default", 0, 1);
    if (h == 4) g.disable(c0);
    if (dflt) { g.disable(); c = 1.0; } else g.disable(c);
    if (h == 2 || h == 3) g.setScaling(k2);
    vp_eq_(g.eval(x), c, "disabled function returns the chosen constant");
    vp_eq_(g.evalDerivative(x), 0.0, "disabled function has zero derivative");
    vp_eq_(g.evalDoubleDerivative(x), 0.0, "disabled function has zero second derivative");
    g.setScaling(k);
    vp_eq_(g.eval(y), c, "disabled function stays disabled");
    vp_eq_(g.evalDerivative(y), 0.0, "disabled function stays flat");
    vp_eq_(g.evalDoubleDerivative(y), 0.0, "disabled function stays flat twice");
}
extern "C" void spec_H01_disabled() { if (vp_choose_("kind", 0, 1)) disabled<HyperbolicSecant>("sech"); else disabled<HyperbolicTangent>("tanh"); }
