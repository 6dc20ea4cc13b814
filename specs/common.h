// Shared contract templates: exact first/second derivatives, sparsity coverage,
// independence of call history.  Used with every Constraint, Cost and the
// DynamicalSystem of the planner.
#pragma once
#include "vp.h"
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
#include <iDynTree/Constraint.h>
#include <iDynTree/Cost.h>
#include <iDynTree/DynamicalSystem.h>
#include <iDynTree/SparsityStructure.h>
#include <iDynTree/TimeVaryingObject.h>
#include <iDynTree/Core/VectorDynSize.h>
#include <iDynTree/Core/MatrixDynSize.h>
#include <iDynTree/Core/EigenHelpers.h>
#include <memory>
#include <string>
#include <vector>
#include <utility>
#include <algorithm>
#include <cmath>
using iDynTree::VectorDynSize; using iDynTree::MatrixDynSize; using DynamicalPlanner::Private::VariablesLabeller;
typedef iDynTree::optimalcontrol::SparsityStructure Sparsity;

// ---- universally quantified vectors
struct Vec { VectorDynSize v; std::vector<long> id; };
inline void fill(Vec& o, size_t n, const char* nm, double lo = -2, double hi = 2) { o.v = VectorDynSize((unsigned)n); o.id.resize(n); for (size_t i = 0; i < n; ++i) { In x = vp_in(nm, lo, hi); o.v((unsigned)i) = x.v; o.id[i] = x.id; } }

// ---- layouts of the state and control vectors (offsets, order, padding, sizes are varied)
typedef std::vector<std::pair<std::string, size_t>> Labels;
inline void addAll(VariablesLabeller& l, Labels v, int kind) {
    if (kind == 1) { std::reverse(v.begin(), v.end()); Labels w; w.push_back({"UnrelatedA", 2}); for (size_t i = 0; i < v.size(); ++i) { w.push_back(v[i]); if (i == v.size() / 2) w.push_back({"UnrelatedB", 1}); } w.push_back({"UnrelatedC", 1}); v = w; }
    if (kind == 2) { std::rotate(v.begin(), v.begin() + v.size() / 3, v.end()); v.insert(v.begin() + 1, {"UnrelatedA", 1}); }
    for (auto& p : v) l.addLabel(p.first, p.second);
}
struct Lay { VariablesLabeller s, c; size_t ns = 0, nc = 0; };
// points of the two feet; withMain adds momentum, centre of mass, base and joints
inline void makeLay(Lay& L, int kind, size_t nl, size_t nr, size_t dofs, bool withMain = true, bool withFeet = true) {
    Labels s, c;
    if (withFeet) for (int f = 0; f < 2; ++f) { std::string foot = f ? "Right" : "Left"; size_t n = f ? nr : nl; for (size_t i = 0; i < n; ++i) { std::string k = std::to_string(i);
        s.push_back({foot + "ForcePoint" + k, 3}); s.push_back({foot + "PositionPoint" + k, 3}); c.push_back({foot + "VelocityControlPoint" + k, 3}); c.push_back({foot + "ForceControlPoint" + k, 3}); } }
    if (withMain) { s.push_back({"Momentum", 6}); s.push_back({"CoMPosition", 3}); s.push_back({"BasePosition", 3}); s.push_back({"BaseQuaternion", 4}); s.push_back({"JointsPosition", dofs});
        c.push_back({"BaseLinearVelocity", 3}); c.push_back({"BaseQuaternionDerivative", 4}); c.push_back({"JointsVelocity", dofs}); }
    addAll(L.s, s, kind); addAll(L.c, c, kind); L.ns = L.s.size(); L.nc = L.c.size();
}
inline unsigned off(const VariablesLabeller& l, const std::string& n) { return (unsigned)l.getIndexRange(n).offset; }

// ---- one evaluation interface for constraints, costs and the dynamics
enum { F_VAL, F_JS, F_JC, F_HS, F_HC, F_HM, F_N };
struct Out { VectorDynSize val; MatrixDynSize m[F_N]; bool ok[F_N]; VectorDynSize gs, gc;
    Out(size_t n, size_t ns, size_t nc) : val((unsigned)n), gs((unsigned)ns), gc((unsigned)nc) { size_t r[] = {0, n, n, ns, nc, ns}, c[] = {0, ns, nc, ns, nc, nc}; for (int k = 1; k < F_N; ++k) { m[k] = MatrixDynSize((unsigned)r[k], (unsigned)c[k]); } for (int k = 0; k < F_N; ++k) ok[k] = false; } };
struct At { double t; Vec x, u, l; };
using iDynTree::optimalcontrol::Constraint; using iDynTree::optimalcontrol::Cost; using iDynTree::optimalcontrol::DynamicalSystem;
inline size_t rows(Constraint& c) { return c.constraintSize(); }
inline size_t rows(Cost&) { return 1; }
inline size_t rows(DynamicalSystem& d) { return d.stateSpaceSize(); }
inline void call(Constraint& c, int k, At& a, Out& o) {
    switch (k) { case F_VAL: o.ok[k] = c.evaluateConstraint(a.t, a.x.v, a.u.v, o.val); break;
    case F_JS: o.ok[k] = c.constraintJacobianWRTState(a.t, a.x.v, a.u.v, o.m[k]); break; case F_JC: o.ok[k] = c.constraintJacobianWRTControl(a.t, a.x.v, a.u.v, o.m[k]); break;
    case F_HS: o.ok[k] = c.constraintSecondPartialDerivativeWRTState(a.t, a.x.v, a.u.v, a.l.v, o.m[k]); break; case F_HC: o.ok[k] = c.constraintSecondPartialDerivativeWRTControl(a.t, a.x.v, a.u.v, a.l.v, o.m[k]); break;
    case F_HM: o.ok[k] = c.constraintSecondPartialDerivativeWRTStateControl(a.t, a.x.v, a.u.v, a.l.v, o.m[k]); break; } }
inline void rowOf(const VectorDynSize& g, MatrixDynSize& m) { for (unsigned i = 0; i < g.size(); ++i) m(0, i) = g(i); }
inline void call(Cost& c, int k, At& a, Out& o) {
    double v = 0;
    switch (k) { case F_VAL: o.ok[k] = c.costEvaluation(a.t, a.x.v, a.u.v, v); o.val(0) = v; break;
    case F_JS: o.ok[k] = c.costFirstPartialDerivativeWRTState(a.t, a.x.v, a.u.v, o.gs); vp_assert_(o.gs.size() == o.m[k].cols(), "state gradient has the state's size"); rowOf(o.gs, o.m[k]); break;
    case F_JC: o.ok[k] = c.costFirstPartialDerivativeWRTControl(a.t, a.x.v, a.u.v, o.gc); vp_assert_(o.gc.size() == o.m[k].cols(), "control gradient has the control's size"); rowOf(o.gc, o.m[k]); break;
    case F_HS: o.ok[k] = c.costSecondPartialDerivativeWRTState(a.t, a.x.v, a.u.v, o.m[k]); break; case F_HC: o.ok[k] = c.costSecondPartialDerivativeWRTControl(a.t, a.x.v, a.u.v, o.m[k]); break;
    case F_HM: o.ok[k] = c.costSecondPartialDerivativeWRTStateControl(a.t, a.x.v, a.u.v, o.m[k]); break; } }
inline void call(DynamicalSystem& d, int k, At& a, Out& o) {
    bool set = d.setControlInput(a.u.v); vp_assert_(set, "control input accepted");
    switch (k) { case F_VAL: o.ok[k] = d.dynamics(a.x.v, a.t, o.val); break;
    case F_JS: o.ok[k] = d.dynamicsStateFirstDerivative(a.x.v, a.t, o.m[k]); break; case F_JC: o.ok[k] = d.dynamicsControlFirstDerivative(a.x.v, a.t, o.m[k]); break;
    case F_HS: o.ok[k] = d.dynamicsSecondPartialDerivativeWRTState(a.t, a.x.v, a.l.v, o.m[k]); break; case F_HC: o.ok[k] = d.dynamicsSecondPartialDerivativeWRTControl(a.t, a.x.v, a.l.v, o.m[k]); break;
    case F_HM: o.ok[k] = d.dynamicsSecondPartialDerivativeWRTStateControl(a.t, a.x.v, a.l.v, o.m[k]); break; } }
inline bool sparsity(Constraint& c, int k, Sparsity& s) { switch (k) { case F_JS: return c.constraintJacobianWRTStateSparsity(s); case F_JC: return c.constraintJacobianWRTControlSparsity(s); case F_HS: return c.constraintSecondPartialDerivativeWRTStateSparsity(s); case F_HC: return c.constraintSecondPartialDerivativeWRTControlSparsity(s); case F_HM: return c.constraintSecondPartialDerivativeWRTStateControlSparsity(s); } return false; }
inline bool sparsity(Cost& c, int k, Sparsity& s) { switch (k) { case F_HS: return c.costSecondPartialDerivativeWRTStateSparsity(s); case F_HC: return c.costSecondPartialDerivativeWRTControlSparsity(s); case F_HM: return c.costSecondPartialDerivativeWRTStateControlSparsity(s); } return false; }
inline bool sparsity(DynamicalSystem& d, int k, Sparsity& s) { switch (k) { case F_JS: return d.dynamicsStateFirstDerivativeSparsity(s); case F_JC: return d.dynamicsControlFirstDerivativeSparsity(s); case F_HS: return d.dynamicsSecondPartialDerivativeWRTStateSparsity(s); case F_HC: return d.dynamicsSecondPartialDerivativeWRTControlSparsity(s); case F_HM: return d.dynamicsSecondPartialDerivativeWRTStateControlSparsity(s); } return false; }
static const char* const F_LABEL[F_N] = {"value", "state Jacobian", "control Jacobian", "state Hessian", "control Hessian", "state-control Hessian"};

inline void fillAt(At& a, size_t n, size_t ns, size_t nc) { a.t = vp_real("t", 0, 3); fill(a.x, ns, "x"); fill(a.u, nc, "u"); fill(a.l, n, "lambda"); }

// value and first derivatives: every Jacobian entry is the partial derivative of the value
template <class O> void firstDerivatives(O& c, size_t ns, size_t nc, At& a) {
    size_t n = rows(c); Out o(n, ns, nc);
    call(c, F_VAL, a, o); call(c, F_JS, a, o); call(c, F_JC, a, o);
    vp_assert_(o.ok[F_VAL] && o.ok[F_JS] && o.ok[F_JC], "evaluations succeed");
    vp_assert_(o.val.size() == n && o.m[F_JS].rows() == n && o.m[F_JS].cols() == ns && o.m[F_JC].rows() == n && o.m[F_JC].cols() == nc, "outputs have the declared sizes");
    for (unsigned i = 0; i < n; ++i) { double v = o.val(i);
        for (unsigned j = 0; j < ns; ++j) vp_eq_(o.m[F_JS](i, j), vp_diff_(v, a.x.id[j]), "state Jacobian is the derivative of the value");
        for (unsigned j = 0; j < nc; ++j) vp_eq_(o.m[F_JC](i, j), vp_diff_(v, a.u.id[j]), "control Jacobian is the derivative of the value"); }
}
template <class O> double weighted(O& c, At& a, Out& o) { double w = 0; for (unsigned i = 0; i < o.val.size(); ++i) w += a.l.v(i) * o.val(i); return w; }
inline double weighted(Cost&, At&, Out& o) { return o.val(0); }
template <class O> void secondDerivatives(O& c, size_t ns, size_t nc, At& a) {
    size_t n = rows(c); Out o(n, ns, nc);
    call(c, F_VAL, a, o); call(c, F_HS, a, o); call(c, F_HC, a, o); call(c, F_HM, a, o);
    vp_assert_(o.ok[F_VAL] && o.ok[F_HS] && o.ok[F_HC] && o.ok[F_HM], "evaluations succeed");
    double w = weighted(c, a, o);
    for (unsigned i = 0; i < ns; ++i) for (unsigned j = 0; j < ns; ++j) vp_eq_(o.m[F_HS](i, j), vp_diff2_(w, a.x.id[i], a.x.id[j]), "state Hessian is the second derivative");
    for (unsigned i = 0; i < nc; ++i) for (unsigned j = 0; j < nc; ++j) vp_eq_(o.m[F_HC](i, j), vp_diff2_(w, a.u.id[i], a.u.id[j]), "control Hessian is the second derivative");
    for (unsigned i = 0; i < ns; ++i) for (unsigned j = 0; j < nc; ++j) vp_eq_(o.m[F_HM](i, j), vp_diff2_(w, a.x.id[i], a.u.id[j]), "state-control Hessian is the second derivative");
}
// sparsity: entries outside the declared pattern are zero (reported entries and, given exactness, true derivatives)
template <class O> void sparsityCovers(O& c, size_t ns, size_t nc, At& a, int maxK = F_HM, int minK = F_JS) {
    size_t n = rows(c); Out o(n, ns, nc); call(c, F_VAL, a, o); double w = weighted(c, a, o);
    for (int k = minK; k <= maxK; ++k) {
        Sparsity sp; bool has = sparsity(c, k, sp); if (!has) continue;
        call(c, k, a, o);
        MatrixDynSize& m = o.m[k]; size_t R = m.rows(), C = m.cols(); std::vector<char> in(R * C, 0);
        bool inside = true;
        for (size_t e = 0; e < sp.size(); ++e) { size_t r = sp[e].row, cc = sp[e].col; if (r < R && cc < C) in[r * C + cc] = 1; else inside = false; }
        vp_assert_(inside, "declared pattern lies inside the matrix");
        std::string l1 = std::string(F_LABEL[k]) + ": reported entries outside the declared pattern are zero", l2 = std::string(F_LABEL[k]) + ": true derivatives outside the declared pattern are zero";
        for (unsigned i = 0; i < R; ++i) for (unsigned j = 0; j < C; ++j) if (!in[i * C + j]) { vp_eq_(m(i, j), 0.0, l1.c_str());
            double d; switch (k) { case F_JS: d = vp_diff_(o.val(i), a.x.id[j]); break; case F_JC: d = vp_diff_(o.val(i), a.u.id[j]); break; case F_HS: d = vp_diff2_(w, a.x.id[i], a.x.id[j]); break; case F_HC: d = vp_diff2_(w, a.u.id[i], a.u.id[j]); break; default: d = vp_diff2_(w, a.x.id[i], a.u.id[j]); }
            vp_eq_(d, 0.0, l2.c_str()); }
    }
}
// call history: after evaluations at another point, with reused output buffers, everything equals a fresh object
template <class MK> void historyIndependent(MK mk, size_t ns, size_t nc, At& A, At& B, int kmax = F_HM) {
    auto used = mk(); size_t n = rows(*used); Out o(n, ns, nc);
    std::vector<Out> ref; for (int k = F_VAL; k <= kmax; ++k) { auto fresh = mk().release(); ref.emplace_back(n, ns, nc); call(*fresh, k, B, ref.back()); } // a new object per call, never used otherwise
    long h = vp_choose_("history", 0, 5);
    // 0: everything at A   1: everything at A backwards  2: only values at A  3: everything at A, then the value at B, then A again  4: only derivatives at A  5: everything at B then A then B
    if (h == 5) for (int k = F_VAL; k <= kmax; ++k) call(*used, k, B, o);
    if (h == 1) for (int k = kmax; k >= F_VAL; --k) call(*used, k, A, o); else if (h == 2) call(*used, F_VAL, A, o); else if (h == 4) for (int k = F_JS; k <= kmax; ++k) call(*used, k, A, o); else for (int k = F_VAL; k <= kmax; ++k) call(*used, k, A, o);
    if (h == 3) { call(*used, F_VAL, B, o); for (int k = F_VAL; k <= kmax; ++k) call(*used, k, A, o); }
    long ord = vp_choose_("order", 0, 1);
    for (int q = F_VAL; q <= kmax; ++q) { int k = ord ? kmax - q : q;
        call(*used, k, B, o);
        Out& f = ref[k - F_VAL];
        std::string lab = std::string(F_LABEL[k]) + " does not depend on earlier calls";
        vp_assert_(o.ok[k] == f.ok[k], lab.c_str());
        if (k == F_VAL) { for (unsigned i = 0; i < n; ++i) vp_eq_(o.val(i), f.val(i), lab.c_str()); }
        else for (unsigned i = 0; i < f.m[k].rows(); ++i) for (unsigned j = 0; j < f.m[k].cols(); ++j) vp_eq_(o.m[k](i, j), f.m[k](i, j), lab.c_str());
    }
}
// bounds of a constraint
inline void bounds(Constraint& c, bool hasLo, const double* lo, bool hasUp, const double* up) {
    VectorDynSize b((unsigned)c.constraintSize());
    bool l = c.getLowerBound(b); vp_assert_(l == hasLo, "lower bounds are declared exactly when they exist"); if (l && hasLo) for (unsigned i = 0; i < b.size(); ++i) vp_eq_(b(i), lo[i], "lower bound");
    bool u = c.getUpperBound(b); vp_assert_(u == hasUp, "upper bounds are declared exactly when they exist"); if (u && hasUp) for (unsigned i = 0; i < b.size(); ++i) vp_eq_(b(i), up[i], "upper bound");
}
struct Setup { Lay L; std::string foot; size_t idx; size_t nl, nr; };
inline void setup(Setup& S) { int k = (int)vp_choose_("layout", 0, 2); S.nl = k == 1 ? 2 : 1; S.nr = k == 2 ? 3 : 1 + (k == 0); makeLay(S.L, k, S.nl, S.nr, 2); bool left = vp_choose_("left", 0, 1); S.foot = left ? "Left" : "Right"; S.idx = (left ? S.nl : S.nr) - 1; }
// references that vary with time (affine, universally quantified coefficients)
struct LinDouble : iDynTree::optimalcontrol::TimeVaryingObject<double> { double a, b, v; bool ok = true; LinDouble(const char* n) { a = vp_real(n); b = vp_real(n); v = 0; } double at(double t) const { return a + b * t; } const double& get(double t, bool& valid) override { v = at(t); valid = ok; return v; } };
struct LinVec : iDynTree::optimalcontrol::TimeVaryingObject<VectorDynSize> { Vec a, b; VectorDynSize v; bool ok = true; LinVec(size_t n, const char* nm) { fill(a, n, nm); fill(b, n, nm); v = VectorDynSize((unsigned)n); } double at(double t, unsigned i) const { return a.v(i) + b.v(i) * t; } const VectorDynSize& get(double t, bool& valid) override { for (unsigned i = 0; i < v.size(); ++i) v(i) = at(t, i); valid = ok; return v; } };
struct LinPos : iDynTree::optimalcontrol::TimeVaryingObject<iDynTree::Position> { double a[3], b[3]; iDynTree::Position v; bool ok = true; LinPos(const char* n) { for (int i = 0; i < 3; ++i) { a[i] = vp_real(n); b[i] = vp_real(n); } } double at(double t, unsigned i) const { return a[i] + b[i] * t; } const iDynTree::Position& get(double t, bool& valid) override { for (unsigned i = 0; i < 3; ++i) v(i) = at(t, i); valid = ok; return v; } };
#define DERIVATIVE_SPECS(FAM, C1, C2, NAME, P) \
extern "C" void spec_##C1##_##NAME() { P S; auto c = S.mk(); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); firstDerivatives<FAM>(*c, S.L.ns, S.L.nc, a); } \
extern "C" void spec_##C2##_##NAME() { P S; auto c = S.mk(); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); secondDerivatives<FAM>(*c, S.L.ns, S.L.nc, a); } \
extern "C" void spec_D03_##NAME() { P S; auto c = S.mk(); At a; fillAt(a, rows(*c), S.L.ns, S.L.nc); sparsityCovers<FAM>(*c, S.L.ns, S.L.nc, a); } \
extern "C" void spec_R01_##NAME() { P S; size_t n; { auto c = S.mk(); n = rows(*c); } At a, b; fillAt(a, n, S.L.ns, S.L.nc); fillAt(b, n, S.L.ns, S.L.nc); historyIndependent([&]() { return std::unique_ptr<FAM>(S.mk()); }, S.L.ns, S.L.nc, a, b); }
