// Quaternion helpers (Q01).
//@ modules src/private/QuaternionUtils.cpp
//@ stubs idyn_core libstdcxx
#include "common.h"
#include <DynamicalPlannerPrivate/Utilities/QuaternionUtils.h>
using namespace DynamicalPlanner::Private; using iDynTree::Vector4; using iDynTree::Vector3; using iDynTree::Rotation;
struct Q4 { Vector4 v; long id[4]; double n2; };
struct V3 { Vector3 v; long id[3]; };
static void draw(Q4& q, const char* n, bool nonzero = true) { q.n2 = 0; for (int i = 0; i < 4; ++i) { In x = vp_in(n, -2, 2); q.v(i) = x.v; q.id[i] = x.id; q.n2 += x.v * x.v; } if (nonzero) vp_assume_(q.n2 > 0); }
static void draw(V3& q, const char* n) { for (int i = 0; i < 3; ++i) { In x = vp_in(n, -3, 3); q.v(i) = x.v; q.id[i] = x.id; } }
static Vector4 mul(const Vector4& a, const Vector4& b) { Vector4 r; r(0) = a(0) * b(0) - a(1) * b(1) - a(2) * b(2) - a(3) * b(3); r(1) = a(0) * b(1) + a(1) * b(0) + a(2) * b(3) - a(3) * b(2); r(2) = a(0) * b(2) - a(1) * b(3) + a(2) * b(0) + a(3) * b(1); r(3) = a(0) * b(3) + a(1) * b(2) - a(2) * b(1) + a(3) * b(0); return r; }
static Vector4 conj(const Vector4& a) { Vector4 r; r(0) = a(0); for (int i = 1; i < 4; ++i) r(i) = -a(i); return r; }
//@ spec Q01 spec_Q01_trivialized
extern "C" void spec_Q01_trivialized() { Q4 q; draw(q, "q", false); V3 w; draw(w, "omega"); Q4 dq; draw(dq, "dq", false);
    iDynTree::MatrixFixSize<4, 3> M = QuaternionLeftTrivializedDerivative(q.v); Vector4 ww; ww(0) = 0; for (int i = 0; i < 3; ++i) ww(i + 1) = w.v(i); Vector4 e = mul(q.v, ww); Vector4 Mw;
    for (int i = 0; i < 4; ++i) { double s = 0; for (int j = 0; j < 3; ++j) s += M(i, j) * w.v(j); Mw(i) = s; vp_eq_(s, 0.5 * e(i), "quaternion rate is half the quaternion times the angular velocity"); }
    iDynTree::MatrixFixSize<3, 4> N = QuaternionLeftTrivializedDerivativeInverse(q.v); Vector4 f = mul(conj(q.v), dq.v);
    for (int i = 0; i < 3; ++i) { double s = 0; for (int j = 0; j < 4; ++j) s += N(i, j) * dq.v(j); vp_eq_(s, 2 * f(i + 1), "angular velocity is twice the conjugate times the quaternion rate"); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 4; ++k) s += N(i, k) * M(k, j); vp_eq_(s, i == j ? q.n2 : 0.0, "inverse map undoes the map up to the squared norm"); }
    iDynTree::MatrixFixSize<4, 4> J = QuaternionLeftTrivializedDerivativeTimesOmegaJacobian(w.v); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) vp_eq_(J(i, j), vp_diff_(Mw(i), q.id[j]), "Jacobian of the quaternion rate with respect to the quaternion");
    iDynTree::MatrixFixSize<3, 4> K = QuaternionLeftTrivializedDerivativeInverseTimesQuaternionDerivativeJacobian(dq.v);
    for (int i = 0; i < 3; ++i) { double s = 0; for (int k = 0; k < 4; ++k) s += N(i, k) * dq.v(k); for (int j = 0; j < 4; ++j) vp_eq_(K(i, j), vp_diff_(s, q.id[j]), "Jacobian of the angular velocity with respect to the quaternion"); } }
//@ spec Q01 spec_Q01_normalized
extern "C" void spec_Q01_normalized() { Q4 q; draw(q, "q"); Vector4 n = NormalizedQuaternion(q.v); double s = 0; double dot = 0; for (int i = 0; i < 4; ++i) { s += n(i) * n(i); dot += n(i) * q.v(i); }
    vp_eq_(s, 1.0, "normalised quaternion has unit norm"); for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) vp_eq_(n(i) * q.v(j), n(j) * q.v(i), "normalised quaternion is parallel to the original"); vp_assert_(dot > 0, "normalised quaternion keeps its direction");
    vp_eq_(QuaternionSquaredNorm(q.v), q.n2, "squared norm"); double nn = QuaternionNorm(q.v); vp_eq_(nn * nn, q.n2, "norm squares to the squared norm"); vp_assert_(nn >= 0, "norm is not negative");
    iDynTree::Matrix4x4 D = NormalizedQuaternionDerivative(q.v); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) vp_eq_(D(i, j), vp_diff_(n(i), q.id[j]), "derivative of the normalisation"); }
static void rotated() { Q4 q; draw(q, "q", false); V3 x; draw(x, "x"); double s = q.v(0), rx[3], r[3] = {q.v(1), q.v(2), q.v(3)}, y[3], z[3];
    for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; rx[i] = r[j] * x.v(k) - r[k] * x.v(j); } for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; z[i] = r[j] * rx[k] - r[k] * rx[j]; }
    for (int i = 0; i < 3; ++i) y[i] = x.v(i) + 2 * s * rx[i] + 2 * z[i];
    iDynTree::MatrixFixSize<3, 4> J = RotatedVectorQuaternionJacobian(x.v, q.v);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) vp_eq_(J(i, j), vp_diff_(y[i], q.id[j]), "Jacobian of the rotated vector with respect to the quaternion"); }
//@ spec Q01 spec_Q01_rotated
extern "C" void spec_Q01_rotated() { rotated(); }
// the contract that the momentum constraint's obligations use in place of the function
//@ spec C04 spec_C04_rotated
extern "C" void spec_C04_rotated() { rotated(); }
//@ spec Q01 spec_Q01_inverse
extern "C" void spec_Q01_inverse() { Q4 q; draw(q, "q", false); Vector4 c = InverseQuaternion(q.v), one = mul(q.v, c); iDynTree::Matrix4x4 D = InverseQuaternionDerivative();
    vp_eq_(one(0), q.n2, "quaternion times its inverse is the squared norm"); for (int i = 1; i < 4; ++i) vp_eq_(one(i), 0.0, "quaternion times its inverse has no vector part");
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) vp_eq_(D(i, j), vp_diff_(c(i), q.id[j]), "derivative of the inverse"); }
//@ spec Q01 spec_Q01_error
extern "C" void spec_Q01_error() { Rotation a, b, e; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { a(i, j) = vp_real("frame"); b(i, j) = vp_real("desired"); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += b(k, i) * a(k, j); e(i, j) = s; }
    Vector4 r = ErrorQuaternion(a, b), x = e.asQuaternion(); for (int i = 0; i < 4; ++i) vp_eq_(r(i), x(i), "error quaternion is that of the frame seen from the desired rotation"); }
//@ spec Q01 spec_Q01_bounds
extern "C" void spec_Q01_bounds() { Q4 q; draw(q, "q", false); bool in = q.v(0) >= -1.0 && q.v(0) <= 1.0 + 1E-6; for (int i = 1; i < 4; ++i) in = in && q.v(i) >= -1.0 - 1E-6 && q.v(i) <= 1.0 + 1E-6; double n2 = q.n2; bool r = QuaternionBoundsRespected(q.v); vp_assert_(r == in, "bounds check accepts exactly the quaternions within the unit box"); vp_assert_(!(n2 <= 1.0) || r, "every unit quaternion is accepted"); }
