// Contracts of iDynTree's spatial vectors (6D forces, motions, adjoint maps), in executable form.
#include <iDynTree/Core/GeomVector3.h>
#include <iDynTree/Core/SpatialForceVector.h>
#include <iDynTree/Core/SpatialMotionVector.h>
#include <iDynTree/Core/SpatialMomentum.h>
#include <iDynTree/Core/SpatialInertia.h>
#include <iDynTree/Core/SpatialAcc.h>
#include <iDynTree/Core/Wrench.h>
#include <iDynTree/Core/Twist.h>
#include <iDynTree/Core/Transform.h>
#include <iDynTree/Core/Position.h>
#include <iDynTree/Core/Rotation.h>
namespace iDynTree {
typedef GeomVector3 G;
G::GeomVector3(const double x, const double y, const double z) { m_data[0] = x; m_data[1] = y; m_data[2] = z; }
G::GeomVector3(const double* d, const unsigned int n) { for (unsigned i = 0; i < 3 && i < n; ++i) m_data[i] = d[i]; }
G::GeomVector3(const Vector3 o) { for (int i = 0; i < 3; ++i) m_data[i] = o(i); }
double G::dot(const G& o) const { return m_data[0] * o.m_data[0] + m_data[1] * o.m_data[1] + m_data[2] * o.m_data[2]; }
G G::operator+(const G& o) const { return G(m_data[0] + o.m_data[0], m_data[1] + o.m_data[1], m_data[2] + o.m_data[2]); }
G G::operator-(const G& o) const { return G(m_data[0] - o.m_data[0], m_data[1] - o.m_data[1], m_data[2] - o.m_data[2]); }
G G::operator-() const { return G(-m_data[0], -m_data[1], -m_data[2]); }
G G::cross(const G& o) const { return G(m_data[1] * o.m_data[2] - m_data[2] * o.m_data[1], m_data[2] * o.m_data[0] - m_data[0] * o.m_data[2], m_data[0] * o.m_data[1] - m_data[1] * o.m_data[0]); }
G G::changeCoordFrame(const Rotation& R) const { G r(0, 0, 0); for (int i = 0; i < 3; ++i) { double s = 0; for (int j = 0; j < 3; ++j) s += R(i, j) * m_data[j]; r(i) = s; } return r; }
static inline G cr(const Position& p, const G& v) { return G(p(1) * v(2) - p(2) * v(1), p(2) * v(0) - p(0) * v(2), p(0) * v(1) - p(1) * v(0)); }

SpatialForceVector::SpatialForceVector(const LinearVector3T& l, const AngularVector3T& a) : SpatialVector<SpatialForceVector>(l, a) {}
SpatialForceVector::SpatialForceVector(const SpatialForceVector& o) : SpatialVector<SpatialForceVector>(o) {}
SpatialForceVector::SpatialForceVector(const SpatialVector<SpatialForceVector>& o) : SpatialVector<SpatialForceVector>(o) {}
SpatialForceVector::~SpatialForceVector() {}
SpatialMotionVector::SpatialMotionVector(const LinearMotionVector3& l, const AngularMotionVector3& a) : SpatialVector<SpatialMotionVector>(l, a) {}
SpatialMotionVector::SpatialMotionVector(const SpatialMotionVector& o) : SpatialVector<SpatialMotionVector>(o) {}
SpatialMotionVector::SpatialMotionVector(const SpatialVector<SpatialMotionVector>& o) : SpatialVector<SpatialMotionVector>(o) {}
SpatialMotionVector SpatialMotionVector::cross(const SpatialMotionVector& o) const { return SpatialMotionVector(angularVec3.cross(o.getLinearVec3()) + linearVec3.cross(o.getAngularVec3()), angularVec3.cross(o.getAngularVec3())); }
SpatialForceVector SpatialMotionVector::cross(const SpatialForceVector& o) const { return SpatialForceVector(angularVec3.cross(o.getLinearVec3()), linearVec3.cross(o.getLinearVec3()) + angularVec3.cross(o.getAngularVec3())); }
static void sk(Matrix6x6& m, unsigned r, unsigned c, const G& v) { m(r, c) = 0; m(r, c + 1) = -v(2); m(r, c + 2) = v(1); m(r + 1, c) = v(2); m(r + 1, c + 1) = 0; m(r + 1, c + 2) = -v(0); m(r + 2, c) = -v(1); m(r + 2, c + 1) = v(0); m(r + 2, c + 2) = 0; }
Matrix6x6 SpatialMotionVector::asCrossProductMatrix() const { Matrix6x6 m; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m(i, j) = 0; sk(m, 0, 0, angularVec3); sk(m, 0, 3, linearVec3); sk(m, 3, 3, angularVec3); return m; }
Matrix6x6 SpatialMotionVector::asCrossProductMatrixWrench() const { Matrix6x6 m; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m(i, j) = 0; sk(m, 0, 0, angularVec3); sk(m, 3, 0, linearVec3); sk(m, 3, 3, angularVec3); return m; }
Wrench::Wrench(const Force& l, const Torque& a) : SpatialForceVector(l, a) {}
Wrench::Wrench(const SpatialForceVector& o) : SpatialForceVector(o) {}
Wrench::Wrench(const Wrench& o) : SpatialForceVector(o) {}
Wrench Wrench::operator+(const Wrench& o) const { return Wrench(linearVec3 + o.linearVec3, angularVec3 + o.angularVec3); }
Wrench Wrench::operator-(const Wrench& o) const { return Wrench(linearVec3 - o.linearVec3, angularVec3 - o.angularVec3); }
Wrench Wrench::operator-() const { return Wrench(-linearVec3, -angularVec3); }
SpatialMomentum::SpatialMomentum(const LinMomentum& l, const AngMomentum& a) : SpatialForceVector(l, a) {}
SpatialMomentum::SpatialMomentum(const SpatialForceVector& o) : SpatialForceVector(o) {}
SpatialMomentum::SpatialMomentum(const SpatialMomentum& o) : SpatialForceVector(o) {}
SpatialMomentum SpatialMomentum::operator+(const SpatialMomentum& o) const { return SpatialMomentum(linearVec3 + o.linearVec3, angularVec3 + o.angularVec3); }
SpatialMomentum SpatialMomentum::operator-(const SpatialMomentum& o) const { return SpatialMomentum(linearVec3 - o.linearVec3, angularVec3 - o.angularVec3); }
SpatialMomentum SpatialMomentum::operator-() const { return SpatialMomentum(-linearVec3, -angularVec3); }
Twist::Twist() {}
Twist::Twist(const LinVelocity& l, const AngVelocity& a) : SpatialMotionVector(l, a) {}
Twist::Twist(const SpatialMotionVector& o) : SpatialMotionVector(o) {}
Twist::Twist(const Twist& o) : SpatialMotionVector(o) {}
Twist Twist::operator+(const Twist& o) const { return Twist(linearVec3 + o.linearVec3, angularVec3 + o.angularVec3); }
Twist Twist::operator-(const Twist& o) const { return Twist(linearVec3 - o.linearVec3, angularVec3 - o.angularVec3); }
Twist Twist::operator-() const { return Twist(-linearVec3, -angularVec3); }
// ^A X_B maps: forces f -> (R f, R m + p x R f), motions v -> (R v + p x R w, R w)
static SpatialForceVector mapF(const Transform& T, const SpatialForceVector& f) { G l = f.getLinearVec3().changeCoordFrame(T.getRotation()), a = f.getAngularVec3().changeCoordFrame(T.getRotation()); return SpatialForceVector(l, a + cr(T.getPosition(), l)); }
static SpatialMotionVector mapM(const Transform& T, const SpatialMotionVector& v) { G a = v.getAngularVec3().changeCoordFrame(T.getRotation()), l = v.getLinearVec3().changeCoordFrame(T.getRotation()); return SpatialMotionVector(l + cr(T.getPosition(), a), a); }
SpatialForceVector Transform::operator*(const SpatialForceVector& o) const { return mapF(*this, o); }
SpatialMotionVector Transform::operator*(const SpatialMotionVector& o) const { return mapM(*this, o); }
Wrench Transform::operator*(const Wrench& o) const { return Wrench(mapF(*this, o)); }
SpatialMomentum Transform::operator*(const SpatialMomentum& o) const { return SpatialMomentum(mapF(*this, o)); }
Twist Transform::operator*(const Twist& o) const { return Twist(mapM(*this, o)); }
static void adj(Matrix6x6& m, const Rotation& R, const Position& p, bool wrench) {
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m(i, j) = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { m(i, j) = R(i, j); m(3 + i, 3 + j) = R(i, j); }
    for (int j = 0; j < 3; ++j) { G c = cr(p, G(R(0, j), R(1, j), R(2, j))); for (int i = 0; i < 3; ++i) { if (wrench) m(3 + i, j) = c(i); else m(i, 3 + j) = c(i); } } }
Matrix6x6 Transform::asAdjointTransform() const { Matrix6x6 m; adj(m, rot, pos, false); return m; }
Matrix6x6 Transform::asAdjointTransformWrench() const { Matrix6x6 m; adj(m, rot, pos, true); return m; }
// inertias
RotationalInertiaRaw::RotationalInertiaRaw() {}
double SpatialInertiaRaw::getMass() const { return m_mass; }
PositionRaw SpatialInertiaRaw::getCenterOfMass() const { if (m_mass == 0.0) { PositionRaw p; p(0) = 0; p(1) = 0; p(2) = 0; return p; } return PositionRaw(m_mcom[0] / m_mass, m_mcom[1] / m_mass, m_mcom[2] / m_mass); }
static SpatialForceVector inertiaTimes(double m, const double* mc, const RotationalInertiaRaw& I, const SpatialMotionVector& v) {
    G l = v.getLinearVec3(), w = v.getAngularVec3(), c(mc[0], mc[1], mc[2]); G cw = c.cross(w), cl = c.cross(l), f(0, 0, 0), n(0, 0, 0);
    for (int i = 0; i < 3; ++i) { f(i) = m * l(i) - cw(i); double s = cl(i); for (int j = 0; j < 3; ++j) s += I(i, j) * w(j); n(i) = s; }
    return SpatialForceVector(f, n); }
SpatialForceVector SpatialInertia::operator*(const SpatialMotionVector& v) const { return inertiaTimes(m_mass, m_mcom, m_rotInertia, v); }
SpatialMomentum SpatialInertia::operator*(const Twist& v) const { return SpatialMomentum(inertiaTimes(m_mass, m_mcom, m_rotInertia, v)); }
Matrix6x6 SpatialInertia::asMatrix() const { Matrix6x6 M; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) M(i, j) = 0; for (int i = 0; i < 3; ++i) { M(i, i) = m_mass; for (int j = 0; j < 3; ++j) M(3 + i, 3 + j) = m_rotInertia(i, j); }
    double c0 = m_mcom[0], c1 = m_mcom[1], c2 = m_mcom[2]; double S[9] = {0, -c2, c1, c2, 0, -c0, -c1, c0, 0}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { M(i, 3 + j) = -S[3 * i + j]; M(3 + i, j) = S[3 * i + j]; } return M; }
}
