// Contracts of the iDynTree 7 containers, in executable form.  The library is
// only available as a binary, so these are assumed (see DESIGN.md); every
// specification is also run natively against the real library.
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <iDynTree/Core/VectorDynSize.h>
#include <iDynTree/Core/MatrixDynSize.h>
#include <iDynTree/Core/VectorFixSize.h>
#include <iDynTree/Core/MatrixFixSize.h>
#include <iDynTree/Core/Utils.h>
#include <iDynTree/Core/Position.h>
#include <iDynTree/Core/Rotation.h>
#include <iDynTree/Core/Transform.h>
#include <iDynTree/Core/Direction.h>
#include <iDynTree/Core/GeomVector3.h>
#include <iDynTree/Core/EigenHelpers.h>
#include <iDynTree/SparsityStructure.h>
#include <iDynTree/TimeRange.h>
#include <iDynTree/TimeVaryingObject.h>
#include <iDynTree/Constraint.h>
#include <iDynTree/Cost.h>
#include <iDynTree/DynamicalSystem.h>
#include "../specs/vp.h"
namespace iDynTree {
double DEFAULT_TOL = 1e-10;
void reportError(const char*, const char*, const char*) {}
void reportWarning(const char*, const char*, const char*) {}
bool checkDoublesAreEqual(const double& a, const double& b, double tol) { return std::fabs(a - b) < tol; }

VectorDynSize::VectorDynSize() : m_data(nullptr), m_size(0), m_capacity(0) {}
VectorDynSize::VectorDynSize(std::size_t n) : m_data(n ? new double[n] : nullptr), m_size(n), m_capacity(n) { zero(); }
VectorDynSize::VectorDynSize(const double* d, const std::size_t n) : m_data(n ? new double[n] : nullptr), m_size(n), m_capacity(n) { if (n) std::memcpy(m_data, d, n * sizeof(double)); }
VectorDynSize::VectorDynSize(const VectorDynSize& v) : VectorDynSize(v.m_data, v.m_size) {}
VectorDynSize::VectorDynSize(Span<const double> v) : VectorDynSize(v.data(), v.size()) {}
VectorDynSize::~VectorDynSize() { if (m_data) { delete[] m_data; m_data = nullptr; } }
VectorDynSize& VectorDynSize::operator=(const VectorDynSize& v) { resize(v.m_size); if (m_size && this != &v) std::memmove(m_data, v.m_data, m_size * sizeof(double)); return *this; }
VectorDynSize& VectorDynSize::operator=(Span<const double> v) { resize(v.size()); if (m_size) std::memmove(m_data, v.data(), m_size * sizeof(double)); return *this; }
void VectorDynSize::changeCapacityAndCopyData(const std::size_t n) {
    if (n == 0) { delete[] m_data; m_data = nullptr; m_size = 0; m_capacity = 0; return; }
    double* d = new double[n]; if (m_data && n >= m_size) std::memcpy(d, m_data, m_size * sizeof(double)); delete[] m_data; m_data = d; m_capacity = n; }
void VectorDynSize::reserve(const std::size_t n) { if (n > m_capacity) changeCapacityAndCopyData(n); }
void VectorDynSize::resize(const std::size_t n) { reserve(n); m_size = n; }
void VectorDynSize::shrink_to_fit() { changeCapacityAndCopyData(m_size); }
size_t VectorDynSize::capacity() const { return m_capacity; }
static inline void bounds(bool ok) { if (!ok) std::abort(); }
double VectorDynSize::operator()(const std::size_t i) const { bounds(i < m_size); return m_data[i]; }
double& VectorDynSize::operator()(const std::size_t i) { bounds(i < m_size); return m_data[i]; }
double VectorDynSize::operator[](const std::size_t i) const { bounds(i < m_size); return m_data[i]; }
double& VectorDynSize::operator[](const std::size_t i) { bounds(i < m_size); return m_data[i]; }
double VectorDynSize::getVal(const std::size_t i) const { return i < m_size ? m_data[i] : 0.0; }
bool VectorDynSize::setVal(const std::size_t i, const double v) { if (i >= m_size) return false; m_data[i] = v; return true; }
const double* VectorDynSize::begin() const noexcept { return m_data; }
const double* VectorDynSize::end() const noexcept { return m_data + m_size; }
const double* VectorDynSize::cbegin() const noexcept { return m_data; }
const double* VectorDynSize::cend() const noexcept { return m_data + m_size; }
double* VectorDynSize::begin() noexcept { return m_data; }
double* VectorDynSize::end() noexcept { return m_data + m_size; }
std::size_t VectorDynSize::size() const { return m_size; }
const double* VectorDynSize::data() const { return m_data; }
double* VectorDynSize::data() { return m_data; }
void VectorDynSize::zero() { for (std::size_t i = 0; i < m_size; ++i) m_data[i] = 0.0; }
void VectorDynSize::fillBuffer(double* b) const { for (std::size_t i = 0; i < m_size; ++i) b[i] = m_data[i]; }
std::string VectorDynSize::toString() const { return ""; }
std::string VectorDynSize::reservedToString() const { return ""; }

MatrixDynSize::MatrixDynSize() : m_data(nullptr), m_rows(0), m_cols(0), m_capacity(0) {}
MatrixDynSize::MatrixDynSize(std::size_t r, std::size_t c) : m_data(r * c ? new double[r * c] : nullptr), m_rows(r), m_cols(c), m_capacity(r * c) { zero(); }
MatrixDynSize::MatrixDynSize(const double* d, const std::size_t r, const std::size_t c) : m_data(r * c ? new double[r * c] : nullptr), m_rows(r), m_cols(c), m_capacity(r * c) { if (r * c) std::memcpy(m_data, d, r * c * sizeof(double)); }
MatrixDynSize::MatrixDynSize(const MatrixDynSize& o) : MatrixDynSize(o.m_data, o.m_rows, o.m_cols) {}
MatrixDynSize::MatrixDynSize(MatrixView<const double> o) : MatrixDynSize(o.rows(), o.cols()) { for (std::size_t i = 0; i < m_rows; ++i) for (std::size_t j = 0; j < m_cols; ++j) m_data[i * m_cols + j] = o(i, j); }
MatrixDynSize& MatrixDynSize::operator=(const MatrixDynSize& o) { if (this == &o) return *this; resize(o.m_rows, o.m_cols); if (m_rows * m_cols) std::memcpy(m_data, o.m_data, m_rows * m_cols * sizeof(double)); return *this; }
MatrixDynSize& MatrixDynSize::operator=(MatrixView<const double> o) { resize(o.rows(), o.cols()); for (std::size_t i = 0; i < m_rows; ++i) for (std::size_t j = 0; j < m_cols; ++j) m_data[i * m_cols + j] = o(i, j); return *this; }
MatrixDynSize::~MatrixDynSize() { if (m_data) { delete[] m_data; m_data = nullptr; } }
void MatrixDynSize::changeCapacityAndCopyData(const std::size_t n) { double* d = new double[n]; if (m_data && n >= m_rows * m_cols) std::memcpy(d, m_data, m_rows * m_cols * sizeof(double)); delete[] m_data; m_data = d; m_capacity = n; }
void MatrixDynSize::reserve(const size_t n) { if (n > m_capacity) changeCapacityAndCopyData(n); }
void MatrixDynSize::resize(const std::size_t r, const std::size_t c) { if (r == m_rows && c == m_cols) return; reserve(r * c); m_rows = r; m_cols = c; }
size_t MatrixDynSize::capacity() const { return m_capacity; }
double MatrixDynSize::operator()(const std::size_t i, const std::size_t j) const { bounds(i < m_rows && j < m_cols); return m_data[i * m_cols + j]; }
double& MatrixDynSize::operator()(const std::size_t i, const std::size_t j) { bounds(i < m_rows && j < m_cols); return m_data[i * m_cols + j]; }
double MatrixDynSize::getVal(const std::size_t i, const std::size_t j) const { return i < m_rows && j < m_cols ? m_data[i * m_cols + j] : 0.0; }
bool MatrixDynSize::setVal(const std::size_t i, const std::size_t j, const double v) { if (!(i < m_rows && j < m_cols)) return false; m_data[i * m_cols + j] = v; return true; }
std::size_t MatrixDynSize::rows() const { return m_rows; }
std::size_t MatrixDynSize::cols() const { return m_cols; }
const double* MatrixDynSize::data() const { return m_data; }
double* MatrixDynSize::data() { return m_data; }
void MatrixDynSize::zero() { for (std::size_t i = 0; i < m_rows * m_cols; ++i) m_data[i] = 0.0; }
std::string MatrixDynSize::toString() const { return ""; }
std::string MatrixDynSize::reservedToString() const { return ""; }

bool IndexRange::isValid() const { return offset >= 0 && size >= 0; }
IndexRange IndexRange::InvalidRange() { IndexRange r; r.offset = -1; r.size = -1; return r; }

// ---- positions and rotations
PositionRaw::PositionRaw() {}
PositionRaw::PositionRaw(double x, double y, double z) { m_data[0] = x; m_data[1] = y; m_data[2] = z; }
PositionRaw::PositionRaw(const PositionRaw& o) : VectorFixSize<3>() { for (int i = 0; i < 3; ++i) m_data[i] = o.m_data[i]; }
Position::Position() : PositionRaw() {}
Position::Position(double x, double y, double z) : PositionRaw(x, y, z) {}
Position::Position(const Position& o) : PositionRaw(o) {}
Position::Position(const PositionRaw& o) : PositionRaw(o) {}
Position::Position(Span<const double> o) : PositionRaw(o[0], o[1], o[2]) {}
Position Position::Zero() { return Position(0, 0, 0); }
Position Position::operator+(const Position& o) const { return Position(m_data[0] + o.m_data[0], m_data[1] + o.m_data[1], m_data[2] + o.m_data[2]); }
Position Position::operator-(const Position& o) const { return Position(m_data[0] - o.m_data[0], m_data[1] - o.m_data[1], m_data[2] - o.m_data[2]); }
Position Position::operator-() const { return Position(-m_data[0], -m_data[1], -m_data[2]); }
std::string Position::toString() const { return ""; }
RotationRaw::RotationRaw() {}
RotationRaw::RotationRaw(double a, double b, double c, double d, double e, double f, double g, double h, double i) { double v[9] = {a, b, c, d, e, f, g, h, i}; for (int k = 0; k < 9; ++k) m_data[k] = v[k]; }
RotationRaw::RotationRaw(const RotationRaw& o) : MatrixFixSize<3, 3>() { for (int k = 0; k < 9; ++k) m_data[k] = o.m_data[k]; }
Rotation::Rotation() : RotationRaw() {}
Rotation::Rotation(double a, double b, double c, double d, double e, double f, double g, double h, double i) : RotationRaw(a, b, c, d, e, f, g, h, i) {}
Rotation::Rotation(const RotationRaw& o) : RotationRaw(o) {}
Rotation::Rotation(const Rotation& o) : RotationRaw(o) {}
Rotation::Rotation(MatrixView<const double> o) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m_data[3 * i + j] = o(i, j); }
Rotation Rotation::Identity() { return Rotation(1, 0, 0, 0, 1, 0, 0, 0, 1); }
Rotation Rotation::inverse() const { return Rotation(m_data[0], m_data[3], m_data[6], m_data[1], m_data[4], m_data[7], m_data[2], m_data[5], m_data[8]); }
Rotation Rotation::operator*(const Rotation& o) const { Rotation r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += m_data[3 * i + k] * o.m_data[3 * k + j]; r.m_data[3 * i + j] = s; } return r; }
Position Rotation::operator*(const Position& o) const { double p[3]; for (int i = 0; i < 3; ++i) p[i] = m_data[3 * i] * o(0) + m_data[3 * i + 1] * o(1) + m_data[3 * i + 2] * o(2); return Position(p[0], p[1], p[2]); }
Direction Rotation::operator*(const Direction& o) const { Direction d(1, 0, 0); for (int i = 0; i < 3; ++i) d(i) = m_data[3 * i] * o(0) + m_data[3 * i + 1] * o(1) + m_data[3 * i + 2] * o(2); return d; }
void Rotation::fromQuaternion(const Vector4& q0) {
    double n = q0(0) * q0(0) + q0(1) * q0(1) + q0(2) * q0(2) + q0(3) * q0(3);
    double s = q0(0), x = q0(1), y = q0(2), z = q0(3);
    if (n > 0) { double r = std::sqrt(n); s /= r; x /= r; y /= r; z /= r; }
    m_data[0] = 1 - 2 * (y * y + z * z); m_data[1] = 2 * x * y - 2 * s * z; m_data[2] = 2 * x * z + 2 * s * y;
    m_data[3] = 2 * x * y + 2 * s * z; m_data[4] = 1 - 2 * (x * x + z * z); m_data[5] = 2 * y * z - 2 * s * x;
    m_data[6] = 2 * x * z - 2 * s * y; m_data[7] = 2 * y * z + 2 * s * x; m_data[8] = 1 - 2 * (x * x + y * y);
}
Rotation Rotation::RotationFromQuaternion(const Vector4& q) { Rotation r; r.fromQuaternion(q); return r; }
MatrixFixSize<4, 3> Rotation::QuaternionRightTrivializedDerivative(Vector4 q) {
    double s = q(0), x = q(1), y = q(2), z = q(3); double v[12] = {-x, -y, -z, s, z, -y, -z, s, x, y, -x, s};
    MatrixFixSize<4, 3> m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) m(i, j) = 0.5 * v[3 * i + j]; return m; }
MatrixFixSize<3, 4> Rotation::QuaternionRightTrivializedDerivativeInverse(Vector4 q) {
    double s = q(0), x = q(1), y = q(2), z = q(3); double v[12] = {-x, s, -z, y, -y, z, s, -x, -z, -y, x, s};
    MatrixFixSize<3, 4> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) m(i, j) = 2 * v[4 * i + j]; return m; }
Direction::Direction(double x, double y, double z) { double n = std::sqrt(x * x + y * y + z * z); m_data[0] = x / n; m_data[1] = y / n; m_data[2] = z / n; }
Transform::Transform() : pos(), rot() {}
Transform::Transform(const Rotation& r, const Position& p) : pos(p), rot(r) {}
Transform::Transform(const Transform& o) : pos(o.pos), rot(o.rot) {}
Transform& Transform::operator=(const Transform& o) { pos = o.pos; rot = o.rot; return *this; }
const Rotation& Transform::getRotation() const { return rot; }
const Position& Transform::getPosition() const { return pos; }
void Transform::setRotation(const Rotation& r) { rot = r; }
void Transform::setPosition(const Position& p) { pos = p; }
Transform Transform::Identity() { return Transform(Rotation::Identity(), Position::Zero()); }
Transform Transform::operator*(const Transform& o) const { return Transform(rot * o.rot, pos + rot * o.pos); }
Position Transform::operator*(const Position& p) const { return pos + rot * p; }
Transform Transform::inverse() const { Rotation r = rot.inverse(); return Transform(r, -(r * pos)); }
std::string Transform::toString() const { return ""; }

// ---- optimal control interfaces
namespace optimalcontrol {
SparsityStructure::SparsityStructure() {}
SparsityStructure::~SparsityStructure() {}
bool SparsityStructure::isValuePresent(size_t r, size_t c) const { for (size_t i = 0; i < m_nonZeroElementRows.size(); ++i) if (m_nonZeroElementRows[i] == r && m_nonZeroElementColumns[i] == c) return true; return false; }
void SparsityStructure::addNonZero(size_t r, size_t c) { m_nonZeroElementRows.push_back(r); m_nonZeroElementColumns.push_back(c); }
void SparsityStructure::add(size_t r, size_t c) { if (!isValuePresent(r, c)) addNonZero(r, c); }
void SparsityStructure::add(NonZero e) { add(e.row, e.col); }
void SparsityStructure::addDenseBlock(size_t r0, size_t c0, size_t n, size_t m) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) add(r0 + i, c0 + j); }
bool SparsityStructure::addDenseBlock(const IndexRange& r, const IndexRange& c) { if (!r.isValid() || !c.isValid()) return false; addDenseBlock((size_t)r.offset, (size_t)c.offset, (size_t)r.size, (size_t)c.size); return true; }
void SparsityStructure::addIdentityBlock(size_t r0, size_t c0, size_t n) { for (size_t i = 0; i < n; ++i) add(r0 + i, c0 + i); }
bool SparsityStructure::addBlock(size_t r0, size_t c0, const SparsityStructure& o) { for (size_t i = 0; i < o.size(); ++i) add(r0 + o[i].row, c0 + o[i].col); return true; }
bool SparsityStructure::merge(const SparsityStructure& o) { for (size_t i = 0; i < o.size(); ++i) add(o[i].row, o[i].col); return true; }
void SparsityStructure::reserve(size_t) {}
void SparsityStructure::clear() { m_nonZeroElementRows.clear(); m_nonZeroElementColumns.clear(); }
size_t SparsityStructure::size() const { return m_nonZeroElementRows.size(); }
bool SparsityStructure::isValid() const { return m_nonZeroElementRows.size() == m_nonZeroElementColumns.size(); }
NonZero SparsityStructure::operator[](size_t i) const { NonZero e; e.row = m_nonZeroElementRows[i]; e.col = m_nonZeroElementColumns[i]; return e; }
const std::vector<size_t>& SparsityStructure::nonZeroElementRows() const { return m_nonZeroElementRows; }
const std::vector<size_t>& SparsityStructure::nonZeroElementColumns() const { return m_nonZeroElementColumns; }

TimeRange::TimeRange() : m_initTime(0), m_endTime(0), m_anyTime(false) {}
TimeRange::TimeRange(const double i, const double e) : m_anyTime(false) { if (!setTimeInterval(i, e)) { m_initTime = -1; m_endTime = -1; m_anyTime = true; } }
double TimeRange::initTime() const { return m_initTime; }
double TimeRange::endTime() const { return m_endTime; }
double TimeRange::length() const { return m_endTime - m_initTime; }
bool TimeRange::setTimeInterval(const double i, const double e) { if (i > e) return false; m_initTime = i; m_endTime = e; m_anyTime = false; return true; }
bool TimeRange::operator<(const TimeRange& o) const { return m_initTime < o.m_initTime; }
bool TimeRange::operator==(const TimeRange& o) const { return m_initTime == o.m_initTime && m_endTime == o.m_endTime; }
bool TimeRange::operator!=(const TimeRange& o) const { return !(*this == o); }
bool TimeRange::isValid() const { return m_endTime >= m_initTime; }
bool TimeRange::isInstant() const { return !m_anyTime && checkDoublesAreEqual(m_initTime, m_endTime, DEFAULT_TOL); }
bool TimeRange::isInRange(double t) const { if (m_anyTime) return true; if (isInstant()) return checkDoublesAreEqual(m_initTime, t, DEFAULT_TOL); return t >= m_initTime && t <= m_endTime; }
TimeRange TimeRange::AnyTime() { TimeRange r; r.m_initTime = -1; r.m_endTime = -1; r.m_anyTime = true; return r; }
TimeRange TimeRange::Instant(const double t) { return TimeRange(t, t); }

template <typename O> TimeInvariantObject<O>::TimeInvariantObject() {}
template <typename O> TimeInvariantObject<O>::TimeInvariantObject(const O& o) : m_invariantObject(o) {}
template <typename O> TimeInvariantObject<O>::~TimeInvariantObject() {}
template <typename O> O& TimeInvariantObject<O>::get() { return m_invariantObject; }
template <typename O> const O& TimeInvariantObject<O>::get(double, bool& v) { v = true; return m_invariantObject; }
template class TimeInvariantObject<double>;
template class TimeInvariantObject<VectorDynSize>;
template class TimeInvariantObject<MatrixDynSize>;
template class TimeInvariantObject<Transform>;
template class TimeInvariantObject<Rotation>;
template class TimeInvariantObject<Position>;

Constraint::Constraint(size_t n, const std::string name) : m_constraintSize(n), m_constraintName(name), m_valueBuffer((unsigned int)n), m_isLowerBounded(false), m_isUpperBounded(false) { m_lowerBound.resize((unsigned int)n); m_upperBound.resize((unsigned int)n); }
Constraint::~Constraint() {}
size_t Constraint::constraintSize() const { return m_constraintSize; }
const std::string& Constraint::name() const { return m_constraintName; }
bool Constraint::setLowerBound(const VectorDynSize& b) { if (b.size() != m_constraintSize) return false; m_lowerBound = b; m_isLowerBounded = true; return true; }
bool Constraint::setUpperBound(const VectorDynSize& b) { if (b.size() != m_constraintSize) return false; m_upperBound = b; m_isUpperBounded = true; return true; }
bool Constraint::getLowerBound(VectorDynSize& b) { if (!m_isLowerBounded) return false; b = m_lowerBound; return true; }
bool Constraint::getUpperBound(VectorDynSize& b) { if (!m_isUpperBounded) return false; b = m_upperBound; return true; }
bool Constraint::isFeasiblePoint(double t, const VectorDynSize& x, const VectorDynSize& u) {
    if (m_isLowerBounded || m_isUpperBounded) { evaluateConstraint(t, x, u, m_valueBuffer);
        for (unsigned i = 0; i < m_constraintSize; ++i) { if (m_isUpperBounded && m_valueBuffer(i) > m_upperBound(i)) return false; if (m_isLowerBounded && m_valueBuffer(i) < m_lowerBound(i)) return false; } }
    return true; }
bool Constraint::constraintJacobianWRTState(double, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool Constraint::constraintJacobianWRTControl(double, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
size_t Constraint::expectedStateSpaceSize() const { return 0; }
size_t Constraint::expectedControlSpaceSize() const { return 0; }
bool Constraint::constraintJacobianWRTStateSparsity(SparsityStructure&) { return false; }
bool Constraint::constraintJacobianWRTControlSparsity(SparsityStructure&) { return false; }
bool Constraint::constraintSecondPartialDerivativeWRTState(double, const VectorDynSize&, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool Constraint::constraintSecondPartialDerivativeWRTControl(double, const VectorDynSize&, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool Constraint::constraintSecondPartialDerivativeWRTStateControl(double, const VectorDynSize&, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool Constraint::constraintSecondPartialDerivativeWRTStateSparsity(SparsityStructure&) { return false; }
bool Constraint::constraintSecondPartialDerivativeWRTStateControlSparsity(SparsityStructure&) { return false; }
bool Constraint::constraintSecondPartialDerivativeWRTControlSparsity(SparsityStructure&) { return false; }

Cost::Cost(const std::string& n) : m_costName(n) {}
Cost::~Cost() {}
const std::string& Cost::name() const { return m_costName; }
bool Cost::costFirstPartialDerivativeWRTState(double, const VectorDynSize&, const VectorDynSize&, VectorDynSize&) { return false; }
bool Cost::costFirstPartialDerivativeWRTControl(double, const VectorDynSize&, const VectorDynSize&, VectorDynSize&) { return false; }
bool Cost::costSecondPartialDerivativeWRTState(double, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool Cost::costSecondPartialDerivativeWRTControl(double, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool Cost::costSecondPartialDerivativeWRTStateControl(double, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool Cost::costSecondPartialDerivativeWRTStateSparsity(SparsityStructure&) { return false; }
bool Cost::costSecondPartialDerivativeWRTStateControlSparsity(SparsityStructure&) { return false; }
bool Cost::costSecondPartialDerivativeWRTControlSparsity(SparsityStructure&) { return false; }

DynamicalSystem::DynamicalSystem(size_t n, size_t m) : m_stateSize(n), m_controlSize(m), m_initialState(n), m_controlInput(m) {}
DynamicalSystem::~DynamicalSystem() {}
size_t DynamicalSystem::stateSpaceSize() const { return m_stateSize; }
size_t DynamicalSystem::controlSpaceSize() const { return m_controlSize; }
bool DynamicalSystem::setControlInput(const VectorDynSize& u) { if (u.size() != m_controlSize) return false; m_controlInput = u; return true; }
const VectorDynSize& DynamicalSystem::controlInput() const { return m_controlInput; }
double DynamicalSystem::controlInput(unsigned int i) const { return i < m_controlInput.size() ? m_controlInput(i) : 0; }
const VectorDynSize& DynamicalSystem::initialState() const { return m_initialState; }
double DynamicalSystem::initialState(unsigned int i) const { return i < m_initialState.size() ? m_initialState(i) : 0; }
bool DynamicalSystem::setInitialState(const VectorDynSize& x) { if (x.size() != m_stateSize) return false; m_initialState = x; return true; }
bool DynamicalSystem::dynamicsStateFirstDerivative(const VectorDynSize&, double, MatrixDynSize&) { return false; }
bool DynamicalSystem::dynamicsControlFirstDerivative(const VectorDynSize&, double, MatrixDynSize&) { return false; }
bool DynamicalSystem::dynamicsStateFirstDerivativeSparsity(SparsityStructure&) { return false; }
bool DynamicalSystem::dynamicsControlFirstDerivativeSparsity(SparsityStructure&) { return false; }
bool DynamicalSystem::dynamicsSecondPartialDerivativeWRTState(double, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool DynamicalSystem::dynamicsSecondPartialDerivativeWRTControl(double, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool DynamicalSystem::dynamicsSecondPartialDerivativeWRTStateControl(double, const VectorDynSize&, const VectorDynSize&, MatrixDynSize&) { return false; }
bool DynamicalSystem::dynamicsSecondPartialDerivativeWRTStateSparsity(SparsityStructure&) { return false; }
bool DynamicalSystem::dynamicsSecondPartialDerivativeWRTStateControlSparsity(SparsityStructure&) { return false; }
bool DynamicalSystem::dynamicsSecondPartialDerivativeWRTControlSparsity(SparsityStructure&) { return false; }
}
}
namespace iDynTree {
// the branch structure of the library's conversion is not needed: the contract is "a function of the nine entries"
Vector4 Rotation::asQuaternion() const { Vector4 q; for (int i = 0; i < 4; ++i) { char n[] = "asQuaternion0"; n[12] = (char)('0' + i); q(i) = vp_uf_(n, m_data, 9, ""); } return q; }
bool Rotation::getQuaternion(Vector4& q) const { q = asQuaternion(); return true; }
}
