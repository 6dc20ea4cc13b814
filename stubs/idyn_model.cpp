// Contract of iDynTree's multibody part (model, revolute joints, kinematics and
// dynamics queries), in executable form: every query returns what the kinematics
// of the loaded tree gives for the state passed to setRobotState.
#include <cmath>
#include <cstdlib>
#include <iDynTree/Core/Axis.h>
#include <iDynTree/Core/Direction.h>
#include <iDynTree/Core/Transform.h>
#include <iDynTree/Core/Twist.h>
#include <iDynTree/Core/Wrench.h>
#include <iDynTree/Core/SpatialAcc.h>
#include <iDynTree/Core/SpatialMomentum.h>
#include <iDynTree/Core/SpatialInertia.h>
#include <iDynTree/Core/RotationalInertiaRaw.h>
#include <iDynTree/Core/SpatialInertiaRaw.h>
#include <iDynTree/Core/MatrixDynSize.h>
#include <iDynTree/Core/VectorDynSize.h>
#include <iDynTree/Core/TransformDerivative.h>
#include <iDynTree/Model/Model.h>
#include <iDynTree/Model/Link.h>
#include <iDynTree/Model/Traversal.h>
#include <iDynTree/Model/RevoluteJoint.h>
#include <iDynTree/Model/LinkState.h>
#include <iDynTree/Model/FreeFloatingState.h>
#include <iDynTree/Model/JointState.h>
#include <iDynTree/Model/ForwardKinematics.h>
#include <iDynTree/Model/Dynamics.h>
#include <iDynTree/KinDynComputations.h>
namespace iDynTree {
LinkIndex LINK_INVALID_INDEX = -1; JointIndex JOINT_INVALID_INDEX = -1; DOFIndex DOF_INVALID_INDEX = -1; FrameIndex FRAME_INVALID_INDEX = -1; TraversalIndex TRAVERSAL_INVALID_INDEX = -1;
std::string LINK_INVALID_NAME = "link_invalid"; std::string JOINT_INVALID_NAME = "joint_invalid"; std::string FRAME_INVALID_NAME = "frame_invalid";
SpatialAcc::SpatialAcc(const LinAcceleration& l, const AngAcceleration& a) : SpatialMotionVector(l, a) {}
SpatialAcc::SpatialAcc(const SpatialMotionVector& o) : SpatialMotionVector(o) {}
SpatialAcc::SpatialAcc(const SpatialAcc& o) : SpatialMotionVector(o) {}
SpatialAcc SpatialAcc::operator+(const SpatialAcc& o) const { return SpatialAcc(linearVec3 + o.linearVec3, angularVec3 + o.angularVec3); }
SpatialAcc SpatialAcc::operator-(const SpatialAcc& o) const { return SpatialAcc(linearVec3 - o.linearVec3, angularVec3 - o.angularVec3); }
SpatialAcc SpatialAcc::operator-() const { return SpatialAcc(-linearVec3, -angularVec3); }
SpatialAcc Transform::operator*(const SpatialAcc& o) const { return SpatialAcc((*this) * static_cast<const SpatialMotionVector&>(o)); }

RotationalInertiaRaw::RotationalInertiaRaw(const double* d, const unsigned int, const unsigned int) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) (*this)(i, j) = d[3 * i + j]; }
RotationalInertiaRaw::RotationalInertiaRaw(const RotationalInertiaRaw& o) : Matrix3x3() { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) (*this)(i, j) = o(i, j); }
static RotationalInertiaRaw atOrigin(double m, const PositionRaw& c, const RotationalInertiaRaw& I) { // parallel axes
    RotationalInertiaRaw R; double n = c(0) * c(0) + c(1) * c(1) + c(2) * c(2); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = I(i, j) + m * ((i == j ? n : 0.0) - c(i) * c(j)); return R; }
SpatialInertiaRaw::SpatialInertiaRaw(const double m, const PositionRaw& com, const RotationalInertiaRaw& I) : m_mass(m), m_rotInertia(I) { for (int i = 0; i < 3; ++i) m_mcom[i] = m * com(i); }
SpatialInertiaRaw::SpatialInertiaRaw(const SpatialInertiaRaw& o) : m_mass(o.m_mass), m_rotInertia(o.m_rotInertia) { for (int i = 0; i < 3; ++i) m_mcom[i] = o.m_mcom[i]; }
void SpatialInertiaRaw::fromRotationalInertiaWrtCenterOfMass(const double m, const PositionRaw& com, const RotationalInertiaRaw& I) { m_mass = m; for (int i = 0; i < 3; ++i) m_mcom[i] = m * com(i); RotationalInertiaRaw R = atOrigin(m, com, I); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m_rotInertia(i, j) = R(i, j); }
SpatialInertia::SpatialInertia(const double m, const PositionRaw& com, const RotationalInertiaRaw& I) : SpatialInertiaRaw(m, com, I) {}
SpatialInertia::SpatialInertia(const SpatialInertiaRaw& o) : SpatialInertiaRaw(o) {}
SpatialInertia::SpatialInertia(const SpatialInertia& o) : SpatialInertiaRaw(o) {}

// ---- axes and revolute joints
Direction::Direction(const Direction& o) : VectorFixSize<3>() { for (int i = 0; i < 3; ++i) m_data[i] = o.m_data[i]; }
Axis::Axis(const Direction& d, const Position& o) : direction(d), origin(o) {}
Axis::Axis(const Axis& o) : direction(o.direction), origin(o.origin) {}
const Direction& Axis::getDirection() const { return direction; }
const Position& Axis::getOrigin() const { return origin; }
void Axis::setDirection(const Direction& d) { direction = d; }
void Axis::setOrigin(const Position& o) { origin = o; }
static Rotation rodrigues(const Direction& d, double q) { double s = std::sin(q), c = std::cos(q), v = 1 - c, x = d(0), y = d(1), z = d(2);
    return Rotation(c + x * x * v, x * y * v - z * s, x * z * v + y * s, x * y * v + z * s, c + y * y * v, y * z * v - x * s, x * z * v - y * s, y * z * v + x * s, c + z * z * v); }
Transform Axis::getRotationTransform(const double q) const { Rotation R = rodrigues(direction, q); return Transform(R, origin - R * origin); }
Twist Axis::getRotationTwist(const double w) const { const Position& o = origin; const Direction& d = direction; return Twist(GeomVector3(w * (o(1) * d(2) - o(2) * d(1)), w * (o(2) * d(0) - o(0) * d(2)), w * (o(0) * d(1) - o(1) * d(0))), GeomVector3(w * d(0), w * d(1), w * d(2))); }
template class MovableJointImpl<1, 1>;
IJoint::~IJoint() {}
RevoluteJoint::RevoluteJoint() { link1 = link2 = -1; m_index = -1; m_posCoordsOffset = 0; m_DOFsOffset = 0; link1_X_link2_at_rest = Transform::Identity(); rotation_axis_wrt_link1 = Axis(Direction(1, 0, 0), Position::Zero()); m_hasPosLimits = false; m_minPos = m_maxPos = 0; q_previous = 0; }
RevoluteJoint::RevoluteJoint(const Transform& T, const Axis& a) : RevoluteJoint() { link1_X_link2_at_rest = T; rotation_axis_wrt_link1 = a; }
RevoluteJoint::RevoluteJoint(const RevoluteJoint& o) : MovableJointImpl<1, 1>(o), link1(o.link1), link2(o.link2), link1_X_link2_at_rest(o.link1_X_link2_at_rest), rotation_axis_wrt_link1(o.rotation_axis_wrt_link1), m_hasPosLimits(o.m_hasPosLimits), m_minPos(o.m_minPos), m_maxPos(o.m_maxPos), q_previous(0) {}
RevoluteJoint::~RevoluteJoint() {}
IJoint* RevoluteJoint::clone() const { return new RevoluteJoint(*this); }
void RevoluteJoint::setAttachedLinks(const LinkIndex a, const LinkIndex b) { link1 = a; link2 = b; }
void RevoluteJoint::setRestTransform(const Transform& T) { link1_X_link2_at_rest = T; }
void RevoluteJoint::setAxis(const Axis& a) { rotation_axis_wrt_link1 = a; }
LinkIndex RevoluteJoint::getFirstAttachedLink() const { return link1; }
LinkIndex RevoluteJoint::getSecondAttachedLink() const { return link2; }
Transform RevoluteJoint::getRestTransform(const LinkIndex child, const LinkIndex) const { return child == link1 ? link1_X_link2_at_rest.inverse() : link1_X_link2_at_rest; }
static Transform jointTransform(const RevoluteJoint& j, double q, LinkIndex child) { Transform T = j.rotation_axis_wrt_link1.getRotationTransform(q) * j.link1_X_link2_at_rest; return child == j.link2 ? T : T.inverse(); } // parent_H_child
SpatialMotionVector RevoluteJoint::getMotionSubspaceVector(int, const LinkIndex child, const LinkIndex) const {
    Twist t = rotation_axis_wrt_link1.getRotationTwist(1.0); // velocity of link2 seen from link1, in link1 coordinates
    if (child == link1) return SpatialMotionVector(-t);
    return SpatialMotionVector(link1_X_link2_at_rest.inverse() * t); }
bool RevoluteJoint::hasPosLimits() const { return m_hasPosLimits; }
bool RevoluteJoint::enablePosLimits(const bool e) { m_hasPosLimits = e; return true; }
bool RevoluteJoint::getPosLimits(const size_t, double& a, double& b) const { if (!m_hasPosLimits) return false; a = m_minPos; b = m_maxPos; return true; }
double RevoluteJoint::getMinPosLimit(const size_t) const { return m_minPos; }
double RevoluteJoint::getMaxPosLimit(const size_t) const { return m_maxPos; }
bool RevoluteJoint::setPosLimits(const size_t, double& a, double& b) { m_minPos = a; m_maxPos = b; return true; }
typedef SpatialMotionVector SMV;
// the remaining virtual functions of a joint are not used by the planner
void nojoint() { std::abort(); }
const Transform& RevoluteJoint::getTransform(const VectorDynSize& p, const LinkIndex child, const LinkIndex) const { link1_X_link2 = jointTransform(*this, p(m_posCoordsOffset), child); return link1_X_link2; }
TransformDerivative RevoluteJoint::getTransformDerivative(const VectorDynSize&, const LinkIndex, const LinkIndex, const int) const { nojoint(); return TransformDerivative(); }
void RevoluteJoint::computeChildPosVelAcc(const VectorDynSize&, const VectorDynSize&, const VectorDynSize&, LinkPositions&, LinkVelArray&, LinkAccArray&, const LinkIndex, const LinkIndex) const { nojoint(); }
void RevoluteJoint::computeChildVel(const VectorDynSize&, const VectorDynSize&, LinkVelArray&, const LinkIndex, const LinkIndex) const { nojoint(); }
void RevoluteJoint::computeChildVelAcc(const VectorDynSize&, const VectorDynSize&, const VectorDynSize&, LinkVelArray&, LinkAccArray&, const LinkIndex, const LinkIndex) const { nojoint(); }
void RevoluteJoint::computeChildAcc(const VectorDynSize&, const VectorDynSize&, const LinkVelArray&, const VectorDynSize&, LinkAccArray&, const LinkIndex, const LinkIndex) const { nojoint(); }
void RevoluteJoint::computeChildBiasAcc(const VectorDynSize&, const VectorDynSize&, const LinkVelArray&, LinkAccArray&, const LinkIndex, const LinkIndex) const { nojoint(); }
void RevoluteJoint::computeJointTorque(const VectorDynSize&, const Wrench&, const LinkIndex, const LinkIndex, VectorDynSize&) const { nojoint(); }
void RevoluteJoint::setAxis(const Axis& a, const LinkIndex, const LinkIndex) { rotation_axis_wrt_link1 = a; }
Axis RevoluteJoint::getAxis(const LinkIndex, const LinkIndex) const { return rotation_axis_wrt_link1; }

// ---- links and models
Link::Link() : m_index(-1) {}
SpatialInertia& Link::inertia() { return m_inertia; }
const SpatialInertia& Link::inertia() const { return m_inertia; }
void Link::setInertia(SpatialInertia& i) { m_inertia = i; }
const SpatialInertia& Link::getInertia() const { return m_inertia; }
void Link::setIndex(LinkIndex& i) { m_index = i; }
LinkIndex Link::getIndex() const { return m_index; }
ModelSolidShapes::ModelSolidShapes() {}
ModelSolidShapes::~ModelSolidShapes() {}
ModelSolidShapes::ModelSolidShapes(const ModelSolidShapes&) {}
ModelSolidShapes& ModelSolidShapes::operator=(const ModelSolidShapes&) { return *this; }
Model::Model() : defaultBaseLink(-1), nrOfPosCoords(0), nrOfDOFs(0) {}
void Model::copy(const Model& o) {
    links = o.links; joints.resize(0); for (size_t i = 0; i < o.joints.size(); ++i) joints.push_back(o.joints[i]->clone());
    additionalFrames = o.additionalFrames; additionalFramesLinks = o.additionalFramesLinks; linkNames = o.linkNames; jointNames = o.jointNames; frameNames = o.frameNames; neighbors = o.neighbors;
    defaultBaseLink = o.defaultBaseLink; nrOfPosCoords = o.nrOfPosCoords; nrOfDOFs = o.nrOfDOFs; }
void Model::destroy() { for (size_t i = 0; i < joints.size(); ++i) delete joints[i]; joints.resize(0); }
Model::Model(const Model& o) { copy(o); }
Model& Model::operator=(const Model& o) { if (this != &o) { destroy(); copy(o); } return *this; }
Model::~Model() { destroy(); }
size_t Model::getNrOfLinks() const { return links.size(); }
size_t Model::getNrOfJoints() const { return joints.size(); }
size_t Model::getNrOfPosCoords() const { return nrOfPosCoords; }
size_t Model::getNrOfDOFs() const { return nrOfDOFs; }
size_t Model::getNrOfFrames() const { return links.size() + additionalFrames.size(); }
std::string Model::getLinkName(const LinkIndex i) const { return isValidLinkIndex(i) ? linkNames[(size_t)i] : LINK_INVALID_NAME; }
LinkIndex Model::getLinkIndex(const std::string& n) const { for (size_t i = 0; i < linkNames.size(); ++i) if (linkNames[i] == n) return (LinkIndex)i; return -1; }
bool Model::isValidLinkIndex(const LinkIndex i) const { return i >= 0 && i < (LinkIndex)links.size(); }
LinkPtr Model::getLink(const LinkIndex i) { return &links[(size_t)i]; }
LinkConstPtr Model::getLink(const LinkIndex i) const { return &links[(size_t)i]; }
std::string Model::getJointName(const JointIndex i) const { return isValidJointIndex(i) ? jointNames[(size_t)i] : JOINT_INVALID_NAME; }
JointIndex Model::getJointIndex(const std::string& n) const { for (size_t i = 0; i < jointNames.size(); ++i) if (jointNames[i] == n) return (JointIndex)i; return -1; }
IJointPtr Model::getJoint(const JointIndex i) { return joints[(size_t)i]; }
IJointConstPtr Model::getJoint(const JointIndex i) const { return joints[(size_t)i]; }
bool Model::isValidJointIndex(const JointIndex i) const { return i >= 0 && i < (JointIndex)joints.size(); }
bool Model::isLinkNameUsed(const std::string n) const { return getLinkIndex(n) != -1; }
bool Model::isJointNameUsed(const std::string n) const { return getJointIndex(n) != -1; }
bool Model::isFrameNameUsed(const std::string n) const { if (isLinkNameUsed(n)) return true; for (size_t i = 0; i < frameNames.size(); ++i) if (frameNames[i] == n) return true; return false; }
LinkIndex Model::addLink(const std::string& n, const Link& l) { if (isFrameNameUsed(n)) return -1; LinkIndex i = (LinkIndex)links.size(); links.push_back(l); links.back().setIndex(i); linkNames.push_back(n); neighbors.push_back(std::vector<Neighbor>()); if (links.size() == 1) defaultBaseLink = i; return i; }
JointIndex Model::addJoint(const std::string& n, IJointConstPtr j) {
    if (isJointNameUsed(n)) return -1; LinkIndex a = j->getFirstAttachedLink(), b = j->getSecondAttachedLink(); if (a == b || !isValidLinkIndex(a) || !isValidLinkIndex(b)) return -1;
    JointIndex k = (JointIndex)joints.size(); joints.push_back(j->clone()); jointNames.push_back(n); joints.back()->setIndex(k); joints.back()->setPosCoordsOffset(nrOfPosCoords); joints.back()->setDOFsOffset(nrOfDOFs); nrOfPosCoords += j->getNrOfPosCoords(); nrOfDOFs += j->getNrOfDOFs();
    Neighbor x, y; x.neighborLink = b; x.neighborJoint = k; y.neighborLink = a; y.neighborJoint = k; neighbors[(size_t)a].push_back(x); neighbors[(size_t)b].push_back(y); return k; }
bool Model::addAdditionalFrameToLink(const std::string& l, const std::string& f, Transform T) { LinkIndex i = getLinkIndex(l); if (i < 0 || isFrameNameUsed(f)) return false; additionalFrames.push_back(T); additionalFramesLinks.push_back(i); frameNames.push_back(f); return true; }
bool Model::isValidFrameIndex(const FrameIndex i) const { return i >= 0 && i < (FrameIndex)getNrOfFrames(); }
std::string Model::getFrameName(const FrameIndex i) const { if (!isValidFrameIndex(i)) return FRAME_INVALID_NAME; return i < (FrameIndex)links.size() ? linkNames[(size_t)i] : frameNames[(size_t)i - links.size()]; }
FrameIndex Model::getFrameIndex(const std::string& n) const { LinkIndex l = getLinkIndex(n); if (l >= 0) return l; for (size_t i = 0; i < frameNames.size(); ++i) if (frameNames[i] == n) return (FrameIndex)(links.size() + i); return -1; }
Transform Model::getFrameTransform(const FrameIndex i) const { if (!isValidFrameIndex(i) || i < (FrameIndex)links.size()) return Transform::Identity(); return additionalFrames[(size_t)i - links.size()]; }
LinkIndex Model::getFrameLink(const FrameIndex i) const { if (!isValidFrameIndex(i)) return -1; return i < (FrameIndex)links.size() ? i : additionalFramesLinks[(size_t)i - links.size()]; }
bool Model::setDefaultBaseLink(const LinkIndex i) { if (!isValidLinkIndex(i)) return false; defaultBaseLink = i; return true; }
LinkIndex Model::getDefaultBaseLink() const { return defaultBaseLink; }
double Model::getTotalMass() const { double m = 0; for (size_t i = 0; i < links.size(); ++i) m += links[i].getInertia().getMass(); return m; }
bool Model::computeFullTreeTraversal(Traversal& t) const { return computeFullTreeTraversal(t, defaultBaseLink); }
bool Model::computeFullTreeTraversal(Traversal& t, const LinkIndex base) const {
    if (!isValidLinkIndex(base)) return false;
    t.links.clear(); t.parents.clear(); t.toParentJoints.clear(); t.linkIndexToTraversalIndex.clear(); for (size_t i = 0; i < links.size(); ++i) t.linkIndexToTraversalIndex.push_back(-1);
    t.links.push_back(&links[(size_t)base]); t.parents.push_back(nullptr); t.toParentJoints.push_back(nullptr); t.linkIndexToTraversalIndex[(size_t)base] = 0;
    for (size_t k = 0; k < t.links.size(); ++k) { size_t l = (size_t)t.links[k]->getIndex(); for (size_t q = 0; q < neighbors[l].size(); ++q) { size_t c = (size_t)neighbors[l][q].neighborLink; if (t.linkIndexToTraversalIndex[c] >= 0) continue;
        t.linkIndexToTraversalIndex[c] = (int)t.links.size(); t.links.push_back(&links[c]); t.parents.push_back(&links[l]); t.toParentJoints.push_back(joints[(size_t)neighbors[l][q].neighborJoint]); } }
    return t.links.size() == links.size(); }
Traversal::Traversal() {}
Traversal::~Traversal() {}
unsigned int Traversal::getNrOfVisitedLinks() const { return (unsigned)links.size(); }
const Link* Traversal::getLink(const TraversalIndex i) const { return links[(size_t)i]; }
const Link* Traversal::getBaseLink() const { return links[0]; }
const Link* Traversal::getParentLink(const TraversalIndex i) const { return parents[(size_t)i]; }
const IJoint* Traversal::getParentJoint(const TraversalIndex i) const { return toParentJoints[(size_t)i]; }
TraversalIndex Traversal::getTraversalIndexFromLinkIndex(const LinkIndex i) const { return linkIndexToTraversalIndex[(size_t)i]; }
const Link* Traversal::getParentLinkFromLinkIndex(const LinkIndex i) const { return parents[(size_t)linkIndexToTraversalIndex[(size_t)i]]; }
const IJoint* Traversal::getParentJointFromLinkIndex(const LinkIndex i) const { return toParentJoints[(size_t)linkIndexToTraversalIndex[(size_t)i]]; }
static LinkIndex childOf(const Traversal& t, const Model& m, JointIndex j, bool child) { LinkIndex a = m.getJoint(j)->getFirstAttachedLink(), b = m.getJoint(j)->getSecondAttachedLink(); const Link* p = t.getParentLinkFromLinkIndex(b); bool bIsChild = p && p->getIndex() == a; return bIsChild == child ? b : a; }
LinkIndex Traversal::getChildLinkIndexFromJointIndex(const Model& m, const JointIndex j) const { return childOf(*this, m, j, true); }
LinkIndex Traversal::getParentLinkIndexFromJointIndex(const Model& m, const JointIndex j) const { return childOf(*this, m, j, false); }

// ---- per-link and free-floating containers (contents are unspecified after a resize)
JointPosDoubleArray::JointPosDoubleArray(std::size_t n) : VectorDynSize(n) {}
JointPosDoubleArray::~JointPosDoubleArray() {}
void JointPosDoubleArray::resize(std::size_t n) { VectorDynSize::resize(n); }
JointDOFsDoubleArray::JointDOFsDoubleArray(std::size_t n) : VectorDynSize(n) {}
JointDOFsDoubleArray::~JointDOFsDoubleArray() {}
void JointDOFsDoubleArray::resize(std::size_t n) { VectorDynSize::resize(n); }
FreeFloatingPos::FreeFloatingPos() {}
FreeFloatingPos::~FreeFloatingPos() {}
void FreeFloatingPos::resize(const Model& m) { m_jointPos.resize(m.getNrOfPosCoords()); }
Transform& FreeFloatingPos::worldBasePos() { return m_worldBasePos; }
const Transform& FreeFloatingPos::worldBasePos() const { return m_worldBasePos; }
JointPosDoubleArray& FreeFloatingPos::jointPos() { return m_jointPos; }
const JointPosDoubleArray& FreeFloatingPos::jointPos() const { return m_jointPos; }
FreeFloatingVel::FreeFloatingVel() {}
FreeFloatingVel::~FreeFloatingVel() {}
void FreeFloatingVel::resize(const Model& m) { m_jointVel.resize(m.getNrOfDOFs()); }
Twist& FreeFloatingVel::baseVel() { return m_baseVel; }
const Twist& FreeFloatingVel::baseVel() const { return m_baseVel; }
JointDOFsDoubleArray& FreeFloatingVel::jointVel() { return m_jointVel; }
const JointDOFsDoubleArray& FreeFloatingVel::jointVel() const { return m_jointVel; }
FreeFloatingAcc::FreeFloatingAcc() {}
FreeFloatingAcc::~FreeFloatingAcc() {}
void FreeFloatingAcc::resize(const Model& m) { m_jointAcc.resize(m.getNrOfDOFs()); }
SpatialAcc& FreeFloatingAcc::baseAcc() { return m_baseAcc; }
const SpatialAcc& FreeFloatingAcc::baseAcc() const { return m_baseAcc; }
JointDOFsDoubleArray& FreeFloatingAcc::jointAcc() { return m_jointAcc; }
const JointDOFsDoubleArray& FreeFloatingAcc::jointAcc() const { return m_jointAcc; }
FreeFloatingGeneralizedTorques::FreeFloatingGeneralizedTorques() {}
FreeFloatingGeneralizedTorques::FreeFloatingGeneralizedTorques(const Model& m) { resize(m); }
FreeFloatingGeneralizedTorques::~FreeFloatingGeneralizedTorques() {}
void FreeFloatingGeneralizedTorques::resize(const Model& m) { m_jointTorques.resize(m.getNrOfDOFs()); }
Wrench& FreeFloatingGeneralizedTorques::baseWrench() { return m_baseWrench; }
const Wrench& FreeFloatingGeneralizedTorques::baseWrench() const { return m_baseWrench; }
JointDOFsDoubleArray& FreeFloatingGeneralizedTorques::jointTorques() { return m_jointTorques; }
const JointDOFsDoubleArray& FreeFloatingGeneralizedTorques::jointTorques() const { return m_jointTorques; }
unsigned int FreeFloatingGeneralizedTorques::getNrOfDOFs() const { return (unsigned)m_jointTorques.size(); }
#define LINKARRAY(C, E, M) C::C(std::size_t n) { resize(n); } C::C(const Model& m) { resize(m.getNrOfLinks()); } C::~C() {} void C::resize(std::size_t n) { M.resize(n); } void C::resize(const Model& m) { resize(m.getNrOfLinks()); } size_t C::getNrOfLinks() const { return M.size(); } E& C::operator()(const LinkIndex i) { return M[(size_t)i]; } const E& C::operator()(const LinkIndex i) const { return M[(size_t)i]; }
LINKARRAY(LinkWrenches, Wrench, m_linkWrenches)
LINKARRAY(LinkVelArray, Twist, m_linkTwist)
LINKARRAY(LinkAccArray, SpatialAcc, m_linkAcc)
LINKARRAY(LinkPositions, Transform, m_linkPos)
void LinkWrenches::zero() { for (size_t i = 0; i < m_linkWrenches.size(); ++i) m_linkWrenches[i].zero(); }

bool ForwardAccKinematics(const Model& m, const Traversal& t, const FreeFloatingPos& p, const FreeFloatingVel& v, const FreeFloatingAcc& a, const LinkVelArray& lv, LinkAccArray& la) {
    for (unsigned k = 0; k < t.getNrOfVisitedLinks(); ++k) { LinkIndex c = t.getLink(k)->getIndex(); if (k == 0) { la(c) = a.baseAcc(); continue; } LinkIndex par = t.getParentLink(k)->getIndex(); const IJoint* j = t.getParentJoint(k);
        Transform X = j->getTransform(p.jointPos(), c, par); X = X.inverse(); SpatialMotionVector S = j->getMotionSubspaceVector(0, c, par); double qd = v.jointVel()(j->getDOFsOffset()), qdd = a.jointAcc()(j->getDOFsOffset());
        SpatialMotionVector ap = X * static_cast<const SpatialMotionVector&>(la(par)), cv = static_cast<const SpatialMotionVector&>(lv(c)).cross(S); Vector6 r; for (unsigned i = 0; i < 6; ++i) r(i) = ap(i) + qdd * S(i) + qd * cv(i);
        SpatialMotionVector out(GeomVector3(r(0), r(1), r(2)), GeomVector3(r(3), r(4), r(5))); la(c) = SpatialAcc(out); }
    return true; }
bool RNEADynamicPhase(const Model& m, const Traversal& t, const JointPosDoubleArray& p, const LinkVelArray& lv, const LinkAccArray& la, const LinkWrenches& fe, LinkWrenches& fi, FreeFloatingGeneralizedTorques& tau) {
    for (int k = (int)t.getNrOfVisitedLinks() - 1; k >= 0; --k) { LinkIndex c = t.getLink(k)->getIndex(); const SpatialInertia& I = t.getLink(k)->getInertia();
        SpatialForceVector Ia = I * static_cast<const SpatialMotionVector&>(la(c)), Iv = I * static_cast<const SpatialMotionVector&>(lv(c)), vIv = static_cast<const SpatialMotionVector&>(lv(c)).cross(Iv); double f[6]; for (unsigned i = 0; i < 6; ++i) f[i] = Ia(i) + vIv(i) - fe(c)(i);
        for (unsigned q = k + 1; q < t.getNrOfVisitedLinks(); ++q) if (t.getParentLink(q)->getIndex() == c) { LinkIndex ch = t.getLink(q)->getIndex(); Transform X = t.getParentJoint(q)->getTransform(p, ch, c); SpatialForceVector g = X * static_cast<const SpatialForceVector&>(fi(ch)); for (unsigned i = 0; i < 6; ++i) f[i] += g(i); }
        fi(c) = Wrench(Force(f[0], f[1], f[2]), Torque(f[3], f[4], f[5]));
        if (k == 0) tau.baseWrench() = fi(c); else { const IJoint* j = t.getParentJoint(k); SpatialMotionVector S = j->getMotionSubspaceVector(0, c, t.getParentLink(k)->getIndex()); double s = 0; for (unsigned i = 0; i < 6; ++i) s += S(i) * f[i]; tau.jointTorques()(j->getDOFsOffset()) = s; } }
    return true; }

// ---- kinematics queries
struct KinDynComputations::KinDynComputationsPrivateAttributes {
    Model m; Traversal t; bool valid = false; mutable FrameVelocityRepresentation rep = MIXED_REPRESENTATION;
    Transform wTb; VectorDynSize s, ds; Twist vb; Vector3 g; bool fresh = false; std::vector<Transform> bT;
    void zero() { wTb = Transform::Identity(); s = VectorDynSize(m.getNrOfPosCoords()); ds = VectorDynSize(m.getNrOfDOFs()); s.zero(); ds.zero(); vb.zero(); g.zero(); fresh = false; }
    void update() { if (fresh) return; fresh = true; bT.clear(); for (size_t i = 0; i < m.getNrOfLinks(); ++i) bT.push_back(Transform::Identity());
        for (unsigned k = 1; k < t.getNrOfVisitedLinks(); ++k) { LinkIndex c = t.getLink(k)->getIndex(), p = t.getParentLink(k)->getIndex(); const IJoint* j = t.getParentJoint(k); bT[(size_t)c] = bT[(size_t)p] * j->getTransform(s, c, p); } }
    Transform bTf(FrameIndex f) { update(); return bT[(size_t)m.getFrameLink(f)] * m.getFrameTransform(f); }
    // columns of the body Jacobian of a frame: velocity of the frame (in the frame) per joint rate
    bool column(FrameIndex f, size_t joint, SMV& out) { update(); LinkIndex l = m.getFrameLink(f); while (t.getParentLinkFromLinkIndex(l)) { const IJoint* j = t.getParentJointFromLinkIndex(l); LinkIndex p = t.getParentLinkFromLinkIndex(l)->getIndex();
        if ((size_t)j->getDOFsOffset() == joint) { out = (bTf(f).inverse() * bT[(size_t)l]) * j->getMotionSubspaceVector(0, l, p); return true; } l = p; } return false; }
    Transform toRep(const Transform& wTf) const { if (rep == BODY_FIXED_REPRESENTATION) return Transform::Identity(); if (rep == INERTIAL_FIXED_REPRESENTATION) return wTf; return Transform(wTf.getRotation(), Position::Zero()); } // rep_X_body
    Twist bodyVel(FrameIndex f) { SMV v = bTf(f).inverse() * static_cast<const SMV&>(vb); Vector6 r; for (unsigned i = 0; i < 6; ++i) r(i) = v(i); for (size_t j = 0; j < m.getNrOfDOFs(); ++j) { SMV c; if (column(f, j, c)) for (unsigned i = 0; i < 6; ++i) r(i) += ds(j) * c(i); } return Twist(GeomVector3(r(0), r(1), r(2)), GeomVector3(r(3), r(4), r(5))); }
    void jacobian(FrameIndex f, MatrixDynSize& J) { // rep coordinates for base and frame
        size_t n = m.getNrOfDOFs(); J.resize(6, 6 + n); J.zero(); Transform wTf = wTb * bTf(f); Transform out = toRep(wTf), in = toRep(wTb); Transform A = out * bTf(f).inverse() * in.inverse(); Matrix6x6 X = A.asAdjointTransform(); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) J(i, j) = X(i, j);
        for (size_t j = 0; j < n; ++j) { SMV c; if (column(f, j, c)) { SMV d = out * c; for (int i = 0; i < 6; ++i) J(i, 6 + j) = d(i); } } }
    void momentumJacobianBody(MatrixDynSize& J) { // base frame coordinates, body velocities
        size_t n = m.getNrOfDOFs(); J.resize(6, 6 + n); J.zero(); update();
        for (size_t l = 0; l < m.getNrOfLinks(); ++l) { const SpatialInertia& I = m.links[l].getInertia(); Transform T = bT[l], Ti = T.inverse();
            for (unsigned k = 0; k < 6; ++k) { double e[6] = {0, 0, 0, 0, 0, 0}; e[k] = 1; SMV u(GeomVector3(e[0], e[1], e[2]), GeomVector3(e[3], e[4], e[5])); SpatialForceVector h = T * (I * (Ti * u)); for (int i = 0; i < 6; ++i) J(i, k) += h(i); }
            for (size_t j = 0; j < n; ++j) { SMV c; if (column((FrameIndex)l, j, c)) { SpatialForceVector h = T * (I * c); for (int i = 0; i < 6; ++i) J(i, 6 + j) += h(i); } } } }
    SpatialForceVector momentumBody() { update(); double r[6] = {0, 0, 0, 0, 0, 0}; for (size_t l = 0; l < m.getNrOfLinks(); ++l) { Twist v = bodyVel((FrameIndex)l); SpatialForceVector h = bT[l] * (m.links[l].getInertia() * static_cast<const SMV&>(v)); for (int i = 0; i < 6; ++i) r[i] += h(i); } return SpatialForceVector(GeomVector3(r[0], r[1], r[2]), GeomVector3(r[3], r[4], r[5])); }
    void linkCom(size_t l, double* c) { const SpatialInertiaRaw& I = m.links[l].getInertia(); for (int i = 0; i < 3; ++i) c[i] = I.m_mcom[i]; } // mass times centre of mass
    Position com() { update(); double mass = m.getTotalMass(), p[3] = {0, 0, 0}; for (size_t l = 0; l < m.getNrOfLinks(); ++l) { double c[3]; linkCom(l, c); double ml = m.links[l].getInertia().getMass(); for (int i = 0; i < 3; ++i) { double s = ml * bT[l].getPosition()(i); for (int j = 0; j < 3; ++j) s += bT[l].getRotation()(i, j) * c[j]; p[i] += s; } } return wTb * Position(p[0] / mass, p[1] / mass, p[2] / mass); }
};
typedef KinDynComputations KD;
KD::KinDynComputations() : pimpl(new KinDynComputationsPrivateAttributes) {}
KD::~KinDynComputations() { delete pimpl; }
bool KD::loadRobotModel(const Model& m) { pimpl->m = m; pimpl->valid = pimpl->m.computeFullTreeTraversal(pimpl->t); pimpl->zero(); return pimpl->valid; }
bool KD::isValid() const { return pimpl->valid; }
const Model& KD::model() const { return pimpl->m; }
unsigned KD::getNrOfDegreesOfFreedom() const { return pimpl->m.getNrOfDOFs(); }
bool KD::setFrameVelocityRepresentation(const FrameVelocityRepresentation r) const { pimpl->rep = r; return true; }
FrameVelocityRepresentation KD::getFrameVelocityRepresentation() const { return pimpl->rep; }
std::string KD::getFloatingBase() const { if (!pimpl->t.links.size()) return ""; return pimpl->m.getLinkName(pimpl->t.links[0]->getIndex()); }
bool KD::setFloatingBase(const std::string& n) { LinkIndex l = pimpl->m.getLinkIndex(n); if (l < 0) return false; pimpl->fresh = false; return pimpl->m.computeFullTreeTraversal(pimpl->t, l); }
bool KD::setRobotState(const Transform& T, const VectorDynSize& s, const Twist& v, const VectorDynSize& ds, const Vector3& g) {
    if (s.size() != pimpl->m.getNrOfPosCoords() || ds.size() != pimpl->m.getNrOfDOFs()) return false;
    pimpl->wTb = T; pimpl->s = s; pimpl->ds = ds; for (int i = 0; i < 3; ++i) pimpl->g(i) = g(i); pimpl->vb = Twist(pimpl->toRep(T).inverse() * static_cast<const SMV&>(v)); pimpl->fresh = false; return true; }
Position KD::getCenterOfMassPosition() { return pimpl->com(); }
Transform KD::getWorldTransform(const FrameIndex f) { if (!pimpl->m.isValidFrameIndex(f)) return Transform::Identity(); return pimpl->wTb * pimpl->bTf(f); }
Transform KD::getWorldTransform(const std::string& n) { return getWorldTransform(pimpl->m.getFrameIndex(n)); }
Transform KD::getRelativeTransform(const FrameIndex a, const FrameIndex b) { if (!pimpl->m.isValidFrameIndex(a) || !pimpl->m.isValidFrameIndex(b)) return Transform::Identity(); return pimpl->bTf(a).inverse() * pimpl->bTf(b); }
Transform KD::getRelativeTransform(const std::string& a, const std::string& b) { return getRelativeTransform(pimpl->m.getFrameIndex(a), pimpl->m.getFrameIndex(b)); }
Twist KD::getFrameVel(const FrameIndex f) { Twist v = pimpl->bodyVel(f); return Twist(pimpl->toRep(pimpl->wTb * pimpl->bTf(f)) * static_cast<const SMV&>(v)); }
Twist KD::getFrameVel(const std::string& n) { return getFrameVel(pimpl->m.getFrameIndex(n)); }
bool KD::getFrameFreeFloatingJacobian(const FrameIndex f, MatrixDynSize& J) { if (!pimpl->m.isValidFrameIndex(f)) return false; pimpl->jacobian(f, J); return true; }
bool KD::getFrameFreeFloatingJacobian(const std::string& n, MatrixDynSize& J) { return getFrameFreeFloatingJacobian(pimpl->m.getFrameIndex(n), J); }
// velocity of frame b relative to frame a (expressed in b for the body representation)
bool KD::getRelativeJacobian(const FrameIndex a, const FrameIndex b, MatrixDynSize& J) {
    if (!pimpl->m.isValidFrameIndex(a) || !pimpl->m.isValidFrameIndex(b)) return false; size_t n = pimpl->m.getNrOfDOFs(); J.resize(6, n); J.zero(); Transform bTa = pimpl->bTf(b).inverse() * pimpl->bTf(a), out = Transform::Identity();
    if (pimpl->rep == INERTIAL_FIXED_REPRESENTATION) out = bTa.inverse(); else if (pimpl->rep == MIXED_REPRESENTATION) out = Transform(bTa.getRotation().inverse(), Position::Zero());
    for (size_t j = 0; j < n; ++j) { SMV cb, ca; bool hb = pimpl->column(b, j, cb), ha = pimpl->column(a, j, ca); if (hb) { SMV d = out * cb; for (int i = 0; i < 6; ++i) J(i, j) += d(i); } if (ha) { SMV d = out * (bTa * ca); for (int i = 0; i < 6; ++i) J(i, j) -= d(i); } }
    return true; }
bool KD::getLinearAngularMomentumJacobian(MatrixDynSize& J) { MatrixDynSize B; pimpl->momentumJacobianBody(B); size_t n = pimpl->m.getNrOfDOFs(); J.resize(6, 6 + n); Transform X = pimpl->toRep(pimpl->wTb), Xi = X.inverse(); Matrix6x6 W = X.asAdjointTransformWrench(), V = Xi.asAdjointTransform();
    for (size_t c = 0; c < 6 + n; ++c) { double col[6]; for (int i = 0; i < 6; ++i) { if (c < 6) { double s = 0; for (int k = 0; k < 6; ++k) s += B(i, k) * V(k, c); col[i] = s; } else col[i] = B(i, c); } for (int i = 0; i < 6; ++i) { double s = 0; for (int k = 0; k < 6; ++k) s += W(i, k) * col[k]; J(i, c) = s; } }
    return true; }
SpatialMomentum KD::getLinearAngularMomentum() { return SpatialMomentum(pimpl->toRep(pimpl->wTb) * pimpl->momentumBody()); }
SpatialMomentum KD::getCentroidalTotalMomentum() { if (pimpl->rep == BODY_FIXED_REPRESENTATION) __builtin_trap(); Position c = pimpl->com(); SpatialForceVector h = pimpl->wTb * pimpl->momentumBody(); return SpatialMomentum(Transform(Rotation::Identity(), -c) * h); } // about the centre of mass, world orientation
bool KD::getCenterOfMassJacobian(MatrixDynSize& J) { MatrixDynSize B; pimpl->momentumJacobianBody(B); size_t n = pimpl->m.getNrOfDOFs(); double mass = pimpl->m.getTotalMass(); J.resize(3, 6 + n); Transform X = pimpl->toRep(pimpl->wTb), Xi = X.inverse(); Matrix6x6 V = Xi.asAdjointTransform(); bool body = pimpl->rep == BODY_FIXED_REPRESENTATION; Rotation R = body ? Rotation::Identity() : pimpl->wTb.getRotation();
    for (size_t c = 0; c < 6 + n; ++c) { double col[3]; for (int i = 0; i < 3; ++i) { if (c < 6) { double s = 0; for (int k = 0; k < 6; ++k) s += B(i, k) * V(k, c); col[i] = s; } else col[i] = B(i, c); } for (int i = 0; i < 3; ++i) { double s = 0; for (int k = 0; k < 3; ++k) s += R(i, k) * col[k]; J(i, c) = s / mass; } }
    return true; }
}
