// Contracts of the cost, integrator and optimiser classes of iDynTree's optimal control library
// (checked against the library itself: the native runs use the library's own).
#include <iDynTree/L2NormCost.h>
#include <iDynTree/Integrators/ImplicitTrapezoidal.h>
#include <iDynTree/Optimizers/IpoptInterface.h>
#include <iDynTree/DynamicalSystem.h>
#include <iDynTree/Core/MatrixDynSize.h>
#include <vector>
namespace iDynTree { namespace optimalcontrol {
struct VpSide { bool on = false; unsigned total = 0, n = 0; std::vector<double> S, W; std::shared_ptr<TimeVaryingVector> ref;
    void block(const IndexRange& r, unsigned t) { total = t; if (!r.isValid()) return; on = true; n = (unsigned)r.size; S.assign((size_t)n * t, 0); for (unsigned i = 0; i < n; ++i) S[i * t + (unsigned)r.offset + i] = 1; identity(); }
    void matrix(const MatrixDynSize& m) { if (!m.rows() || !m.cols()) return; on = true; total = m.cols(); n = m.rows(); S.assign((size_t)n * total, 0); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < total; ++j) S[i * total + j] = m(i, j); identity(); }
    void identity() { W.assign((size_t)n * n, 0); for (unsigned i = 0; i < n; ++i) W[i * n + i] = 1; }
    bool weight(const MatrixDynSize& m) { if (!on || m.rows() != n || m.cols() != n) return false; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) W[i * n + j] = m(i, j); return true; }
    bool weight(const VectorDynSize& v) { if (!on || v.size() != n) return false; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) W[i * n + j] = i == j ? v(i) : 0; return true; }
    bool point(const VectorDynSize& p) { if (!on || p.size() != n) return false; ref = std::make_shared<TimeInvariantVector>(p); return true; }
    bool trajectory(std::shared_ptr<TimeVaryingVector> t) { if (!t || !on) return false; ref = t; return true; }
    bool error(double time, const VectorDynSize& x, std::vector<double>& e) { e.assign(n, 0); if (x.size() != total) return false; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < total; ++j) e[i] += S[i * total + j] * x(j);
        if (ref) { bool v = false; const VectorDynSize& r = ref->get(time, v); if (!v || r.size() != n) return false; for (unsigned i = 0; i < n; ++i) e[i] -= r(i); } return true; }
    bool value(double time, const VectorDynSize& x, double& c) { if (!on) return true; std::vector<double> e; if (!error(time, x, e)) return false; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) c += 0.5 * e[i] * W[i * n + j] * e[j]; return true; }
    bool gradient(double time, const VectorDynSize& x, VectorDynSize& g) { g.resize(x.size()); g.zero(); if (!on) return true; std::vector<double> e; if (!error(time, x, e)) return false; for (unsigned k = 0; k < total; ++k) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) g(k) = g(k) + S[i * total + k] * W[i * n + j] * e[j]; return true; }
    bool hessian(MatrixDynSize& H, unsigned size) { H.resize(size, size); H.zero(); if (!on) return true; for (unsigned a = 0; a < total; ++a) for (unsigned b = 0; b < total; ++b) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) H(a, b) += S[i * total + a] * W[i * n + j] * S[j * total + b]; return true; } };
class L2NormCost::L2NormCostImplementation { public: VpSide x, u; };
L2NormCost::L2NormCost(const std::string& n, unsigned a, unsigned b) : Cost(n), m_pimpl(new L2NormCostImplementation()) { m_pimpl->x.block(IndexRange{0, (std::ptrdiff_t)a}, a); m_pimpl->x.on = a > 0; m_pimpl->u.block(IndexRange{0, (std::ptrdiff_t)b}, b); m_pimpl->u.on = b > 0; }
L2NormCost::L2NormCost(const std::string& n, const MatrixDynSize& a, const MatrixDynSize& b) : Cost(n), m_pimpl(new L2NormCostImplementation()) { m_pimpl->x.matrix(a); m_pimpl->u.matrix(b); }
L2NormCost::L2NormCost(const std::string& n, const IndexRange& a, unsigned ta, const IndexRange& b, unsigned tb) : Cost(n), m_pimpl(new L2NormCostImplementation()) { m_pimpl->x.block(a, ta); m_pimpl->u.block(b, tb); }
L2NormCost::~L2NormCost() { delete m_pimpl; }
bool L2NormCost::setStateWeight(const MatrixDynSize& w) { return m_pimpl->x.weight(w); }
bool L2NormCost::setStateWeight(const VectorDynSize& w) { return m_pimpl->x.weight(w); }
bool L2NormCost::setStateDesiredPoint(const VectorDynSize& p) { return m_pimpl->x.point(p); }
bool L2NormCost::setStateDesiredTrajectory(std::shared_ptr<TimeVaryingVector> t) { return m_pimpl->x.trajectory(t); }
bool L2NormCost::setControlWeight(const MatrixDynSize& w) { return m_pimpl->u.weight(w); }
bool L2NormCost::setControlWeight(const VectorDynSize& w) { return m_pimpl->u.weight(w); }
bool L2NormCost::setControlDesiredPoint(const VectorDynSize& p) { return m_pimpl->u.point(p); }
bool L2NormCost::setControlDesiredTrajectory(std::shared_ptr<TimeVaryingVector> t) { return m_pimpl->u.trajectory(t); }
bool L2NormCost::costEvaluation(double t, const VectorDynSize& x, const VectorDynSize& u, double& c) { double v = 0; if (!m_pimpl->x.value(t, x, v) || !m_pimpl->u.value(t, u, v)) return false; c = v; return true; }
bool L2NormCost::costFirstPartialDerivativeWRTState(double t, const VectorDynSize& x, const VectorDynSize&, VectorDynSize& g) { return m_pimpl->x.gradient(t, x, g); }
bool L2NormCost::costFirstPartialDerivativeWRTControl(double t, const VectorDynSize&, const VectorDynSize& u, VectorDynSize& g) { return m_pimpl->u.gradient(t, u, g); }
bool L2NormCost::costSecondPartialDerivativeWRTState(double, const VectorDynSize& x, const VectorDynSize&, MatrixDynSize& H) { return m_pimpl->x.hessian(H, x.size()); }
bool L2NormCost::costSecondPartialDerivativeWRTControl(double, const VectorDynSize&, const VectorDynSize& u, MatrixDynSize& H) { return m_pimpl->u.hessian(H, u.size()); }
bool L2NormCost::costSecondPartialDerivativeWRTStateControl(double, const VectorDynSize& x, const VectorDynSize& u, MatrixDynSize& H) { H.resize(x.size(), u.size()); H.zero(); return true; }
bool L2NormCost::costSecondPartialDerivativeWRTStateSparsity(SparsityStructure& s) { VpSide& d = m_pimpl->x; s.clear(); for (unsigned a = 0; a < d.total; ++a) for (unsigned b = 0; b < d.total; ++b) for (unsigned i = 0; d.on && i < d.n; ++i) for (unsigned j = 0; j < d.n; ++j) if (d.S[i * d.total + a] != 0 && d.S[j * d.total + b] != 0) s.add(a, b); return true; }
bool L2NormCost::costSecondPartialDerivativeWRTStateControlSparsity(SparsityStructure& s) { s.clear(); return true; }
bool L2NormCost::costSecondPartialDerivativeWRTControlSparsity(SparsityStructure& s) { VpSide& d = m_pimpl->u; s.clear(); for (unsigned a = 0; a < d.total; ++a) for (unsigned b = 0; b < d.total; ++b) for (unsigned i = 0; d.on && i < d.n; ++i) for (unsigned j = 0; j < d.n; ++j) if (d.S[i * d.total + a] != 0 && d.S[j * d.total + b] != 0) s.add(a, b); return true; }
namespace integrators {
IntegratorInfoData::IntegratorInfoData() : isExplicit(false), numberOfStages(0) {}
IntegratorInfo::IntegratorInfo(std::shared_ptr<IntegratorInfoData> d) : m_data(d) {}
Integrator::Integrator() : m_dTmax(0), m_infoData(new IntegratorInfoData()), m_info(m_infoData) {}
Integrator::~Integrator() {}
bool Integrator::setDynamicalSystem(const std::shared_ptr<DynamicalSystem> d) { if (m_dynamicalSystem_ptr) return false; m_dynamicalSystem_ptr = d; return true; }
const std::weak_ptr<DynamicalSystem> Integrator::dynamicalSystem() const { return m_dynamicalSystem_ptr; }
bool Integrator::getSolution(double, VectorDynSize&) const { return false; }
const std::vector<SolutionElement>& Integrator::getFullSolution() const { return m_solution; }
void Integrator::clearSolution() { m_solution.clear(); }
bool Integrator::evaluateCollocationConstraint(double, const std::vector<VectorDynSize>&, const std::vector<VectorDynSize>&, double, VectorDynSize&) { return false; }
bool Integrator::evaluateCollocationConstraintJacobian(double, const std::vector<VectorDynSize>&, const std::vector<VectorDynSize>&, double, std::vector<MatrixDynSize>&, std::vector<MatrixDynSize>&) { return false; }
bool Integrator::getCollocationConstraintJacobianStateSparsity(std::vector<SparsityStructure>&) { return false; }
bool Integrator::getCollocationConstraintJacobianControlSparsity(std::vector<SparsityStructure>&) { return false; }
bool Integrator::evaluateCollocationConstraintSecondDerivatives(double, const std::vector<VectorDynSize>&, const std::vector<VectorDynSize>&, double, const VectorDynSize&, CollocationHessianMap&, CollocationHessianMap&, CollocationHessianMap&) { return false; }
bool Integrator::getCollocationConstraintSecondDerivativeWRTStateSparsity(CollocationHessianSparsityMap&) { return false; }
bool Integrator::getCollocationConstraintSecondDerivativeWRTControlSparsity(CollocationHessianSparsityMap&) { return false; }
bool Integrator::getCollocationConstraintSecondDerivativeWRTStateControlSparsity(CollocationHessianSparsityMap&) { return false; }
bool Integrator::interpolatePoints(const std::vector<SolutionElement>::const_iterator&, const std::vector<SolutionElement>::const_iterator&, double, VectorDynSize&) const { return false; }
bool Integrator::allocateBuffers() { return true; }
FixedStepIntegrator::FixedStepIntegrator() {}
FixedStepIntegrator::~FixedStepIntegrator() {}
bool FixedStepIntegrator::integrate(double, double) { return false; }
ImplicitTrapezoidal::ImplicitTrapezoidal() {}
ImplicitTrapezoidal::~ImplicitTrapezoidal() {}
bool ImplicitTrapezoidal::allocateBuffers() { return true; }
bool ImplicitTrapezoidal::oneStepIntegration(double, double, const VectorDynSize&, VectorDynSize&) { return false; }
bool ImplicitTrapezoidal::evaluateCollocationConstraint(double, const std::vector<VectorDynSize>&, const std::vector<VectorDynSize>&, double, VectorDynSize&) { return false; }
bool ImplicitTrapezoidal::evaluateCollocationConstraintJacobian(double, const std::vector<VectorDynSize>&, const std::vector<VectorDynSize>&, double, std::vector<MatrixDynSize>&, std::vector<MatrixDynSize>&) { return false; }
bool ImplicitTrapezoidal::getCollocationConstraintJacobianStateSparsity(std::vector<SparsityStructure>&) { return false; }
bool ImplicitTrapezoidal::getCollocationConstraintJacobianControlSparsity(std::vector<SparsityStructure>&) { return false; }
bool ImplicitTrapezoidal::evaluateCollocationConstraintSecondDerivatives(double, const std::vector<VectorDynSize>&, const std::vector<VectorDynSize>&, double, const VectorDynSize&, CollocationHessianMap&, CollocationHessianMap&, CollocationHessianMap&) { return false; }
bool ImplicitTrapezoidal::getCollocationConstraintSecondDerivativeWRTStateSparsity(CollocationHessianSparsityMap&) { return false; }
bool ImplicitTrapezoidal::getCollocationConstraintSecondDerivativeWRTControlSparsity(CollocationHessianSparsityMap&) { return false; }
bool ImplicitTrapezoidal::getCollocationConstraintSecondDerivativeWRTStateControlSparsity(CollocationHessianSparsityMap&) { return false; }
}
}
namespace optimization {
Optimizer::Optimizer() {}
Optimizer::~Optimizer() {}
bool Optimizer::setProblem(std::shared_ptr<OptimizationProblem>) { return true; }
const std::weak_ptr<OptimizationProblem> Optimizer::problem() const { return m_problem; }
bool Optimizer::getPrimalVariables(VectorDynSize&) { return false; }
bool Optimizer::getDualVariables(VectorDynSize&, VectorDynSize&, VectorDynSize&) { return false; }
bool Optimizer::getOptimalCost(double&) { return false; }
bool Optimizer::getOptimalConstraintsValues(VectorDynSize&) { return false; }
double Optimizer::minusInfinity() { return -1E19; }
double Optimizer::plusInfinity() { return 1E19; }
IpoptInterface::IpoptInterface() : m_pimpl(nullptr) {}
IpoptInterface::~IpoptInterface() {}
bool IpoptInterface::isAvailable() const { return true; }
bool IpoptInterface::setProblem(std::shared_ptr<OptimizationProblem>) { return true; }
bool IpoptInterface::solve() { return false; }
bool IpoptInterface::getPrimalVariables(VectorDynSize&) { return false; }
bool IpoptInterface::getDualVariables(VectorDynSize&, VectorDynSize&, VectorDynSize&) { return false; }
bool IpoptInterface::getOptimalCost(double&) { return false; }
bool IpoptInterface::getOptimalConstraintsValues(VectorDynSize&) { return false; }
double IpoptInterface::minusInfinity() { return -1E19; }
double IpoptInterface::plusInfinity() { return 1E19; }
}
}
