// Contract model of iDynTree's OptimalControlProblem and MultipleShootingSolver: they hold what they
// are given (names unique, sizes and intervals checked as the library does) and answer what the
// contract under verification quantifies over.  Linked in the native runs too.
#include "../specs/ocp.h"
namespace vpocp { World& world() { static World w; return w; } }
using namespace vpocp;
namespace iDynTree { namespace optimalcontrol {
class OptimalControlProblem::OptimalControlProblemPimpl : public Problem {};
OptimalControlProblem::OptimalControlProblem() : m_pimpl(new OptimalControlProblemPimpl()) { world().problem = m_pimpl; ++world().problems; }
OptimalControlProblem::~OptimalControlProblem() { if (world().problem == m_pimpl) world().problem = nullptr; delete m_pimpl; }
bool OptimalControlProblem::setTimeHorizon(double a, double b) { if (b < a) return false; m_pimpl->t0 = a; m_pimpl->tf = b; ++m_pimpl->horizons; return true; }
double OptimalControlProblem::initialTime() const { return m_pimpl->t0; }
double OptimalControlProblem::finalTime() const { return m_pimpl->tf; }
bool OptimalControlProblem::setDynamicalSystemConstraint(std::shared_ptr<DynamicalSystem> d) { if (m_pimpl->dynamics) return false; m_pimpl->dynamics = d; return world().ok(); }
bool OptimalControlProblem::addConstraint(std::shared_ptr<Constraint> c) { if (!c) return false; for (auto& o : m_pimpl->constraints) if (o->name() == c->name()) return false; m_pimpl->constraints.push_back(c); return world().ok(); }
static bool term(Problem& p, double w, bool whole, const TimeRange& r, std::shared_ptr<Cost> c) { if (!c || (!whole && !r.isValid())) return false; for (auto& o : p.terms) if (o.cost->name() == c->name()) return false; Term t; t.weight = w; t.whole = whole; t.range = r; t.cost = c; p.terms.push_back(t); return world().ok(); }
bool OptimalControlProblem::addLagrangeTerm(double w, std::shared_ptr<Cost> c) { return term(*m_pimpl, w, true, TimeRange::AnyTime(), c); }
bool OptimalControlProblem::addLagrangeTerm(double w, std::shared_ptr<L2NormCost> c) { return term(*m_pimpl, w, true, TimeRange::AnyTime(), c); }
bool OptimalControlProblem::addLagrangeTerm(double w, double a, double b, std::shared_ptr<Cost> c) { return term(*m_pimpl, w, false, TimeRange(a, b), c); }
bool OptimalControlProblem::addLagrangeTerm(double w, double a, double b, std::shared_ptr<L2NormCost> c) { return term(*m_pimpl, w, false, TimeRange(a, b), c); }
bool OptimalControlProblem::addLagrangeTerm(double w, const TimeRange& r, std::shared_ptr<Cost> c) { return term(*m_pimpl, w, false, r, c); }
bool OptimalControlProblem::addLagrangeTerm(double w, const TimeRange& r, std::shared_ptr<L2NormCost> c) { return term(*m_pimpl, w, false, r, c); }
bool OptimalControlProblem::setStateLowerBound(std::shared_ptr<TimeVaryingVector> b) { m_pimpl->xl = b; return b && world().ok(); }
bool OptimalControlProblem::setStateUpperBound(std::shared_ptr<TimeVaryingVector> b) { m_pimpl->xu = b; return b && world().ok(); }
bool OptimalControlProblem::setControlLowerBound(std::shared_ptr<TimeVaryingVector> b) { m_pimpl->ul = b; return b && world().ok(); }
bool OptimalControlProblem::setControlUpperBound(std::shared_ptr<TimeVaryingVector> b) { m_pimpl->uu = b; return b && world().ok(); }
bool OptimalControlProblem::setStateBoxConstraints(std::shared_ptr<TimeVaryingVector> a, std::shared_ptr<TimeVaryingVector> b) { return setStateLowerBound(a) && setStateUpperBound(b); }
bool OptimalControlProblem::setControlBoxConstraints(std::shared_ptr<TimeVaryingVector> a, std::shared_ptr<TimeVaryingVector> b) { return setControlLowerBound(a) && setControlUpperBound(b); }

OptimalControlSolver::OptimalControlSolver(const std::shared_ptr<OptimalControlProblem>) {}
OptimalControlSolver::~OptimalControlSolver() {}
class MultipleShootingSolver::MultipleShootingTranscription : public Shooting { public: ~MultipleShootingTranscription() { if (world().shooting == this) world().shooting = nullptr; } };
MultipleShootingSolver::MultipleShootingSolver(const std::shared_ptr<OptimalControlProblem>& p) : OptimalControlSolver(p), m_transcription(new MultipleShootingTranscription()) { m_transcription->problem = p; world().shooting = m_transcription.get(); }
bool MultipleShootingSolver::setStepSizeBounds(double a, double b) { if (a <= 0 || b <= 0 || 2 * a >= b) return false; m_transcription->minDt = a; m_transcription->maxDt = b; m_transcription->stepSet = true; return world().ok(); }
bool MultipleShootingSolver::setIntegrator(const std::shared_ptr<Integrator> i) { if (!i || m_transcription->integrator) return false; m_transcription->integrator = i; return world().ok(); }
bool MultipleShootingSolver::setControlPeriod(double p) { if (p <= 0) return false; m_transcription->period = p; m_transcription->periodSet = true; return world().ok(); }
bool MultipleShootingSolver::setOptimizer(std::shared_ptr<optimization::Optimizer> o) { m_optimizer = o; m_transcription->optimizer = o; return world().ok(); }
bool MultipleShootingSolver::setInitialState(const VectorDynSize& x) { if (m_transcription->problem && world().problem && world().problem->dynamics && x.size() != world().problem->dynamics->stateSpaceSize()) return false; m_transcription->x0 = x; m_transcription->x0Set = true; return world().ok(); }
bool MultipleShootingSolver::setGuesses(std::shared_ptr<TimeVaryingVector> x, std::shared_ptr<TimeVaryingVector> u) { if (!x || !u) return false; m_transcription->xg = x; m_transcription->ug = u; ++m_transcription->guesses; return world().ok(); }
bool MultipleShootingSolver::getTimings(std::vector<double>& x, std::vector<double>& u) { x = world().xt; u = world().ut; return world().ok(); }
bool MultipleShootingSolver::getPossibleTimings(std::vector<double>& x, std::vector<double>& u) { if (!m_transcription->integrator || !world().problem) return false; m_transcription->integrator->setDynamicalSystem(world().problem->dynamics); x = world().xt; u = world().ut; return world().ok(); }
bool MultipleShootingSolver::solve() { ++m_transcription->solves; return world().ok() && world().solved; }
bool MultipleShootingSolver::getSolution(std::vector<VectorDynSize>& x, std::vector<VectorDynSize>& u) { x = world().xs; u = world().us; return world().ok(); }
void MultipleShootingSolver::addConstraintsHessianRegularization(double r) { m_transcription->conReg = 1; m_transcription->conRegValue = r; }
void MultipleShootingSolver::disableConstraintsHessianRegularization() { m_transcription->conReg = 0; }
void MultipleShootingSolver::addCostsHessianRegularization(double r) { m_transcription->costReg = 1; m_transcription->costRegValue = r; }
void MultipleShootingSolver::disableCostsHessianRegularization() { m_transcription->costReg = 0; }
}
}
