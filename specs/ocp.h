// What the library's optimal control problem and multiple shooting solver were given.
#pragma once
#include <iDynTree/OptimalControlProblem.h>
#include <iDynTree/OCSolvers/MultipleShootingSolver.h>
#include <iDynTree/Optimizer.h>
#include <iDynTree/Integrator.h>
#include <iDynTree/Constraint.h>
#include <iDynTree/Cost.h>
#include <iDynTree/L2NormCost.h>
#include <iDynTree/DynamicalSystem.h>
#include <iDynTree/TimeRange.h>
#include <iDynTree/TimeVaryingObject.h>
#include <memory>
#include <vector>
namespace vpocp {
typedef std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingVector> TV;
struct Term { double weight; bool whole; iDynTree::optimalcontrol::TimeRange range; std::shared_ptr<iDynTree::optimalcontrol::Cost> cost; };
struct Problem { std::vector<Term> terms; std::vector<std::shared_ptr<iDynTree::optimalcontrol::Constraint>> constraints; std::shared_ptr<iDynTree::optimalcontrol::DynamicalSystem> dynamics; double t0 = 0, tf = 0; int horizons = 0; TV xl, xu, ul, uu; };
struct Shooting { std::shared_ptr<iDynTree::optimalcontrol::OptimalControlProblem> problem; double minDt = 0, maxDt = 0, period = 0; bool stepSet = false, periodSet = false; std::shared_ptr<iDynTree::optimization::Optimizer> optimizer; std::shared_ptr<iDynTree::optimalcontrol::integrators::Integrator> integrator;
    iDynTree::VectorDynSize x0; bool x0Set = false; TV xg, ug; int guesses = 0, solves = 0; int costReg = -1, conReg = -1; double costRegValue = 0, conRegValue = 0; };
// the last problem and solver constructed; what the solver answers
struct World { Problem* problem = nullptr; Shooting* shooting = nullptr; int problems = 0; std::vector<double> xt, ut; std::vector<iDynTree::VectorDynSize> xs, us; bool solved = true; int fail = -1, calls = 0; bool ok() { return calls++ != fail; } };
World& world();
}
