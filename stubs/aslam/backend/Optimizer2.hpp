#pragma once
#include <cmath>
#include <stdexcept>
#include <boost/pointer_cast.hpp>
#include <sm/PropertyTree.hpp>
#include <aslam/backend/OptimizationProblemBase.hpp>
#include <aslam/backend/Optimizer2Options.hpp>
#include <aslam/backend/SolutionReturnValue.hpp>
#include <aslam/backend/GaussNewtonTrustRegionPolicy.hpp>
namespace aslam { namespace backend {
class Optimizer2 {
 public:
  typedef Optimizer2Options Options;
  Optimizer2(const Optimizer2Options& o = Optimizer2Options()) : _options(o) { initializeLinearSolver(); initializeTrustRegionPolicy(); }
  Optimizer2(const sm::PropertyTree& c, boost::shared_ptr<LinearSystemSolver> s, boost::shared_ptr<TrustRegionPolicy> p) {
    Optimizer2Options o;
    o.convergenceDeltaJ = c.getDouble("convergenceDeltaJ", o.convergenceDeltaJ);
    o.convergenceDeltaX = c.getDouble("convergenceDeltaX", o.convergenceDeltaX);
    o.maxIterations = c.getInt("maxIterations", o.maxIterations);
    o.doSchurComplement = c.getBool("doSchurComplement", o.doSchurComplement);
    o.verbose = c.getBool("verbose", o.verbose);
    o.numThreadsError = c.getInt("numThreadsError", (int)o.numThreadsError);
    o.numThreadsJacobian = c.getInt("numThreadsJacobian", (int)o.numThreadsJacobian);
    o.linearSystemSolver = s; o.trustRegionPolicy = p;
    _options = o; initializeLinearSolver(); initializeTrustRegionPolicy();
  }
  virtual ~Optimizer2() {}
  void setProblem(boost::shared_ptr<OptimizationProblemBase> p) { _problem = p; }
  Optimizer2Options& options() { return _options; }
  const Optimizer2Options& options() const { return _options; }
  void initializeLinearSolver() { _solver = _options.linearSystemSolver; }
  void initializeTrustRegionPolicy() { _policy = _options.trustRegionPolicy; }
  template <typename T> T* getSolver() { return dynamic_cast<T*>(_solver.get()); }
  template <typename T> const T* getSolver() const { return dynamic_cast<const T*>(_solver.get()); }
  boost::shared_ptr<LinearSystemSolver> getBaseSolver() { return _solver; }
  void initialize() {
    if (!_problem) throw std::runtime_error("The problem pointer is null");
    if (!_solver || !_policy) throw std::runtime_error("No solver or policy");
    _dvs.clear(); _ets.clear();
    int col = 0;
    for (size_t i = 0; i < _problem->numDesignVariables(); ++i) {
      DesignVariable* dv = _problem->designVariable(i);
      if (dv->isActive()) { dv->setBlockIndex((int)_dvs.size()); dv->setColumnBase(col); col += dv->minimalDimensions(); _dvs.push_back(dv); }
    }
    if (_dvs.empty()) throw std::runtime_error("There must be at least one active design variable.");
    size_t row = 0;
    for (size_t i = 0; i < _problem->numErrorTerms(); ++i) {
      ErrorTerm* et = _problem->errorTerm(i);
      et->setRowBase(row); row += et->dimension(); _ets.push_back(et);
    }
    if (_ets.empty()) throw std::runtime_error("There must be at least one error term.");
    _policy->setSolver(_solver);
    _solver->initMatrixStructure(_dvs, _ets, _policy->requiresAugmentedDiagonal());
  }
  SolutionReturnValue optimize() {
    initialize();
    SolutionReturnValue srv;
    double J = _solver->evaluateError(_options.numThreadsError, true), pJ = J;
    srv.JStart = pJ;
    double deltaX = _options.convergenceDeltaX + 1.0, deltaJ = _options.convergenceDeltaJ + 1.0;
    bool prevFailed = false, linFail = false;
    _policy->optimizationStarting(J);
    while (srv.iterations < _options.maxIterations && srv.failedIterations < _options.maxIterations &&
           std::fabs(deltaX) > _options.convergenceDeltaX && std::fabs(deltaJ) > _options.convergenceDeltaJ && !linFail) {
      Eigen::VectorXd dx;
      if (!_policy->solveSystem(J, prevFailed, (int)_options.numThreadsJacobian, dx)) { linFail = true; break; }
      deltaX = 0;
      for (auto dv : _dvs) {
        const int n = dv->minimalDimensions();
        Eigen::VectorXd d = dx.segment(dv->columnBase(), n) * dv->scaling();
        dv->update(d.data(), n);
        for (int k = 0; k < n; ++k) deltaX = std::max(deltaX, std::fabs(d[k]));
      }
      J = _solver->evaluateError(_options.numThreadsError, true);
      deltaJ = pJ - J;
      if (_policy->revertOnFailure() && deltaJ < 0) {
        for (auto dv : _dvs) dv->revertUpdate();
        srv.failedIterations++; prevFailed = true;
      } else { pJ = J; prevFailed = false; }
      srv.iterations++;
    }
    srv.JFinal = pJ; srv.dXFinal = deltaX; srv.dJFinal = deltaJ; srv.linearSolverFailure = linFail;
    return srv;
  }
 private:
  Optimizer2Options _options;
  boost::shared_ptr<OptimizationProblemBase> _problem;
  boost::shared_ptr<LinearSystemSolver> _solver;
  boost::shared_ptr<TrustRegionPolicy> _policy;
  std::vector<DesignVariable*> _dvs;
  std::vector<ErrorTerm*> _ets;
};
} }
