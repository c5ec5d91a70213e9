#pragma once
#include <iostream>
#include <string>
#include <vector>
#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
namespace aslam { namespace backend {
class LinearSystemSolver {
 public:
  LinearSystemSolver() : _useDiagonalConditioner(false), _JRows(0), _JCols(0) {}
  virtual ~LinearSystemSolver() {}
  double evaluateError(size_t, bool useM) {
    double J = 0;
    for (auto e : _errorTerms) {
      e->evaluateError();
      J += useM ? e->getWeightedSquaredError() : e->getSquaredError();
      _e.segment(e->rowBase(), e->dimension()) = -e->getWeightedError(useM);
    }
    return J;
  }
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& ets, bool useDiag) {
    _useDiagonalConditioner = useDiag; _errorTerms = ets; _JRows = 0; _JCols = 0;
    for (auto e : ets) _JRows += e->dimension();
    for (auto d : dvs) _JCols += d->minimalDimensions();
    _e = Eigen::VectorXd::Zero(_JRows);
    initMatrixStructureImplementation(dvs, ets, useDiag);
  }
  virtual void buildSystem(size_t nThreads, bool useM) = 0;
  virtual bool solveSystem(Eigen::VectorXd& dx) = 0;
  virtual double rhsJtJrhs() = 0;
  virtual std::string name() const = 0;
  const Eigen::VectorXd& e() const { return _e; }
  size_t JRows() const { return _JRows; }
  size_t JCols() const { return _JCols; }
 protected:
  virtual void initMatrixStructureImplementation(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& ets, bool useDiag) = 0;
  std::vector<ErrorTerm*> _errorTerms;
  Eigen::VectorXd _e;
  bool _useDiagonalConditioner;
  size_t _JRows, _JCols;
};
} }
